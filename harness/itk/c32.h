// C32: the tests of the core harnesses on top of itk::Regression, with image
// tolerances that change when they are constructed, when the test starts and
// between measurements
#ifndef VF_C32_H
#define VF_C32_H
#include <atomic>
#include "itktf/itktfRegression.h"
#define VF_BASE itk::Regression
#define VF_SETUP { static std::atomic<long> n(0); switch (++n % 7) { case 1: SetImageInsightTolerance(.5); break; case 2: SetImageInsightTolerance(1e9, 4000000000u, 1); break; case 3: SetImageInsightTolerance(0, 7, 0); break; case 4: SetImageInsightTolerance(.9, 1); break; case 5: SetImageInsightToleranceOff(); break; default: break; } }
#endif
