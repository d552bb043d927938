// C32: the harness of C02 for a test on top of itk::Regression
#include "c32.h"
#include "../core/c02.cpp"
