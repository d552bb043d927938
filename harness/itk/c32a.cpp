// C32: the harness of C01 for a test on top of itk::Regression
#include "c32.h"
#include "../core/c01.cpp"
