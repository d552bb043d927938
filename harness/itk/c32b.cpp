// C32: the harness of C03 for a test on top of itk::Regression
#include "c32.h"
#include "../core/c03.cpp"
