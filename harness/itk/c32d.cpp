// C32: the harness of C14 for a test on top of itk::Regression
#include "c32.h"
#include "../core/c14.cpp"
