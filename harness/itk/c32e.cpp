// C32: the harness of C29 for a test on top of itk::Regression
#include "c32.h"
#include "../core/c29.cpp"
