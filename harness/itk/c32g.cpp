// C32: the harness of C06 for a test on top of itk::Regression
#include "c32.h"
#include "../core/c06.cpp"
