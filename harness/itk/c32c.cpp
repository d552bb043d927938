// C32: the harness of C08 for a test on top of itk::Regression
#include "c32.h"
#include "../core/c08.cpp"
