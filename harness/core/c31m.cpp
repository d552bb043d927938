// C31: random programs whose allocations fail now and then
#define VF_ALLOC
#include "c31.cpp"
