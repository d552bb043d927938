// C29: runs that run out of memory leave nothing behind and do not influence later ones
#define VF_LEAKS
#include "c05m.cpp"
