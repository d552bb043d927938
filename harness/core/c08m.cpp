// C08: reports are complete or the run fails when memory runs out
#define VF_REPORTS
#include "c05m.cpp"
