// P27  every call terminates
#define VF_TERMINATE
#include "p_hostile.cpp"
