#define VF_STURM
#include "poly.hpp"
