#define VF_LMEDS
#include "robust.hpp"
