#define VF_RANSAC
#include "robust.hpp"
