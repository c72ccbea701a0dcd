#include "robust.hpp"
