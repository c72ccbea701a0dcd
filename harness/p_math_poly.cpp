#include "poly.hpp"
