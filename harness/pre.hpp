#ifdef VF_CONTAINER_ASSERTIONS
// bounds assertions of the standard containers, but not std::polar's "rho >= 0", which is
// false for the NaN that std::pow(std::complex) passes on when given NaN
#define _GLIBCXX_ASSERTIONS 1
#include <bits/c++config.h>
#pragma push_macro("__glibcxx_assert")
#undef __glibcxx_assert
#define __glibcxx_assert(cond) do {} while (false)
#include <complex>
#pragma pop_macro("__glibcxx_assert")
#endif
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <string.h>
#include <algorithm>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <complex>
#include <Eigen/Eigen>
#include <Eigen/NonLinearOptimization>
#include <Eigen/NumericalDiff>
