// stands for the library of elementary functions that is used where the standard ones are no constant expressions;
// it is not in the repository
#pragma once
#include <algorithm>
#include <cmath>
namespace gcem {
using ::std::abs;
using ::std::acos;
using ::std::acosh;
using ::std::asin;
using ::std::asinh;
using ::std::atan;
using ::std::atan2;
using ::std::atanh;
using ::std::ceil;
using ::std::copysign;
using ::std::cos;
using ::std::cosh;
using ::std::erf;
using ::std::exp;
using ::std::expm1;
using ::std::floor;
using ::std::fmod;
using ::std::lgamma;
using ::std::log;
using ::std::log10;
using ::std::log1p;
using ::std::log2;
using ::std::max;
using ::std::min;
using ::std::pow;
using ::std::round;
using ::std::signbit;
using ::std::sin;
using ::std::sinh;
using ::std::sqrt;
using ::std::tan;
using ::std::tanh;
using ::std::tgamma;
using ::std::trunc;
template <typename T> constexpr T lmgamma(T a, int p) { return p == 1 ? std::lgamma(a) : T(0); }
}
