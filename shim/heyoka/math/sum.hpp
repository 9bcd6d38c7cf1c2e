// Stand-in for heyoka (not installed), see detail/shim.hpp.
#ifndef HEYOKA_SHIM_MATH_SUM_HPP
#define HEYOKA_SHIM_MATH_SUM_HPP
#include <heyoka/detail/shim.hpp>
#endif
