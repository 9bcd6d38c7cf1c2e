// Stand-in for heyoka (not installed), see detail/shim.hpp.
#ifndef HEYOKA_SHIM_KW_HPP
#define HEYOKA_SHIM_KW_HPP
#include <heyoka/detail/shim.hpp>
#endif
