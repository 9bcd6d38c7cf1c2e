// Stand-in for pybind11 (not installed), see pybind11.h.
#ifndef PYSHIM_DETAIL_COMMON_H
#define PYSHIM_DETAIL_COMMON_H
#include <pybind11/pybind11.h>
#endif
