// Stand-in for pybind11 (not installed), see pybind11.h.
#ifndef PYSHIM_OPERATORS_H
#define PYSHIM_OPERATORS_H
#include <pybind11/pybind11.h>
#endif
