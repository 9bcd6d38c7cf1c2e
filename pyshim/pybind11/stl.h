// Stand-in for pybind11 (not installed), see pybind11.h.
#ifndef PYSHIM_STL_H
#define PYSHIM_STL_H
#include <pybind11/pybind11.h>
#endif
