// Stand-in for pybind11 (not installed), see pybind11.h.
#ifndef PYSHIM_NUMPY_H
#define PYSHIM_NUMPY_H
#include <pybind11/pybind11.h>
#endif
