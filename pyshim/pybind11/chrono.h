// Stand-in for pybind11 (not installed), see pybind11.h.
#ifndef PYSHIM_CHRONO_H
#define PYSHIM_CHRONO_H
#include <pybind11/pybind11.h>
#endif
