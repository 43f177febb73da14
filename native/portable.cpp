// The geohash codec as it is built for processors other than x86-64.  System
// headers come first, as they must see the real processor.
#include <pybind11/eigen.h>
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <Eigen/Core>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <optional>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

#include "pyinterp/geodetic/box.hpp"
#include "pyinterp/geodetic/point.hpp"
#include "pyinterp/geodetic/polygon.hpp"
#include "pyinterp/geohash/int64.hpp"

#undef __x86_64__
#undef __BMI2__
#undef _WIN32
#include "lib/geohash/int64.cpp"
#include "module/geohash/int64.cpp"

PYBIND11_MODULE(portable, m) { init_geohash_int64(m); }
