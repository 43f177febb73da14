// Parts of the C++ library that have no Python binding of their own.
#include <pybind11/eigen.h>
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

#include "pyinterp/detail/interpolation/factory_1d.hpp"
#include "pyinterp/detail/interpolation/factory_2d.hpp"
#include "pyinterp/detail/thread.hpp"

namespace py = pybind11;
using namespace pyinterp::detail::interpolation;
using Vec = Eigen::Matrix<double, Eigen::Dynamic, 1>;
using Mat = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>;

struct Curve {
  explicit Curve(const std::string &kind) : fit(factory_1d<double>(kind)) {}
  std::unique_ptr<Interpolator1D<double>> fit;
};

struct Surface {
  explicit Surface(const std::string &kind) : fit(factory_2d<double>(kind)) {}
  std::unique_ptr<Interpolator2D<double>> fit;
};

PYBIND11_MODULE(templates, m) {
  py::class_<Curve>(m, "Curve")
      .def(py::init<std::string>())
      .def("least", [](const Curve &self) { return self.fit->min_size(); })
      .def("values",
           [](Curve &self, const Vec &xa, const Vec &ya, const Vec &x) -> Vec {
             return (*self.fit)(xa, ya, x);
           })
      .def("value", [](Curve &self, const Vec &xa, const Vec &ya,
                       double x) { return (*self.fit)(xa, ya, x); })
      .def("derivatives",
           [](Curve &self, const Vec &xa, const Vec &ya, const Vec &x) -> Vec {
             return self.fit->derivative(xa, ya, x);
           })
      .def("derivative", [](Curve &self, const Vec &xa, const Vec &ya,
                            double x) {
        return self.fit->derivative(xa, ya, x);
      });
  py::class_<Surface>(m, "Surface")
      .def(py::init<std::string>())
      .def("least", [](const Surface &self) { return self.fit->min_size(); })
      .def("values",
           [](Surface &self, const Vec &xa, const Vec &ya, const Mat &za,
              const Vec &x, const Vec &y) -> Vec {
             return (*self.fit)(xa, ya, za, x, y);
           })
      .def("value", [](Surface &self, const Vec &xa, const Vec &ya,
                       const Mat &za, double x,
                       double y) { return (*self.fit)(xa, ya, za, x, y); });
  m.def("shares", [](size_t size, size_t num_threads) {
    std::mutex mutex;
    std::vector<std::pair<size_t, size_t>> result;
    pyinterp::detail::dispatch(
        [&](size_t start, size_t stop) {
          std::lock_guard<std::mutex> lock(mutex);
          result.emplace_back(start, stop);
        },
        size, num_threads);
    std::sort(result.begin(), result.end());
    return result;
  });
}
