// Lets the repository's module/main.cpp compile with the pybind11 release
// installed in the sandbox, which lacks py::mod_gil_not_used.
#pragma once
#include "prelude.hpp"
#include <pybind11/pybind11.h>
#include <map>
namespace pybind11 {
struct mod_gil_not_used {
  explicit mod_gil_not_used(bool = true) {}
};
}  // namespace pybind11
#undef PYBIND11_MODULE
#define PYBIND11_MODULE(name, variable, ...)                                   \
  static ::pybind11::module_::module_def PYBIND11_CONCAT(                      \
      pybind11_module_def_, name) PYBIND11_MAYBE_UNUSED;                       \
  PYBIND11_MAYBE_UNUSED                                                        \
  static void PYBIND11_CONCAT(pybind11_init_, name)(::pybind11::module_ &);    \
  PYBIND11_PLUGIN_IMPL(name) {                                                 \
    PYBIND11_CHECK_PYTHON_VERSION                                              \
    PYBIND11_ENSURE_INTERNALS_READY                                            \
    auto m = ::pybind11::module_::create_extension_module(                     \
        PYBIND11_TOSTRING(name), nullptr,                                      \
        &PYBIND11_CONCAT(pybind11_module_def_, name));                         \
    try {                                                                      \
      PYBIND11_CONCAT(pybind11_init_, name)(m);                                \
      return m.ptr();                                                          \
    }                                                                          \
    PYBIND11_CATCH_INIT_EXCEPTIONS                                             \
  }                                                                            \
  void PYBIND11_CONCAT(pybind11_init_, name)(::pybind11::module_ & (variable))
