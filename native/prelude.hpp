// Force-included before every translation unit of the instrumented build of
// the Python extension.  Eigen's own assertions (out-of-range accesses,
// mismatched shapes) become C++ exceptions, so that memory-unsafe accesses of
// the code under test surface in Python instead of corrupting the process.
#pragma once
#ifdef __cplusplus
#include <stdexcept>
#define eigen_assert(x)                                           \
  do {                                                            \
    if (!(x)) {                                                   \
      throw std::runtime_error("EIGEN-ASSERT: " #x);              \
    }                                                             \
  } while (false)
#endif
