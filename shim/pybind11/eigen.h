#pragma once
#include <Eigen/Core>

#include "numpy.h"

namespace pybind11::detail {
/// Fixed-size matrices and vectors, by value.
template <class S, int R, int C, int O, int MR, int MC>
struct caster<Eigen::Matrix<S, R, C, O, MR, MC>>
    : value_caster<Eigen::Matrix<S, R, C, O, MR, MC>> {
  using M = Eigen::Matrix<S, R, C, O, MR, MC>;
  bool load(handle src, bool convert) {
    if (!convert && !array_t<S>::check_(src))
      return false;
    caster<array_t<S>> inner;
    if (!inner.load(src, true))
      return false;
    const auto a = inner.take();
    if constexpr (C == 1) {
      if (a.ndim() != 1 || a.shape(0) != R)
        return false;
      const auto r = a.template unchecked<1>();
      for (int i = 0; i < R; ++i)
        this->value(i) = r(i);
    } else {
      if (a.ndim() != 2 || a.shape(0) != R || a.shape(1) != C)
        return false;
      const auto r = a.template unchecked<2>();
      for (int i = 0; i < R; ++i)
        for (int j = 0; j < C; ++j)
          this->value(i, j) = r(i, j);
    }
    return true;
  }
  template <class U>
  static object cast(U &&v, return_value_policy policy, handle parent) {
    constexpr ssize_t s = sizeof(S);
    std::vector<ssize_t> shape{R}, strides{s};
    if (C != 1) {
      shape = {R, C};
      strides = {s, s * R};
    }
    handle base;
    if (policy == return_value_policy::reference ||
        policy == return_value_policy::reference_internal)
      base = parent ? parent : handle(Py_None);
    array a(dtype::of<S>(), shape, strides, v.data(), base);
    if (base && std::is_const_v<std::remove_reference_t<U>>)
      array_proxy(a.ptr())->flags &= ~npy_api::NPY_ARRAY_WRITEABLE_;
    return a;
  }
};
} // namespace pybind11::detail
