#pragma once
#include "pybind11.h"

namespace pybind11::typing {
#define SHIM_TYPING(Name, base)                                                \
  template <class... Ts> class Name : public base {                            \
  public:                                                                      \
    using base::base;                                                          \
    Name() = default;                                                          \
    Name(const object &o) : base(o) {}                                         \
    static bool check_(handle h) { return base::check_(h); }                   \
  };
SHIM_TYPING(Dict, dict)
SHIM_TYPING(List, list)
SHIM_TYPING(Tuple, tuple)
#undef SHIM_TYPING
template <class... Ts> class Union : public object {
public:
  using object::object;
  static bool check_(handle h) { return bool(h); }
};
} // namespace pybind11::typing
