// Generators shared by the checks of the core layer.
#pragma once
#include "pbt.h"
#include "scipp/common/index.h"
#include "scipp/units/dim.h"

inline scipp::Dim dim_label(size_t i) {
  static const std::vector<scipp::Dim> labels{
      scipp::Dim::X,    scipp::Dim::Y,   scipp::Dim::Z,
      scipp::Dim::Time, scipp::Dim::Row, scipp::Dim::Energy,
      scipp::Dim("a"),  scipp::Dim("b"), scipp::Dim("c")};
  return labels.at(i);
}

/// Call f for every multi-index of shape, last dimension fastest.
template <class F>
void for_each_index(const std::vector<scipp::index> &shape, F &&f) {
  for (auto s : shape)
    if (s <= 0)
      return;
  std::vector<scipp::index> i(shape.size(), 0);
  for (;;) {
    f(static_cast<const std::vector<scipp::index> &>(i));
    size_t d = shape.size();
    for (;;) {
      if (d == 0)
        return;
      --d;
      if (++i[d] < shape[d])
        break;
      i[d] = 0;
    }
  }
}

struct Layout {
  std::vector<scipp::index> shape, strides;
  scipp::index offset = 0;
  scipp::index extent = 1; // number of elements of the buffer
};

/// Layout as slicing (also with steps), transposing and broadcasting make it.
inline Layout gen_layout(pbt::Gen &g, int maxdim, int maxlen,
                         bool allow_zero_size) {
  Layout l;
  const auto ndim = static_cast<size_t>(g.length(0, maxdim));
  l.shape.resize(ndim);
  l.strides.assign(ndim, 0);
  for (auto &s : l.shape)
    s = allow_zero_size && g.boolean(0.04) ? 0 : g.length(1, maxlen);
  std::vector<size_t> order(ndim);
  for (size_t d = 0; d < ndim; ++d)
    order[d] = ndim - 1 - d;
  if (g.boolean(0.6))
    order = g.permutation(order);
  const bool padded = g.boolean(0.6);
  scipp::index s = 1;
  for (const auto d : order) {
    if (g.boolean(0.12)) { // broadcast
      l.strides[d] = 0;
      continue;
    }
    scipp::index step = 1, before = 0, after = 0;
    if (padded) {
      step = g.boolean(0.2) ? 2 : 1;
      before = g.boolean(0.3) ? g.length(1, 2) : 0;
      after = g.boolean(0.3) ? g.length(1, 2) : 0;
    }
    l.strides[d] = s * step;
    l.offset += s * before;
    s *= before + after + std::max<scipp::index>(1, l.shape[d]) * step;
  }
  l.extent = std::max<scipp::index>(1, s);
  return l;
}
