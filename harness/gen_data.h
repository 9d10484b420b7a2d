// Data arrays in arbitrary memory layouts together with their contents.
#pragma once
#include "gen_var.h"

#include "scipp/dataset/dataset.h"
#include "scipp/dataset/except.h"

namespace gv {
using scipp::DataArray;
using scipp::Dataset;
using scipp::dataset::Coords;
using scipp::dataset::Masks;

struct Meta {
  Content c;
  bool aligned = true;
};
using Items = std::map<std::string, Meta>;
/// Contents of a data array.
struct Array {
  std::string name;
  Content data;
  Items coords, masks, attrs;
};

inline bool operator==(const Meta &a, const Meta &b) { return a.c == b.c && a.aligned == b.aligned; }

inline std::string show(const Items &items) {
  std::string s;
  for (const auto &[k, v] : items)
    s += cat("\n    ", k, v.aligned ? " " : " (unaligned) ", show(v.c));
  return s;
}
inline std::string show(const Array &a) {
  return cat("'", a.name, "' ", show(a.data), "\n  coords", show(a.coords), "\n  masks", show(a.masks),
             "\n  attrs", show(a.attrs));
}
template <class D> Items read_items(const D &dict) {
  Items out;
  for (const auto &[k, v] : dict) {
    std::string key;
    if constexpr (std::is_same_v<typename D::key_type, Dim>)
      key = k.name();
    else
      key = k;
    out[key] = {read(v), v.is_aligned()};
  }
  return out;
}
inline Array read(const DataArray &a) {
  return {a.name(), read(a.data()), read_items(a.coords()), read_items(a.masks()), read_items(a.attrs())};
}
inline void expect_items(const std::string &sig, const Items &a, const Items &b, const std::string &what,
                         const bool alignment = true) {
  for (const auto &[k, v] : b) {
    const auto it = a.find(k);
    PBT_CHECK(sig, it != a.end(), what, ": no item ", k);
    PBT_CHECK(sig, it->second.c == v.c, what, ": item ", k, " is ", show(it->second.c), " expected ", show(v.c));
    if (alignment)
      PBT_CHECK(sig + " alignment", it->second.aligned == v.aligned, what, ": item ", k, " aligned ",
                it->second.aligned);
  }
  for (const auto &[k, v] : a)
    PBT_CHECK(sig, b.count(k) == 1, what, ": unexpected item ", k, " ", show(v.c));
}
inline void expect_content(const std::string &sig, const Content &a, const Content &b, const std::string &what,
                           const double tolerance = 0) {
  PBT_CHECK(sig + " shape", a.shape == b.shape, what, ": ", show(a), " expected ", show(b));
  PBT_CHECK(sig + " unit", a.unit == b.unit, what, ": ", show(a), " expected ", show(b));
  PBT_CHECK(sig + " type", a.type == b.type, what, ": ", show(a), " expected ", show(b));
  PBT_CHECK(sig + " variances", a.has_var == b.has_var, what, ": ", show(a), " expected ", show(b));
  for (size_t i = 0; i < a.val.size(); ++i)
    PBT_CHECK(sig, close(a.val[i], b.val[i], tolerance, tolerance), what, ": ", show(a), " expected ", show(b));
  for (size_t i = 0; i < a.var.size(); ++i)
    PBT_CHECK(sig, close(a.var[i], b.var[i], tolerance, tolerance), what, ": ", show(a), " expected ", show(b));
}
inline void expect_array(const std::string &sig, const Array &a, const Array &b, const std::string &what,
                         const double tolerance = 0) {
  PBT_EQ(sig + " name", a.name, b.name, what);
  expect_content(sig + " data", a.data, b.data, what, tolerance);
  expect_items(sig + " coords", a.coords, b.coords, what);
  expect_items(sig + " masks", a.masks, b.masks, what);
  expect_items(sig + " attrs", a.attrs, b.attrs, what);
}

struct ArrayOptions {
  double edges = 0.25;     // probability of bin edges
  double unaligned = 0.15; // probability of an unaligned coord
  double nan = 0.1;        // probability that a coord has NaN
  int coords = 4, masks = 2, attrs = 2;
  bool edge_masks = false;
  bool extra_dim = true; // edges along a dimension the data does not have
};
inline Meta gen_item(Gen &g, const Shape &sizes, const bool mask, const ArrayOptions &o,
                     const std::optional<Dim> dim = {}) {
  Meta m;
  for (const auto &x : g.permutation(sizes))
    if (dim ? x.first == *dim || g.boolean(0.2) : g.boolean(0.5))
      m.c.shape.push_back(x);
  if ((!mask || o.edge_masks) && g.boolean(o.edges)) {
    if (!m.c.shape.empty() && g.boolean(0.9)) {
      size_t i = g.draw(m.c.shape.size() - 1);
      if (dim)
        for (size_t k = 0; k < m.c.shape.size(); ++k)
          if (m.c.shape[k].first == *dim)
            i = k;
      m.c.shape[i].second += 1;
    } else if (o.extra_dim) {
      m.c.shape.insert(m.c.shape.begin() + long(g.draw(m.c.shape.size())), {Dim("cut"), 2});
    }
  }
  if (mask) {
    m.c.type = dtype<bool>;
  } else {
    m.c.type = g.boolean(0.7) ? dtype<double> : g.one_of<DType>({dtype<int64_t>, dtype<float>});
    m.c.unit = g.one_of<Unit>({units::m, units::one, units::s});
    m.c.has_var = m.c.type == dtype<double> && g.boolean(0.1);
    m.aligned = !g.boolean(o.unaligned);
  }
  gen_elements(g, m.c, !mask && g.boolean(o.nan));
  return m;
}
inline std::string show_labels(const Shape &s) { return show(s); }
/// Data array with given data.
inline Array gen_array(Gen &g, const Content &data, const ArrayOptions &o = {}) {
  Array a;
  a.name = g.one_of<std::string>({"", "a", "b"});
  a.data = data;
  for (const auto &[d, n] : data.shape)
    if (g.boolean(0.6))
      a.coords[d.name()] = gen_item(g, data.shape, false, o, d);
  for (auto n = g.length(0, o.coords); n > 0; --n)
    a.coords[g.one_of<std::string>({"lab", "lab2", "lab3"})] = gen_item(g, data.shape, false, o);
  for (auto n = g.length(0, o.masks); n > 0; --n)
    a.masks[g.one_of<std::string>({"m", "n"})] = gen_item(g, data.shape, true, o);
  for (auto n = g.length(0, o.attrs); n > 0; --n)
    a.attrs[g.one_of<std::string>({"at", "at2"})] = gen_item(g, data.shape, false, o);
  for (auto &[k, v] : a.attrs)
    v.aligned = true;
  return a;
}
/// Make the data array; contents may change if a memory layout repeats elements.
inline Variable make_item(Gen &g, Meta &m, const bool views = true) {
  auto v = make_view(g, m.c, {.broadcast = views});
  v.set_aligned(m.aligned);
  return v;
}
inline DataArray make(Gen &g, Array &a, const bool broadcast_data = true, const bool views = true) {
  scipp::core::Dict<Dim, Variable> coords, attrs;
  scipp::core::Dict<std::string, Variable> masks;
  for (auto &[k, v] : a.coords)
    coords.insert_or_assign(Dim(k), make_item(g, v, views));
  for (auto &[k, v] : a.masks)
    masks.insert_or_assign(k, make_item(g, v, views));
  for (auto &[k, v] : a.attrs)
    attrs.insert_or_assign(Dim(k), make_item(g, v, views));
  return DataArray(make_view(g, a.data, {.broadcast = broadcast_data}), std::move(coords), std::move(masks),
                   std::move(attrs), a.name);
}
/// Element of `c` at the index `at` of `outer`, which has all its dimensions.
inline double at(const Content &c, const Shape &outer, const std::vector<idx> &i) {
  return c.val[size_t(position(c.shape, outer, i))];
}
inline double var_at(const Content &c, const Shape &outer, const std::vector<idx> &i) {
  return c.var[size_t(position(c.shape, outer, i))];
}
} // namespace gv
