// Binned variables in arbitrary memory layouts together with their contents.
#pragma once
#include "gen_var.h"

#include "scipp/core/bucket.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/util.h"

namespace gv {
using scipp::bucket;

/// Contents of a variable of bins.
struct Binned {
  Shape shape;
  Content meta; // type, unit and presence of variances of the elements
  std::vector<std::vector<double>> val, var;
  idx size(const size_t i) const { return static_cast<idx>(val.at(i).size()); }
  idx total() const {
    idx n = 0;
    for (const auto &b : val)
      n += static_cast<idx>(b.size());
    return n;
  }
};
inline bool operator==(const Binned &a, const Binned &b) {
  if (a.shape != b.shape || a.meta.type != b.meta.type || a.meta.unit != b.meta.unit ||
      a.meta.has_var != b.meta.has_var || a.val.size() != b.val.size())
    return false;
  for (size_t i = 0; i < a.val.size(); ++i)
    if (!same_elements(a.val[i], b.val[i]) || (a.meta.has_var && !same_elements(a.var[i], b.var[i])))
      return false;
  return true;
}
inline std::string show(const Binned &b) {
  std::string s = cat(show(b.shape), " bins of ", to_string(b.meta.type), " [", b.meta.unit.name(), "]");
  for (size_t i = 0; i < b.val.size(); ++i)
    s += " " + seq(b.val[i]) + (b.meta.has_var ? "var" + seq(b.var[i]) : std::string());
  return s;
}

/// One bin as content with dimension `dim`.
inline Content bin_content(const Binned &b, const size_t i, const Dim dim = Dim("event")) {
  Content c = b.meta;
  c.shape = {{dim, b.size(i)}};
  c.val = b.val[i];
  c.var = b.meta.has_var ? b.var[i] : std::vector<double>{};
  return c;
}

inline Binned read_bins(const Variable &v) {
  Binned b;
  b.shape = shape_of(v.dims());
  const auto &buffer = v.bin_buffer<Variable>();
  b.meta.type = buffer.dtype();
  b.meta.unit = buffer.unit();
  b.meta.has_var = buffer.has_variances();
  for (const auto &x : v.values<bucket<Variable>>()) {
    const auto c = read(x);
    b.val.push_back(c.val);
    b.var.push_back(c.var);
  }
  return b;
}

inline void gen_bin_sizes(Gen &g, Binned &b, const int maxlen = 3) {
  b.val.assign(static_cast<size_t>(volume(b.shape)), {});
  for (auto &x : b.val)
    x.resize(static_cast<size_t>(g.boolean(0.2) ? 0 : g.length(0, maxlen)));
}
/// Elements for bins with given sizes.
inline void gen_bin_elements(Gen &g, Binned &b, const bool special = false) {
  b.var.assign(b.val.size(), {});
  for (size_t i = 0; i < b.val.size(); ++i) {
    for (auto &x : b.val[i])
      x = gen_value(g, b.meta.type, special);
    if (b.meta.has_var)
      for (size_t k = 0; k < b.val[i].size(); ++k)
        b.var[i].push_back(static_cast<double>(g.integer(0, 12)) / 4);
  }
}

/// Where the bins of a variable are in their buffer.
struct Placement {
  std::vector<scipp::index_pair> base;               // of all bins of the base
  Shape base_shape;
  std::vector<idx> base_id;                          // bin of the view, or -1
  std::function<Variable(const Variable &)> view;    // from base to view
  idx total = 0;
  std::vector<idx> origin; // of each row of the buffer: bin of the base or -1
};
inline Placement gen_placement(Gen &g, const Shape &shape, const std::vector<idx> &sizes,
                               const bool padded = true) {
  Content ids;
  ids.shape = shape;
  ids.type = dtype<int64_t>;
  for (size_t i = 0; i < sizes.size(); ++i)
    ids.val.push_back(static_cast<double>(i));
  Placement p;
  Variable base;
  (void)make_view(g, ids, {.broadcast = false, .padded = padded}, &base, &p.view);
  const auto b = read(base);
  p.base_shape = b.shape;
  std::vector<idx> n;
  for (const auto x : b.val) {
    p.base_id.push_back(x < 0 ? -1 : static_cast<idx>(x));
    n.push_back(x < 0 ? static_cast<idx>(g.draw(2)) : sizes[static_cast<size_t>(x)]);
  }
  std::vector<size_t> order;
  for (size_t i = 0; i < n.size(); ++i)
    order.push_back(i);
  if (g.boolean(0.5))
    order = g.permutation(order);
  const bool gaps = g.boolean(0.4);
  p.base.resize(n.size());
  for (const auto i : order) {
    if (gaps)
      p.total += static_cast<idx>(g.draw(2));
    p.base[i] = {p.total, p.total + n[i]};
    p.total += n[i];
  }
  if (gaps)
    p.total += static_cast<idx>(g.draw(2));
  p.origin.assign(static_cast<size_t>(p.total), -1);
  for (size_t i = 0; i < n.size(); ++i)
    for (auto r = p.base[i].first; r < p.base[i].second; ++r)
      p.origin[static_cast<size_t>(r)] = p.base_id[i];
  return p;
}
/// Variable of index pairs.
inline Variable indices_of(const Placement &p) {
  scipp::core::element_array<scipp::index_pair> pairs(static_cast<idx>(p.base.size()));
  for (size_t i = 0; i < p.base.size(); ++i)
    pairs.data()[i] = p.base[i];
  return Variable(std::optional<Unit>(units::none), dimensions(p.base_shape), std::move(pairs),
                  std::optional<scipp::core::element_array<scipp::index_pair>>{});
}

struct BinOptions {
  bool padded = true;
};
inline Variable make_binned(Gen &g, const Binned &b, BinOptions o = {},
                            Variable *buffer_out = nullptr) {
  std::vector<idx> sizes;
  for (size_t i = 0; i < b.val.size(); ++i)
    sizes.push_back(b.size(i));
  const auto p = gen_placement(g, b.shape, sizes, o.padded);
  const Dim dim = g.boolean(0.8) ? Dim("event") : Dim("row");
  Content c = b.meta;
  c.shape = {{dim, p.total}};
  c.val.assign(static_cast<size_t>(p.total), c.type == dtype<bool> ? 1 : -7);
  c.var.assign(c.has_var ? c.val.size() : 0, 3);
  for (size_t i = 0; i < p.base.size(); ++i) {
    if (p.base_id[i] < 0)
      continue;
    const auto id = static_cast<size_t>(p.base_id[i]);
    for (size_t k = 0; k < b.val[id].size(); ++k) {
      c.val[static_cast<size_t>(p.base[i].first) + k] = b.val[id][k];
      if (c.has_var)
        c.var[static_cast<size_t>(p.base[i].first) + k] = b.var[id][k];
    }
  }
  const auto buffer = make_view(g, c, {.broadcast = false});
  if (buffer_out)
    *buffer_out = buffer;
  return p.view(scipp::variable::make_bins(indices_of(p), dim, buffer));
}
} // namespace gv
