// BinnedArray data arrays whose bin edges hold for their events.
#pragma once
#include "gen_events.h"

namespace gv {
inline bool less(const Row &a, const Row &b) {
  const auto num = [](const double x) { return std::isnan(x) ? 1e300 : x; };
  if (num(a.w) != num(b.w))
    return num(a.w) < num(b.w);
  if (num(a.v) != num(b.v))
    return num(a.v) < num(b.v);
  for (auto p = a.coords.begin(), q = b.coords.begin(); p != a.coords.end() && q != b.coords.end(); ++p, ++q)
    if (num(p->second) != num(q->second))
      return num(p->second) < num(q->second);
  for (auto p = a.attrs.begin(), q = b.attrs.begin(); p != a.attrs.end() && q != b.attrs.end(); ++p, ++q)
    if (p->second != q->second)
      return p->second < q->second;
  return a.masks < b.masks;
}
/// Same rows in any order.
inline bool same_rows(std::vector<Row> a, std::vector<Row> b) {
  std::sort(a.begin(), a.end(), less);
  std::sort(b.begin(), b.end(), less);
  return a == b;
}
/// BinnedArray data whose bin edges hold for the events.
struct BinnedArray {
  Events e;
  Array meta; // coords, masks, attrs of the bins; data: no meaning
};
inline BinnedArray gen_binned(Gen &g, const std::vector<std::string> &keys) {
  BinnedArray b;
  auto shape = gen_shape(g, 2, 4);
  for (auto &[d, n] : shape) // dimensions with coordinates
    if (g.boolean(0.7)) {
      const Dim to(g.pick(keys));
      if (find(shape, to) < 0)
        d = to;
    }
  EventOptions o;
  o.coords = keys;
  b.e = gen_events(g, shape, o);
  if (g.boolean(0.3))
    b.e.coords.erase(b.e.coords.begin()->first);
  for (auto &rows : b.e.bins)
    for (auto &r : rows)
      for (auto it = r.coords.begin(); it != r.coords.end();)
        it = b.e.coords.count(it->first) ? std::next(it) : r.coords.erase(it);
  b.meta.name = g.one_of<std::string>({"", "a"});
  b.meta.data.shape = shape;
  ArrayOptions o2;
  o2.edges = 0;
  o2.extra_dim = false;
  Content data;
  data.shape = shape;
  data.type = dtype<double>;
  gen_elements(g, data);
  b.meta = gen_array(g, data, o2);
  for (const auto &k : keys)
    b.meta.coords.erase(k);
  for (auto items : {&b.meta.coords, &b.meta.attrs})
    for (auto &[k, v] : *items)
      if (find(shape, Dim(k)) >= 0) { // compared with min and max
        v.c.has_var = false;
        v.c.var.clear();
        for (auto &x : v.c.val)
          if (!std::isfinite(x)) // min and max start from the largest finite numbers
            x = 1;
      }
  for (const auto &[d, n] : shape) {
    const auto name = d.name();
    if (std::find(keys.begin(), keys.end(), name) == keys.end() || g.boolean(0.15))
      continue;
    const bool has_events = b.e.coords.count(name) == 1;
    const Column col = has_events ? b.e.coords.at(name)
                                  : Column{g.boolean(0.5) ? dtype<double> : dtype<int64_t>, units::m, false};
    Meta m;
    Shape s{{d, n + 1}};
    const bool edges = g.boolean(0.7);
    if (!edges)
      s[0].second = n;
    if (shape.size() > 1 && g.boolean(0.15)) {
      const auto other = g.pick(shape);
      if (other.first != d)
        s.insert(s.begin() + long(g.draw(1)), other);
    }
    m.c = ascending(g, s, d, col.type, col.unit, true, double(g.integer(-6, 2)), 5);
    if (edges && is_real(m.c.type) == false)
      for (auto &x : m.c.val)
        x = std::floor(x);
    if (g.boolean(0.1)) // no order
      for (auto &x : m.c.val)
        x = -x;
    m.aligned = g.boolean(0.9);
    if (has_events && g.boolean(0.05)) // does not tell where events are
      m.c.unit = Unit("mm");
    b.meta.coords[name] = m;
    if (!has_events)
      continue;
    size_t i = 0;
    for_each(shape, [&](const std::vector<idx> &at) {
      auto hi = at;
      auto &rows = b.e.bins[i++];
      if (!edges) {
        // Events of the point, or anywhere.
        for (auto &r : rows)
          if (g.boolean(0.5))
            r.coords[name] = gv::at(m.c, shape, at);
        return;
      }
      auto big = shape;
      const auto k = size_t(find(shape, d));
      big[k].second += 1;
      ++hi[k];
      double a = m.c.val[size_t(position(m.c.shape, big, at))], z = m.c.val[size_t(position(m.c.shape, big, hi))];
      if (a > z)
        std::swap(a, z);
      for (auto &r : rows) {
        if (is_real(col.type))
          r.coords[name] = a + (z - a) * double(g.integer(0, 3)) / 4;
        else
          r.coords[name] = double(g.integer(idx(a), idx(z) - 1));
      }
    });
  }
  return b;
}
inline DataArray make_binned(Gen &g, BinnedArray &b) {
  scipp::core::Dict<Dim, Variable> coords, attrs;
  scipp::core::Dict<std::string, Variable> masks;
  for (auto &[k, v] : b.meta.coords)
    coords.insert_or_assign(Dim(k), make_item(g, v, false));
  for (auto &[k, v] : b.meta.masks)
    masks.insert_or_assign(k, make_item(g, v));
  for (auto &[k, v] : b.meta.attrs)
    attrs.insert_or_assign(Dim(k), make_item(g, v));
  return DataArray(make_events(g, b.e), std::move(coords), std::move(masks), std::move(attrs), b.meta.name);
}
inline std::string show(const BinnedArray &b) {
  return cat(gv::show(b.e), "\n  coords", gv::show(b.meta.coords), "\n  masks", gv::show(b.meta.masks));
}
inline bool depends(const Content &c, const std::set<Dim> &dims) {
  return std::any_of(c.shape.begin(), c.shape.end(), [&](const auto &x) { return dims.count(x.first) == 1; });
}

} // namespace gv
