// Binned data (bins of data arrays) in arbitrary memory layouts together with their contents.
#pragma once
#include "gen_bins.h"
#include "gen_data.h"

#include "scipp/dataset/bins.h"

namespace gv {
struct Column {
  DType type = dtype<double>;
  Unit unit = units::one;
  bool has_var = false;
};
inline bool operator==(const Column &a, const Column &b) {
  return a.type == b.type && a.unit == b.unit && a.has_var == b.has_var;
}
/// One event: weight and what the table has for it.
struct Row {
  double w = 1, v = 0;
  std::map<std::string, double> coords, attrs;
  std::map<std::string, bool> masks;
  bool masked() const {
    return std::any_of(masks.begin(), masks.end(), [](const auto &m) { return m.second; });
  }
};
inline bool same_values(const std::map<std::string, double> &a, const std::map<std::string, double> &b) {
  return a.size() == b.size() && std::all_of(a.begin(), a.end(), [&](const auto &x) {
           return b.count(x.first) == 1 && same(x.second, b.at(x.first));
         });
}
inline bool operator==(const Row &a, const Row &b) {
  return same(a.w, b.w) && same(a.v, b.v) && same_values(a.coords, b.coords) && same_values(a.attrs, b.attrs) &&
         a.masks == b.masks;
}
struct Events {
  Shape shape;
  Column weight;
  std::map<std::string, Column> coords, attrs;
  std::set<std::string> masks;
  std::vector<std::vector<Row>> bins;
  std::vector<idx> sizes() const {
    std::vector<idx> out;
    for (const auto &b : bins)
      out.push_back(idx(b.size()));
    return out;
  }
};
inline std::string show(const Row &r) {
  auto s = cat(r.w);
  if (r.v != 0)
    s += cat("+-", r.v);
  for (const auto &[k, x] : r.coords)
    s += cat(" ", k, "=", x);
  for (const auto &[k, x] : r.attrs)
    s += cat(" @", k, "=", x);
  for (const auto &[k, x] : r.masks)
    if (x)
      s += cat(" ", k);
  return "(" + s + ")";
}
inline std::string show(const std::vector<Row> &rows) {
  std::string s = "{";
  for (const auto &r : rows)
    s += show(r);
  return s + "}";
}
inline std::string show(const Events &e) {
  auto s = cat(show(e.shape), " events ", to_string(e.weight.type), " [", e.weight.unit.name(), "]");
  for (const auto &[k, c] : e.coords)
    s += cat(" ", k, ":", to_string(c.type), "[", c.unit.name(), "]");
  for (const auto &m : e.masks)
    s += " mask " + m;
  for (const auto &b : e.bins)
    s += " " + show(b);
  return s;
}

struct EventOptions {
  int maxlen = 3;
  double var = 0.25;
  bool special = true; // NaN as coordinate
  std::vector<std::string> coords{"x", "y", "lab"};
  double masks = 0.4, attrs = 0.2;
};
inline Row gen_row(Gen &g, const Events &e, const bool special) {
  Row r;
  r.w = gen_value(g, e.weight.type);
  if (e.weight.has_var)
    r.v = double(g.integer(0, 12)) / 4;
  for (const auto &[k, c] : e.coords)
    r.coords[k] = c.type == dtype<double> || c.type == dtype<float>
                      ? (special && g.boolean(0.05) ? g.one_of<double>({NAN, HUGE_VAL, -HUGE_VAL})
                                                    : double(g.integer(-4, 16)) / (g.boolean(0.3) ? 2 : 1))
                      : double(g.integer(-4, 16));
  for (const auto &[k, c] : e.attrs)
    r.attrs[k] = double(g.integer(0, 9));
  for (const auto &m : e.masks)
    r.masks[m] = g.boolean(0.3);
  return r;
}
inline Events gen_events(Gen &g, const Shape &shape, const EventOptions &o = {}) {
  Events e;
  e.shape = shape;
  e.weight.type = g.boolean(0.6) ? dtype<double> : g.one_of<DType>({dtype<float>, dtype<int64_t>, dtype<int32_t>});
  e.weight.unit = g.one_of<Unit>({units::counts, units::one});
  e.weight.has_var = (e.weight.type == dtype<double> || e.weight.type == dtype<float>)&&g.boolean(o.var);
  for (const auto &k : o.coords)
    if (k == o.coords.front() || g.boolean(0.6))
      e.coords[k] = {g.boolean(0.6) ? dtype<double> : g.one_of<DType>({dtype<float>, dtype<int64_t>, dtype<int32_t>}),
                     g.boolean(0.8) ? units::m : units::one, false};
  if (g.boolean(o.attrs))
    e.attrs["at"] = {dtype<double>, units::s, false};
  if (g.boolean(o.masks))
    e.masks.insert("em");
  if (g.boolean(o.masks / 2))
    e.masks.insert("en");
  e.bins.resize(size_t(volume(shape)));
  for (auto &b : e.bins)
    for (auto n = g.boolean(0.2) ? 0 : g.length(0, o.maxlen); n > 0; --n)
      b.push_back(gen_row(g, e, o.special));
  return e;
}

/// Table (1-D data array) of the rows; columns are slices of longer variables if `padded`.
inline DataArray make_table(Gen &g, const Events &e, const std::vector<Row> &rows, const Dim dim,
                            const bool padded = true) {
  const auto column = [&](const Column &col, auto &&value) {
    Content c;
    c.type = col.type;
    c.unit = col.type == dtype<bool> ? units::none : col.unit;
    c.has_var = col.has_var;
    const idx before = padded && g.boolean(0.2) ? 1 : 0, after = padded && g.boolean(0.2) ? 1 : 0;
    c.shape = {{dim, idx(rows.size()) + before + after}};
    for (idx i = 0; i < c.shape[0].second; ++i) {
      const bool in = i >= before && i - before < idx(rows.size());
      const auto [x, v] = in ? value(rows[size_t(i - before)]) : std::pair<double, double>{1, 1};
      c.val.push_back(x);
      if (c.has_var)
        c.var.push_back(v);
    }
    auto var = make_plain(c);
    if (before + after > 0)
      var = var.slice({dim, before, before + idx(rows.size())});
    return var;
  };
  scipp::core::Dict<Dim, Variable> coords, attrs;
  scipp::core::Dict<std::string, Variable> masks;
  for (const auto &[k, c] : e.coords)
    coords.insert_or_assign(
        Dim(k), column(c, [&k = k](const Row &r) { return std::pair<double, double>{r.coords.at(k), 0}; }));
  for (const auto &[k, c] : e.attrs)
    attrs.insert_or_assign(Dim(k),
                           column(c, [&k = k](const Row &r) { return std::pair<double, double>{r.attrs.at(k), 0}; }));
  for (const auto &m : e.masks)
    masks.insert_or_assign(m, column({dtype<bool>, units::none, false}, [&m = m](const Row &r) {
                             return std::pair<double, double>{r.masks.at(m), 0};
                           }));
  return DataArray(column(e.weight, [](const Row &r) { return std::pair<double, double>{r.w, r.v}; }),
                   std::move(coords), std::move(masks), std::move(attrs));
}
inline Variable make_events(Gen &g, const Events &e, const Dim dim = Dim("event"), const bool padded = true) {
  const auto p = gen_placement(g, e.shape, e.sizes(), padded);
  Row other; // between bins
  other.w = 77;
  other.v = 7;
  for (const auto &[k, c] : e.coords)
    other.coords[k] = 1;
  for (const auto &[k, c] : e.attrs)
    other.attrs[k] = 1;
  for (const auto &m : e.masks)
    other.masks[m] = false;
  std::vector<Row> rows(size_t(p.total), other);
  for (size_t i = 0; i < p.base.size(); ++i)
    if (p.base_id[i] >= 0)
      for (size_t k = 0; k < e.bins[size_t(p.base_id[i])].size(); ++k)
        rows[size_t(p.base[i].first) + k] = e.bins[size_t(p.base_id[i])][k];
  return p.view(scipp::dataset::make_bins(indices_of(p), dim, make_table(g, e, rows, dim, padded)));
}
inline std::vector<Row> read_table(const DataArray &da) {
  const auto n = da.dims().volume();
  std::vector<Row> rows(static_cast<size_t>(n));
  const auto d = read(da.data());
  for (size_t i = 0; i < rows.size(); ++i) {
    rows[i].w = d.val[i];
    rows[i].v = d.has_var ? d.var[i] : 0;
  }
  for (const auto &[k, v] : da.coords()) {
    const auto c = read(v);
    for (size_t i = 0; i < rows.size(); ++i)
      rows[i].coords[k.name()] = c.shape.empty() ? c.val[0] : c.val[i];
  }
  for (const auto &[k, v] : da.attrs()) {
    const auto c = read(v);
    for (size_t i = 0; i < rows.size(); ++i)
      rows[i].attrs[k.name()] = c.shape.empty() ? c.val[0] : c.val[i];
  }
  for (const auto &[k, v] : da.masks()) {
    const auto c = read(v);
    for (size_t i = 0; i < rows.size(); ++i)
      rows[i].masks[k] = (c.shape.empty() ? c.val[0] : c.val[i]) != 0;
  }
  return rows;
}
inline Column column_of(const Variable &v) { return {v.dtype(), v.unit(), v.has_variances()}; }
inline Events read_events(const Variable &v) {
  Events e;
  e.shape = shape_of(v.dims());
  const auto &buffer = v.bin_buffer<DataArray>();
  e.weight = column_of(buffer.data());
  for (const auto &[k, c] : buffer.coords())
    e.coords[k.name()] = column_of(c);
  for (const auto &[k, c] : buffer.attrs())
    e.attrs[k.name()] = column_of(c);
  for (const auto &[k, c] : buffer.masks())
    e.masks.insert(k);
  for (const auto &x : v.values<bucket<DataArray>>())
    e.bins.push_back(read_table(x));
  return e;
}
inline bool is_real(const DType t) { return t == dtype<double> || t == dtype<float>; }
inline Content ascending(Gen &g, const Shape &shape, const Dim dim, const DType type, const Unit &unit, const bool strict,
                  const double lo, const double max_step = 6) {
  Content c;
  c.shape = shape;
  c.type = type;
  c.unit = unit;
  c.val.assign(size_t(volume(shape)), 0);
  Shape outer = shape;
  const auto k = size_t(find(shape, dim));
  outer.erase(outer.begin() + long(k));
  for_each(outer, [&](std::vector<idx> at) {
    double x = lo + double(g.integer(0, 4));
    const bool linspace = g.boolean(0.4);
    const auto step = double(g.integer(1, idx(max_step)));
    at.insert(at.begin() + long(k), 0);
    for (idx i = 0; i < shape[k].second; ++i) {
      at[k] = i;
      c.val[size_t(position(shape, shape, at))] = x;
      x += linspace ? step : !strict && g.boolean(0.1) ? 0 : double(g.integer(1, idx(max_step))) / (is_real(type) && g.boolean(0.3) ? 2 : 1);
    }
  });
  return c;
}
} // namespace gv
