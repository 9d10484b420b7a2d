// sanitize: -D_GLIBCXX_ASSERTIONS
// C44: histogram and rebin put every event and every fraction of a bin exactly where it belongs.
#include "../gen_events.h"

#include "scipp/dataset/counts.h"
#include "scipp/dataset/histogram.h"
#include "scipp/dataset/rebin.h"
#include "scipp/variable/rebin.h"

using namespace gv;
namespace sd = scipp::dataset;

namespace {
bool is_flt(const DType t) { return t == dtype<double> || t == dtype<float>; }
/// Monotone edges along the inner dimension `dim` of `shape`.
Content gen_edges(Gen &g, const Shape &shape, const Dim dim, const DType type, const bool strict,
                  const bool descending) {
  Content c;
  c.shape = shape;
  c.type = type;
  c.unit = type == dtype<time_point> ? units::ns : units::m;
  c.val.assign(size_t(volume(shape)), 0);
  Shape outer = shape;
  outer.erase(outer.begin() + find(shape, dim));
  const auto n = length_of(shape, dim);
  for_each(outer, [&](const std::vector<idx> &at) {
    const bool linspace = g.boolean(0.4);
    const double q = is_flt(type) && g.boolean(0.5) ? 4 : 1;
    double x = double(g.integer(-4, 4)), step = double(g.integer(1, 5)) / q;
    std::vector<double> line;
    for (idx i = 0; i < n; ++i) {
      line.push_back(x);
      x += linspace ? step : !strict && g.boolean(0.1) ? 0 : double(g.integer(1, 8)) / q;
    }
    if (descending)
      std::reverse(line.begin(), line.end());
    for (idx i = 0; i < n; ++i) {
      std::vector<idx> full;
      size_t k = 0;
      for (const auto &[d, len] : shape)
        full.push_back(d == dim ? i : at[k++]);
      c.val[size_t(position(shape, shape, full))] = line[size_t(i)];
    }
  });
  return c;
}
std::vector<double> line_of(const Content &c, const Dim dim, const Shape &outer, const std::vector<idx> &at) {
  std::vector<double> out;
  const auto k = find(outer, dim);
  for (idx i = 0; i < length_of(c.shape, dim); ++i) {
    auto full = at;
    full[size_t(k)] = i;
    out.push_back(c.val[size_t(position(c.shape, outer, full))]);
  }
  return out;
}
bool sorted_lines(const Content &c, const Dim dim, const bool descending) {
  bool ok = true;
  const auto k = size_t(find(c.shape, dim));
  for_each(c.shape, [&](const std::vector<idx> &at) {
    if (at[k] + 1 >= c.shape[k].second)
      return;
    auto next = at;
    ++next[k];
    const auto a = c.val[size_t(position(c.shape, c.shape, at))], b = c.val[size_t(position(c.shape, c.shape, next))];
    ok &= descending ? a >= b : a <= b;
  });
  return ok;
}
Items without(const Items &items, const Dim dim) {
  Items out;
  for (const auto &[k, v] : items)
    if (find(v.c.shape, dim) < 0)
      out[k] = v;
  return out;
}
std::vector<bool> masked(const Array &a, const Dim dim) {
  std::vector<bool> out;
  for_each(a.data.shape, [&](const std::vector<idx> &i) {
    bool m = false;
    for (const auto &[k, mask] : a.masks)
      if (find(mask.c.shape, dim) >= 0)
        m |= at(mask.c, a.data.shape, i) != 0;
    out.push_back(m);
  });
  return out;
}
void expect_close(const std::string &sig, const Content &a, const Content &b, const std::string &what) {
  expect_content(sig, a, b, what, b.type == dtype<float> ? 1e-4 : 1e-12);
}
/// With dimensions in the order of `like`, if possible.
Content reorder(const Content &c, const Shape &like) {
  Content out = c;
  out.shape.clear();
  for (const auto &[d, n] : like) {
    if (find(c.shape, d) < 0)
      return c;
    out.shape.emplace_back(d, length_of(c.shape, d));
  }
  if (out.shape.size() != c.shape.size())
    return c;
  out.val.clear();
  out.var.clear();
  for_each(out.shape, [&](const std::vector<idx> &i) {
    const auto p = size_t(position(c.shape, out.shape, i));
    out.val.push_back(c.val[p]);
    if (c.has_var)
      out.var.push_back(c.var[p]);
  });
  return out;
}

void rebin_law(Gen &g) {
  auto shape = gen_shape(g, 3, 5);
  if (shape.empty())
    shape.emplace_back(dim_label(0), g.length(0, 5));
  const auto [dim, n] = g.pick(shape);
  Content data;
  data.shape = shape;
  data.type = g.boolean(0.5) ? dtype<double>
                             : g.one_of<DType>({dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>});
  data.unit = data.type == dtype<bool> ? units::none : g.one_of<Unit>({units::counts, units::one});
  data.has_var = is_flt(data.type) && g.boolean(0.4);
  gen_elements(g, data, g.boolean(0.2));
  ArrayOptions o;
  o.edges = 0.1;
  auto a = gen_array(g, data, o);
  const bool descending = g.boolean(0.25);
  const DType type = g.boolean(0.7) ? dtype<double> : g.one_of<DType>({dtype<float>, dtype<time_point>});
  const auto edge_shape = [&](const idx len) {
    Shape s{{dim, len}};
    if (shape.size() > 1 && g.boolean(0.2)) {
      const auto x = g.pick(shape);
      if (x.first != dim)
        s.insert(s.begin() + long(g.draw(1)), x);
    }
    return s;
  };
  Meta old;
  old.c = gen_edges(g, edge_shape(n + (g.boolean(0.03) ? 0 : 1)), dim, type, true, descending);
  a.coords[dim.name()] = old;
  Meta edges;
  edges.c = gen_edges(g, edge_shape(g.boolean(0.03) ? 0 : g.length(1, 6)), dim,
                      g.boolean(0.9) ? type : g.one_of<DType>({dtype<double>, dtype<float>}), false,
                      g.boolean(0.95) ? descending : !descending);
  if (g.boolean(0.03))
    edges.c.unit = units::s;
  else
    edges.c.unit = type == dtype<time_point> ? units::ns : units::m;
  if (g.boolean(0.03) && edges.c.val.size() > 1)
    std::swap(edges.c.val[0], edges.c.val[1]);
  const auto da = make(g, a);
  a = read(da);
  const auto coord = make_item(g, edges);
  const auto what = cat("rebin(", show(a), "\n  ", dim.name(), ")\n to ", show(edges.c));
  g.note([&] { return what; });

  const auto &oc = a.coords[dim.name()].c;
  const auto m = length_of(edges.c.shape, dim) - 1;
  const bool shape_ok = length_of(oc.shape, dim) == n + 1 && m >= 0;
  const bool up = sorted_lines(oc, dim, false) && sorted_lines(edges.c, dim, false);
  const bool down = sorted_lines(oc, dim, true) && sorted_lines(edges.c, dim, true);
  const bool edge_ok = shape_ok && oc.unit == edges.c.unit && (up || down);
  // All layouts have these types in common.
  const bool must = edge_ok && type == dtype<double> && edges.c.type == dtype<double>;
  bool strict = true; // content of bins without width is not specified
  for_each(oc.shape, [&](const std::vector<idx> &at) {
    const auto k = size_t(find(oc.shape, dim));
    if (at[k] + 1 >= oc.shape[k].second)
      return;
    auto next = at;
    ++next[k];
    strict &= oc.val[size_t(position(oc.shape, oc.shape, at))] != oc.val[size_t(position(oc.shape, oc.shape, next))];
  });
  if (!strict)
    throw Discard{};
  DataArray out;
  Variable var;
  try {
    out = sd::rebin(da, dim, coord);
    if (g.boolean(0.1)) { // the same for items of datasets
      Dataset ds;
      ds.setDataInit(da.name(), da);
      const auto item = read(sd::rebin(ds, dim, coord)[da.name()]);
      const auto alone = read(out);
      PBT_CHECK("item of dataset", item.data == alone.data, what);
      expect_items("masks of item", item.masks, alone.masks, what);
    }
  } catch (const pbt::Failure &) {
    throw;
  } catch (const std::exception &e) {
    PBT_CHECK("rebin throws", !must, what, " threw ", e.what());
    PBT_CHECK("input unchanged", read(da).data == a.data, what);
    g.label("refused");
    return;
  }
  PBT_CHECK("bad edges accepted", edge_ok, what);

  Content expected;
  expected.shape = shape;
  expected.shape[size_t(find(shape, dim))].second = m;
  expected.type = is_flt(data.type) ? data.type : dtype<double>;
  expected.unit = data.unit;
  expected.has_var = data.has_var;
  const auto hidden = masked(a, dim);
  const auto k = size_t(find(shape, dim));
  idx partial = 0;
  for_each(expected.shape, [&](const std::vector<idx> &at) {
    const auto from = line_of(oc, dim, shape, at), to = line_of(edges.c, dim, shape, at);
    const auto j = size_t(at[k]);
    const double lo = std::min(to[j], to[j + 1]), hi = std::max(to[j], to[j + 1]);
    double x = 0, v = 0;
    for (idx i = 0; i < n; ++i) {
      const double a0 = std::min(from[size_t(i)], from[size_t(i) + 1]),
                   a1 = std::max(from[size_t(i)], from[size_t(i) + 1]);
      const double overlap = std::min(hi, a1) - std::max(lo, a0);
      auto full = at;
      full[k] = i;
      const auto p = size_t(position(shape, shape, full));
      if (overlap <= 0 || hidden[p])
        continue;
      const double f = overlap / (a1 - a0);
      partial += f < 1;
      x += a.data.val[p] * f;
      if (data.has_var)
        v += a.data.var[p] * f;
    }
    expected.val.push_back(x);
    if (data.has_var)
      expected.var.push_back(v);
  });
  g.nontrivial(partial > 0);
  if (!hidden.empty() && std::count(hidden.begin(), hidden.end(), true) > 0)
    g.label("masked");
  if (oc.shape.size() > 1 || edges.c.shape.size() > 1)
    g.label("edges of two dimensions");
  const auto r = read(out);
  expect_close("rebinned", r.data, expected, what);
  PBT_EQ("name", r.name, a.name, what);
  auto coords = without(a.coords, dim);
  coords[dim.name()] = edges;
  expect_items("coords", r.coords, coords, what);
  expect_items("masks", r.masks, without(a.masks, dim), what);
  expect_items("attrs", r.attrs, without(a.attrs, dim), what);
  PBT_CHECK("input unchanged", read(da).data == a.data, what);
}

struct Hist {
  Content out;
  idx inside = 0;
};
/// Add events at `at` of `outer` (the dimensions of the result, where `k` is that of the edges).
void add(Hist &h, const Content &edges, const Dim dim, const std::vector<idx> &at, const double x, const double w,
         const double v) {
  const auto line = line_of(edges, dim, h.out.shape, at);
  for (size_t j = 0; j + 1 < line.size(); ++j)
    if (line[j] <= x && x < line[j + 1]) {
      auto full = at;
      full[size_t(find(h.out.shape, dim))] = idx(j);
      const auto p = size_t(position(h.out.shape, h.out.shape, full));
      h.out.val[p] += w;
      if (h.out.has_var)
        h.out.var[p] += v;
      ++h.inside;
    }
}
Hist empty_hist(const Shape &shape, const Column &weight) {
  Hist h;
  h.out.shape = shape;
  h.out.type = weight.type;
  h.out.unit = weight.unit;
  h.out.has_var = weight.has_var;
  h.out.val.assign(size_t(volume(shape)), 0);
  if (weight.has_var)
    h.out.var.assign(h.out.val.size(), 0);
  return h;
}
Meta gen_bin_edges(Gen &g, const Dim dim, const Shape &others, const DType type, const Unit &unit) {
  Meta edges;
  Shape s{{dim, g.boolean(0.03) ? 0 : g.length(1, 6)}};
  if (!others.empty() && g.boolean(0.2))
    s.insert(s.begin(), g.pick(others));
  const bool descending = g.boolean(0.03);
  edges.c = gen_edges(g, s, dim, type, false, descending);
  if (type == dtype<double> && g.boolean(0.1) && s.size() == 1 && s[0].second > 1 && !descending) {
    if (g.boolean())
      edges.c.val.front() = -HUGE_VAL;
    if (g.boolean())
      edges.c.val.back() = HUGE_VAL;
  }
  edges.c.unit = g.boolean(0.97) ? unit : units::s;
  if (g.boolean(0.03) && edges.c.val.size() > 1)
    std::swap(edges.c.val[0], edges.c.val[1]);
  return edges;
}

void dense(Gen &g) {
  auto shape = gen_shape(g, 3, 6);
  if (shape.empty())
    shape.emplace_back(dim_label(0), g.length(0, 6));
  const auto [event, n] = g.pick(shape);
  Content data;
  data.shape = shape;
  data.type = g.boolean(0.5) ? dtype<double> : g.one_of<DType>({dtype<float>, dtype<int64_t>, dtype<int32_t>});
  data.unit = g.one_of<Unit>({units::counts, units::one});
  data.has_var = is_flt(data.type) && g.boolean(0.4);
  gen_elements(g, data, false);
  ArrayOptions o;
  o.edges = 0.1;
  auto a = gen_array(g, data, o);
  Meta coord;
  const std::vector<DType> types{dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<time_point>};
  coord.c.type = g.boolean(0.5) ? dtype<double> : g.pick(types);
  coord.c.unit = coord.c.type == dtype<time_point> ? units::ns : units::m;
  coord.c.shape = {{event, n}};
  Dim dim = event;
  if (shape.size() > 1 && g.boolean(0.3)) { // must be the coordinate of its dimension
    const auto x = g.pick(shape);
    if (x.first != event)
      coord.c.shape.insert(coord.c.shape.begin() + long(g.draw(1)), x);
  } else if (g.boolean(0.6)) {
    dim = Dim("lab");
    if (g.boolean(0.05)) // not one position for each element
      coord.c.shape[0].second += 1;
  }
  gen_elements(g, coord.c, g.boolean(0.3));
  for (auto &x : coord.c.val)
    if (g.boolean(0.3))
      x = std::floor(x / 4);
  a.coords[dim.name()] = coord;
  const auto da = make(g, a);
  a = read(da);
  coord = a.coords[dim.name()];
  Shape others;
  for (const auto &x : shape)
    if (x.first != event)
      others.push_back(x);
  if (g.boolean(0.05))
    others = {{Dim("more"), 2}};
  auto edges = gen_bin_edges(
      g, dim, others, coord.c.type == dtype<time_point> || g.boolean(0.7) ? coord.c.type : g.pick(types), coord.c.unit);
  if (edges.c.type == dtype<time_point>)
    edges.c.unit = coord.c.unit;
  const auto edges_var = make_item(g, edges);
  const auto what = cat("histogram(", show(a), "\n  along ", event.name(), ") by ", dim.name(), " ", show(edges.c));
  g.note([&] { return what; });
  const auto m = length_of(edges.c.shape, dim) - 1;
  const bool edge_ok = m >= 0 && edges.c.unit == coord.c.unit && sorted_lines(edges.c, dim, false) &&
                       (coord.c.type == dtype<time_point>) == (edges.c.type == dtype<time_point>);
  const bool fits = position(coord.c.shape, shape, std::vector<idx>(shape.size(), 0)) >= 0 &&
                    length_of(coord.c.shape, event) == n;
  DataArray out;
  try {
    out = sd::histogram(da, edges_var);
    if (g.boolean(0.1)) { // the same for items of datasets
      Dataset ds;
      ds.setDataInit(da.name(), da);
      const auto item = read(sd::histogram(ds, edges_var)[da.name()]);
      const auto alone = read(out);
      PBT_CHECK("item of dataset", item.data == alone.data, what);
      expect_items("masks of item", item.masks, alone.masks, what);
    }
  } catch (const pbt::Failure &) {
    throw;
  } catch (const std::exception &e) {
    PBT_CHECK("histogram throws", !edge_ok || !fits, what, " threw ", e.what());
    PBT_CHECK("input unchanged", read(da).data == a.data, what);
    g.label("refused");
    return;
  }
  PBT_CHECK("coordinate does not fit", fits, what);
  // Without events there may be nobody to look at the edges.
  PBT_CHECK("bad edges accepted", edge_ok || m < 1 || volume(shape) == 0 || volume(edges.c.shape) == 0, what);
  if (!edge_ok)
    return;
  auto result = others;
  if (find(edges.c.shape, Dim("more")) < 0 && !others.empty() && others[0].first == Dim("more"))
    result.clear();
  if (!others.empty() && others[0].first == Dim("more"))
    for (const auto &x : shape)
      if (x.first != event)
        result.push_back(x);
  result.emplace_back(dim, m);
  auto h = empty_hist(result, {data.type, data.unit, data.has_var});
  const auto hidden = masked(a, event);
  for_each(shape, [&](const std::vector<idx> &i) {
    const auto p = size_t(position(shape, shape, i));
    if (hidden[p])
      return;
    const double x = at(coord.c, shape, i);
    std::vector<idx> to;
    bool has_more = false;
    for (const auto &[d, len] : result) {
      const auto k = find(shape, d);
      has_more |= d == Dim("more");
      to.push_back(d == dim || k < 0 ? 0 : i[size_t(k)]);
    }
    for (idx r = 0; r < (has_more ? 2 : 1); ++r) {
      if (has_more)
        to[size_t(find(result, Dim("more")))] = r;
      add(h, edges.c, dim, to, x, a.data.val[p], data.has_var ? a.data.var[p] : 0);
    }
  });
  g.nontrivial(h.inside > 1);
  if (std::count(hidden.begin(), hidden.end(), true) > 0)
    g.label("masked");
  const auto r = read(out);
  const bool simple = coord.c.shape.size() == 1 && edges.c.shape.size() == 1;
  expect_close(simple ? "histogram" : "histogram, coord or edges 2-D", simple ? r.data : reorder(r.data, result), h.out,
               what);
  PBT_EQ("name", r.name, a.name, what);
  auto coords = without(a.coords, event);
  coords[dim.name()] = edges;
  expect_items("coords", r.coords, coords, what);
  expect_items("masks", r.masks, without(a.masks, event), what);
  expect_items("attrs", r.attrs, without(a.attrs, event), what);
  PBT_CHECK("input unchanged", read(da).data == a.data, what);
}

/// Many events are split over threads.
void large(Gen &g) {
  const idx n = g.one_of<idx>({100000, 100001, 100003, 250000, g.boolean(0.2) ? 1000003 : 100002});
  const auto type = g.one_of<DType>({dtype<double>, dtype<int64_t>, dtype<float>});
  const auto weight = g.one_of<DType>({dtype<double>, dtype<int64_t>, dtype<int32_t>});
  Content data, coord;
  data.shape = coord.shape = {{Dim("event"), n}};
  data.type = weight;
  data.unit = units::counts;
  data.has_var = weight == dtype<double> && g.boolean();
  coord.type = type;
  coord.unit = units::m;
  auto state = g.draw(1u << 30);
  const auto next = [&state] {
    state = state * 6364136223846793005u + 1442695040888963407u;
    return idx(state >> 33);
  };
  for (idx i = 0; i < n; ++i) {
    data.val.push_back(double(next() % 8));
    if (data.has_var)
      data.var.push_back(double(next() % 8));
    coord.val.push_back(double(next() % 64) - 10);
  }
  Content mask = data;
  mask.type = dtype<bool>;
  mask.unit = units::none;
  mask.has_var = false;
  mask.var.clear();
  const bool has_mask = g.boolean();
  for (auto &x : mask.val)
    x = has_mask ? double(next() % 2) : 0;
  const auto edges = gen_edges(g, {{Dim("x"), g.length(1, 20)}}, Dim("x"), type, false, false);
  DataArray da(make_plain(data), {{Dim("x"), make_plain(coord)}});
  if (has_mask)
    da.masks().set("m", make_plain(mask));
  const auto what = cat(n, " events in ", show(edges), has_mask ? " masked" : "");
  g.note([&] { return what; });
  auto h = empty_hist({{Dim("x"), length_of(edges.shape, Dim("x")) - 1}}, {weight, units::counts, data.has_var});
  for (size_t i = 0; i < size_t(n); ++i)
    if (mask.val[i] == 0) {
      const auto &e = edges.val;
      const auto it = std::upper_bound(e.begin(), e.end(), coord.val[i]);
      if (it == e.begin() || it == e.end())
        continue;
      const auto b = size_t(it - e.begin()) - 1;
      h.out.val[b] += data.val[i];
      if (data.has_var)
        h.out.var[b] += data.var[i];
      ++h.inside;
    }
  g.nontrivial(h.inside > 0);
  const auto r = read(sd::histogram(da, make_plain(edges)));
  expect_content("many events", r.data, h.out, what);
}

/// Bins of events.
void binned(Gen &g) {
  const auto shape = gen_shape(g, 3, 3);
  EventOptions o;
  o.coords = {"x", "y", "lab"};
  const auto e = gen_events(g, shape, o);
  Array meta;
  meta.data.shape = shape;
  meta.data.type = dtype<double>;
  gen_elements(g, meta.data);
  ArrayOptions ao;
  auto a = gen_array(g, meta.data, ao);
  const auto key = g.boolean(0.7) ? std::string("x") : e.coords.rbegin()->first;
  const Dim dim(key);
  a.coords.erase(key); // the coordinate is that of the events
  if (find(shape, dim) >= 0 && g.boolean(0.5)) {
    Meta old;
    old.c = gen_edges(g, {{dim, length_of(shape, dim) + 1}}, dim, dtype<double>, true, false);
    a.coords[key] = old;
  }
  Shape others;
  for (const auto &x : shape)
    if (x.first != dim)
      others.push_back(x);
  const auto &col = e.coords.at(key);
  auto edges = gen_bin_edges(
      g, dim, others,
      g.boolean(0.7) ? col.type : g.one_of<DType>({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>}),
      col.unit);
  scipp::core::Dict<Dim, Variable> coords, attrs;
  scipp::core::Dict<std::string, Variable> masks;
  for (auto &[k, v] : a.coords)
    coords.insert_or_assign(Dim(k), make_item(g, v));
  for (auto &[k, v] : a.masks)
    masks.insert_or_assign(k, make_item(g, v));
  for (auto &[k, v] : a.attrs)
    attrs.insert_or_assign(Dim(k), make_item(g, v));
  const auto var = make_events(g, e, g.boolean(0.9) ? Dim("event") : dim);
  const DataArray da(var, std::move(coords), std::move(masks), std::move(attrs), a.name);
  const auto edges_var = make_item(g, edges);
  const auto what = cat("histogram of ", show(e), "\n  masks", show(a.masks), "\n  by ", key, " ", show(edges.c));
  g.note([&] { return what; });
  const auto m = length_of(edges.c.shape, dim) - 1;
  const bool edge_ok = m >= 0 && edges.c.unit == col.unit && sorted_lines(edges.c, dim, false);
  DataArray out;
  try {
    out = sd::histogram(da, edges_var);
    if (g.boolean(0.1)) { // the same for items of datasets
      Dataset ds;
      ds.setDataInit(da.name(), da);
      const auto item = read(sd::histogram(ds, edges_var)[da.name()]);
      const auto alone = read(out);
      PBT_CHECK("item of dataset", item.data == alone.data, what);
      expect_items("masks of item", item.masks, alone.masks, what);
    }
  } catch (const pbt::Failure &) {
    throw;
  } catch (const std::exception &ex) {
    PBT_CHECK("histogram of events throws", !edge_ok, what, " threw ", ex.what());
    g.label("refused");
    return;
  }
  PBT_CHECK("bad edges accepted", edge_ok || m < 1 || volume(shape) == 0 || volume(edges.c.shape) == 0, what);
  if (!edge_ok)
    return;
  auto result = others;
  result.emplace_back(dim, m);
  auto h = empty_hist(result, e.weight);
  size_t i = 0;
  for_each(shape, [&](const std::vector<idx> &pos) {
    const auto &rows = e.bins[i++];
    for (const auto &[k, mask] : a.masks)
      if (find(mask.c.shape, dim) >= 0 && at(mask.c, shape, pos) != 0)
        return;
    std::vector<idx> to;
    for (const auto &[d, len] : result)
      to.push_back(d == dim ? 0 : pos[size_t(find(shape, d))]);
    for (const auto &r : rows)
      if (!r.masked())
        add(h, edges.c, dim, to, r.coords.at(key), r.w, r.v);
  });
  g.nontrivial(h.inside > 1);
  if (find(shape, dim) >= 0)
    g.label("existing dimension");
  const auto r = read(out);
  expect_close("histogram of events", edges.c.shape.size() == 1 ? r.data : reorder(r.data, result), h.out, what);
  PBT_EQ("name", r.name, a.name, what);
  auto expected_coords = without(a.coords, dim);
  expected_coords[key] = edges;
  expect_items("coords", r.coords, expected_coords, what);
  expect_items("masks", r.masks, without(a.masks, dim), what);
  expect_items("attrs", r.attrs, without(a.attrs, dim), what);
  PBT_CHECK("input unchanged", read_events(da.data()).bins == e.bins, what);
}
/// Counts to densities and back.
void density(Gen &g) {
  auto shape = gen_shape(g, 3, 5);
  if (shape.empty())
    throw Discard{};
  Shape dims; // to convert
  for (const auto &x : g.permutation(shape))
    if (dims.empty() || g.boolean(0.3))
      dims.push_back(x);
  Array a;
  a.data.shape = shape;
  a.data.type = g.one_of<DType>({dtype<double>, dtype<double>, dtype<float>});
  a.data.unit = g.one_of<Unit>({units::counts, units::counts, units::one, units::m, units::counts / units::s});
  a.data.has_var = g.boolean(0.3);
  gen_elements(g, a.data);
  ArrayOptions o;
  o.extra_dim = false;
  a = gen_array(g, a.data, o);
  const auto unit = g.boolean(0.9) ? units::m : units::one;
  std::vector<Dim> list;
  for (const auto &[d, n] : dims) {
    Shape s{{d, n + 1}};
    if (shape.size() > 1 && g.boolean(0.2)) {
      const auto other = g.pick(shape);
      if (other.first != d)
        s.insert(s.begin() + long(g.draw(1)), other);
    }
    auto &edges = a.coords[d.name()];
    a.attrs.erase(d.name());
    edges.aligned = true;
    edges.c = ascending(g, s, d, a.data.type == dtype<float> ? a.data.type : dtype<double>, unit, true, double(g.integer(-4, 4)));
    if (g.boolean(0.3))
      for (auto &x : edges.c.val)
        x = -x; // descending
    list.push_back(d);
  }
  const auto da = make(g, a);
  const bool from = g.boolean(0.3);
  std::string what = cat(from ? "fromDensity " : "toDensity ", show(a), " along");
  for (const auto d : list)
    what += " " + d.name();
  g.note([&] { return what; });
  namespace sc = sd::counts;
  const bool counts = a.data.unit == units::counts, per = a.data.unit == units::counts / units::s;
  const bool bad = unit == units::one || (!from && per);
  g.nontrivial(counts != per && volume(shape) > 1);
  DataArray out;
  try {
    out = from ? (list.size() == 1 ? sc::fromDensity(da, list[0]) : sc::fromDensity(da, list))
               : (list.size() == 1 ? sc::toDensity(da, list[0]) : sc::toDensity(da, list));
  } catch (const std::exception &e) {
    PBT_CHECK("density throws", bad, what, " threw ", e.what());
    const auto kept = read(da);
    PBT_CHECK("failed conversion", kept.data == a.data && kept.coords == a.coords, what);
    return;
  }
  PBT_CHECK("bad conversion accepted", !bad, what);
  auto expected = a.data;
  if (from ? per : counts) {
    size_t i = 0;
    for_each(shape, [&](const std::vector<idx> &pos) {
      for (const auto d : list) {
        const auto &c = a.coords.at(d.name()).c;
        const auto k = size_t(find(shape, d));
        auto next = pos;
        ++next[k];
        Shape big = shape;
        big[k].second += 1;
        auto w = at(c, big, next) - at(c, big, pos);
        if (a.data.type == dtype<float>)
          w = float(w);
        auto &x = expected.val[i];
        x = from ? x * w : x / w;
        if (a.data.has_var)
          expected.var[i] = from ? expected.var[i] * w * w : expected.var[i] / (w * w);
      }
      ++i;
    });
    for (size_t j = 0; j < list.size(); ++j)
      expected.unit = from ? expected.unit * units::m : expected.unit / units::m;
  }
  const auto r = read(out);
  PBT_CHECK("density", r.data.shape == expected.shape && r.data.unit == expected.unit && r.data.type == expected.type &&
                           r.data.has_var == expected.has_var,
            what, " -> ", show(r));
  const double eps = expected.type == dtype<float> ? 1e-5 : 1e-13;
  for (size_t i = 0; i < expected.val.size(); ++i)
    PBT_CHECK("density",
              close(r.data.val[i], expected.val[i], eps, eps) &&
                  (!expected.has_var || close(r.data.var[i], expected.var[i], eps, eps)),
              what, " -> ", show(r), " expected ", show(expected));
  expect_items("coords of density", r.coords, a.coords, what);
  expect_items("masks of density", r.masks, a.masks, what);
  PBT_CHECK("input unchanged", read(da).data == a.data && read(da).coords == a.coords, what);
  const Dataset ds({{"a", da}});
  const auto all = from ? sc::fromDensity(ds, list) : sc::toDensity(ds, list);
  PBT_CHECK("density of dataset", read(all["a"].data()) == r.data, what);
  PBT_CHECK("input unchanged", read(da).data == a.data && read(ds["a"].data()) == a.data, what);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C44";
  p.rule = "Histograms with ascending and descending edges of one or two dimensions rebinned to others; "
           "points and binned events, with masks, in random memory layouts, with positions on, between and "
           "outside of edges, histogrammed; compared with loops over bins and events. Non-trivial: some bin "
           "is split, or more than one event lies in the edges.";
  p.laws = {{"rebin", 150000, 3000000, rebin_law},
            {"dense", 150000, 3000000, dense},
            {"binned", 100000, 2000000, binned},
            {"density", 50000, 1000000, density},
            {"large", 40, 600, large}};
  return run(argc, argv, p);
}
