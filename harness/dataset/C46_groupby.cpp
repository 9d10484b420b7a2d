// sanitize: -D_GLIBCXX_ASSERTIONS
// C46: groupby reduces each group alone; sort moves whole slices.
#define VERIF_ALL_TYPES
#include "../gen_binned.h"
#include "../reduce_model.h"

#include "scipp/dataset/groupby.h"
#include "scipp/dataset/sort.h"
#include "scipp/variable/creation.h"

using namespace gv;
namespace sd = scipp::dataset;

namespace {
template <class G> auto apply_group(const Op op, const G &v, const Dim dim) {
  switch (op) {
  case Op::Sum: return v.sum(dim);
  case Op::NanSum: return v.nansum(dim);
  case Op::Mean: return v.mean(dim);
  case Op::NanMean: break;
  case Op::Min: return v.min(dim);
  case Op::Max: return v.max(dim);
  case Op::NanMin: return v.nanmin(dim);
  case Op::NanMax: return v.nanmax(dim);
  case Op::All: return v.all(dim);
  case Op::Any: return v.any(dim);
  }
  throw Discard{};
}
/// Key values with repetitions.
Content gen_key(Gen &g, const Dim dim, const idx n, const bool edges) {
  Content c;
  c.shape = {{dim, n}};
  c.type = edges ? g.one_of<DType>({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>})
                 : g.one_of<DType>({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>,
                                    dtype<time_point>});
  c.unit = c.type == dtype<bool> ? units::none : c.type == dtype<time_point> ? units::ns : units::m;
  const auto distinct = g.integer(1, 5);
  const auto nan = is_real(c.type) && g.boolean(0.3);
  for (idx i = 0; i < n; ++i) {
    double x = double(g.integer(-1, distinct - 1));
    if (c.type == dtype<bool>)
      x = double(g.boolean());
    else if (is_real(c.type) && g.boolean(0.2))
      x = x / 2;
    if (nan && g.boolean(0.3))
      x = g.one_of<double>({NAN, -NAN, HUGE_VAL, -HUGE_VAL});
    if (x == 0)
      x = 0; // sign
    if (!c.val.empty() && g.boolean(0.3))
      x = c.val.back();
    c.val.push_back(x);
  }
  return c;
}
struct Grouping {
  Content labels; // groups or edges
  std::vector<std::vector<idx>> members;
};
Grouping group(const Content &key, const Dim out) {
  Grouping r;
  std::vector<double> keys;
  for (const auto x : key.val)
    if (std::none_of(keys.begin(), keys.end(), [&](const auto y) { return same(x, y); }))
      keys.push_back(x);
  std::sort(keys.begin(), keys.end(), [](const auto a, const auto b) { return std::isnan(b) ? !std::isnan(a) : a < b; });
  r.labels = key;
  r.labels.shape = {{out, idx(keys.size())}};
  r.labels.val = keys;
  for (const auto x : keys) {
    r.members.emplace_back();
    for (size_t i = 0; i < key.val.size(); ++i)
      if (same(x, key.val[i]))
        r.members.back().push_back(idx(i));
  }
  return r;
}
Grouping bins(const Content &key, const Content &edges) {
  Grouping r;
  r.labels = edges;
  for (size_t j = 0; j + 1 < edges.val.size(); ++j) {
    r.members.emplace_back();
    for (size_t i = 0; i < key.val.size(); ++i)
      if (edges.val[j] <= key.val[i] && key.val[i] < edges.val[j + 1])
        r.members.back().push_back(idx(i));
  }
  return r;
}
std::string show_members(const Grouping &r) {
  std::string s;
  for (const auto &m : r.members) {
    s += " {";
    for (const auto i : m)
      s += cat(i, " ");
    s += "}";
  }
  return s;
}
/// Data array with a key, and how to group.
struct Case {
  Array a;
  DataArray da;
  Dim dim = Dim::Invalid, out = Dim::Invalid;
  Content key;
  bool edges = false, attr = false, variable = false;
  std::string name;
  Variable edge_var, key_var;
  Grouping groups;
  std::string what;
  template <class T> sd::GroupBy<T> by(const T &x) const {
    return !edges     ? sd::groupby(x, Dim(name))
           : variable ? sd::groupby(x, key_var, edge_var)
                      : sd::groupby(x, Dim(name), edge_var);
  }
};
void gen_grouping(Gen &g, Case &c, const Shape &shape) {
  c.dim = g.pick(shape).first;
  c.edges = g.boolean(0.4);
  c.name = g.boolean(0.3) ? c.dim.name() : "key";
  c.key = gen_key(g, c.dim, length_of(shape, c.dim), c.edges);
  c.out = Dim(c.name);
  if (c.edges) {
    c.variable = g.boolean(0.2);
    if (g.boolean(0.4))
      c.out = Dim("group");
    Content e;
    e.type = c.key.type;
    e.unit = c.key.unit;
    double x = double(g.integer(-2, 2));
    const auto n = g.length(2, 5);
    e.shape = {{c.out, n}};
    for (idx i = 0; i < n; ++i) {
      e.val.push_back(x);
      x += g.boolean(0.1) ? 0 : is_real(e.type) ? double(g.integer(1, 4)) / 2 : double(g.integer(1, 2));
    }
    c.groups.labels = e;
  } else {
    c.groups = group(c.key, c.out);
  }
}
void finish(Gen &g, Case &c) { // layouts
  c.key_var = make_view(g, c.key, {.broadcast = false});
  if (c.edges) {
    c.edge_var = make_view(g, c.groups.labels, {.broadcast = false});
    c.groups = bins(c.key, c.groups.labels);
  }
}

Content grouped(const Op op, const Array &a, const Case &c) {
  const auto &d = a.data;
  Content r;
  r.shape = d.shape;
  r.shape[size_t(find(d.shape, c.dim))] = {c.out, idx(c.groups.members.size())};
  r.type = result_type(op, d.type);
  r.unit = d.unit;
  r.has_var = d.has_var;
  std::vector<std::vector<Elem>> lists(size_t(volume(r.shape)));
  const auto k = size_t(find(d.shape, c.dim));
  size_t i = 0;
  for_each(d.shape, [&](std::vector<idx> at) {
    bool m = false;
    for (const auto &[name, mask] : a.masks)
      if (find(mask.c.shape, c.dim) >= 0)
        m |= gv::at(mask.c, d.shape, at) != 0;
    const auto p = at[k];
    for (size_t j = 0; !m && j < c.groups.members.size(); ++j) {
      const auto &members = c.groups.members[j];
      if (std::find(members.begin(), members.end(), p) == members.end())
        continue;
      at[k] = idx(j);
      lists[size_t(position(r.shape, r.shape, at))].push_back({d.val[i], d.has_var ? d.var[i] : 0});
    }
    ++i;
  });
  for (const auto &list : lists) {
    const auto e = gv::reduce(op, d.type, list);
    r.val.push_back(e.val);
    if (d.has_var)
      r.var.push_back(e.var);
  }
  return r;
}
void expect_reduced(const std::string &sig, const Content &actual, const Content &expected, const bool tolerant,
                    const std::string &what) {
  const auto text = cat(what, " -> ", show(actual), " expected ", show(expected));
  PBT_CHECK(sig + " shape", actual.shape == expected.shape, text);
  PBT_CHECK(sig + " unit", actual.unit == expected.unit, text);
  PBT_CHECK(sig + " type", actual.type == expected.type && actual.has_var == expected.has_var, text);
  const double eps = !tolerant ? 0 : actual.type == dtype<float> ? 1e-5 : 1e-13;
  for (size_t i = 0; i < actual.val.size(); ++i) {
    PBT_CHECK(sig, close(actual.val[i], expected.val[i], eps, eps), text);
    if (actual.has_var)
      PBT_CHECK(sig + " variances",
                close(actual.var[i], expected.var[i], eps, eps) || (tolerant && !std::isfinite(expected.val[i])), text);
  }
}
Items kept(const Items &items, const Dim dim) {
  Items out;
  for (const auto &[k, v] : items)
    if (find(v.c.shape, dim) < 0)
      out[k] = v;
  return out;
}

void arrays(Gen &g) {
  const auto [op, name] = g.pick(ops);
  if (op == Op::NanMean)
    throw Discard{};
  auto shape = gen_shape(g, 3, 6);
  if (shape.empty())
    shape.emplace_back(dim_label(0), g.length(1, 6));
  Case c;
  gen_grouping(g, c, shape);
  ArrayOptions o;
  o.masks = 3;
  c.a = gen_array(g, gen_content(g, op, shape), o);
  c.a.coords.erase(c.name);
  c.a.attrs.erase(c.name);
  for (auto items : {&c.a.coords, &c.a.masks, &c.a.attrs}) // an extra dimension is another matter
    for (auto it = items->begin(); it != items->end();)
      it = find(it->second.c.shape, Dim("cut")) >= 0 ? items->erase(it) : std::next(it);
  c.da = make(g, c.a);
  finish(g, c);
  if (!c.variable) {
    c.attr = g.boolean(0.15);
    if (c.attr)
      c.da.attrs().set(Dim(c.name), c.key_var);
    else
      c.da.coords().set(Dim(c.name), c.key_var);
  }
  c.a = read(c.da);
  const auto what = cat(name, " of ", show(c.a), "\n  by ", c.name, " ", show(c.key), c.edges ? " bins " : " groups ",
                        show(c.groups.labels), c.variable ? " (variable)" : "", c.attr ? " (attr)" : "", show_members(c.groups));
  g.note([&] { return what; });
  const auto expected = grouped(op, c.a, c);
  idx largest = 0;
  for (const auto &m : c.groups.members)
    largest = std::max(largest, idx(m.size()));
  g.nontrivial(largest > 1 && c.groups.members.size() > 1);
  DataArray out;
  try {
    out = apply_group(op, c.by(c.da), c.dim);
  } catch (const std::exception &e) {
    PBT_CHECK("groupby throws", false, what, " threw ", e.what());
  }
  const auto r = read(out);
  expect_reduced("groups", r.data, expected, is_mean(op), what);
  auto coords = kept(c.a.coords, c.dim);
  coords[c.out.name()] = {c.groups.labels, true};
  expect_items("coords", r.coords, coords, what);
  expect_items("masks", r.masks, kept(c.a.masks, c.dim), what);
  expect_items("attrs", r.attrs, kept(c.a.attrs, c.dim), what);
  PBT_EQ("name", r.name, c.a.name, what);
  PBT_CHECK("input unchanged", read(c.da).data == c.a.data, what);
  // Masks and coordinates of the result are its own
  for (const auto &[k, v] : out.masks()) {
    auto m = copy(v);
    m |= true * units::none;
    Variable(v) |= true * units::none;
    PBT_CHECK("masks are copies", read(c.da).masks == c.a.masks, what);
  }
  // Dataset: the same for each item
  Dataset ds({{"a", c.da}});
  auto other = copy(c.da);
  other.masks().set("more", make_plain([&] {
                      Content m;
                      m.type = dtype<bool>;
                      m.unit = units::none;
                      m.shape = {{c.dim, length_of(shape, c.dim)}};
                      for (idx i = 0; i < m.shape[0].second; ++i)
                        m.val.push_back(double(g.boolean(0.3)));
                      return m;
                    }()));
  if (c.attr || g.boolean(0.5))
    return;
  ds.setData("b", other);
  Dataset all;
  try {
    all = apply_group(op, c.by(ds), c.dim);
  } catch (const std::exception &e) {
    PBT_CHECK("groupby of a dataset throws", false, what, " threw ", e.what());
  }
  PBT_EQ("items of dataset", all.size(), scipp::index(2), what);
  expect_reduced("groups of dataset", read(all["a"].data()), expected, is_mean(op), what);
  expect_reduced("groups of dataset", read(all["b"].data()), grouped(op, read(other), c), is_mean(op), what);
  expect_items("masks of dataset", read_items(all["b"].masks()), kept(c.a.masks, c.dim), what);
}

/// Events of the bins of each group reduced.
void binned(Gen &g) {
  const auto [op, name] = g.pick(ops);
  if (is_mean(op) || logical(op)) // mean is not supported
    throw Discard{};
  auto b = gen_binned(g, {"x", "y", "lab"});
  if (b.e.shape.empty())
    throw Discard{};
  const bool event_masks = !b.e.masks.empty() && g.boolean(0.1);
  if (!event_masks) {
    b.e.masks.clear();
    for (auto &rows : b.e.bins)
      for (auto &r : rows)
        r.masks.clear();
  }
  for (auto &rows : b.e.bins)
    for (auto &r : rows) {
      if (is_real(b.e.weight.type) && g.boolean(0.1))
        r.w = NAN;
      if (b.e.weight.has_var && !is_sum(op)) // which of two equal elements counts is not defined
        r.v = std::isnan(r.w) ? 2 : std::abs(r.w);
    }
  const auto &shape = b.e.shape;
  Case c;
  gen_grouping(g, c, shape);
  b.meta.coords.erase(c.name);
  b.meta.attrs.erase(c.name);
  c.da = make_binned(g, b);
  finish(g, c);
  if (!c.variable)
    c.da.coords().set(Dim(c.name), c.key_var);
  const auto what = cat(name, " of ", show(b), "\n  by ", c.name, " along ", c.dim.name(), " ", show(c.key),
                        c.edges ? " bins " : " groups ", show(c.groups.labels), c.variable ? " (variable)" : "",
                        show_members(c.groups));
  g.note([&] { return what; });
  const auto k = size_t(find(shape, c.dim));
  Content expected;
  expected.shape = shape;
  expected.shape[k] = {c.out, idx(c.groups.members.size())};
  expected.type = result_type(op, b.e.weight.type);
  expected.unit = b.e.weight.unit;
  expected.has_var = b.e.weight.has_var;
  std::vector<std::vector<Elem>> lists(size_t(volume(expected.shape)));
  size_t bin = 0, largest = 0;
  for_each(shape, [&](std::vector<idx> at) {
    const auto &rows = b.e.bins[bin++];
    for (const auto &[mask_name, m] : b.meta.masks)
      if (find(m.c.shape, c.dim) >= 0 && gv::at(m.c, shape, at) != 0)
        return;
    const auto p = at[k];
    for (size_t j = 0; j < c.groups.members.size(); ++j) {
      const auto &members = c.groups.members[j];
      if (std::find(members.begin(), members.end(), p) == members.end())
        continue;
      at[k] = idx(j);
      auto &list = lists[size_t(position(expected.shape, expected.shape, at))];
      for (const auto &r : rows)
        list.push_back({r.w, r.v});
      largest = std::max(largest, list.size());
    }
  });
  for (const auto &list : lists) {
    const auto e = gv::reduce(op, b.e.weight.type, list);
    expected.val.push_back(e.val);
    if (expected.has_var)
      expected.var.push_back(e.var);
  }
  g.nontrivial(largest > 1);
  DataArray out;
  try {
    out = apply_group(op, c.by(c.da), c.dim);
  } catch (const std::exception &ex) {
    PBT_CHECK("groupby of bins throws", event_masks, what, " threw ", ex.what());
    return;
  }
  PBT_CHECK("masks of events", !event_masks, what); // would have to be applied
  const auto r = read(out);
  expect_reduced("groups of bins", r.data, expected, false, what);
  auto coords = kept(b.meta.coords, c.dim);
  coords[c.out.name()] = {c.groups.labels, true};
  expect_items("coords", r.coords, coords, what);
  expect_items("masks", r.masks, kept(b.meta.masks, c.dim), what);
  PBT_CHECK("input unchanged", read_events(c.da.data()).bins == b.e.bins, what);
}

/// Concatenation of binned data by group.
void concat(Gen &g) {
  auto b = gen_binned(g, {"x", "y", "lab"});
  if (b.e.shape.empty())
    throw Discard{};
  const auto &shape = b.e.shape;
  Case c;
  gen_grouping(g, c, shape);
  b.meta.coords.erase(c.name);
  b.meta.attrs.erase(c.name);
  c.da = make_binned(g, b);
  finish(g, c);
  if (!c.variable)
    c.da.coords().set(Dim(c.name), c.key_var);
  const auto what = cat(show(b), "\n  by ", c.name, " along ", c.dim.name(), " ", show(c.key), c.edges ? " bins " : " groups ",
                        show(c.groups.labels), c.variable ? " (variable)" : "", show_members(c.groups));
  g.note([&] { return what; });
  // Coordinates of other dimensions that depend on the reduced one are joined.
  Shape out_shape{{c.out, idx(c.groups.members.size())}};
  std::set<Dim> joined, applied{c.dim};
  for (const auto &[d, n] : shape) {
    if (d == c.dim)
      continue;
    auto it = b.meta.coords.find(d.name());
    const bool has = it != b.meta.coords.end() || b.meta.attrs.count(d.name()) == 1;
    bool join = false;
    if (has) {
      const auto &x = it != b.meta.coords.end() ? it->second.c : b.meta.attrs.at(d.name()).c;
      join = x.shape.size() != 1 && find(x.shape, c.dim) >= 0;
      if (join && volume(x.shape) == 0)
        throw Discard{};
      applied.insert(d);
    }
    if (join)
      joined.insert(d);
    out_shape.emplace_back(d, join ? 1 : n);
  }
  DataArray out;
  try {
    out = c.by(c.da).concat(c.dim);
  } catch (const std::exception &ex) {
    PBT_CHECK("concat throws", false, what, " threw ", ex.what());
  }
  std::set<Dim> dropped = joined;
  dropped.insert(c.dim);
  std::vector<std::vector<Row>> expected(size_t(volume(out_shape)));
  std::vector<bool> unknown(expected.size(), false);
  size_t bin = 0;
  idx events = 0;
  for_each(shape, [&](const std::vector<idx> &at) {
    const auto &rows = b.e.bins[bin++];
    const auto p = at[size_t(find(shape, c.dim))];
    for (size_t j = 0; j < c.groups.members.size(); ++j) {
      const auto &members = c.groups.members[j];
      if (std::find(members.begin(), members.end(), p) == members.end())
        continue;
      std::vector<idx> to{idx(j)};
      for (size_t k = 1; k < out_shape.size(); ++k)
        to.push_back(joined.count(out_shape[k].first) ? 0 : at[size_t(find(shape, out_shape[k].first))]);
      const auto e = size_t(position(out_shape, out_shape, to));
      bool hidden = false;
      for (const auto &[name, m] : b.meta.masks)
        if (gv::at(m.c, shape, at) != 0) {
          hidden |= depends(m.c, dropped);
          if (!depends(m.c, dropped) && depends(m.c, applied))
            unknown[e] = true;
        }
      if (hidden)
        continue;
      for (const auto &r : rows)
        expected[e].push_back(r);
      events += idx(rows.size());
    }
  });
  g.nontrivial(events > 1);
  const auto shape_is = shape_of(out.dims());
  PBT_EQ("dims of concat", shape_is.size(), out_shape.size(), what, " -> ", gv::show(shape_is));
  const auto r = read_events(out.data());
  for_each(out_shape, [&](const std::vector<idx> &at) {
    const auto e = size_t(position(out_shape, out_shape, at));
    std::vector<idx> other;
    for (const auto &[d, n] : shape_is) {
      PBT_CHECK("dims of concat", find(out_shape, d) >= 0 && length_of(out_shape, d) == n, what, " -> ",
                gv::show(shape_is));
      other.push_back(at[size_t(find(out_shape, d))]);
    }
    const auto i = size_t(position(shape_is, shape_is, other));
    PBT_CHECK("events of a group", unknown[e] || same_rows(r.bins[i], expected[e]), what, "\n bin ", e, " -> ",
              gv::show(r.bins[i]), " expected ", gv::show(expected[e]));
  });
  const auto coords = read_items(out.coords());
  PBT_CHECK("coord of groups", coords.count(c.out.name()) == 1 && coords.at(c.out.name()).c == c.groups.labels, what);
  for (const auto &[k, v] : kept(b.meta.coords, c.dim))
    if (!depends(v.c, dropped))
      PBT_CHECK("coords of concat", coords.count(k) == 1 && coords.at(k).c == v.c, what, ": ", k);
  Items masks;
  for (const auto &[k, v] : b.meta.masks)
    if (!depends(v.c, dropped))
      masks[k] = v;
  expect_items("masks of concat", read_items(out.masks()), masks, what);
}

/// Slice of an item at position i of dim, or the item.
Content slice_of(const Content &c, const Dim dim, const idx i) {
  const auto k = find(c.shape, dim);
  if (k < 0)
    return c;
  Content out = c;
  out.shape.erase(out.shape.begin() + k);
  out.val.clear();
  out.var.clear();
  for_each(out.shape, [&](std::vector<idx> at) {
    at.insert(at.begin() + k, i);
    const auto p = size_t(position(c.shape, c.shape, at));
    out.val.push_back(c.val[p]);
    if (c.has_var)
      out.var.push_back(c.var[p]);
  });
  return out;
}
bool has_edges(const Content &c, const Shape &shape, const Dim dim) {
  return find(c.shape, dim) >= 0 && length_of(c.shape, dim) != length_of(shape, dim);
}
void expect_permuted(const std::string &sig, const Content &out, const Content &in, const Dim dim,
                     const std::vector<idx> &from, const std::string &what) {
  PBT_CHECK(sig + " type", out.shape == in.shape && out.type == in.type && out.unit == in.unit && out.has_var == in.has_var,
            what, " -> ", show(out));
  if (find(in.shape, dim) < 0) {
    PBT_CHECK(sig, out == in, what, " -> ", show(out));
    return;
  }
  for (size_t i = 0; i < from.size(); ++i)
    PBT_CHECK(sig, slice_of(out, dim, idx(i)) == slice_of(in, dim, from[i]), what, " -> ", show(out));
}

void sorting(Gen &g) {
  auto shape = gen_shape(g, 3, 6);
  if (shape.empty())
    throw Discard{};
  const auto dim = g.pick(shape).first;
  const auto n = length_of(shape, dim);
  auto key = gen_key(g, dim, n, false);
  Content data;
  data.shape = shape;
  data.type = g.one_of<DType>({dtype<double>, dtype<float>, dtype<int64_t>, dtype<bool>});
  data.unit = data.type == dtype<bool> ? units::none : units::m;
  data.has_var = is_real(data.type) && g.boolean(0.3);
  gen_elements(g, data, true);
  ArrayOptions o;
  auto a = gen_array(g, data, o);
  for (auto items : {&a.coords, &a.masks, &a.attrs})
    for (auto it = items->begin(); it != items->end();)
      it = find(it->second.c.shape, Dim("cut")) >= 0 ? items->erase(it) : std::next(it);
  const bool by_name = g.boolean(0.6);
  const std::string name = g.boolean(0.5) ? dim.name() : "key";
  a.coords.erase("id");
  auto da = make(g, a);
  const auto key_var = make_view(g, key, {.broadcast = false});
  if (by_name) {
    if (da.attrs().contains(Dim(name)))
      da.attrs().erase(Dim(name));
    if (g.boolean(0.15)) {
      if (da.coords().contains(Dim(name)))
        da.coords().erase(Dim(name));
      da.attrs().set(Dim(name), key_var);
    } else {
      da.coords().set(Dim(name), key_var);
    }
  }
  Content id; // tells where a slice came from
  id.shape = {{dim, n}};
  id.type = dtype<int64_t>;
  id.unit = units::none;
  for (idx i = 0; i < n; ++i)
    id.val.push_back(double(i));
  da.coords().set(Dim("id"), make_view(g, id, {.broadcast = false}));
  a = read(da);
  const bool descending = g.boolean();
  const auto order = descending ? scipp::SortOrder::Descending : scipp::SortOrder::Ascending;
  const auto what = cat(descending ? "descending " : "", "sort of ", show(a), "\n  by ", show(key), " along ", dim.name());
  g.note([&] { return what; });
  g.nontrivial(n > 2);
  DataArray out;
  try {
    out = by_name ? sd::sort(da, Dim(name), order) : sd::sort(da, key_var, order);
  } catch (const std::exception &e) {
    PBT_CHECK("sort throws", false, what, " threw ", e.what());
  }
  const auto r = read(out);
  PBT_CHECK("id", r.coords.count("id") == 1 && r.coords.at("id").c.val.size() == size_t(n), what);
  std::vector<idx> from;
  std::vector<bool> seen(size_t(n), false);
  for (const auto x : r.coords.at("id").c.val) {
    PBT_CHECK("not a permutation", x >= 0 && x < double(n) && !seen[size_t(x)], what, " -> ", show(r));
    seen[size_t(x)] = true;
    from.push_back(idx(x));
  }
  for (size_t i = 0; i + 1 < from.size(); ++i) {
    auto x = key.val[size_t(from[i])], y = key.val[size_t(from[i + 1])];
    if (descending)
      std::swap(x, y);
    PBT_CHECK("order", std::isnan(y) || x <= y, what, " -> ", show(r));
  }
  expect_permuted("data", r.data, a.data, dim, from, what);
  const auto items = [&](const std::string &sig, const Items &out_items, const Items &in) {
    size_t count = 0;
    for (const auto &[k, v] : in) {
      if (has_edges(v.c, shape, dim)) {
        PBT_CHECK(sig + " edges", out_items.count(k) == 0, what, " has ", k);
        continue;
      }
      ++count;
      PBT_CHECK(sig, out_items.count(k) == 1, what, " lost ", k);
      expect_permuted(sig, out_items.at(k).c, v.c, dim, from, cat(what, " ", k));
      PBT_CHECK(sig + " alignment", out_items.at(k).aligned == v.aligned, what, " ", k);
    }
    PBT_EQ(sig, out_items.size(), count, what);
  };
  items("coords", r.coords, a.coords);
  items("masks", r.masks, a.masks);
  items("attrs", r.attrs, a.attrs);
  PBT_EQ("name", r.name, a.name, what);
  PBT_CHECK("input unchanged", read(da).data == a.data && read(da).coords == a.coords, what);
  const auto v = sd::sort(da.data(), key_var, order);
  // Equal keys may come in any order, but the same for the same key.
  expect_permuted("variable", read(v), a.data, dim, from, what);
  const Dataset ds({{"a", da}});
  const auto s = by_name && da.coords().contains(Dim(name)) ? sd::sort(ds, Dim(name), order) : sd::sort(ds, key_var, order);
  expect_permuted("dataset", read(s["a"].data()), a.data, dim, from, what);
  items("coords of dataset", read_items(s.coords()), a.coords);
}

/// Wrong shapes of keys are refused.
void invalid(Gen &g) {
  auto shape = gen_shape(g, 2, 4);
  if (shape.empty())
    throw Discard{};
  Content data;
  data.shape = shape;
  data.type = dtype<double>;
  data.unit = units::m;
  gen_elements(g, data);
  DataArray da(make_view(g, data));
  const auto dim = g.pick(shape).first;
  const auto n = length_of(shape, dim);
  Content key;
  key.type = dtype<double>;
  key.unit = units::m;
  const int how = int(g.draw(3));
  key.shape = {{dim, how == 0 ? n + 1 : how == 1 ? n + 2 : n}};
  if (how == 2)
    key.shape.emplace_back(Dim("other"), 2);
  if (how == 3)
    key.shape = {{Dim("other"), n}};
  gen_elements(g, key);
  const auto kv = make_view(g, key);
  const auto what = cat(show(data), " by ", show(key));
  g.note([&] { return what; });
  g.nontrivial(true);
  const auto throws = [&](auto &&f) {
    try {
      f();
    } catch (const std::exception &) {
      return true;
    }
    return false;
  };
  PBT_CHECK("sort with a wrong key", throws([&] { static_cast<void>(sd::sort(da, kv)); }), what);
  Content e;
  e.shape = {{Dim("group"), 2}};
  e.type = dtype<double>;
  e.unit = units::m;
  e.val = {-100, 100};
  PBT_CHECK("groupby with a wrong key",
            throws([&] { static_cast<void>(sd::groupby(da, kv, make_plain(e)).sum(dim)); }), what);
  PBT_CHECK("input unchanged", read(da.data()) == data, what);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C46";
  p.rule = "Data arrays of 1 to 3 dimensions (memory layouts with gaps, permutations, repetition), masks and "
           "metadata of any subset of dimensions; keys of 7 types with repetitions, NaN, as coordinate, attribute or "
           "variable; groups and bins. Non-trivial: several groups, one with more than one member; at least 3 slices.";
  p.laws = {{"arrays", 100000, 2000000, arrays},
            {"binned", 50000, 1000000, binned},
            {"concat", 60000, 1000000, concat},
            {"sort", 80000, 1500000, sorting},
            {"invalid", 10000, 100000, invalid}};
  return run(argc, argv, p);
}
