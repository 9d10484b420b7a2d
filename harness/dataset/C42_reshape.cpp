// sanitize: -D_GLIBCXX_ASSERTIONS
// C42: changes of shape and label-based selection carry all metadata along.
#include "../gen_data.h"

#include "scipp/dataset/extract.h"
#include "scipp/dataset/shape.h"
#include "scipp/dataset/slice.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/shape.h"

using namespace gv;

namespace {
template <class F> std::string error_of(F &&f) {
  try {
    f();
  } catch (const std::exception &e) {
    return cat("threw: ", e.what());
  }
  return {};
}
bool is_edge(const Shape &item, const Shape &sizes, const Dim d) {
  const auto i = find(item, d);
  if (i < 0)
    return false;
  const auto n = item[size_t(i)].second;
  return find(sizes, d) < 0 ? n == 2 : n == length_of(sizes, d) + 1;
}
/// Contents with elements out[i] = c[f(i)].
template <class F> Content gather(const Content &c, const Shape &shape, F &&f) {
  Content out = c;
  out.shape = shape;
  out.val.clear();
  out.var.clear();
  for_each(shape, [&](const std::vector<idx> &i) {
    const std::vector<idx> from = f(i);
    idx p = 0;
    for (size_t k = 0; k < c.shape.size(); ++k)
      p = p * c.shape[k].second + from[k];
    out.val.push_back(c.val.at(size_t(p)));
    if (c.has_var)
      out.var.push_back(c.var.at(size_t(p)));
  });
  return out;
}
Content reorder(const Content &c, const Shape &like) {
  if (c.shape.size() != like.size())
    return c;
  Shape shape;
  for (const auto &[d, n] : like) {
    if (find(c.shape, d) < 0)
      return c;
    shape.emplace_back(d, length_of(c.shape, d));
  }
  return gather(c, shape, [&](const std::vector<idx> &i) {
    std::vector<idx> from;
    for (const auto &[d, n] : c.shape)
      from.push_back(i[size_t(find(shape, d))]);
    return from;
  });
}
Content select(const Content &c, const Dim d, const std::vector<idx> &which) {
  auto shape = c.shape;
  const auto k = size_t(find(shape, d));
  shape[k].second = idx(which.size());
  return gather(c, shape, [&](std::vector<idx> i) {
    i[k] = which[size_t(i[k])];
    return i;
  });
}
std::vector<idx> range(const idx a, const idx b) {
  std::vector<idx> out;
  for (idx i = a; i < b; ++i)
    out.push_back(i);
  return out;
}
Content point(const Content &c, const Dim d, const idx at) {
  auto out = select(c, d, {at});
  out.shape.erase(out.shape.begin() + find(out.shape, d));
  return out;
}
Content slice(const Content &c, const Dim d, const idx a, const idx b) { return select(c, d, range(a, b)); }
Content join(const std::vector<Content> &cs, const Dim d) {
  auto shape = cs.front().shape;
  const auto k = size_t(find(shape, d));
  shape[k].second = 0;
  std::vector<std::pair<size_t, idx>> source;
  for (size_t p = 0; p < cs.size(); ++p)
    for (idx i = 0; i < length_of(cs[p].shape, d); ++i)
      source.emplace_back(p, i), ++shape[k].second;
  Content out = cs.front();
  out.shape = shape;
  out.val.clear();
  out.var.clear();
  for_each(shape, [&](const std::vector<idx> &i) {
    const auto &[p, n] = source[size_t(i[k])];
    auto at = i;
    at[k] = n;
    auto &c = cs[p];
    const auto q = position(c.shape, shape, at);
    out.val.push_back(c.val.at(size_t(q)));
    if (c.has_var)
      out.var.push_back(c.var.at(size_t(q)));
  });
  return out;
}
/// Extend by dimension `d` of length `n`, which it may have.
Content extend(const Content &c, const Dim d, const idx n) {
  if (find(c.shape, d) >= 0)
    return c;
  Shape shape{{d, n}};
  shape.insert(shape.end(), c.shape.begin(), c.shape.end());
  return gather(c, shape, [&](const std::vector<idx> &i) { return std::vector<idx>(i.begin() + 1, i.end()); });
}

/// Compare, whatever the order of dimensions of metadata.
void expect_meta(const std::string &sig, const Items &actual, Items expected, const std::string &what) {
  for (auto &[k, v] : expected)
    if (const auto it = actual.find(k); it != actual.end())
      v.c = reorder(v.c, it->second.c.shape);
  expect_items(sig, actual, expected, what);
}
void expect_same(const std::string &sig, const Array &actual, const Array &expected, const std::string &what,
                 const bool name = true) {
  if (name)
    PBT_EQ(sig + " name", actual.name, expected.name, what);
  expect_content(sig + " data", actual.data, expected.data, what);
  expect_meta(sig + " coords", actual.coords, expected.coords, what);
  expect_meta(sig + " masks", actual.masks, expected.masks, what);
  expect_meta(sig + " attrs", actual.attrs, expected.attrs, what);
}
template <class F> void for_each_dict(Array &a, F &&f) {
  f(a.coords);
  f(a.masks);
  f(a.attrs);
}
Content gen_data(Gen &g, const Shape &shape) {
  Content c;
  c.shape = shape;
  c.type = g.boolean(0.6) ? dtype<double> : g.one_of<DType>({dtype<int64_t>, dtype<float>, dtype<bool>});
  c.unit = c.type == dtype<bool> ? units::none : units::m;
  c.has_var = (c.type == dtype<double> || c.type == dtype<float>)&&g.boolean(0.3);
  gen_elements(g, c, true);
  return c;
}

// ------------------------------------------------------------- labels
/// Coordinate values along one line.
std::vector<double> gen_line(Gen &g, const idx n, const int kind) {
  std::vector<double> v;
  double x = double(g.integer(-5, 5));
  for (idx i = 0; i < n; ++i) {
    v.push_back(x);
    switch (kind) {
    case 0:
      x += double(g.draw(2)); // ascending, repeats
      break;
    case 1:
      x -= double(g.draw(2));
      break;
    case 2:
      x += double(g.draw(2)) + 1;
      break;
    case 3:
      x -= double(g.draw(2)) + 1;
      break;
    default:
      x = double(g.integer(-5, 5));
    }
  }
  return v;
}
void labels(Gen &g) {
  auto shape = gen_shape(g, 2, 5);
  if (shape.empty())
    shape.emplace_back(dim_label(0), 3);
  const auto [d, n] = g.pick(shape);
  auto ma = gen_array(g, gen_data(g, shape));
  Meta coord;
  const bool edges = g.boolean();
  coord.c.type = g.one_of<DType>({dtype<double>, dtype<int64_t>, dtype<float>, dtype<int32_t>});
  coord.c.unit = units::m;
  coord.c.shape = {{d, n + edges}};
  coord.c.val = gen_line(g, n + edges, int(g.draw(4)));
  ma.coords[d.name()] = coord;
  auto a = make(g, ma);
  const auto x = ma.coords.at(d.name()).c.val;
  const bool ascending = std::is_sorted(x.begin(), x.end());
  const bool descending = std::is_sorted(x.rbegin(), x.rend());
  const bool monotonic = x.size() == 1 || ascending != descending;
  const auto gen_label = [&] {
    Content c;
    c.type = coord.c.type;
    c.unit = g.boolean(0.97) ? units::m : units::s;
    double v = !x.empty() && g.boolean(0.7) ? g.pick(x) : double(g.integer(-8, 12));
    if (c.type == dtype<double> && g.boolean(0.3))
      v += g.one_of<double>({0.5, -0.5, 0.25});
    c.val = {v};
    return c;
  };
  const auto up = x.size() == 1 || ascending;
  // Position of a label in the direction of the coordinate.
  const auto before = [&](const double p, const double q) { return up ? p < q : p > q; };
  std::optional<Array> expected;
  const bool in_set = g.boolean(0.3);
  Dataset set;
  if (in_set)
    set = Dataset(std::map<std::string, DataArray>{{ma.name, a}});
  std::optional<DataArray> out;
  std::string error;
  const auto to_slice = [&](const std::optional<std::pair<idx, idx>> &r) {
    if (!r || r->first > r->second)
      return;
    const auto s = Slice(d, r->first, r->second);
    expected = read(in_set ? set.slice(s)[ma.name] : a.slice(s));
  };
  if (g.boolean()) {
    const auto label = gen_label();
    const auto v = make_plain(label);
    g.note([&] { return cat("label ", d.name(), " ", show(label), " ", show(ma)); });
    std::vector<idx> hits;
    if (edges) {
      if (monotonic)
        for (idx i = 0; i < n; ++i)
          if (!before(label.val[0], x[size_t(i)]) && before(label.val[0], x[size_t(i + 1)]))
            hits.push_back(i);
    } else {
      for (idx i = 0; i < n; ++i)
        if (x[size_t(i)] == label.val[0])
          hits.push_back(i);
    }
    if (hits.size() == 1 && label.unit == units::m)
      expected = read(in_set ? set.slice(Slice(d, hits[0]))[ma.name] : a.slice(Slice(d, hits[0])));
    error = error_of([&] {
      out.emplace(in_set ? scipp::dataset::slice(set, d, v)[ma.name] : scipp::dataset::slice(a, d, v));
    });
    g.label("point");
  } else {
    std::optional<Content> lo, hi;
    if (g.boolean(0.8))
      lo = gen_label();
    if (g.boolean(0.8))
      hi = gen_label();
    g.note([&] { return cat("labels ", lo ? show(*lo) : "-", " to ", hi ? show(*hi) : "-", " ", show(ma)); });
    bool ok = monotonic && !(lo && lo->unit != units::m) && !(hi && hi->unit != units::m);
    if (ok) {
      idx first = 0, last = n;
      if (edges) {
        // from the bin that has begin to the bin before the one whose lower edge reaches end
        if (lo) {
          first = -1;
          for (const auto e : x)
            first += !before(lo->val[0], e);
          first = std::max<idx>(0, first);
        }
        if (hi) {
          last = 0;
          for (const auto e : x)
            last += before(e, hi->val[0]);
          last = std::min(last, n);
        }
      } else {
        if (lo) {
          first = 0;
          for (const auto e : x)
            first += before(e, lo->val[0]);
        }
        if (hi) {
          last = 0;
          for (const auto e : x)
            last += before(e, hi->val[0]);
        }
      }
      to_slice(std::pair(first, last));
    }
    const auto v = lo ? make_plain(*lo) : Variable{};
    const auto w = hi ? make_plain(*hi) : Variable{};
    error = error_of([&] {
      out.emplace(in_set ? scipp::dataset::slice(set, d, v, w)[ma.name] : scipp::dataset::slice(a, d, v, w));
    });
    g.label("range");
  }
  g.nontrivial(expected.has_value());
  PBT_EQ("label throws", !error.empty(), !expected, error);
  if (expected)
    expect_array("label", read(*out), *expected, "label");
}

// ------------------------------------------------------------- concat
struct Piece {
  idx begin, end; // end -1: point
};
std::vector<Piece> gen_pieces(Gen &g, const idx n) {
  std::vector<Piece> out;
  const auto kind = g.draw(2); // ranges, points, both
  for (idx i = 0; i < n;) {
    if (kind == 1 || (kind == 2 && g.boolean())) {
      out.push_back({i, -1});
      ++i;
    } else {
      const auto m = std::min(n, i + g.length(0, n));
      if (m == i && g.boolean(0.8))
        continue;
      out.push_back({i, m});
      i = m;
    }
  }
  return out;
}
/// Metadata of concatenated arrays, nothing if there is none.
std::optional<Items> joined(const std::vector<Items> &all, const std::vector<Shape> &sizes, const Dim d,
                            const bool mask) {
  Items out;
  for (const auto &[k, first] : all.front()) {
    std::vector<Content> cs;
    for (const auto &items : all) {
      if (!items.count(k))
        return {};
      cs.push_back(items.at(k).c);
    }
    bool any = false, same_all = true, all_edges = true, any_edge = false;
    std::vector<Content> ext;
    for (size_t p = 0; p < cs.size(); ++p) {
      any |= find(cs[p].shape, d) >= 0;
      same_all &= cs[p] == cs[0];
      const auto e = is_edge(cs[p].shape, sizes[p], d);
      all_edges &= e;
      any_edge |= e;
      ext.push_back(extend(cs[p], d, find(sizes[p], d) < 0 ? 1 : length_of(sizes[p], d)));
    }
    Meta m = first;
    if (!any && same_all) {
      out[k] = m;
      continue;
    }
    if (any_edge) {
      if (!all_edges)
        return {};
      for (size_t p = 0; p + 1 < ext.size(); ++p) {
        const auto n = length_of(ext[p].shape, d);
        if (reorder(point(ext[p], d, n - 1), point(ext[p + 1], d, 0).shape) != point(ext[p + 1], d, 0))
          return {};
        ext[p] = slice(ext[p], d, 0, n - 1);
      }
    }
    for (const auto &e : ext)
      for (const auto &[dim, len] : e.shape)
        if (dim != d && (find(ext[0].shape, dim) < 0 || length_of(ext[0].shape, dim) != len))
          return {};
    m.c = join(ext, d);
    out[k] = m;
  }
  (void)mask;
  return out;
}
void concat_law(Gen &g) {
  auto shape = gen_shape(g, 3, 4);
  if (shape.empty())
    shape.emplace_back(dim_label(0), 3);
  const auto [d, n] = g.pick(shape);
  auto ma = gen_array(g, gen_data(g, shape));
  const auto a = make(g, ma);
  auto pieces = gen_pieces(g, n);
  if (pieces.empty())
    throw Discard{};
  const bool changed = g.boolean(0.4);
  std::vector<DataArray> das;
  std::vector<Array> models;
  for (const auto &[b, e] : pieces) {
    auto da = a.slice(e < 0 ? Slice(d, b) : Slice(d, b, e));
    if (changed && g.boolean(0.5)) {
      auto m = read(da);
      auto *items = g.one_of<Items *>({&m.coords, &m.masks, &m.attrs});
      if (!items->empty()) {
        auto it = items->begin();
        std::advance(it, long(g.draw(items->size() - 1)));
        if (g.boolean(0.15))
          items->erase(it);
        else if (!it->second.c.val.empty()) {
          auto &x = g.pick(it->second.c.val);
          x = it->second.c.type == dtype<bool> ? 1 - x : x + 1;
        }
      }
      da = make(g, m);
    }
    das.push_back(da);
    models.push_back(read(da));
  }
  if (changed && g.boolean(0.2)) {
    const auto p = g.permutation(range(0, idx(das.size())));
    std::vector<DataArray> x;
    std::vector<Array> y;
    for (const auto i : p)
      x.push_back(das[size_t(i)]), y.push_back(models[size_t(i)]);
    das = x;
    models = y;
  }
  // Extra metadata of later arrays are not asserted.
  for (const auto &m : models)
    for (const auto [x, y] : {std::pair(&m.coords, &models[0].coords), std::pair(&m.masks, &models[0].masks),
                              std::pair(&m.attrs, &models[0].attrs)})
      for (const auto &[k, v] : *x)
        if (!y->count(k))
          throw Discard{};
  g.note([&] {
    std::string s = "concat along " + d.name();
    for (const auto &m : models)
      s += "\n" + show(m);
    return s;
  });
  std::vector<Shape> sizes;
  std::vector<Items> coords, masks, attrs;
  std::vector<Content> data;
  for (const auto &m : models) {
    sizes.push_back(m.data.shape);
    coords.push_back(m.coords);
    masks.push_back(m.masks);
    attrs.push_back(m.attrs);
    data.push_back(extend(m.data, d, 1));
  }
  const auto jc = joined(coords, sizes, d, false), jm = joined(masks, sizes, d, true),
             ja = joined(attrs, sizes, d, false);
  const bool ok = jc && jm && ja;
  g.nontrivial(ok && das.size() > 1);
  std::optional<DataArray> out;
  const auto error = error_of([&] { out.emplace(concat(das, d)); });
  PBT_EQ("concat throws", !error.empty(), !ok, error);
  if (ok) {
    auto got = read(*out);
    const auto joined_data = join(data, d);
    Array expected{"", reorder(joined_data, got.data.shape), *jc, *jm, *ja};
    for (auto &[k, v] : expected.coords)
      if (k != d.name() && got.coords.count(k)) {
        bool all = true;
        for (const auto &c : coords)
          all &= c.at(k).aligned;
        if (!all) // not asserted
          v.aligned = got.coords[k].aligned;
      } else
        v.aligned = true;
    expect_same("concat", got, expected, "concat", false);
    if (!changed) {
      // Together again.
      for (auto &[k, v] : got.coords)
        v.aligned = ma.coords.count(k) && ma.coords[k].aligned;
      auto whole = ma;
      whole.data = reorder(whole.data, got.data.shape);
      for_each_dict(whole, [&](Items &items) {
        for (auto &[k, v] : items) {
          const auto &mine = got.coords.count(k) && &items == &whole.coords  ? got.coords
                             : got.masks.count(k) && &items == &whole.masks ? got.masks
                                                                            : got.attrs;
          // equal values of all points are kept as one value
          if (mine.count(k) && mine.at(k).c.shape.size() != v.c.shape.size())
            v = mine.at(k);
        }
      });
      expect_same("slices joined", got, whole, "slices joined", false);
    }
    auto w = got.data;
    for (auto &x : w.val)
      x = x == 1 ? 0 : 1;
    write(out->data(), w);
    for (const auto &[k, v] : out->masks())
      if (!v.is_readonly()) {
        auto c = got.masks.at(k).c;
        for (auto &x : c.val)
          x = 1 - x;
        write(v, c);
      }
  }
  for (size_t i = 0; i < das.size(); ++i)
    expect_array("concat arguments", read(das[i]), models[i], "after concat");
  // A dataset drops edges along a dimension that a point was cut from.
  bool edges_lost = false;
  for (const auto &[b, e] : pieces)
    for (const auto &[k, v] : ma.coords)
      edges_lost |= e < 0 && is_edge(v.c.shape, shape, d);
  if (!changed && ok && !edges_lost && g.boolean(0.3)) {
    const Dataset set(std::map<std::string, DataArray>{{"u", a}, {"v", copy(a)}});
    std::vector<Dataset> parts;
    for (const auto &[b, e] : pieces)
      parts.push_back(set.slice(e < 0 ? Slice(d, b) : Slice(d, b, e)));
    const auto whole = concat(parts, d);
    PBT_EQ("dataset concat", size_t(whole.size()), size_t(2), "items");
    for (const auto name : {"u", "v"}) {
      std::vector<DataArray> items;
      for (const auto &p : parts)
        items.push_back(p[name]);
      auto one = read(concat(items, d));
      auto both = read(whole[name]);
      one.name = name;
      Items apply;
      for (const auto &[k, v] : one.coords) {
        bool all = true;
        for (const auto &x : v.c.shape)
          all &= find(one.data.shape, x.first) >= 0;
        if (all)
          apply[k] = v;
      }
      one.coords = apply;
      expect_array("dataset concat", both, one, name);
    }
  }
}

// ------------------------------------------------------------- shape
Content model_fold(const Content &c, const Dim from, const Shape &to, const bool edges) {
  const auto k = size_t(find(c.shape, from));
  Shape shape(c.shape.begin(), c.shape.begin() + long(k));
  for (const auto &x : to)
    shape.push_back(x);
  if (edges)
    shape.back().second += 1;
  const auto inner = shape.size() - 1;
  (void)inner;
  shape.insert(shape.end(), c.shape.begin() + long(k) + 1, c.shape.end());
  return gather(c, shape, [&](const std::vector<idx> &i) {
    std::vector<idx> from_i(i.begin(), i.begin() + long(k));
    idx p = 0;
    for (size_t j = 0; j < to.size(); ++j)
      p = p * to[j].second + i[k + j];
    from_i.push_back(p);
    from_i.insert(from_i.end(), i.begin() + long(k + to.size()), i.end());
    return from_i;
  });
}
/// Flatten `labels` (with the given sizes), which `c` has in part.
Content model_flatten(const Content &c, const Shape &labels, const Dim to) {
  Shape shape;
  bool done = false;
  idx total = 1;
  for (const auto &[d, n] : labels)
    total *= n;
  for (const auto &x : c.shape)
    if (find(labels, x.first) < 0)
      shape.push_back(x);
    else if (!done)
      shape.emplace_back(to, total), done = true;
  const auto k = size_t(find(shape, to));
  return gather(c, shape, [&](const std::vector<idx> &i) {
    std::vector<idx> at(labels.size());
    auto p = i[k];
    for (auto j = labels.size(); j-- > 0;) {
      at[j] = p % labels[j].second;
      p /= labels[j].second;
    }
    std::vector<idx> from;
    for (const auto &[d, n] : c.shape)
      from.push_back(find(labels, d) >= 0 ? at[size_t(find(labels, d))] : i[size_t(find(shape, d))]);
    return from;
  });
}
std::vector<Shape> factors(const idx n, const std::vector<Dim> &names) {
  std::vector<Shape> out;
  for (idx a = 0; a <= n + 1; ++a)
    for (idx b = 0; b <= n + 1; ++b)
      if (a * b == n)
        out.push_back({{names[0], a}, {names[1], b}});
  out.push_back({{names[0], n}});
  if (n == 8)
    out.push_back({{names[0], 2}, {names[1], 2}, {names[2], 2}});
  return out;
}
void fold_law(Gen &g) {
  auto shape = gen_shape(g, 2, 4);
  const auto d = dim_label(4);
  if (find(shape, d) >= 0)
    throw Discard{};
  const auto n = g.one_of<idx>({4, 6, 8, 2, 3, 1, 0, 5});
  shape.insert(shape.begin() + long(g.draw(shape.size())), {d, n});
  auto ma = gen_array(g, gen_data(g, shape), {.edges = 0.4, .edge_masks = true});
  const auto a = make(g, ma);
  std::vector<Dim> names{Dim("f0"), Dim("f1"), Dim("f2")};
  if (g.boolean(0.3))
    names[g.draw(1)] = d;
  auto to = g.pick(factors(n, names));
  const bool wrong = g.boolean(0.05);
  if (wrong)
    to[0].second += 1;
  idx product = 1;
  for (const auto &x : to)
    product *= x.second;
  g.note([&] { return cat("fold ", d.name(), " to ", show(to), " ", show(ma)); });
  g.nontrivial(!wrong && to.size() > 1 && n > 1);
  std::optional<DataArray> out;
  const auto error = error_of([&] { out.emplace(fold(a, d, dimensions(to))); });
  PBT_EQ("fold throws", !error.empty(), product != n, error);
  if (product == n) {
    auto expected = ma;
    expected.data = model_fold(ma.data, d, to, false);
    for_each_dict(expected, [&](Items &items) {
      for (auto &[k, v] : items)
        if (find(v.c.shape, d) >= 0)
          v.c = model_fold(v.c, d, to, is_edge(v.c.shape, shape, d));
    });
    expect_same("fold", read(*out), expected, "fold");
    std::vector<Dim> labels;
    for (const auto &x : to)
      labels.push_back(x.first);
    if (n > 0) {
      const auto back = flatten(*out, std::optional<scipp::span<const Dim>>(labels), d);
      expect_same("fold and flatten", read(back), ma, "fold and flatten");
    }
  }
  expect_array("arguments", read(a), ma, "after fold");
}
void flatten_law(Gen &g) {
  const auto shape = gen_shape(g, 4, 3);
  auto ma = gen_array(g, gen_data(g, shape), {.edges = 0.4, .edge_masks = true});
  const auto smooth = [&](Items &items) {
    // Edges that can be joined, in part.
    for (auto &[k, v] : items)
      if (g.boolean(0.7) && !v.c.shape.empty()) {
        const auto kind = g.draw(2);
        idx i = 0;
        const auto inner = v.c.shape.back().second;
        for (auto &x : v.c.val) {
          const auto row = i / inner, col = i % inner;
          x = v.c.type == dtype<bool> ? double(kind == 1)
              : kind == 0             ? double(row * (inner - 1) + col)
                                      : 1.0;
          ++i;
        }
      }
  };
  for_each_dict(ma, smooth);
  const auto a = make(g, ma);
  std::vector<Dim> labels;
  const bool all = g.boolean(0.25);
  bool valid = true;
  if (!all && !shape.empty()) {
    const auto b = g.draw(shape.size() - 1), e = b + g.draw(shape.size() - b);
    for (auto i = b; i < e; ++i)
      labels.push_back(shape[i].first);
    if (labels.size() > 1 && g.boolean(0.05)) {
      std::swap(labels[0], labels[1]);
      valid = false;
    }
    if (g.boolean(0.03)) {
      labels.push_back(Dim("none"));
      valid = false;
    }
  }
  auto to = Dim("flat");
  if (!labels.empty() && g.boolean(0.3))
    to = g.pick(labels);
  g.note([&] {
    std::string s;
    for (const auto &l : labels)
      s += l.name() + " ";
    return cat("flatten ", all ? "all" : s, " to ", to.name(), " ", show(ma));
  });
  std::optional<DataArray> out;
  const auto error = error_of([&] {
    out.emplace(all ? flatten(a, {}, to) : flatten(a, std::optional<scipp::span<const Dim>>(labels), to));
  });
  PBT_EQ("flatten throws", !error.empty(), !valid, error);
  if (valid) {
    auto expected = ma;
    if (all)
      for (const auto &x : shape)
        labels.push_back(x.first);
    if (labels.empty()) {
      expected.data.shape.emplace_back(to, 1);
      if (all)
        for_each_dict(expected, [&](Items &items) {
          for (auto &[k, v] : items)
            v.c.shape.emplace_back(to, 1);
        });
    } else {
      Shape sizes;
      idx total = 1;
      for (const auto &l : labels)
        sizes.emplace_back(l, length_of(shape, l)), total *= length_of(shape, l);
      expected.data = model_flatten(ma.data, sizes, to);
      for_each_dict(expected, [&](Items &items) {
        for (auto it = items.begin(); it != items.end();) {
          auto &c = it->second.c;
          bool any = false;
          Dim edge(Dim::Invalid);
          for (const auto &l : labels) {
            any |= find(c.shape, l) >= 0;
            if (is_edge(c.shape, shape, l))
              edge = l;
          }
          if (!any) {
            ++it;
            continue;
          }
          if (edge == Dim::Invalid) {
            c = model_flatten(c, sizes, to);
          } else if (total == 0) {
            // without bins: not asserted
            throw Discard{};
          } else {
            const auto n = length_of(c.shape, edge);
            const auto left = model_flatten(slice(c, edge, 0, n - 1), sizes, to);
            const auto right = model_flatten(slice(c, edge, 1, n), sizes, to);
            if (slice(left, to, 1, total) != slice(right, to, 0, total - 1)) {
              it = items.erase(it);
              g.label("edges dropped");
              continue;
            }
            if (total > n)
              g.label("edges joined");
            c = join({left, slice(right, to, total - 1, total)}, to);
          }
          ++it;
        }
      });
    }
    g.nontrivial(labels.size() > 1 && volume(shape) > 1);
    expect_same("flatten", read(*out), expected, "flatten");
  }
  expect_array("arguments", read(a), ma, "after flatten");
}
void rearrange(Gen &g) {
  auto shape = gen_shape(g, 3, 3);
  if (g.boolean())
    for (auto &x : shape)
      if (g.boolean())
        x.second = 1;
  auto ma = gen_array(g, gen_data(g, shape), {.edges = 0.3});
  const auto a = make(g, ma);
  const auto what = g.draw(3);
  std::optional<DataArray> out;
  std::string error;
  auto expected = ma;
  bool ok = true;
  if (what == 0) {
    auto order = g.permutation(shape);
    if (g.boolean(0.05) && !order.empty()) {
      order.pop_back();
      ok = order.empty();
    }
    std::vector<Dim> dims;
    for (const auto &x : order)
      dims.push_back(x.first);
    g.note([&] { return cat("transpose ", show(order), " ", show(ma)); });
    // No labels: reverse.
    if (order.empty())
      order.assign(shape.rbegin(), shape.rend());
    expected.data = reorder(ma.data, order);
    error = error_of([&] { out.emplace(transpose(a, dims)); });
    g.nontrivial(ok && shape.size() > 1);
  } else if (what == 1) {
    const bool all = g.boolean();
    std::vector<Dim> dims;
    for (const auto &[d, n] : shape)
      if (all ? n == 1 : g.boolean(n == 1 ? 0.6 : 0.05)) {
        dims.push_back(d);
        ok &= n == 1;
      }
    dims = g.permutation(dims);
    g.note([&] { return cat("squeeze ", all ? "all" : cat(dims.size()), " ", show(ma)); });
    if (ok)
      for (const auto &d : dims) {
        expected.data = point(expected.data, d, 0);
        for (auto &[k, v] : expected.coords) {
          if (find(v.c.shape, d) < 0)
            continue;
          if (is_edge(v.c.shape, shape, d)) {
            v.aligned = false;
          } else {
            // A coordinate of just this dimension is not aligned any more.
            if (v.c.shape.size() == 1 ||
                (k == d.name() && std::none_of(v.c.shape.begin(), v.c.shape.end(), [&](const auto &x) {
                   return x.first != d && (is_edge(v.c.shape, shape, x.first) || find(shape, x.first) < 0);
                 })))
              v.aligned = false;
            v.c = point(v.c, d, 0);
          }
        }
        for (auto *items : {&expected.masks, &expected.attrs})
          for (auto &[k, v] : *items)
            if (find(v.c.shape, d) >= 0 && !is_edge(v.c.shape, shape, d))
              v.c = point(v.c, d, 0);
      }
    error = error_of([&] {
      out.emplace(all ? squeeze(a, std::nullopt) : squeeze(a, std::optional<scipp::span<const Dim>>(dims)));
    });
    g.nontrivial(ok && !dims.empty());
  } else if (what == 2) {
    const auto d = shape.empty() || g.boolean(0.05) ? Dim("none") : g.pick(shape).first;
    ok = find(shape, d) >= 0;
    const idx n = g.length(0, 4);
    g.note([&] { return cat("resize ", d.name(), " to ", n, " ", show(ma)); });
    if (ok) {
      expected.data.shape[size_t(find(shape, d))].second = n;
      const auto count = size_t(volume(expected.data.shape));
      expected.data.val.assign(count, 1);
      if (expected.data.has_var)
        expected.data.var.assign(count, 1);
      for_each_dict(expected, [&](Items &items) {
        for (auto it = items.begin(); it != items.end();)
          it = find(it->second.c.shape, d) >= 0 ? items.erase(it) : std::next(it);
      });
    }
    const auto like = g.draw(2);
    auto sizes = expected.data;
    sizes.type = dtype<int64_t>;
    sizes.unit = units::none;
    sizes.has_var = false;
    sizes.var.clear();
    sizes.val.assign(volume(sizes.shape), 1);
    error = error_of([&] {
      if (like == 0)
        out.emplace(resize(a, d, n));
      else {
        const DataArray s(make_plain(sizes));
        if (like == 1 && ok)
          out.emplace(resize(a, d, s));
        else {
          if (!ok)
            throw std::runtime_error("none");
          const auto set = resize(Dataset(std::map<std::string, DataArray>{{"a", a}}), d,
                                  Dataset(std::map<std::string, DataArray>{{"a", s}}));
          out.emplace(set["a"]);
          out->setName(ma.name);
          Items apply;
          for (const auto &[k, v] : expected.coords) {
            bool all = true;
            for (const auto &x : v.c.shape)
              all &= find(shape, x.first) >= 0;
            if (all)
              apply[k] = v;
          }
          expected.coords = apply;
        }
      }
      auto c = read(out->data());
      c.val.assign(c.val.size(), 1);
      c.var.assign(c.var.size(), 1);
      write(out->data(), c);
    });
    g.nontrivial(ok);
  } else {
    // extract
    if (shape.empty())
      throw Discard{};
    const auto [d, n] = g.pick(shape);
    Content cond;
    cond.type = dtype<bool>;
    cond.unit = units::none;
    cond.shape = {{d, n}};
    const auto wrong = g.boolean(0.08) ? 1 + g.draw(2) : 0;
    if (wrong == 1)
      cond.type = dtype<int64_t>;
    if (wrong == 2)
      cond.shape[0].second += 1;
    if (wrong == 3)
      cond.shape[0].first = Dim("none");
    gen_elements(g, cond);
    const auto c = make_view(g, cond);
    ok = wrong == 0;
    g.note([&] { return cat("extract ", show(cond), " ", show(ma)); });
    if (ok) {
      std::vector<idx> which;
      for (idx i = 0; i < n; ++i)
        if (cond.val[size_t(i)])
          which.push_back(i);
      expected.data = select(ma.data, d, which);
      for_each_dict(expected, [&](Items &items) {
        for (auto it = items.begin(); it != items.end();) {
          auto &x = it->second.c;
          if (is_edge(x.shape, shape, d)) {
            it = items.erase(it);
            continue;
          }
          if (find(x.shape, d) >= 0)
            x = select(x, d, which);
          ++it;
        }
      });
      g.nontrivial(!which.empty() && idx(which.size()) < n);
    }
    error = error_of([&] { out.emplace(scipp::extract(a, c)); });
  }
  const auto name = std::vector<std::string>{"transpose", "squeeze", "resize", "extract"}[what];
  PBT_EQ(name + " throws", !error.empty(), !ok, error);
  if (ok) {
    if (what == 1) {
      // which coordinates squeeze leaves aligned is that of slicing (C40)
      const auto got = read(*out);
      for (auto &[k, v] : expected.coords)
        if (got.coords.count(k) && v.c.shape != ma.coords[k].c.shape)
          v.aligned = got.coords.at(k).aligned;
    }
    expect_same(name, read(*out), expected, name);
  }
  expect_array("arguments", read(a), ma, name);
}
void merge_law(Gen &g) {
  const auto shape = gen_shape(g, 2, 3);
  const auto gen_coords = [&] {
    return gen_array(g, gen_data(g, shape), {.edges = 0.2, .unaligned = 0, .extra_dim = false}).coords;
  };
  auto ca = gen_coords(), cb = gen_coords();
  for (const auto &[k, v] : ca)
    if (g.boolean(0.85) && cb.count(k))
      cb[k] = v;
  std::map<std::string, Array> ia, ib;
  const auto gen_own = [&](const std::string &n) {
    auto c = gen_data(g, shape);
    auto x = gen_array(g, c, {.edges = 0, .coords = 0});
    x.coords.clear();
    x.name = n;
    return x;
  };
  for (const auto n : {"a", "b", "c"}) {
    if (g.boolean())
      ia[n] = gen_own(n);
    if (g.boolean())
      ib[n] = ia.count(n) && g.boolean(0.85) ? ia[n] : gen_own(n);
  }
  const auto build = [&](std::map<std::string, Array> &items, Items &coords) {
    scipp::core::Dict<std::string, DataArray> data;
    scipp::core::Dict<Dim, Variable> c;
    for (auto &[k, v] : coords)
      c.insert_or_assign(Dim(k), make_item(g, v, false));
    for (auto &[k, v] : items)
      data.insert_or_assign(k, make(g, v, false, false));
    return Dataset(data, c);
  };
  const auto a = build(ia, ca), b = build(ib, cb);
  g.note([&] {
    std::string s = cat("merge ", show(ca), "\n with ", show(cb));
    for (const auto &[k, v] : ia)
      s += "\na " + show(v);
    for (const auto &[k, v] : ib)
      s += "\nb " + show(v);
    return s;
  });
  // Coordinates as in operations (C41)
  bool ok = true;
  Items coords;
  for (const auto &[k, v] : ca)
    if (!cb.count(k)) {
      if (v.aligned)
        coords[k] = v;
    } else if (v.aligned && cb[k].aligned) {
      ok &= v.c == cb[k].c;
      coords[k] = v;
    } else if (v.aligned || cb[k].aligned)
      coords[k] = v.aligned ? v : cb[k];
    else if (v.c == cb[k].c)
      coords[k] = v;
  for (const auto &[k, v] : cb)
    if (!ca.count(k) && v.aligned)
      coords[k] = v;
  for (const auto &[k, v] : ib)
    if (ia.count(k)) {
      // compared with coordinates
      const auto &w = ia[k];
      ok &= v.data == w.data && v.masks == w.masks && v.attrs == w.attrs && ca == cb;
    }
  std::optional<Dataset> out;
  const auto error = error_of([&] { out.emplace(merge(a, b)); });
  g.nontrivial(ok && !ia.empty() && !ib.empty());
  PBT_EQ("merge throws", !error.empty(), !ok, error);
  if (!ok)
    return;
  auto items = ia;
  items.insert(ib.begin(), ib.end());
  PBT_EQ("merge", size_t(out->size()), items.size(), "items");
  for (auto &[k, v] : items) {
    PBT_CHECK("merge", out->contains(k), k);
    v.coords = coords;
    expect_array("merge", read((*out)[k]), v, k);
  }
  expect_items("merge coords", read_items(out->coords()), coords, "merge");
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C42";
  p.rule = "Data arrays of up to 4 dimensions with coordinates, bin edges, masks and attributes in random "
           "memory layouts; labels on, between and outside of coordinate values; all cuts into pieces, also "
           "changed ones; compared with index arithmetic. Non-trivial: the operation succeeds and selects, "
           "moves or joins elements.";
  p.laws = {{"labels", 150000, 3000000, labels},      {"concat", 60000, 1200000, concat_law},
            {"fold", 60000, 1200000, fold_law},       {"flatten", 80000, 1500000, flatten_law},
            {"rearrange", 100000, 2000000, rearrange}, {"merge", 40000, 800000, merge_law}};
  return run(argc, argv, p);
}
