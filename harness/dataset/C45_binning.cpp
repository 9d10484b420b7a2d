// sanitize: -D_GLIBCXX_ASSERTIONS
// C45: binning and grouping lose no event and put each where it belongs.
#include "../gen_binned.h"

#include "scipp/dataset/bin.h"
#include "scipp/variable/creation.h"

using namespace gv;
namespace sd = scipp::dataset;

namespace {
/// One key of binning or grouping.
struct Key {
  std::string name;
  bool group = false;
  Meta values; // edges or groups
};
/// Index of the bin or group, or -1.
idx target(const Key &key, const Content &line, const double x) {
  for (size_t j = 0; j < line.val.size(); ++j)
    if (key.group ? line.val[j] == x : j + 1 < line.val.size() && line.val[j] <= x && x < line.val[j + 1])
      return idx(j);
  return -1;
}
Meta gen_key_values(Gen &g, const bool group, const Dim dim, const Column &col, const Shape &outer) {
  Meta m;
  if (group) {
    const bool range = g.boolean(0.5);
    std::vector<double> values;
    const auto lo = g.integer(-4, 6);
    const auto n = g.length(1, 6);
    if (range)
      for (idx i = 0; i < n; ++i)
        values.push_back(double(lo + i));
    else {
      std::set<double> seen;
      for (idx i = 0; i < n; ++i) {
        const auto x = double(g.integer(-4, 16));
        if (seen.insert(x).second)
          values.push_back(x);
      }
    }
    m.c.shape = {{dim, idx(values.size())}};
    m.c.type = col.type;
    m.c.unit = col.unit;
    m.c.val = values;
    return m;
  }
  Shape s{{dim, g.length(2, 6)}};
  if (!outer.empty() && g.boolean(0.15))
    s.insert(s.begin(), g.pick(outer));
  const auto type = g.boolean(0.7) ? col.type
                    : is_real(col.type)
                        ? g.one_of<DType>({dtype<double>, dtype<float>})
                        : col.type == dtype<int64_t>
                        ? g.one_of<DType>({dtype<double>, dtype<int64_t>})
                        : g.one_of<DType>({dtype<double>, dtype<int64_t>, dtype<int32_t>});
  m.c = ascending(g, s, dim, type, col.unit, false, double(g.integer(-6, 4)));
  return m;
}

/// A table: each row is an event.
void table(Gen &g) {
  Events e;
  EventOptions o;
  o.maxlen = 12;
  o.coords = {"x", "y", "lab"};
  e = gen_events(g, Shape{}, o);
  const auto &rows = e.bins[0];
  const Dim dim = g.boolean(0.7) ? Dim("event") : Dim("x");
  auto da = make_table(g, e, rows, dim);
  Array scalars;
  if (g.boolean(0.4)) {
    Meta m;
    m.c.type = dtype<double>;
    m.c.unit = units::s;
    m.c.val = {double(g.integer(0, 9))};
    scalars.coords["lab3"] = m;
    da.coords().set(Dim("lab3"), make_plain(m.c));
  }
  if (g.boolean(0.2)) {
    Meta m;
    m.c.type = dtype<bool>;
    m.c.unit = units::none;
    m.c.val = {double(g.boolean())};
    scalars.masks["m"] = m;
    da.masks().set("m", make_plain(m.c));
  }
  std::vector<Key> keys;
  for (const auto &[k, col] : e.coords) {
    if (g.boolean(0.35))
      continue;
    Key key;
    key.name = k;
    key.group = g.boolean(is_real(col.type) ? 0.15 : 0.5);
    key.values = gen_key_values(g, key.group, Dim(k), col, {});
    keys.push_back(key);
  }
  if (keys.empty())
    throw Discard{};
  keys = g.permutation(keys);
  std::vector<Variable> edges, groups;
  std::string text;
  for (auto &k : keys) {
    (k.group ? groups : edges).push_back(make_item(g, k.values, !k.group));
    text += cat(k.group ? "\n  group " : "\n  bin ", k.name, " ", show(k.values.c));
  }
  const auto what = cat("table ", show(rows), " along ", dim.name(), text);
  g.note([&] { return what; });
  // Dimensions: an existing one first, then groups, then bins.
  std::vector<Key> order;
  for (const auto &k : keys)
    if (Dim(k.name) == dim)
      order.push_back(k);
  for (const bool group : {true, false})
    for (const auto &k : keys)
      if (Dim(k.name) != dim && k.group == group)
        order.push_back(k);
  Shape shape;
  for (const auto &k : order)
    shape.emplace_back(Dim(k.name), k.values.c.shape[0].second - (k.group ? 0 : 1));
  std::vector<std::vector<Row>> expected(size_t(volume(shape)));
  idx kept = 0;
  for (const auto &r : rows) {
    std::vector<idx> at;
    for (const auto &k : order)
      at.push_back(target(k, k.values.c, r.coords.at(k.name)));
    if (std::count(at.begin(), at.end(), -1) > 0)
      continue;
    auto row = r;
    for (const auto &k : order)
      if (k.group)
        row.coords.erase(k.name);
    expected[size_t(position(shape, shape, at))].push_back(row);
    ++kept;
  }
  g.nontrivial(kept > 1);
  DataArray out;
  try {
    out = sd::bin(da, edges, groups);
  } catch (const std::exception &ex) {
    PBT_CHECK("binning a table throws", false, what, " threw ", ex.what());
  }
  PBT_CHECK("shape of table", shape_of(out.dims()) == shape, what, " -> ", show(shape_of(out.dims())), " expected ",
            show(shape));
  const auto r = read_events(out.data());
  PBT_CHECK("columns", r.weight == e.weight && r.masks == e.masks && r.attrs == e.attrs, what, " -> ", show(r));
  for (const auto &[k, c] : e.coords)
    if (std::none_of(keys.begin(), keys.end(), [&k = k](const auto &x) { return x.group && x.name == k; }))
      PBT_CHECK("coordinate columns", r.coords.count(k) == 1 && r.coords.at(k) == c, what, " -> ", show(r));
  for (size_t i = 0; i < expected.size(); ++i)
    PBT_CHECK("rows of table", same_rows(r.bins[i], expected[i]), what, " bin ", i, " -> ", show(r.bins[i]),
              " expected ", show(expected[i]));
  Items coords = scalars.coords;
  for (const auto &k : keys)
    coords[k.name] = k.values;
  expect_items("coords of table", read_items(out.coords()), coords, what);
  expect_items("masks of table", read_items(out.masks()), scalars.masks, what);
  PBT_CHECK("table unchanged", read_table(da).size() == rows.size() && (scalars.coords.size() + e.coords.size()) ==
            size_t(da.coords().size()), what);
}

void binned(Gen &g) {
  const std::vector<std::string> names{"x", "y", "lab"};
  auto b = gen_binned(g, names);
  const auto &shape = b.e.shape;
  const auto da = make_binned(g, b);
  std::vector<Key> keys;
  for (const auto &k : g.permutation(names)) {
    if (g.boolean(0.45))
      continue;
    Column col;
    if (b.e.coords.count(k))
      col = b.e.coords.at(k);
    else if (b.meta.coords.count(k))
      col = {b.meta.coords.at(k).c.type, b.meta.coords.at(k).c.unit, false};
    else
      continue;
    Key key;
    key.name = k;
    key.group = g.boolean(is_real(col.type) ? 0.15 : 0.4);
    Shape outer;
    for (const auto &x : shape)
      if (x.first != Dim(k))
        outer.push_back(x);
    key.values = gen_key_values(g, key.group, Dim(k), col, outer);
    keys.push_back(key);
  }
  if (keys.empty())
    throw Discard{};
  std::vector<Variable> edges, groups;
  std::string text;
  std::set<Dim> changed, inner;
  for (auto &k : keys) {
    (k.group ? groups : edges).push_back(make_item(g, k.values, !k.group));
    text += cat(k.group ? "\n  group " : "\n  bin ", k.name, " ", gv::show(k.values.c));
    changed.insert(Dim(k.name));
  }
  std::vector<Dim> erase;
  for (const auto &[d, n] : shape)
    if (changed.count(d) == 0 && g.boolean(0.2)) {
      erase.push_back(d);
      text += cat("\n  erase ", d.name());
    }
  const auto what = cat(show(b), text);
  g.note([&] { return what; });

  const std::set<Dim> erased(erase.begin(), erase.end());
  Shape out_shape, builder;
  bool rebin = false, conflict = false;
  const auto size_of = [&](const Key &k) { return length_of(k.values.c.shape, Dim(k.name)) - (k.group ? 0 : 1); };
  std::set<Dim> applied = erased; // masks of these are applied
  for (const auto &[d, n] : shape) {
    const auto it = std::find_if(keys.begin(), keys.end(), [&d = d](const auto &k) { return Dim(k.name) == d; });
    rebin |= it != keys.end();
    if (it != keys.end())
      builder.emplace_back(d, size_of(*it));
    else if (erased.count(d))
      continue;
    else if (rebin) {
      builder.emplace_back(d, n);
      const auto c = b.meta.coords.find(d.name());
      conflict |= c != b.meta.coords.end() && c->second.c.shape.size() != 1;
      const auto at = b.meta.attrs.find(d.name());
      conflict |= at != b.meta.attrs.end() && at->second.c.shape.size() != 1;
    } else
      out_shape.emplace_back(d, n);
  }
  for (const bool group : {true, false})
    for (const auto &k : keys)
      if (find(shape, Dim(k.name)) < 0 && k.group == group)
        builder.emplace_back(Dim(k.name), size_of(k));
  for (const auto &[d, n] : builder)
    applied.insert(d);
  out_shape.insert(out_shape.end(), builder.begin(), builder.end());

  bool possible = !conflict;
  for (const auto &k : keys) {
    if (!b.e.coords.count(k.name)) {
      const auto &c = b.meta.coords.at(k.name).c;
      for (const auto &[d, n] : c.shape)
        possible &= length_of(shape, d) == n; // edges do not tell where an event is
    }
    for (const auto &[d, n] : k.values.c.shape)
      if (d != Dim(k.name))
        possible &= changed.count(d) == 0 && erased.count(d) == 0;
  }
  DataArray out;
  try {
    out = sd::bin(da, edges, groups, erase);
  } catch (const std::exception &ex) {
    PBT_CHECK("binning throws", !possible, what, " threw ", ex.what());
    g.label("refused");
    return;
  }
  if (!possible)
    return; // edges that depend on a changed dimension etc.

  std::vector<std::vector<Row>> expected(size_t(volume(out_shape)));
  std::vector<bool> unknown(expected.size(), false); // below a mask that is kept
  idx kept = 0;
  size_t bin = 0;
  for_each(shape, [&](const std::vector<idx> &at) {
    bool hidden = false;
    for (const auto &[name, m] : b.meta.masks)
      hidden |= depends(m.c, applied) && gv::at(m.c, shape, at) != 0;
    for (const auto &r : b.e.bins[bin++]) {
      std::vector<idx> to;
      for (const auto &[d, n] : out_shape) {
        const auto it = std::find_if(keys.begin(), keys.end(), [&d = d](const auto &k) { return Dim(k.name) == d; });
        if (it == keys.end()) {
          to.push_back(at[size_t(find(shape, d))]);
          continue;
        }
        const auto &c = it->values.c;
        Content line = c;
        if (c.shape.size() > 1) {
          line.val.clear();
          for (idx i = 0; i < length_of(c.shape, d); ++i) {
            std::vector<idx> full;
            for (const auto &[cd, cn] : c.shape)
              full.push_back(cd == d ? i : at[size_t(find(shape, cd))]);
            line.val.push_back(c.val[size_t(position(c.shape, c.shape, full))]);
          }
        }
        const auto x =
            r.coords.count(it->name) ? r.coords.at(it->name) : gv::at(b.meta.coords.at(it->name).c, shape, at);
        to.push_back(target(*it, line, x));
      }
      if (std::count(to.begin(), to.end(), -1) > 0)
        continue;
      const auto p = size_t(position(out_shape, out_shape, to));
      if (hidden)
        continue;
      auto row = r;
      for (const auto &k : keys)
        if (k.group)
          row.coords.erase(k.name);
      expected[p].push_back(row);
      ++kept;
    }
  });
  std::set<Dim> dropped = erased;
  dropped.insert(changed.begin(), changed.end());
  // What a mask hides that stays is not specified.
  size_t p = 0;
  for_each(out_shape, [&](const std::vector<idx> &at) {
    for (const auto &[name, m] : b.meta.masks)
      if (!depends(m.c, dropped) && depends(m.c, applied) && gv::at(m.c, out_shape, at) != 0)
        unknown[p] = true;
    ++p;
  });
  g.nontrivial(kept > 1);
  if (rebin)
    g.label("existing dimension");
  PBT_CHECK("shape", shape_of(out.dims()) == out_shape, what, " -> ", gv::show(shape_of(out.dims())), " expected ",
            gv::show(out_shape));
  const auto r = read_events(out.data());
  PBT_CHECK("columns", r.weight == b.e.weight && r.masks == b.e.masks && r.attrs == b.e.attrs, what, " -> ",
            gv::show(r));
  auto columns = b.e.coords;
  for (const auto &k : keys)
    if (k.group)
      columns.erase(k.name);
  PBT_CHECK("coordinate columns", r.coords == columns, what, " -> ", gv::show(r));
  for (size_t i = 0; i < expected.size(); ++i)
    PBT_CHECK("rows", unknown[i] || same_rows(r.bins[i], expected[i]), what, "\n bin ", i, " -> ", gv::show(r.bins[i]),
              " expected ", gv::show(expected[i]));
  Items coords, masks;
  for (const auto &[k, v] : b.meta.coords)
    if (!depends(v.c, dropped))
      coords[k] = v;
  for (const auto &k : keys) {
    coords[k.name] = k.values;
    coords[k.name].aligned = true;
  }
  for (const auto &[k, v] : b.meta.masks)
    if (!depends(v.c, dropped))
      masks[k] = v;
  expect_items("coords", read_items(out.coords()), coords, what);
  expect_items("masks", read_items(out.masks()), masks, what);
  PBT_CHECK("input unchanged", read_events(da.data()).bins == b.e.bins && read_events(da.data()).coords == b.e.coords,
            what);
}

/// Reduction of a dimension by concatenation of bins.
void concatenate(Gen &g) {
  const std::vector<std::string> names{"x", "y", "lab"};
  auto b = gen_binned(g, names);
  const auto &shape = b.e.shape;
  if (shape.empty())
    throw Discard{};
  const auto da = make_binned(g, b);
  const auto dim = g.pick(shape).first;
  const auto what = cat(show(b), "\n  concatenate ", dim.name());
  g.note([&] { return what; });
  Shape out_shape;
  std::set<Dim> joined, applied{dim};
  for (const auto &[d, n] : shape) {
    const auto get = [&](const Items &items) {
      const auto it = items.find(d.name());
      return it == items.end() ? std::optional<Content>() : it->second.c;
    };
    auto c = get(b.meta.coords);
    if (!c)
      c = get(b.meta.attrs);
    const bool join = c && c->shape.size() != 1 && find(c->shape, dim) >= 0;
    if (join && d == dim)
      throw Discard{}; // the dimension itself has a ragged coordinate
    if (d == dim)
      continue;
    if (join) {
      joined.insert(d);
      if (volume(c->shape) == 0)
        throw Discard{};
    }
    if (c)
      applied.insert(d);
    out_shape.emplace_back(d, join ? 1 : n);
  }
  DataArray out;
  try {
    out = sd::buckets::concatenate(da, dim);
  } catch (const std::exception &ex) {
    PBT_CHECK("concatenate throws", false, what, " threw ", ex.what());
  }
  std::vector<std::vector<Row>> expected(size_t(volume(out_shape)));
  std::vector<bool> unknown(expected.size(), false);
  std::set<Dim> dropped = joined;
  dropped.insert(dim);
  size_t bin = 0;
  idx kept = 0;
  for_each(shape, [&](const std::vector<idx> &at) {
    const auto &rows = b.e.bins[bin++];
    std::vector<idx> to;
    for (const auto &[d, n] : out_shape)
      to.push_back(joined.count(d) ? 0 : at[size_t(find(shape, d))]);
    const auto p = size_t(position(out_shape, out_shape, to));
    for (const auto &[name, m] : b.meta.masks)
      if (gv::at(m.c, shape, at) != 0) {
        if (depends(m.c, dropped))
          return;
        if (depends(m.c, applied))
          unknown[p] = true;
      }
    for (const auto &r : rows)
      expected[p].push_back(r);
    kept += idx(rows.size());
  });
  g.nontrivial(kept > 1 && length_of(shape, dim) > 1);
  if (!joined.empty())
    g.label("joined");
  const auto shape_is = shape_of(out.dims());
  PBT_EQ("dims of concatenate", shape_is.size(), out_shape.size(), what);
  const auto r = read_events(out.data());
  PBT_CHECK("columns", r.weight == b.e.weight && r.masks == b.e.masks && r.attrs == b.e.attrs && r.coords == b.e.coords,
            what, " -> ", gv::show(r));
  for_each(out_shape, [&](const std::vector<idx> &at) {
    const auto e = size_t(position(out_shape, out_shape, at));
    std::vector<idx> other;
    for (const auto &[d, n] : shape_is) {
      PBT_CHECK("dims of concatenate", find(out_shape, d) >= 0 && length_of(out_shape, d) == n, what, " -> ",
                gv::show(shape_is));
      other.push_back(at[size_t(find(out_shape, d))]);
    }
    const auto a = size_t(position(shape_is, shape_is, other));
    PBT_CHECK("rows of concatenate", unknown[e] || same_rows(r.bins[a], expected[e]), what, "\n bin ", e, " -> ",
              gv::show(r.bins[a]), " expected ", gv::show(expected[e]));
  });
  Items coords, masks;
  for (const auto &[k, v] : b.meta.coords)
    if (!depends(v.c, dropped))
      coords[k] = v;
  auto actual = read_items(out.coords());
  for (const auto &d : joined) { // one bin with all there was
    auto it = b.meta.coords.find(d.name());
    const auto &c = it == b.meta.coords.end() ? b.meta.attrs.at(d.name()).c : it->second.c;
    Meta m;
    m.c = c;
    m.c.shape = {{d, 2}};
    m.c.val = {*std::min_element(c.val.begin(), c.val.end()), *std::max_element(c.val.begin(), c.val.end())};
    m.c.var.clear();
    coords[d.name()] = m;
  }
  for (const auto &[k, v] : b.meta.masks)
    if (!depends(v.c, dropped))
      masks[k] = v;
  expect_items("coords of concatenate", actual, coords, what, false);
  expect_items("masks of concatenate", read_items(out.masks()), masks, what);
  PBT_CHECK("input unchanged", read_events(da.data()).bins == b.e.bins, what);
}

/// Many events and many bins.
void large(Gen &g) {
  const idx n = g.one_of<idx>({300, 5000, 100001, 150000});
  const bool many_bins = g.boolean(0.6);
  const idx nx = many_bins ? g.integer(120, 300) : g.integer(1, 20);
  const idx ny = many_bins ? g.integer(140, 200) : g.integer(1, 20);
  const bool group = g.boolean(0.4);
  auto state = g.draw(1u << 30);
  const auto next = [&state](const idx m) {
    state = state * 6364136223846793005u + 1442695040888963407u;
    return idx(state >> 33) % m;
  };
  Content data, x, y;
  data.shape = x.shape = y.shape = {{Dim("event"), n}};
  data.type = dtype<double>;
  x.type = dtype<double>;
  y.type = dtype<int64_t>;
  x.unit = y.unit = units::m;
  data.unit = units::counts;
  for (idx i = 0; i < n; ++i) {
    data.val.push_back(double(i)); // which event it is
    x.val.push_back(double(next(4 * (nx + 2))) / 4 - 1);
    y.val.push_back(double(next(ny + 2)) - 1);
  }
  const bool linspace = g.boolean();
  Content xe, ye;
  xe.type = dtype<double>;
  ye.type = dtype<int64_t>;
  xe.unit = ye.unit = units::m;
  xe.shape = {{Dim("x"), nx + 1}};
  ye.shape = {{Dim("y"), group ? ny : ny + 1}};
  for (idx i = 0; i <= nx; ++i)
    xe.val.push_back(double(i) + (linspace || i % 3 != 1 ? 0 : 0.25));
  for (idx i = 0; i < ye.shape[0].second; ++i)
    ye.val.push_back(double(i));
  DataArray da(make_plain(data), {{Dim("x"), make_plain(x)}, {Dim("y"), make_plain(y)}});
  const auto what = cat(n, " events ", nx, " x ", ny, group ? " groups" : " bins");
  g.note([&] { return what; });
  const auto out = group ? sd::bin(da, {make_plain(xe)}, {make_plain(ye)})
                         : sd::bin(da, {make_plain(xe), make_plain(ye)});
  const auto dims = shape_of(out.dims());
  const auto sx = find(dims, Dim("x")), sy = find(dims, Dim("y"));
  PBT_CHECK("shape of many", sx >= 0 && sy >= 0 && dims[size_t(sx)].second == nx && dims[size_t(sy)].second == ny, what);
  std::vector<bool> seen(size_t(n), false);
  idx inside = 0;
  for (idx i = 0; i < n; ++i)
    inside += x.val[size_t(i)] >= xe.val.front() && x.val[size_t(i)] < xe.val.back() && y.val[size_t(i)] >= 0 &&
              y.val[size_t(i)] < double(ny);
  idx found = 0, bin = 0;
  const auto values = out.data().values<bucket<DataArray>>();
  for (const auto &rows : values) {
    const auto ix = sx == 0 ? bin / dims[1].second : bin % dims[1].second;
    const auto iy = sy == 0 ? bin / dims[1].second : bin % dims[1].second;
    ++bin;
    const auto w = read(rows.data()), rx = read(rows.coords()[Dim("x")]);
    Content ry;
    if (!group)
      ry = read(rows.coords()[Dim("y")]);
    for (size_t k = 0; k < w.val.size(); ++k) {
      const auto id = size_t(w.val[k]);
      PBT_CHECK("event twice", !seen[id], what);
      seen[id] = true;
      ++found;
      PBT_CHECK("columns of an event", rx.val[k] == x.val[id] && (group || ry.val[k] == y.val[id]), what);
      PBT_CHECK("bin of an event",
                x.val[id] >= xe.val[size_t(ix)] && x.val[id] < xe.val[size_t(ix) + 1] && idx(y.val[id]) == iy, what,
                " event ", id);
    }
  }
  PBT_EQ("number of events", found, inside, what);
  g.nontrivial(found > 0);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C45";
  p.rule = "Tables and binned data of up to 2 dimensions (memory layouts with gaps, permutations, views) with "
           "edges and groups of up to 3 keys, existing or new, erased dimensions, masks, 2-D edges; each bin "
           "compared, as a set of rows, with what the definition gives. Non-trivial: more than one event "
           "lands in a bin.";
  p.laws = {{"table", 80000, 1500000, table},
            {"binned", 120000, 2500000, binned},
            {"concatenate", 60000, 1000000, concatenate},
            {"large", 16, 300, large}};
  return run(argc, argv, p);
}
