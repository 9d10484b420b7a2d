// sanitize: -D_GLIBCXX_ASSERTIONS
// C47: binned data arrays behave event by event, table columns stay with their events.
#define VERIF_ALL_TYPES
#include "../gen_binned.h"
#include "../reduce_model.h"

#include "scipp/dataset/astype.h"
#include "scipp/dataset/bins_view.h"
#include "scipp/dataset/extract.h"
#include "scipp/dataset/generated_reduction.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"
#include "scipp/dataset/shape.h"
#include "scipp/dataset/sort.h"
#include "scipp/dataset/to_unit.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/math.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/to_unit.h"

using namespace gv;
namespace sd = scipp::dataset;

namespace {
const std::vector<std::string> names{"x", "y", "lab"};
template <class F> bool throws(F &&f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
bool same_columns(const Events &a, const Events &b) {
  return a.shape == b.shape && a.weight == b.weight && a.coords == b.coords && a.attrs == b.attrs && a.masks == b.masks &&
         a.bins.size() == b.bins.size();
}
bool same_events(const Events &a, const Events &b) { return same_columns(a, b) && a.bins == b.bins; }
void expect_events(const std::string &sig, const Variable &v, const Events &expected, const std::string &what) {
  const auto a = read_events(v);
  PBT_CHECK(sig + " columns", same_columns(a, expected), what, "\n -> ", gv::show(a), "\n expected ", gv::show(expected));
  PBT_CHECK(sig, a.bins == expected.bins, what, "\n -> ", gv::show(a), "\n expected ", gv::show(expected));
}
Content weights(const Events &e, const size_t i) {
  Content c;
  c.shape = {{Dim("event"), idx(e.bins[i].size())}};
  c.type = e.weight.type;
  c.unit = e.weight.unit;
  c.has_var = e.weight.has_var;
  for (const auto &r : e.bins[i]) {
    c.val.push_back(r.w);
    if (c.has_var)
      c.var.push_back(r.v);
  }
  return c;
}
void set_weights(Events &e, const size_t i, const Content &c) {
  e.weight = {c.type, c.unit, c.has_var};
  for (size_t k = 0; k < e.bins[i].size(); ++k) {
    e.bins[i][k].w = c.val[k];
    e.bins[i][k].v = c.has_var ? c.var[k] : 0;
  }
}
Content scalar_at(const Content &c, const Shape &shape, const std::vector<idx> &pos) {
  Content s = c;
  s.shape = {};
  s.val = {at(c, shape, pos)};
  s.var.clear();
  if (c.has_var)
    s.var = {var_at(c, shape, pos)};
  return s;
}
Events gen(Gen &g, const Shape &shape, double var = 0.25) {
  EventOptions o;
  o.coords = names;
  o.var = var;
  return gen_events(g, shape, o);
}
Shape some_shape(Gen &g) { return gen_shape(g, 3, 3, 0.03); }
Shape subset(Gen &g, const Shape &shape) {
  Shape s;
  for (const auto &x : g.permutation(shape))
    if (g.boolean(0.6))
      s.push_back(x);
  return s;
}

/// Operation on weights.
void elements(Gen &g) {
  auto e = gen(g, some_shape(g));
  const auto v = make_events(g, e);
  const auto kind = g.draw(3);
  const auto kept = e;
  Variable out;
  auto expected = e;
  std::string what;
  const auto each = [&](auto &&op) {
    if (e.bins.empty()) // type and unit
      throw Discard{};
    for (size_t i = 0; i < e.bins.size(); ++i)
      set_weights(expected, i, read(op(i)));
  };
  idx total = 0;
  for (const auto &b : e.bins)
    total += idx(b.size());
  g.nontrivial(total > 1);
  if (kind == 0) { // one operand
    const auto op = g.draw(4);
    const auto f = [&](const Variable &x) {
      switch (op) {
      case 0: return -x;
      case 1: return abs(x);
      case 2: return astype(x, dtype<double>);
      case 3: return astype(x, dtype<float>);
      default: return x * (2.0 * units::m);
      }
    };
    what = cat("operation ", op, " of ", gv::show(e));
    g.note([&] { return what; });
    out = f(v);
    each([&](const size_t i) { return f(make_plain(weights(e, i))); });
  } else if (kind == 1) { // with an array
    Content c;
    c.shape = subset(g, e.shape);
    c.type = g.one_of<DType>({dtype<double>, dtype<float>, dtype<int64_t>});
    if (e.weight.type == dtype<int32_t> && c.type != dtype<double>)
      c.type = dtype<int32_t>;
    if (e.weight.type == dtype<float> && c.type == dtype<int64_t>)
      c.type = dtype<float>;
    c.unit = g.boolean(0.8) ? e.weight.unit : units::m;
    gen_elements(g, c);
    for (auto &x : c.val)
      if (x == 0)
        x = 1;
    const auto other = make_view(g, c);
    const auto op = g.draw(3);
    const bool left = g.boolean(0.3), in_place = !left && g.boolean(0.4);
    const auto f = [&](const Variable &x, const Variable &y) {
      switch (op) {
      case 0: return x + y;
      case 1: return x - y;
      case 2: return x * y;
      default: return x / y;
      }
    };
    what = cat(in_place ? "in-place " : "", "operation ", op, left ? " of array and " : " of ", gv::show(e), " and ", show(c));
    g.note([&] { return what; });
    const auto dense = [&](const size_t i, const std::vector<idx> &pos) {
      const auto w = make_plain(weights(e, i));
      const auto s = make_plain(scalar_at(c, e.shape, pos));
      auto r = left ? f(s, w) : f(w, s);
      return in_place ? astype(r, e.weight.type) : r;
    };
    if (in_place) { // only what keeps the type
      if (e.weight.type != dtype<double> || c.type != dtype<double>)
        throw Discard{};
      out = copy(v);
      auto target = g.boolean() ? Variable(v) : out;
      const bool own = target.is_same(v);
      const auto g_ = [&](Variable &x) {
        switch (op) {
        case 0: x += other; break;
        case 1: x -= other; break;
        case 2: x *= other; break;
        default: x /= other;
        }
      };
      const bool bad = op < 2 && c.unit != e.weight.unit;
      const bool unit_changes = op >= 2;
      bool failed = throws([&] { g_(target); });
      if (failed) {
        PBT_CHECK("in place throws", bad || (unit_changes && own), what);
        expect_events("failed operation", v, kept, what);
        return;
      }
      PBT_CHECK("wrong unit accepted", !bad, what);
      out = target;
    } else {
      const bool bad = op < 2 && c.unit != e.weight.unit;
      bool failed = false;
      try {
        out = left ? f(other, v) : f(v, other);
      } catch (const std::exception &ex) {
        PBT_CHECK("operation throws", bad || (left && !c.shape.empty()), what, " threw ", ex.what());
        failed = true;
      }
      if (failed) {
        expect_events("failed operation", v, kept, what);
        return;
      }
      PBT_CHECK("wrong unit accepted", !bad, what);
      expect_events("operand", v, kept, what);
      PBT_CHECK("operand", read(other) == c, what);
    }
    if (e.bins.empty())
      return;
    size_t i = 0;
    for_each(e.shape, [&](const std::vector<idx> &pos) {
      set_weights(expected, i, read(dense(i, pos)));
      ++i;
    });
    expect_events("events", out, expected, what);
    return;
  } else if (kind == 2) { // with other bins
    auto e2 = e;
    e2.weight.unit = g.boolean(0.9) ? e.weight.unit : units::m;
    if (g.boolean(0.3))
      e2.masks.clear();
    if (g.boolean(0.3))
      e2.attrs.clear();
    for (auto &rows : e2.bins)
      for (auto &r : rows) {
        const auto fresh = gen_row(g, e2, false);
        r = fresh;
      }
    bool equal_sizes = true;
    if (g.boolean(0.08) && !e2.bins.empty()) {
      auto &rows = e2.bins[g.draw(e2.bins.size() - 1)];
      rows.push_back(gen_row(g, e2, false));
      equal_sizes = false;
    }
    const auto v2 = make_events(g, e2);
    const auto op = g.draw(2);
    what = cat("operation ", op, " of ", gv::show(e), "\n and ", gv::show(e2));
    g.note([&] { return what; });
    const auto f = [&](const Variable &x, const Variable &y) { return op == 0 ? x + y : op == 1 ? x - y : x * y; };
    // Refused, since the tables may differ.
    PBT_CHECK("operation of tables", throws([&] { static_cast<void>(f(v, v2)); }), what);
    auto target = copy(v);
    if (!throws([&] { target += v2; })) { // event by event
      PBT_CHECK("bad operand accepted", equal_sizes && e2.weight.unit == e.weight.unit, what);
      for (size_t i = 0; i < e.bins.size(); ++i) {
        auto w = make_plain(weights(e, i));
        w += make_plain(weights(e2, i));
        set_weights(expected, i, read(w));
      }
      expect_events("events", target, expected, what);
    } else {
      expect_events("failed operation", target, kept, what);
    }
    expect_events("operand", v, kept, what);
    expect_events("other operand", v2, e2, what);
    return;
  } else { // copy of a part into place
    auto target = copy(v);
    auto e2 = e;
    for (auto &rows : e2.bins)
      for (auto &r : rows)
        r = gen_row(g, e2, true);
    const auto source = make_events(g, e2);
    what = cat("copy of ", gv::show(e2), "\n into ", gv::show(e));
    g.note([&] { return what; });
    if (e.shape.empty() || g.boolean(0.3)) {
      copy(source, target);
      expected = e2;
    } else {
      const auto [d, n] = g.pick(e.shape);
      if (n == 0)
        throw Discard{};
      const auto i = g.integer(0, n - 1);
      copy(source.slice({d, i}), target.slice({d, i}));
      size_t k = 0;
      for_each(e.shape, [&, d = d](const std::vector<idx> &pos) {
        if (pos[size_t(find(e.shape, d))] == i)
          expected.bins[k] = e2.bins[k];
        ++k;
      });
    }
    out = target;
    expect_events("source", source, e2, what);
  }
  if (!e.bins.empty())
    expect_events("events", out, expected, what);
  expect_events("operand", v, kept, what);
  // The columns of the result are its own
  auto buffer = out.bin_buffer<DataArray>();
  for (const auto &[k, col] : buffer.coords())
    if (col.dtype() == dtype<double>)
      Variable(col) *= 3.0 * units::one;
  for (const auto &[k, col] : buffer.masks())
    Variable(col) |= true * units::none;
  expect_events("operand shares columns", v, kept, what);
}

/// Masked events do not count.
void reductions(Gen &g) {
  const auto [op, name] = g.pick(ops);
  auto e = gen(g, some_shape(g));
  if (logical(op)) {
    e.weight = {dtype<bool>, units::none, false};
    for (auto &rows : e.bins)
      for (auto &r : rows)
        r.w = double(g.boolean()), r.v = 0;
  }
  const bool extreme = !is_sum(op) && !is_mean(op) && !logical(op);
  for (auto &rows : e.bins)
    for (auto &r : rows) {
      if (is_real(e.weight.type) && g.boolean(0.1))
        r.w = NAN;
      if (e.weight.has_var && extreme)
        r.v = std::isnan(r.w) ? 2 : std::abs(r.w);
    }
  const auto v = make_events(g, e);
  ArrayOptions o;
  Content data;
  data.shape = e.shape;
  data.type = dtype<double>;
  gen_elements(g, data);
  auto meta = gen_array(g, data, o);
  scipp::core::Dict<std::string, Variable> masks;
  for (auto &[k, m] : meta.masks)
    masks.insert_or_assign(k, make_item(g, m));
  const DataArray da(v, {}, std::move(masks));
  const bool each = g.boolean(0.4);
  const bool whole = !each && (e.shape.empty() || g.boolean(0.2));
  Dim dim = Dim::Invalid;
  if (!each && !whole)
    dim = g.pick(e.shape).first;
  const auto what = cat(name, each ? " of each bin" : cat(" over ", whole ? "everything" : dim.name()), " of ", gv::show(e),
                        "\n  masks", show(meta.masks));
  g.note([&] { return what; });
  Shape out;
  if (!whole)
    for (const auto &x : e.shape)
      if (x.first != dim)
        out.push_back(x);
  std::vector<std::vector<Elem>> lists(static_cast<size_t>(volume(out)));
  size_t i = 0;
  bool some = false;
  for_each(e.shape, [&](const std::vector<idx> &pos) {
    const auto &rows = e.bins[i++];
    if (!each)
      for (const auto &[k, m] : meta.masks)
        if ((whole ? !m.c.shape.empty() : find(m.c.shape, dim) >= 0) && at(m.c, e.shape, pos) != 0)
          return;
    auto &list = lists[size_t(position(out, e.shape, pos))];
    for (const auto &r : rows) {
      some |= r.masked();
      if (!r.masked())
        list.push_back({r.w, r.v});
    }
    some |= list.size() > 1;
  });
  g.nontrivial(some);
  Variable r;
  try {
    if (each) {
      switch (op) {
      case Op::Sum: r = bins_sum(v); break;
      case Op::NanSum: r = bins_nansum(v); break;
      case Op::Mean: r = bins_mean(v); break;
      case Op::NanMean: r = bins_nanmean(v); break;
      case Op::Min: r = bins_min(v); break;
      case Op::Max: r = bins_max(v); break;
      case Op::NanMin: r = bins_nanmin(v); break;
      case Op::NanMax: r = bins_nanmax(v); break;
      case Op::All: r = bins_all(v); break;
      case Op::Any: r = bins_any(v); break;
      }
    } else {
      const auto f = [&](auto... d) {
        switch (op) {
        case Op::Sum: return sd::sum(da, d...);
        case Op::NanSum: return sd::nansum(da, d...);
        case Op::Mean: return sd::mean(da, d...);
        case Op::NanMean: return sd::nanmean(da, d...);
        case Op::Min: return sd::min(da, d...);
        case Op::Max: return sd::max(da, d...);
        case Op::NanMin: return sd::nanmin(da, d...);
        case Op::NanMax: return sd::nanmax(da, d...);
        case Op::All: return sd::all(da, d...);
        default: return sd::any(da, d...);
        }
      };
      r = (whole ? f() : f(dim)).data();
    }
  } catch (const std::exception &ex) {
    PBT_CHECK("reduction throws", false, what, " threw ", ex.what());
  }
  const auto a = read(r);
  PBT_CHECK("reduction shape", a.shape == out && a.unit == e.weight.unit && a.type == result_type(op, e.weight.type), what,
            " -> ", show(a));
  const double eps = !is_mean(op) ? 0 : a.type == dtype<float> ? 1e-5 : 1e-13;
  for (size_t k = 0; k < lists.size(); ++k) {
    const auto x = reduce(op, e.weight.type, lists[k]);
    PBT_CHECK("reduction",
              close(a.val[k], x.val, eps, eps) &&
                  (!a.has_var || (is_mean(op) && !std::isfinite(x.val)) || close(a.var[k], x.var, eps, eps)),
              what, " -> ", show(a), " expected ", x.val, " at ", k);
  }
  expect_events("input", v, e, what);
}

/// Parts put together.
void shapes(Gen &g) {
  auto shape = some_shape(g);
  if (shape.empty())
    throw Discard{};
  auto e = gen(g, shape);
  const auto v = make_events(g, e);
  const auto [dim, n] = g.pick(shape);
  const auto k = size_t(find(shape, dim));
  idx total = 0;
  for (const auto &b : e.bins)
    total += idx(b.size());
  g.nontrivial(total > 1);
  std::vector<idx> from; // position along dim for each of the result
  Variable out;
  std::string what;
  const auto kind = g.draw(2);
  if (kind == 0) { // joined slices, some repeated
    std::vector<Variable> parts;
    what = cat("concat along ", dim.name(), " of");
    for (auto m = g.length(1, 4); m > 0; --m) {
      const auto a = g.integer(0, n), b = g.integer(a, n);
      parts.push_back(v.slice({dim, a, b}));
      for (auto i = a; i < b; ++i)
        from.push_back(i);
      what += cat(" ", a, ":", b);
    }
    what += cat(" of ", gv::show(e));
    g.note([&] { return what; });
    out = concat(parts, dim);
  } else if (kind == 1) { // chosen by condition
    Content c;
    c.shape = {{dim, n}};
    c.type = dtype<bool>;
    c.unit = units::none;
    for (idx i = 0; i < n; ++i) {
      c.val.push_back(double(g.boolean()));
      if (c.val.back() != 0)
        from.push_back(i);
    }
    what = cat("extract ", show(c), " of ", gv::show(e));
    g.note([&] { return what; });
    out = scipp::extract(DataArray(v), make_view(g, c, {.broadcast = false})).data();
  } else { // sorted
    Content c;
    c.shape = {{dim, n}};
    c.type = dtype<double>;
    std::vector<double> keys;
    for (idx i = 0; i < n; ++i)
      keys.push_back(double(i));
    c.val = g.permutation(keys);
    from.resize(size_t(n));
    for (idx i = 0; i < n; ++i)
      from[size_t(c.val[size_t(i)])] = i;
    what = cat("sort by ", show(c), " of ", gv::show(e));
    g.note([&] { return what; });
    out = sd::sort(DataArray(v), make_view(g, c, {.broadcast = false})).data();
  }
  auto expected = e;
  expected.shape[k].second = idx(from.size());
  expected.bins.clear();
  for_each(expected.shape, [&](std::vector<idx> pos) {
    pos[k] = from[size_t(pos[k])];
    expected.bins.push_back(e.bins[size_t(position(shape, shape, pos))]);
  });
  PBT_CHECK("shape", shape_of(out.dims()) == expected.shape, what, " -> ", show(shape_of(out.dims())));
  expect_events("parts", out, expected, what);
  expect_events("input", v, e, what);
  // A bin is written only once
  if (!expected.bins.empty()) {
    auto copied = copy(out);
    expect_events("copy", copied, expected, what);
    copied *= astype(2.0 * units::one, e.weight.type);
    expect_events("copy shares", out, expected, what);
  }
}

/// Events of two arrays in common bins.
void join(Gen &g) {
  const auto shape = some_shape(g);
  auto e1 = gen(g, shape), e2 = e1;
  const bool broadcast = !shape.empty() && g.boolean(0.2);
  if (broadcast)
    e2.shape.erase(e2.shape.begin() + long(g.draw(shape.size() - 1)));
  e2.bins.assign(size_t(volume(e2.shape)), {});
  const auto bad = g.boolean(0.15) ? g.integer(1, 5) : 0;
  if (bad == 1)
    e2.weight.unit = Unit("K");
  if (bad == 2)
    e2.coords.begin()->second.unit = Unit("K");
  if (bad == 3)
    e2.coords["more"] = {dtype<double>, units::m, false};
  if (bad == 4)
    e2.masks.insert("more");
  if (bad == 5)
    e2.weight.has_var = false;
  const bool refuse = bad != 0 && bad != 5; // events without variances get variance 0
  for (auto &rows : e2.bins)
    for (auto n = g.length(0, 3); n > 0; --n)
      rows.push_back(gen_row(g, e2, true));
  const auto v1 = make_events(g, e1), v2 = make_events(g, e2);
  const auto how = g.draw(3);
  const auto what = cat(how < 2 ? "concatenate " : "append ", gv::show(e1), "\n and ", gv::show(e2));
  g.note([&] { return what; });
  auto expected = e1;
  size_t i = 0;
  idx total = 0, second = 0;
  for_each(shape, [&](const std::vector<idx> &pos) {
    const auto &rows = e2.bins[size_t(position(e2.shape, shape, pos))];
    expected.bins[i].insert(expected.bins[i].end(), rows.begin(), rows.end());
    total += idx(expected.bins[i++].size());
    second += idx(rows.size());
  });
  g.nontrivial(total > 1);
  Variable out;
  try {
    if (how == 0) {
      out = sd::buckets::concatenate(v1, v2);
    } else if (how == 1) {
      out = sd::buckets::concatenate(DataArray(v1), DataArray(v2)).data();
    } else if (how == 2) {
      out = v1;
      sd::buckets::append(out, v2);
    } else {
      DataArray da(v1);
      sd::buckets::append(da, DataArray(v2));
      out = da.data();
    }
  } catch (const std::exception &ex) {
    PBT_CHECK("joining throws", refuse || (bad == 5 && e1.weight.has_var), what, " threw ", ex.what());
    expect_events("failed", v1, e1, what);
    expect_events("failed", v2, e2, what);
    return;
  }
  PBT_CHECK("other columns accepted", !refuse || total == 0 || second == 0, what);
  if (refuse)
    return;
  expect_events("joined", out, expected, what);
  expect_events("second", v2, e2, what);
  if (how < 2)
    expect_events("first", v1, e1, what);
}

/// A function given by points or a histogram.
struct Function {
  Array a;
  Dim dim = Dim("x");
  Meta coord;
  Content fill;
  bool has_fill = false;
};
double lookup(const Function &f, const Content &edges, const Content &data, const Shape &shape, std::vector<idx> pos,
              const size_t k, const double x, const double fill, const bool previous) {
  const auto n = length_of(shape, f.dim);
  auto big = shape;
  big[k].second = length_of(edges.shape, f.dim);
  for (idx i = n - 1; i >= 0; --i) {
    pos[k] = i;
    if (!(at(edges, big, pos) <= x))
      continue;
    if (!previous) {
      ++pos[k];
      if (!(x < at(edges, big, pos)))
        return fill;
      pos[k] = i;
    }
    return at(data, shape, pos);
  }
  return fill;
}
void functions(Gen &g) {
  const int how = int(g.draw(2)); // map, lookup_previous, scale
  const bool previous = how == 1, scale = how == 2;
  auto e = gen(g, some_shape(g), 0);
  const auto key = std::string("x");
  e.coords[key] = {dtype<double>, units::m, false};
  for (auto &rows : e.bins)
    for (auto &r : rows)
      r.coords[key] = gen_row(g, e, true).coords[key];
  const bool binned = scale || g.boolean();
  auto f_shape = subset(g, e.shape);
  if (!scale && g.boolean(0.1) && find(f_shape, Dim("other")) < 0)
    f_shape.emplace_back(Dim("other"), 2);
  Function f;
  if (find(e.shape, f.dim) >= 0) // the bins of the array have the dimension themselves
    throw Discard{};
  auto shape = f_shape;
  const auto k = g.draw(shape.size());
  shape.insert(shape.begin() + long(k), {f.dim, g.integer(previous ? 0 : 1, 5)});
  const auto n = shape[k].second;
  // types
  auto type = g.one_of<DType>({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<time_point>});
  auto coord_type = type;
  f.a.data.type = g.one_of<DType>({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>});
  if (type == dtype<int64_t> || type == dtype<int32_t> || type == dtype<float>)
    if (g.boolean(0.5))
      type = dtype<double>; // integer events, double edges
  if (scale) {
    type = coord_type = g.one_of<DType>({dtype<double>, dtype<double>, dtype<time_point>});
    f.a.data.type = g.one_of<DType>({dtype<double>, dtype<float>});
    if (!is_real(e.weight.type))
      e.weight.type = dtype<double>;
  }
  if (type == dtype<float> && coord_type == dtype<float> && f.a.data.type == dtype<double>)
    f.a.data.type = dtype<float>;
  const auto unit = type == dtype<time_point> ? units::ns : units::m;
  e.coords[key] = {coord_type, unit, false};
  const auto fit = [&](double x) { return is_real(coord_type) ? x : std::isfinite(x) ? std::floor(x) : 3; };
  for (auto &rows : e.bins)
    for (auto &r : rows)
      r.coords[key] = fit(r.coords[key]);
  f.a.data.shape = shape;
  f.a.data.unit = f.a.data.type == dtype<bool> ? units::none : g.one_of<Unit>({units::one, units::s});
  gen_elements(g, f.a.data);
  auto coord_shape = Shape{{f.dim, previous ? n : n + 1}};
  if (shape.size() > 1 && g.boolean(0.3)) {
    const auto other = g.pick(shape);
    if (other.first != f.dim)
      coord_shape.insert(coord_shape.begin() + long(g.draw(1)), other);
  }
  f.coord.c = ascending(g, coord_shape, f.dim, type, g.boolean(0.93) ? unit : units::one, false, double(g.integer(-4, 4)), 4);
  if (!is_real(type))
    for (auto &x : f.coord.c.val)
      x = std::floor(x);
  const bool unsorted = g.boolean(0.05);
  if (unsorted)
    for (auto &x : f.coord.c.val)
      x = -x;
  ArrayOptions o;
  o.coords = scale ? 0 : 2;
  o.extra_dim = false;
  o.edges = 0;
  f.a = gen_array(g, f.a.data, o);
  f.a.coords.erase(key);
  f.a.attrs.erase(key);
  if (scale)
    for (auto it = f.a.coords.begin(); it != f.a.coords.end();)
      it = find(it->second.c.shape, f.dim) >= 0 ? f.a.coords.erase(it) : std::next(it);
  const bool as_attr = g.boolean(0.1);
  (as_attr ? f.a.attrs : f.a.coords)[key] = f.coord;
  const auto function = make(g, f.a);
  const auto &edges = (as_attr ? f.a.attrs : f.a.coords)[key].c;
  f.has_fill = !scale && g.boolean(0.4);
  Content fill;
  fill.type = f.a.data.type;
  fill.unit = f.a.data.unit;
  fill.val = {f.has_fill ? (fill.type == dtype<bool> ? 1.0 : 42.0) : is_real(fill.type) ? NAN : 0};
  auto data = f.a.data;
  size_t q = 0;
  for_each(shape, [&](const std::vector<idx> &pos) {
    for (const auto &[name, m] : f.a.masks)
      if (find(m.c.shape, f.dim) >= 0 && at(m.c, shape, pos) != 0)
        data.val[q] = scale ? 0 : fill.val[0];
    ++q;
  });
  // coordinates for dense data
  Content points;
  points.shape = subset(g, e.shape);
  points.type = coord_type;
  points.unit = unit;
  for (idx i = 0; i < volume(points.shape); ++i) {
    points.val.push_back(fit(gen_row(g, e, true).coords[key]));
  }
  const auto dense = make_view(g, points);
  const auto v = make_events(g, e);
  const auto what = cat(scale ? "scale " : previous ? "lookup_previous " : "map ", binned ? gv::show(e) : show(points),
                        "\n  by ", show(f.a), f.has_fill ? " with fill" : "");
  g.note([&] { return what; });
  const auto lines_sorted = [&] {
    bool ok = true;
    Shape outer = edges.shape;
    const auto c = size_t(find(outer, f.dim));
    outer.erase(outer.begin() + long(c));
    for_each(outer, [&](std::vector<idx> pos) {
      pos.insert(pos.begin() + long(c), 0);
      for (idx i = 1; i < edges.shape[c].second; ++i) {
        pos[c] = i - 1;
        const auto x = at(edges, edges.shape, pos);
        pos[c] = i;
        ok &= x <= at(edges, edges.shape, pos);
      }
    });
    return ok;
  }();
  const bool bad = !lines_sorted || edges.unit != unit;
  DataArray target;
  Variable out;
  try {
    std::optional<Variable> fill_var;
    if (f.has_fill)
      fill_var = make_plain(fill);
    const auto x = binned ? sd::bins_view<DataArray>(v).meta()[f.dim] : dense;
    if (scale) {
      // scale requires the coordinates of the function
      scipp::core::Dict<Dim, Variable> coords;
      for (const auto &[k_, c] : f.a.coords)
        if (find(c.c.shape, f.dim) < 0)
          coords.insert_or_assign(Dim(k_), make_plain(c.c));
      target = DataArray(copy(v), std::move(coords));
      sd::buckets::scale(target, function, f.dim);
    } else {
      out = previous ? sd::lookup_previous(function, x, f.dim, fill_var)
                     : sd::buckets::map(function, x, g.boolean() ? f.dim : f.dim, fill_var);
    }
  } catch (const std::exception &ex) {
    PBT_CHECK("function throws", bad, what, " threw ", ex.what());
    g.label("refused");
    return;
  }
  if (bad) {
    const auto none = binned ? v.bin_buffer<DataArray>().dims().volume() == 0 || volume(e.shape) == 0
                             : volume(points.shape) == 0;
    PBT_CHECK("bad function accepted", none || volume(shape) == 0 || volume(edges.shape) == 0, what);
    return;
  }
  PBT_CHECK("function unchanged", read(function).data == f.a.data, what);
  const auto at_point = [&](const Shape &result, const std::vector<idx> &pos, const double x) {
    std::vector<idx> p;
    for (const auto &[d, len] : shape)
      p.push_back(d == f.dim ? 0 : pos[size_t(find(result, d))]);
    return lookup(f, edges, data, shape, p, k, x, scale ? 0 : fill.val[0], previous);
  };
  idx inside = 0;
  if (scale) {
    auto expected = e;
    expected.weight.unit = e.weight.unit * f.a.data.unit;
    size_t i = 0;
    for_each(e.shape, [&](const std::vector<idx> &pos) {
      for (auto &r : expected.bins[i]) {
        const auto m = at_point(e.shape, pos, r.coords[key]);
        r.w *= m;
        inside += m != 0;
      }
      ++i;
    });
    const auto a = read_events(target.data());
    PBT_CHECK("scaled columns", same_columns(a, expected), what, " -> ", gv::show(a));
    PBT_CHECK("scaled", a.bins == expected.bins, what, " -> ", gv::show(a));
    Items masks;
    for (const auto &[name, m] : f.a.masks)
      if (find(m.c.shape, f.dim) < 0)
        masks[name] = m;
    expect_items("masks of scaled", read_items(target.masks()), masks, what);
  } else if (binned) {
    const auto b = read_bins(out);
    if (find(b.shape, Dim("other")) < 0)
      PBT_CHECK("shape of looked up", b.shape == e.shape, what, " -> ", show(b));
    PBT_CHECK("looked up columns", b.meta.type == f.a.data.type && b.meta.unit == f.a.data.unit && !b.meta.has_var, what,
              " -> ", show(b));
    size_t i = 0;
    for_each(b.shape, [&](const std::vector<idx> &pos) {
      const auto &rows = e.bins[size_t(position(e.shape, b.shape, pos))];
      PBT_CHECK("looked up", b.val[i].size() == rows.size(), what, " -> ", show(b));
      for (size_t j = 0; j < rows.size(); ++j) {
        const auto x = at_point(b.shape, pos, rows[j].coords.at(key));
        PBT_CHECK("looked up", same(b.val[i][j], x), what, " -> ", show(b), " expected ", x);
        inside += !same(x, fill.val[0]);
      }
      ++i;
    });
  } else {
    const auto c = read(out);
    PBT_CHECK("looked up columns", c.type == f.a.data.type && c.unit == f.a.data.unit && !c.has_var, what, " -> ", show(c));
    for (const auto &s : {points.shape, f_shape})
      for (const auto &x : s)
        PBT_CHECK("dims of looked up", find(c.shape, x.first) >= 0, what, " -> ", show(c));
    size_t i = 0;
    for_each(c.shape, [&](const std::vector<idx> &pos) {
      const auto x = at_point(c.shape, pos, at(points, c.shape, pos));
      PBT_CHECK("looked up", same(c.val[i], x), what, " -> ", show(c), " expected ", x);
      inside += !same(x, fill.val[0]);
      ++i;
    });
  }
  g.nontrivial(inside > 1);
  expect_events("input", v, e, what);
}

/// Columns as binned variables.
void columns(Gen &g) {
  auto e = gen(g, some_shape(g));
  e.coords["x"] = {dtype<double>, units::m, false};
  for (auto &rows : e.bins)
    for (auto &r : rows)
      r.coords["x"] = double(g.integer(0, 9));
  const auto made = make_events(g, e);
  const bool compact = g.boolean();
  const auto v = compact ? copy(made) : made;
  auto view = sd::bins_view<DataArray>(v);
  std::string what = gv::show(e);
  g.note([&] { return what; });
  idx total = 0;
  for (const auto &b : e.bins)
    total += idx(b.size());
  g.nontrivial(total > 1);
  auto now = e;
  // Computed columns have no gaps, they fit only if the table has none.
  const auto set = [&](auto &&f) {
    try {
      f();
    } catch (const std::exception &ex) {
      PBT_CHECK("setting a column throws", !compact, what, " threw ", ex.what());
      g.label("does not fit");
      return false;
    }
    return true;
  };
  const auto column = [&](const Events &from, const std::string &k, const bool attr) {
    std::vector<std::vector<double>> out;
    for (const auto &rows : from.bins) {
      out.emplace_back();
      for (const auto &r : rows)
        out.back().push_back(attr ? r.attrs.at(k) : r.coords.at(k));
    }
    return out;
  };
  const auto read_column = [&](const Variable &x) {
    const auto b = read_bins(x);
    PBT_CHECK("shape of column", b.shape == e.shape, what, " -> ", show(b));
    return b.val;
  };
  const auto equal = [](const auto &a, const auto &b) {
    if (a.size() != b.size())
      return false;
    for (size_t i = 0; i < a.size(); ++i)
      if (!same_elements(a[i], b[i]))
        return false;
    return true;
  };
  for (auto steps = g.length(1, 6); steps > 0; --steps) {
    switch (g.draw(7)) {
    case 0: { // read all
      what += " read";
      for (const auto &[k, c] : now.coords) {
        PBT_CHECK("contains", view.coords().contains(Dim(k)) && view.meta().contains(Dim(k)), what, k);
        PBT_CHECK("column", equal(read_column(view.coords()[Dim(k)]), column(now, k, false)), what, k);
      }
      for (const auto &[k, c] : now.attrs)
        PBT_CHECK("attr", equal(read_column(view.attrs()[Dim(k)]), column(now, k, true)), what, k);
      std::set<std::string> seen;
      for (const auto &[k, c] : view.coords()) {
        seen.insert(k.name());
        PBT_CHECK("item", equal(read_column(c), column(now, k.name(), false)), what, k.name());
      }
      PBT_EQ("items", seen.size(), now.coords.size(), what);
      PBT_EQ("size", view.coords().size(), idx(now.coords.size()), what);
      PBT_EQ("size", view.masks().size(), idx(now.masks.size()), what);
      break;
    }
    case 1: { // computed coordinate
      what += " new=2*x";
      const auto x = view.coords()[Dim("x")];
      if (!set([&] { view.coords().set(Dim("new"), x * (2.0 * units::one)); }))
        break;
      now.coords["new"] = now.coords["x"];
      for (auto &rows : now.bins)
        for (auto &r : rows)
          r.coords["new"] = 2 * r.coords["x"];
      break;
    }
    case 2: { // changed in place
      what += " x+=1";
      auto x = view.coords()[Dim("x")];
      x += 1.0 * units::m;
      for (auto &rows : now.bins)
        for (auto &r : rows)
          r.coords["x"] += 1;
      break;
    }
    case 3: { // mask by comparison
      what += " mask x<5";
      if (!set([&] { view.masks().set("less", less(view.coords()[Dim("x")], 5.0 * units::m)); }))
        break;
      now.masks.insert("less");
      for (auto &rows : now.bins)
        for (auto &r : rows)
          r.masks["less"] = r.coords["x"] < 5;
      break;
    }
    case 4: { // removed
      what += " erase";
      if (now.coords.count("new") == 0) {
        PBT_CHECK("erase of nothing", throws([&] { view.coords().erase(Dim("new")); }), what);
        break;
      }
      view.coords().erase(Dim("new"));
      now.coords.erase("new");
      for (auto &rows : now.bins)
        for (auto &r : rows)
          r.coords.erase("new");
      break;
    }
    case 5: { // other data
      what += " data=x";
      if (g.boolean()) {
        if (!set([&] { view.setData(copy(view.data()) * (2.0 * units::one)); }))
          break;
        for (auto &rows : now.bins)
          for (auto &r : rows)
            r.w *= 2, r.v *= 4;
        now.weight.type = dtype<double>;
      } else {
        if (!set([&] { view.setData(view.coords()[Dim("x")] * (1.0 * units::one)); }))
          break;
        now.weight = now.coords["x"];
        for (auto &rows : now.bins)
          for (auto &r : rows)
            r.w = r.coords["x"], r.v = 0;
      }
      break;
    }
    case 6: { // columns of other bins
      what += " wrong";
      auto other = e;
      if (other.bins.empty())
        break;
      other.bins[g.draw(other.bins.size() - 1)].push_back(gen_row(g, e, false));
      const auto w = make_events(g, other);
      PBT_CHECK("wrong bins accepted",
                throws([&] { view.coords().set(Dim("new"), sd::bins_view<DataArray>(w).coords()[Dim("x")]); }), what);
      break;
    }
    default: { // attr
      what += " attr";
      if (now.attrs.count("at") == 0)
        break;
      const auto a = view.attrs().extract(Dim("at"));
      PBT_CHECK("extracted", equal(read_column(a), column(now, "at", true)), what);
      now.attrs.erase("at");
      for (auto &rows : now.bins)
        for (auto &r : rows)
          r.attrs.erase("at");
    }
    }
    expect_events("view", v, now, what);
  }
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C47";
  p.rule = "Binned data arrays of up to 3 dimensions, bins in any order and with gaps and in slices and transposes "
           "of others, tables with coordinates, attributes and masks of several types; operands, functions and "
           "operations at random, compared event by event. Non-trivial: more than one event takes part.";
  p.laws = {{"elements", 80000, 1500000, elements},   {"reductions", 80000, 1500000, reductions},
            {"shapes", 50000, 1000000, shapes},       {"join", 60000, 1000000, join},
            {"functions", 80000, 1500000, functions}, {"columns", 40000, 800000, columns}};
  return run(argc, argv, p);
}
