// C30: binned variables behave like one array per bin.
// sanitize: -D_GLIBCXX_ASSERTIONS
#include "gen_bins.h"

#include "scipp/variable/arithmetic.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/bins.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/creation.h"
#include "scipp/variable/cumulative.h"
#include "scipp/variable/math.h"
#include "scipp/variable/reduction.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/to_unit.h"
#include "scipp/variable/variable_factory.h"

using namespace gv;
namespace sv = scipp::variable;

namespace {
bool is_flt(const DType t) { return t == dtype<double> || t == dtype<float>; }

Binned gen_binned(Gen &g, const Shape &shape, const bool special = false) {
  Binned b;
  b.shape = shape;
  b.meta.type = g.boolean(0.5) ? dtype<double>
                               : g.one_of<DType>({dtype<float>, dtype<int64_t>, dtype<int32_t>,
                                                  dtype<bool>, dtype<time_point>});
  b.meta.has_var = is_flt(b.meta.type) && g.boolean(0.3);
  b.meta.unit = b.meta.type == dtype<bool>         ? units::none
                : b.meta.type == dtype<time_point> ? units::ns
                                                   : g.one_of<Unit>({units::one, units::m});
  gen_bin_sizes(g, b);
  gen_bin_elements(g, b, special);
  return b;
}
std::string where(const Variable &v) {
  std::string s = layout(v);
  const auto idx_var = v.bin_indices();
  for (const auto &[b, e] : idx_var.values<scipp::index_pair>())
    s += cat(" ", b, ":", e);
  return s;
}

/// One element (or none if that is all there is) to find out about errors.
Variable stand_in(Content c) {
  c.shape.clear();
  c.val = {1};
  c.var = c.has_var ? std::vector<double>{1} : std::vector<double>{};
  return make_plain(c);
}

/// make_bins accepts exactly ranges in the buffer that do not overlap.
void construct(Gen &g) {
  const auto n = g.length(0, 4);
  const auto size = g.length(0, 8);
  std::vector<scipp::index_pair> p;
  idx pos = 0;
  for (idx i = 0; i < n; ++i) {
    const auto len = g.length(0, 3);
    p.emplace_back(pos, pos + len);
    pos += len + static_cast<idx>(g.draw(1));
  }
  p = g.permutation(p);
  if (!p.empty() && g.boolean(0.4)) {
    auto &x = p[g.draw(p.size() - 1)];
    (g.boolean() ? x.first : x.second) += g.integer(-2, 2);
  }
  bool ok = true, unclear = false;
  for (size_t i = 0; i < p.size(); ++i) {
    ok &= 0 <= p[i].first && p[i].first <= p[i].second && p[i].second <= size;
    for (size_t j = 0; j < p.size(); ++j)
      if (i != j) {
        const bool overlap = p[i].first < p[j].second && p[j].first < p[i].second;
        const bool empty = p[i].first >= p[i].second || p[j].first >= p[j].second;
        ok &= !overlap || empty;
        unclear |= overlap && empty;
      }
  }
  if (unclear)
    throw Discard{};
  Placement pl;
  pl.base = p;
  pl.base_shape = {{Dim("x"), n}};
  Content c;
  c.shape = {{Dim("event"), size}};
  c.val.assign(static_cast<size_t>(size), 0);
  for (size_t i = 0; i < c.val.size(); ++i)
    c.val[i] = static_cast<double>(i);
  const auto indices = indices_of(pl);
  const auto what = [&] {
    std::string s = cat("buffer of ", size, " bins");
    for (const auto &[b, e] : p)
      s += cat(" ", b, ":", e);
    return s;
  };
  g.note(what);
  g.nontrivial(n > 0);
  Variable v;
  try {
    v = sv::make_bins(indices, Dim("event"), make_plain(c));
  } catch (const std::exception &e) {
    PBT_CHECK("make-bins-throws", !ok, what(), " ", e.what());
    return;
  }
  PBT_CHECK("make-bins-accepts", ok, what());
  const auto b = read_bins(v);
  const auto sizes = sv::bin_sizes(v);
  for (size_t i = 0; i < p.size(); ++i) {
    PBT_CHECK("bin-size", sizes.values<idx>()[static_cast<idx>(i)] == p[i].second - p[i].first,
              what());
    PBT_CHECK("bin-contents",
              b.size(i) == p[i].second - p[i].first &&
                  (b.val[i].empty() || b.val[i][0] == static_cast<double>(p[i].first)),
              what());
  }
}

/// Copies, equality, sizes.
void whole(Gen &g) {
  const auto b = gen_binned(g, gen_shape(g, 3, 3));
  const auto v = make_binned(g, b);
  const auto what = [&] { return cat(show(b), " ", where(v)); };
  g.note(what);
  g.nontrivial(b.total() > 1);
  PBT_CHECK("read", read_bins(v) == b, what());
  const auto s = read(sv::bin_sizes(v));
  for (size_t i = 0; i < b.val.size(); ++i)
    PBT_CHECK("bin-sizes", s.val[i] == static_cast<double>(b.size(i)), what());
  PBT_CHECK("bin-sizes-shape", s.shape == b.shape && s.unit == units::none, what());
  auto c = sv::copy(v);
  PBT_CHECK("copy", read_bins(c) == b, what(), " -> ", show(read_bins(c)));
  PBT_CHECK("equal-copy", c == v && v == c, what());
  PBT_CHECK("copy-valid", !throws([&] {
              const auto [i, d, buf] = c.constituents<Variable>();
              (void)sv::make_bins(sv::copy(i), d, buf);
            }),
            what());
  // Same bins elsewhere
  const auto w = make_binned(g, b);
  const auto dims_equal = w.bin_buffer<Variable>().dims().inner() ==
                          v.bin_buffer<Variable>().dims().inner();
  if (dims_equal)
    PBT_CHECK("equal", v == w && w == v && !(v != w), what(), " other ", where(w));
  // One element changed
  if (b.total() > 0 && dims_equal) {
    auto d = b;
    size_t i = g.draw(d.val.size() - 1);
    while (d.val[i].empty())
      i = (i + 1) % d.val.size();
    const auto k = g.draw(d.val[i].size() - 1);
    d.val[i][k] = d.meta.type == dtype<bool> ? !d.val[i][k] : d.val[i][k] + 1;
    const auto x = make_binned(g, d);
    PBT_CHECK("unequal", v != x && !(x == v), what(), " other ", show(d));
  }
  // One element moved to the next bin
  if (b.val.size() > 1 && dims_equal && !b.val[0].empty() && !b.val[1].empty()) {
    auto d = b;
    d.val[1].insert(d.val[1].begin(), d.val[0].back());
    d.val[0].pop_back();
    if (d.meta.has_var) {
      d.var[1].insert(d.var[1].begin(), d.var[0].back());
      d.var[0].pop_back();
    }
    PBT_CHECK("unequal-sizes", v != make_binned(g, d), what());
  }
  // Writing to the copy does not show here
  if (b.meta.type == dtype<double> && b.total() > 0) {
    auto one = stand_in([&] { auto m = b.meta; m.has_var = false; return m; }());
    c += one;
    PBT_CHECK("copy-shares", read_bins(v) == b, what());
    auto e = b;
    for (auto &x : e.val)
      for (auto &y : x)
        y += 1;
    PBT_CHECK("copy-write", read_bins(c) == e, what());
  }
}

/// Bins of `out` from bins of b.
template <class F> Binned rearranged(const Binned &b, const Shape &out, F &&from) {
  Binned r;
  r.shape = out;
  r.meta = b.meta;
  for_each(out, [&](const std::vector<idx> &at) {
    const auto p = static_cast<size_t>(position(b.shape, b.shape, from(at)));
    r.val.push_back(b.val[p]);
    r.var.push_back(b.var[p]);
  });
  return r;
}
void shapes(Gen &g) {
  auto shape = gen_shape(g, 3, 4, 0.02);
  if (shape.empty())
    shape = {{Dim("x"), 2}};
  const auto b = gen_binned(g, shape);
  const auto v = make_binned(g, b);
  const auto what = [&] { return cat(show(b), " ", where(v)); };
  g.note(what);
  g.nontrivial(b.total() > 1);
  const auto k = g.draw(shape.size() - 1);
  const auto [dim, n] = shape[k];
  Binned e;
  Variable r;
  std::string name;
  switch (g.draw(5)) {
  case 0: { // slice
    name = "slice";
    const auto lo = g.integer(0, n), hi = g.integer(lo, n);
    auto out = shape;
    out[k].second = hi - lo;
    e = rearranged(b, out, [&](std::vector<idx> at) {
      at[k] += lo;
      return at;
    });
    r = v.slice({dim, lo, hi});
    break;
  }
  case 1: { // point
    name = "point";
    if (n == 0)
      throw Discard{};
    const auto i = g.integer(0, n - 1);
    auto out = shape;
    out.erase(out.begin() + static_cast<long>(k));
    e = rearranged(b, out, [&](std::vector<idx> at) {
      at.insert(at.begin() + static_cast<long>(k), i);
      return at;
    });
    r = v.slice({dim, i});
    break;
  }
  case 2: { // transpose
    name = "transpose";
    const auto out = g.permutation(shape);
    std::vector<Dim> labels;
    for (const auto &[d, x] : out)
      labels.push_back(d);
    e = rearranged(b, out, [&](const std::vector<idx> &at) {
      std::vector<idx> f;
      for (const auto &[d, x] : shape)
        f.push_back(at[static_cast<size_t>(find(out, d))]);
      return f;
    });
    r = v.transpose(labels);
    break;
  }
  case 3: { // flatten all
    name = "flatten";
    std::vector<Dim> labels;
    for (const auto &[d, x] : shape)
      labels.push_back(d);
    e = b;
    e.shape = {{Dim("flat"), volume(shape)}};
    r = sv::flatten(v, labels, Dim("flat"));
    break;
  }
  case 4: { // concat of pieces
    name = "concat";
    std::vector<Variable> parts;
    idx at = 0;
    while (at < n) {
      const auto to = g.integer(at + 1, n);
      auto out = shape;
      out[k].second = to - at;
      const auto piece = rearranged(b, out, [&](std::vector<idx> i) {
        i[k] += at;
        return i;
      });
      auto p = make_binned(g, piece);
      if (p.bin_buffer<Variable>().dims().inner() != Dim("event"))
        throw Discard{};
      if (out[k].second == 1 && g.boolean())
        p = p.slice({dim, 0});
      parts.push_back(p);
      at = to;
    }
    if (parts.empty())
      throw Discard{};
    e = b;
    r = sv::concat(parts, dim);
    if (shape_of(r.dims()) != shape) { // all pieces were slices
      std::vector<Dim> labels;
      for (const auto &[d, x] : shape)
        labels.push_back(d);
      r = r.transpose(labels);
    }
    break;
  }
  default: { // broadcast and copy
    name = "broadcast";
    auto out = shape;
    out.insert(out.begin() + static_cast<long>(g.draw(out.size())), {Dim("new"), g.length(0, 3)});
    e = rearranged(b, out, [&](std::vector<idx> at) {
      at.erase(at.begin() + find(out, Dim("new")));
      return at;
    });
    r = v.broadcast(dimensions(out));
    PBT_CHECK("broadcast", read_bins(r) == e, what(), " -> ", show(read_bins(r)));
    r = sv::copy(r);
    name = "broadcast-copy";
  }
  }
  PBT_CHECK(name, read_bins(r) == e, what(), " -> ", show(read_bins(r)), " expected ", show(e));
  const auto c = sv::copy(r);
  PBT_CHECK(name + "-copy", read_bins(c) == e, what(), " -> ", show(read_bins(c)), " expected ",
            show(e));
  PBT_CHECK(name + "-equal", c == r && r == c, what());
  PBT_CHECK(name + "-argument", read_bins(v) == b, what());
}

using BinaryOp = std::function<Variable(const Variable &, const Variable &)>;
const std::vector<std::pair<const char *, BinaryOp>> &binary_ops() {
  static const std::vector<std::pair<const char *, BinaryOp>> ops{
      {"plus", [](const Variable &a, const Variable &b) { return a + b; }},
      {"minus", [](const Variable &a, const Variable &b) { return a - b; }},
      {"times", [](const Variable &a, const Variable &b) { return a * b; }},
      {"divide", [](const Variable &a, const Variable &b) { return a / b; }},
      {"less", [](const Variable &a, const Variable &b) { return sv::less(a, b); }},
      {"equal", [](const Variable &a, const Variable &b) { return sv::equal(a, b); }},
  };
  return ops;
}
using InplaceOp = std::function<void(Variable &, const Variable &)>;
const std::vector<std::pair<const char *, InplaceOp>> &inplace_ops() {
  static const std::vector<std::pair<const char *, InplaceOp>> ops{
      {"plus-equals", [](Variable &a, const Variable &b) { a += b; }},
      {"minus-equals", [](Variable &a, const Variable &b) { a -= b; }},
      {"times-equals", [](Variable &a, const Variable &b) { a *= b; }},
      {"divide-equals", [](Variable &a, const Variable &b) { a /= b; }},
  };
  return ops;
}
using UnaryOp = std::function<Variable(const Variable &)>;
const std::vector<std::pair<const char *, UnaryOp>> &unary_ops() {
  static const std::vector<std::pair<const char *, UnaryOp>> ops{
      {"negative", [](const Variable &a) { return -a; }},
      {"abs", [](const Variable &a) { return sv::abs(a); }},
      {"sqrt", [](const Variable &a) { return sv::sqrt(a); }},
      {"isfinite", [](const Variable &a) { return sv::isfinite(a); }},
      {"astype-float",
       [](const Variable &a) { return sv::astype(a, dtype<float>, scipp::CopyPolicy::Always); }},
      {"astype-int", [](const Variable &a) { return sv::astype(a, dtype<int64_t>); }},
      {"to-mm", [](const Variable &a) { return sv::to_unit(a, Unit("mm")); }},
  };
  return ops;
}
Shape gen_operand_shape(Gen &g, const Shape &a) {
  Shape s;
  for (const auto &x : a)
    if (g.boolean(0.75))
      s.push_back(x);
  if (g.boolean(0.1))
    s.emplace_back(Dim("other"), g.length(1, 2));
  if (g.boolean(0.3))
    s = g.permutation(s);
  return s;
}
/// Expected bins: f is applied to the bin of a and to the bin of b or the
/// element of d.
void compare_bins(const std::string &name, const Variable &r, const Shape &out, const Binned &a,
                  const std::function<Variable(const Variable &, const std::vector<idx> &)> &f,
                  const std::string &what) {
  const auto b = read_bins(r);
  PBT_CHECK(name, b.shape == out, what, " -> ", show(b));
  size_t i = 0;
  for_each(out, [&](const std::vector<idx> &at) {
    const auto ia = static_cast<size_t>(position(a.shape, out, at));
    const auto e = read(f(make_plain(bin_content(a, ia)), at));
    auto actual = bin_content(b, i);
    PBT_CHECK(name, actual == e, what, " bin ", i, ": ", show(actual), " expected ", show(e));
    ++i;
  });
}

void binary(Gen &g) {
  const auto shape = gen_shape(g, 3, 3, 0.02);
  const auto &[name, op] = g.pick(binary_ops());
  const auto a = gen_binned(g, shape, true);
  const auto va = make_binned(g, a);
  const auto oshape = gen_operand_shape(g, shape);
  std::optional<Shape> out;
  try {
    out = shape_of(merge(dimensions(shape), dimensions(oshape)));
  } catch (const std::exception &) {
    throw Discard{};
  }
  if (g.boolean(0.5)) { // with dense
    Content d;
    d.shape = oshape;
    d.type = g.boolean(0.6) ? a.meta.type
                            : g.one_of<DType>({dtype<double>, dtype<int64_t>, dtype<int32_t>});
    d.unit = g.boolean(0.8) ? a.meta.unit : g.one_of<Unit>({units::one, units::m, units::none});
    d.has_var = is_flt(d.type) && g.boolean(0.1);
    gen_elements(g, d, true);
    const auto vd = make_view(g, d);
    d = read(vd);
    const bool dense_first = g.boolean(0.3);
    const auto call = [&, &f = op](const Variable &x, const Variable &y) {
      return dense_first ? f(y, x) : f(x, y);
    };
    const auto what = [&, n = std::string(name)] {
      return cat(n, dense_first ? " (dense first) " : " ", show(a), " ", where(va), " with ",
                 show(d), " ", layout(vd));
    };
    g.note(what);
    const auto out_shape =
        shape_of(dense_first ? merge(dimensions(oshape), dimensions(shape))
                             : merge(dimensions(shape), dimensions(oshape)));
    const bool bad = d.has_var || (a.meta.has_var && out_shape.size() > shape.size()) ||
                     throws([&] { (void)call(stand_in(a.meta), stand_in(d)); });
    Variable r;
    const bool threw = throws([&] { r = call(va, vd); });
    // comparisons ignore variances
    const bool compares = std::string(name) == "less" || std::string(name) == "equal";
    if (!(compares && (d.has_var || a.meta.has_var)))
      PBT_EQ("dense-throws", threw, bad, what());
    PBT_CHECK("binary-argument", read_bins(va) == a && read(vd) == d, what());
    if (threw || d.has_var)
      return;
    g.nontrivial(a.total() > 0);
    compare_bins(cat("dense-", name), r, out_shape, a,
                 [&](const Variable &x, const std::vector<idx> &at) {
                   return call(x, scalar(d, position(d.shape, out_shape, at)));
                 },
                 what());
    return;
  }
  // with bins of the same sizes
  Binned b;
  b.shape = oshape;
  b.meta = a.meta;
  if (g.boolean(0.3))
    b.meta.type = g.one_of<DType>({dtype<double>, dtype<int64_t>, dtype<int32_t>});
  if (g.boolean(0.2))
    b.meta.unit = g.one_of<Unit>({units::one, units::m, units::none});
  b.meta.has_var = is_flt(b.meta.type) && g.boolean(0.3);
  b.val.assign(static_cast<size_t>(volume(oshape)), {});
  // Sizes: those of a, if they are the same for all bins at the same index of b
  auto a2 = a;
  bool match = true;
  const bool wrong = g.boolean(0.1);
  {
    std::vector<idx> size(b.val.size(), -1);
    for_each(*out, [&](const std::vector<idx> &at) {
      const auto ia = static_cast<size_t>(position(a.shape, *out, at));
      const auto ib = static_cast<size_t>(position(b.shape, *out, at));
      if (size[ib] < 0)
        size[ib] = a.size(ia);
      // Adapt a
      a2.val[ia].resize(static_cast<size_t>(size[ib]), 1);
      if (a2.meta.has_var)
        a2.var[ia].resize(static_cast<size_t>(size[ib]), 1);
    });
    for (size_t i = 0; i < size.size(); ++i)
      b.val[i].resize(static_cast<size_t>(std::max<idx>(0, size[i])));
    if (wrong && !b.val.empty())
      b.val[g.draw(b.val.size() - 1)].push_back(1);
    for_each(*out, [&](const std::vector<idx> &at) {
      match &= a2.size(static_cast<size_t>(position(a.shape, *out, at))) ==
               b.size(static_cast<size_t>(position(b.shape, *out, at)));
    });
  }
  gen_bin_elements(g, b, true);
  const auto wa = make_binned(g, a2), wb = make_binned(g, b);
  const auto what = [&, n = std::string(name)] {
    return cat(n, " ", show(a2), " ", where(wa), " with ", show(b), " ", where(wb));
  };
  g.note(what);
  const auto out_shape = shape_of(merge(dimensions(shape), dimensions(oshape)));
  const bool bad = !match || (a2.meta.has_var && out_shape.size() > shape.size()) ||
                   (b.meta.has_var && out_shape.size() > oshape.size()) ||
                   throws([&, &f = op] { (void)f(stand_in(a2.meta), stand_in(b.meta)); });
  Variable r;
  const bool threw = throws([&, &f = op] { r = f(wa, wb); });
  const bool compares = std::string(name) == "less" || std::string(name) == "equal";
  if (!(compares && (b.meta.has_var || a2.meta.has_var)))
    PBT_EQ("bins-throws", threw, bad, what());
  PBT_CHECK("binary-argument", read_bins(wa) == a2 && read_bins(wb) == b, what());
  if (threw || !match)
    return;
  g.nontrivial(a2.total() > 0);
  compare_bins(cat("bins-", name), r, out_shape, a2,
               [&, &f = op](const Variable &x, const std::vector<idx> &at) {
                 return f(x, make_plain(bin_content(
                                 b, static_cast<size_t>(position(b.shape, out_shape, at)))));
               },
               what());
}

void unary(Gen &g) {
  const auto &[name, op] = g.pick(unary_ops());
  auto a = gen_binned(g, gen_shape(g, 3, 3, 0.02), std::string(name) != "astype-int");
  const auto v = make_binned(g, a);
  const auto what = [&, n = std::string(name)] {
    return cat(n, " ", show(a), " ", where(v));
  };
  g.note(what);
  Variable r;
  const bool threw = throws([&, &f = op] { r = f(v); });
  PBT_EQ("unary-throws", threw, throws([&, &f = op] { (void)f(stand_in(a.meta)); }), what());
  PBT_CHECK("unary-argument", read_bins(v) == a, what());
  if (threw)
    return;
  g.nontrivial(a.total() > 0);
  compare_bins(name, r, a.shape, a,
               [&, &f = op](const Variable &x, const std::vector<idx> &) { return f(x); },
               what());
}

void in_place(Gen &g) {
  const auto shape = gen_shape(g, 3, 3, 0.02);
  const auto &[name, op] = g.pick(inplace_ops());
  auto a = gen_binned(g, shape, true);
  Variable buffer;
  auto va = make_binned(g, a, {}, &buffer);
  const auto before = read(buffer);
  Shape oshape;
  for (const auto &x : shape)
    if (g.boolean(0.75))
      oshape.push_back(x);
  if (g.boolean(0.3))
    oshape = g.permutation(oshape);
  const bool dense = g.boolean();
  Content d;
  Binned b;
  Variable arg;
  bool bad = false;
  const auto type =
      g.boolean(0.6) ? a.meta.type : g.one_of<DType>({dtype<double>, dtype<int64_t>, dtype<float>});
  const auto unit = g.boolean(0.6) ? a.meta.unit : g.one_of<Unit>({units::one, units::m});
  if (dense) {
    d.shape = oshape;
    d.type = type;
    d.unit = unit;
    gen_elements(g, d, true);
    arg = make_view(g, d);
    d = read(arg);
  } else {
    b = a;
    b.meta.type = type;
    b.meta.unit = unit;
    b.meta.has_var = is_flt(type) && g.boolean(0.3);
    if (g.boolean(0.1) && !b.val.empty()) {
      b.val[g.draw(b.val.size() - 1)].push_back(1);
      bad = true;
    }
    gen_bin_elements(g, b, true);
    arg = make_binned(g, b);
  }
  const auto what = [&, n = std::string(name)] {
    return cat(n, " ", show(a), " ", where(va), " with ",
               dense ? show(d) : show(b) + " " + where(arg));
  };
  g.note(what);
  Unit result_unit = a.meta.unit;
  bad |= throws([&, &f = op] {
    auto x = stand_in(a.meta);
    f(x, stand_in(dense ? d : b.meta));
    result_unit = x.unit();
  });
  bool maybe = false; // the unit may only be changed as a whole
  if (!bad && result_unit != a.meta.unit && (va.is_slice() || buffer.is_slice()))
    maybe = true;
  const bool threw = throws([&, &f = op] { f(va, arg); });
  if (!maybe)
    PBT_EQ("in-place-throws", threw, bad, what());
  PBT_CHECK("in-place-argument", dense ? read(arg) == d : read_bins(arg) == b, what());
  if (threw) {
    PBT_CHECK("in-place-failed", read_bins(va) == a && read(buffer) == before, what(), " -> ",
              show(read_bins(va)));
    return;
  }
  g.nontrivial(a.total() > 0);
  compare_bins(name, va, shape, a,
               [&, &f = op](const Variable &x, const std::vector<idx> &at) {
                 auto y = sv::copy(x);
                 f(y, dense ? scalar(d, position(d.shape, shape, at))
                            : make_plain(bin_content(b, static_cast<size_t>(
                                                            position(b.shape, shape, at)))));
                 return y;
               },
               what());
  // Other elements of the buffer
  const auto after = read(buffer);
  idx differ = 0, expect = 0;
  for (size_t i = 0; i < after.val.size(); ++i)
    differ += !same(after.val[i], before.val[i]);
  const auto now = read_bins(va);
  for (size_t i = 0; i < now.val.size(); ++i)
    for (size_t k = 0; k < now.val[i].size(); ++k)
      expect += !same(now.val[i][k], a.val[i][k]);
  PBT_EQ("in-place-elsewhere", differ, expect, what());
}

/// Copy into (a part of) another binned variable.
void assign(Gen &g) {
  auto shape = gen_shape(g, 3, 3, 0.02);
  auto a = gen_binned(g, shape);
  auto b = a;
  const bool wrong = g.boolean(0.1) && !b.val.empty();
  if (wrong)
    b.val[g.draw(b.val.size() - 1)].push_back(1);
  gen_bin_elements(g, b);
  Variable buffer;
  auto va = make_binned(g, a, {}, &buffer);
  const auto before = read(buffer);
  const auto vb = make_binned(g, b);
  const auto what = [&] { return cat(show(b), " ", where(vb), " into ", show(a), " ", where(va)); };
  g.note(what);
  const bool threw = throws([&] { sv::copy(vb, va); });
  PBT_EQ("assign-throws", threw, wrong, what());
  PBT_CHECK("assign-argument", read_bins(vb) == b, what());
  if (threw) {
    PBT_CHECK("assign-failed", read_bins(va) == a && read(buffer) == before, what());
    return;
  }
  g.nontrivial(a.total() > 0);
  PBT_CHECK("assign", read_bins(va) == b, what(), " -> ", show(read_bins(va)));
}

Content reduce_dense(const std::string &op, const Content &c) {
  const auto v = make_plain(c);
  const auto r = op == "sum"       ? sv::sum(v)
                 : op == "nansum"  ? sv::nansum(v)
                 : op == "mean"    ? sv::mean(v)
                 : op == "nanmean" ? sv::nanmean(v)
                 : op == "min"     ? sv::min(v)
                 : op == "max"     ? sv::max(v)
                 : op == "nanmin"  ? sv::nanmin(v)
                 : op == "nanmax"  ? sv::nanmax(v)
                 : op == "all"     ? sv::all(v)
                                   : sv::any(v);
  return read(r);
}
Variable reduce_each(const std::string &op, const Variable &v) {
  return op == "sum"       ? sv::bins_sum(v)
         : op == "nansum"  ? sv::bins_nansum(v)
         : op == "mean"    ? sv::bins_mean(v)
         : op == "nanmean" ? sv::bins_nanmean(v)
         : op == "min"     ? sv::bins_min(v)
         : op == "max"     ? sv::bins_max(v)
         : op == "nanmin"  ? sv::bins_nanmin(v)
         : op == "nanmax"  ? sv::bins_nanmax(v)
         : op == "all"     ? sv::bins_all(v)
                           : sv::bins_any(v);
}
template <class... D> Variable reduce_all(const std::string &op, const Variable &v, D... d) {
  return op == "sum"       ? sv::sum(v, d...)
         : op == "nansum"  ? sv::nansum(v, d...)
         : op == "mean"    ? sv::mean(v, d...)
         : op == "nanmean" ? sv::nanmean(v, d...)
         : op == "min"     ? sv::min(v, d...)
         : op == "max"     ? sv::max(v, d...)
         : op == "nanmin"  ? sv::nanmin(v, d...)
         : op == "nanmax"  ? sv::nanmax(v, d...)
         : op == "all"     ? sv::all(v, d...)
                           : sv::any(v, d...);
}
void check_reduced(const std::string &sig, const Variable &r, const Shape &out,
                   const std::vector<Content> &lists, const std::string &op,
                   const std::string &what) {
  const auto a = read(r);
  PBT_CHECK(sig, a.shape == out, what, " -> ", show(a));
  const bool tolerant = op == "mean" || op == "nanmean";
  for (size_t i = 0; i < lists.size(); ++i) {
    const auto e = reduce_dense(op, lists[i]);
    const double eps = !tolerant ? 0 : a.type == dtype<float> ? 1e-5 : 1e-13;
    PBT_CHECK(sig, a.type == e.type && a.unit == e.unit && a.has_var == e.has_var, what, " -> ",
              show(a), " expected ", show(e));
    PBT_CHECK(sig,
              close(a.val[i], e.val[0], eps, eps) &&
                  (!a.has_var || !std::isfinite(e.val[0]) ||
                   close(a.var[i], e.var[0], eps, eps)),
              what, " element ", i, " -> ", show(a), " expected ", show(e));
  }
}
void reductions(Gen &g) {
  const std::vector<std::string> ops{"sum", "nansum", "mean",   "nanmean", "min",
                                     "max", "nanmin", "nanmax", "all",     "any"};
  const auto &op = g.pick(ops);
  const bool logical = op == "all" || op == "any";
  auto b = gen_binned(g, gen_shape(g, 3, 3, 0.02));
  if (logical != (b.meta.type == dtype<bool>)) {
    b.meta.type = logical ? dtype<bool> : dtype<double>;
    b.meta.unit = logical ? units::none : units::m;
    b.meta.has_var = false;
  }
  if (b.meta.type == dtype<time_point> && op.find("m") != 0)
    b.meta.type = dtype<int64_t>;
  if (b.meta.type == dtype<time_point> && op == "mean")
    b.meta.type = dtype<int32_t>;
  gen_bin_elements(g, b);
  // Infinite values: nanmean counts finite ones only, left to C24
  if (is_flt(b.meta.type) && g.boolean(0.3))
    for (auto &x : b.val)
      for (auto &y : x)
        if (g.boolean(0.2))
          y = NAN;
  const bool extreme = op.find("m") != std::string::npos && op.find("mean") == std::string::npos &&
                       op.find("sum") == std::string::npos;
  if (b.meta.has_var && extreme) // which of two equal elements counts is open
    for (size_t i = 0; i < b.val.size(); ++i)
      for (size_t k = 0; k < b.val[i].size(); ++k)
        b.var[i][k] = std::isnan(b.val[i][k]) ? 2 : std::abs(b.val[i][k]);
  const auto v = make_binned(g, b);
  const auto what = [&] { return cat(op, " ", show(b), " ", where(v)); };
  g.note(what);
  g.nontrivial(b.total() > 1);
  std::vector<Content> lists;
  for (size_t i = 0; i < b.val.size(); ++i)
    lists.push_back(bin_content(b, i));
  check_reduced(cat("bins-", op), reduce_each(op, v), b.shape, lists, op, what());
  // Over a dimension: all elements of all bins
  auto out = b.shape;
  Dim dim = Dim::Invalid;
  if (!out.empty() && g.boolean(0.7)) {
    const auto k = g.draw(out.size() - 1);
    dim = out[k].first;
    out.erase(out.begin() + static_cast<long>(k));
  } else
    out.clear();
  std::vector<Content> merged(static_cast<size_t>(volume(out)), b.meta);
  for (auto &c : merged)
    c.shape = {{Dim("event"), 0}};
  size_t i = 0;
  for_each(b.shape, [&](const std::vector<idx> &at) {
    auto &m = merged[static_cast<size_t>(position(out, b.shape, at))];
    m.val.insert(m.val.end(), b.val[i].begin(), b.val[i].end());
    m.var.insert(m.var.end(), b.var[i].begin(), b.var[i].end());
    m.shape[0].second = static_cast<idx>(m.val.size());
    ++i;
  });
  check_reduced(cat("dim-", op), dim == Dim::Invalid ? reduce_all(op, v) : reduce_all(op, v, dim),
                out, merged, op, cat(what(), " over ", dim == Dim::Invalid ? "all" : dim.name()));
  PBT_CHECK("reduce-argument", read_bins(v) == b, what());
}

void cumsum(Gen &g) {
  Binned b = gen_binned(g, gen_shape(g, 3, 3, 0.02));
  b.meta.has_var = false;
  if (b.meta.type == dtype<bool> || b.meta.type == dtype<time_point>)
    b.meta.type = dtype<int64_t>;
  gen_bin_elements(g, b);
  const auto v = make_binned(g, b);
  const bool exclusive = g.boolean();
  const auto what = [&] { return cat(exclusive ? "exclusive " : "inclusive ", show(b), " ", where(v)); };
  g.note(what);
  g.nontrivial(b.total() > 1);
  auto e = b;
  for (auto &x : e.val) {
    double s = 0;
    for (auto &y : x) {
      const auto t = y;
      if (exclusive)
        y = s;
      s += t;
      if (!exclusive)
        y = s;
    }
  }
  const auto r = read_bins(
      sv::cumsum_bins(v, exclusive ? sv::CumSumMode::Exclusive : sv::CumSumMode::Inclusive));
  PBT_CHECK("cumsum-bins", r == e, what(), " -> ", show(r), " expected ", show(e));
  PBT_CHECK("cumsum-argument", read_bins(v) == b, what());
}

/// Many elements: threads
void large(Gen &g) {
  Binned b;
  b.shape = {{Dim("x"), g.integer(1, 70)}, {Dim("y"), g.integer(1, 70)}};
  b.meta.type = g.boolean(0.7) ? dtype<double> : dtype<float>;
  b.meta.unit = units::m;
  b.meta.has_var = g.boolean(0.3);
  auto s = g.draw(1 << 20) * 2 + 1;
  const auto next = [&] {
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    return static_cast<int64_t>(s >> 40);
  };
  const auto scale = g.one_of<int64_t>({2, 20, 100});
  for (idx i = 0; i < volume(b.shape); ++i) {
    std::vector<double> x, y;
    for (auto k = next() % scale; k > 0; --k) {
      x.push_back(static_cast<double>(next() % 100));
      if (b.meta.has_var)
        y.push_back(static_cast<double>(next() % 10));
    }
    b.val.push_back(x);
    b.var.push_back(y);
  }
  std::vector<idx> sizes;
  for (size_t i = 0; i < b.val.size(); ++i)
    sizes.push_back(b.size(i));
  // Contiguous
  Placement p;
  p.base_shape = b.shape;
  Content c = b.meta;
  for (size_t i = 0; i < b.val.size(); ++i) {
    p.base.emplace_back(p.total, p.total + sizes[i]);
    p.total += sizes[i];
    c.val.insert(c.val.end(), b.val[i].begin(), b.val[i].end());
    c.var.insert(c.var.end(), b.var[i].begin(), b.var[i].end());
  }
  c.shape = {{Dim("event"), p.total}};
  auto v = sv::make_bins(indices_of(p), Dim("event"), make_plain(c));
  const bool transposed = g.boolean(0.3);
  const std::vector<Dim> original{Dim("x"), Dim("y")}, swapped{Dim("y"), Dim("x")};
  if (transposed)
    v = v.transpose(swapped);
  const auto what = [&] {
    return cat(show(b.shape), transposed ? " transposed " : " ", b.total(), " elements");
  };
  g.note(what);
  g.nontrivial(b.total() > 1000);
  const auto check = [&](const char *sig, const Variable &r, const auto &expected) {
    auto x = transposed ? r.transpose(original) : r;
    const auto a = read_bins(x);
    for (size_t i = 0; i < b.val.size(); ++i)
      for (size_t k = 0; k < b.val[i].size(); ++k)
        PBT_CHECK(sig, a.size(i) == b.size(i) && a.val[i][k] == expected(i, k), what(), " bin ", i,
                  " element ", k);
  };
  check("large-copy", sv::copy(v), [&](size_t i, size_t k) { return b.val[i][k]; });
  check("large-plus", v + v, [&](size_t i, size_t k) { return 2 * b.val[i][k]; });
  Content d;
  d.shape = {{Dim("y"), b.shape[1].second}};
  d.unit = units::m;
  d.type = b.meta.type;
  for (idx i = 0; i < d.shape[0].second; ++i)
    d.val.push_back(static_cast<double>(next() % 100));
  check("large-minus", v - make_plain(d), [&](size_t i, size_t k) {
    return b.val[i][k] - d.val[i % static_cast<size_t>(b.shape[1].second)];
  });
  const auto sums = read(sv::bins_sum(transposed ? v.transpose(original) : v));
  for (size_t i = 0; i < b.val.size(); ++i) {
    double e = 0, ev = 0;
    for (const auto x : b.val[i])
      e += x;
    for (const auto x : b.var[i])
      ev += x;
    PBT_CHECK("large-sum", sums.val[i] == e && (!b.meta.has_var || sums.var[i] == ev), what(),
              " bin ", i);
  }
  double total = 0;
  for (const auto x : c.val)
    total += x;
  const auto all = read(sv::sum(v));
  PBT_CHECK("large-total", all.val[0] == total, what(), " ", all.val[0], " expected ", total);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C30";
  p.rule = "binned variables of up to 3 dimensions with bins (also empty ones) at random places, "
           "in any order and with gaps, of strided buffers, the bins themselves sliced and "
           "transposed; operations with bins and arrays of other shapes; compared bin by bin "
           "with the same operation on arrays of one bin's elements. Non-trivial: there are "
           "elements to operate on.";
  p.assumptions = {"operations on dense arrays, which C20, C21, C24 and C26 check"};
  p.laws = {{"construct", 200000, 3000000, construct},
            {"whole", 60000, 1000000, whole},
            {"shapes", 100000, 1500000, shapes},
            {"unary", 60000, 1000000, unary},
            {"binary", 100000, 1500000, binary},
            {"in-place", 100000, 1500000, in_place},
            {"assign", 50000, 800000, assign},
            {"reductions", 60000, 1000000, reductions},
            {"cumsum", 50000, 800000, cumsum},
            {"large", 250, 4000, large, true}};
  return run(argc, argv, p);
}
