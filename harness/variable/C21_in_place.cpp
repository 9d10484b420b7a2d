// C21: in-place operations write what the out-of-place operation returns, and
// nothing else, or fail without any effect.
// sanitize: -D_GLIBCXX_ASSERTIONS
#include "gen_var.h"

#include "scipp/core/except.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/pow.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/util.h"

using namespace gv;
namespace sv = scipp::variable;

namespace {
struct Op {
  const char *name;
  Variable (*f)(const Variable &, const Variable &);
  void (*in_place)(Variable &, const Variable &);
};
const std::vector<Op> ops{
    {"+=", [](const Variable &x, const Variable &y) { return x + y; },
     [](Variable &x, const Variable &y) { x += y; }},
    {"-=", [](const Variable &x, const Variable &y) { return x - y; },
     [](Variable &x, const Variable &y) { x -= y; }},
    {"*=", [](const Variable &x, const Variable &y) { return x * y; },
     [](Variable &x, const Variable &y) { x *= y; }},
    {"/=", [](const Variable &x, const Variable &y) { return x / y; },
     [](Variable &x, const Variable &y) { x /= y; }},
    {"//=", [](const Variable &x, const Variable &y) { return sv::floor_divide(x, y); },
     [](Variable &x, const Variable &y) { sv::floor_divide_equals(x, y); }},
    {"%=", [](const Variable &x, const Variable &y) { return x % y; },
     [](Variable &x, const Variable &y) { x %= y; }},
    {"&=", [](const Variable &x, const Variable &y) { return x & y; },
     [](Variable &x, const Variable &y) { x &= y; }},
    {"|=", [](const Variable &x, const Variable &y) { return x | y; },
     [](Variable &x, const Variable &y) { x |= y; }},
    {"^=", [](const Variable &x, const Variable &y) { return x ^ y; },
     [](Variable &x, const Variable &y) { x ^= y; }}};

constexpr idx n_logical = 3;

DType gen_type(Gen &g) {
  switch (g.weighted({6, 3, 2, 2, 1})) {
  case 0:
    return dtype<double>;
  case 1:
    return dtype<float>;
  case 2:
    return dtype<int64_t>;
  case 3:
    return dtype<int32_t>;
  default:
    return dtype<time_point>;
  }
}
Content gen_content(Gen &g, const Shape &shape, const bool logical) {
  Content c;
  c.shape = shape;
  c.type = logical ? dtype<bool> : gen_type(g);
  c.unit = logical                       ? units::none
           : c.type == dtype<time_point> ? units::ns
                                         : g.one_of<Unit>({units::one, units::m, units::rad});
  if (c.type == dtype<double> || c.type == dtype<float>)
    c.has_var = g.boolean(0.35);
  gen_elements(g, c, true);
  return c;
}

/// Indices in base (row-major) that belong to view, given by marking.
struct Footprint {
  Variable base;
  std::vector<bool> inside;
};
Footprint footprint(const Variable &base, const Variable &view) {
  Footprint f{base, {}};
  std::set<const void *> addresses;
  with_type(base.dtype(), [&](auto t) {
    using T = typename decltype(t)::type;
    for (const auto &x : view.values<T>())
      addresses.insert(&x);
    const auto &b = base;
    for (const auto &x : b.values<T>())
      f.inside.push_back(addresses.count(&x) > 0);
  });
  return f;
}
void check_outside(const Footprint &f, const Content &before, const std::string &what) {
  const auto now = read(f.base);
  for (size_t i = 0; i < f.inside.size(); ++i)
    if (!f.inside[i])
      PBT_CHECK("outside-view", same(now.val[i], before.val[i]) &&
                                    (!now.has_var || same(now.var[i], before.var[i])),
                what, " element ", i, " of ", show(before), " now ", show(now));
}

/// Value stored in an element of type t.
double stored(const DType t, const double x) {
  if (t == dtype<float>)
    return static_cast<float>(x);
  return x;
}

void in_place(Gen &g) {
  const bool logical = g.boolean(0.12);
  const auto &op = ops[logical ? ops.size() - 1 - g.draw(n_logical - 1)
                               : g.draw(ops.size() - n_logical - 1)];
  auto a = gen_content(g, gen_shape(g, 3, 4), logical);
  Shape sb;
  for (const auto &x : a.shape)
    if (g.boolean(0.75))
      sb.push_back(x);
  if (g.boolean(0.3))
    sb = g.permutation(sb);
  if (g.boolean(0.05))
    sb.emplace_back(Dim("other"), g.integer(1, 2));
  if (!sb.empty() && g.boolean(0.05))
    sb[g.draw(sb.size() - 1)].second += 1;
  auto b = gen_content(g, sb, logical);
  if (g.boolean(0.7)) {
    b.type = a.type;
    b.has_var = a.has_var && g.boolean() && sb.size() == a.shape.size();
    gen_elements(g, b, true);
  }
  if (g.boolean(0.6))
    b.unit = a.unit;
  else if (!logical && g.boolean(0.7))
    b.unit = units::one;
  Variable base;
  auto va = make_view(g, a, {.broadcast = false}, &base);
  const auto vb = make_view(g, b);
  const bool readonly = g.boolean(0.03);
  if (readonly)
    va = va.as_const();
  const auto what = [&] {
    return cat(show(a), " ", layout(va), " ", op.name, " ", show(b), " ", layout(vb));
  };
  g.note(what);
  const auto base_before = read(base);
  const auto fp = footprint(base, std::as_const(va));
  std::optional<Content> expected;
  std::string error;
  try {
    expected = read(op.f(std::as_const(va), vb));
  } catch (const std::exception &e) {
    error = e.what();
  }
  bool ok = true;
  try {
    op.in_place(va, vb);
  } catch (const std::exception &e) {
    ok = false;
    error = e.what();
  }
  PBT_CHECK("argument-changed", read(vb) == b, what());
  const auto now = read(va);
  if (!ok) {
    PBT_CHECK("failed-with-effect", read(base) == base_before && now == a, what(), " ", error,
              " now ", show(now));
    // Nothing stands against an operation on equal types that keeps unit, shape
    // and uncertainty.
    if (expected && !readonly && expected->type == a.type && b.type == a.type &&
        expected->unit == a.unit && expected->shape == a.shape && expected->has_var == a.has_var)
      fail("refused", cat(what(), " ", error));
    return;
  }
  PBT_CHECK("readonly-written", !readonly, what());
  PBT_CHECK("accepted", expected.has_value(), what(), " ", error);
  g.nontrivial(volume(a.shape) > 1 && va.is_slice());
  PBT_CHECK("shape", now.shape == a.shape && expected->shape == a.shape, what(), show(now));
  PBT_CHECK("type", now.type == a.type && now.has_var == a.has_var, what(), show(now));
  PBT_CHECK("variances", expected->has_var == a.has_var, what(), show(now));
  PBT_CHECK("unit", now.unit == expected->unit, what(), " now ", now.unit.name());
  PBT_CHECK("unit-of-slice", !va.is_slice() || now.unit == a.unit, what(), " now ",
            now.unit.name());
  const bool single = a.type == dtype<float> || b.type == dtype<float>;
  const bool whole = a.type == dtype<int64_t> || a.type == dtype<int32_t>;
  for (size_t i = 0; i < now.val.size(); ++i) {
    const auto e = stored(a.type, expected->val[i]);
    // Different roundings if types are mixed; integers truncate.
    const bool good = expected->type == a.type ? same(now.val[i], e)
                      : whole ? now.val[i] == std::trunc(e) || !std::isfinite(e)
                              : close(now.val[i], e, single ? 1e-5 : 1e-12);
    PBT_CHECK("value", good, what(), " now ", show(now), " expected ", show(*expected));
    if (a.has_var) {
      const auto v = stored(a.type, expected->var[i]);
      PBT_CHECK("variance",
                expected->type == a.type ? same(now.var[i], v)
                                         : close(now.var[i], v, single ? 1e-4 : 1e-12),
                what(), " now ", show(now), " expected ", show(*expected));
    }
  }
  check_outside(fp, base_before, what());
}

/// Two views of one array, of the same or related shape.
struct Pair {
  Variable base, a, b;
};
std::optional<Pair> overlapping(Gen &g, const bool has_var, const DType t) {
  Content c;
  const idx n = g.integer(2, 5);
  const idx m = g.boolean(0.4) ? n : g.integer(1, 4);
  c.shape = {{Dim::X, n}, {Dim::Y, m}};
  if (g.boolean(0.3))
    c.shape.pop_back();
  c.type = t;
  c.has_var = has_var;
  c.unit = units::one;
  gen_elements(g, c);
  Pair p;
  p.base = make_plain(c);
  const idx len = g.integer(1, n - 1);
  const auto part = [&] {
    const idx step = (n - 1) / len > 1 ? g.integer(1, 2) : 1;
    const idx begin = g.integer(0, n - 1 - (len - 1) * step);
    return p.base.slice({Dim::X, begin, std::min(n, begin + len * step), step});
  };
  switch (g.draw(c.shape.size() == 2 ? 5 : 3)) {
  case 0: // shifted
    p.a = part();
    p.b = part();
    break;
  case 1: // one element or row of it
    p.a = p.base;
    p.b = p.base.slice({Dim::X, g.integer(0, n - 1)});
    break;
  case 2:
    p.a = part();
    p.b = p.base.slice({Dim::X, g.integer(0, n - 1)});
    break;
  case 3: // itself
    p.a = part();
    p.b = p.a;
    break;
  case 4: // transposed onto itself
    if (n != m)
      return std::nullopt;
    p.a = p.base;
    p.b = p.base.rename_dims({{Dim::X, Dim::Z}, {Dim::Y, Dim::X}, {Dim::Z, Dim::Y}});
    break;
  default: // reordered only: every element on itself
    p.a = p.base;
    p.b = p.base.transpose(std::vector<Dim>{Dim::Y, Dim::X});
  }
  return p;
}

void overlap(Gen &g) {
  const auto &op = ops[g.draw(ops.size() - n_logical - 1)];
  const std::string name = op.name;
  const auto t = g.one_of({dtype<double>, dtype<float>, dtype<int64_t>});
  const bool has_var = t != dtype<int64_t> && g.boolean(0.25);
  auto p = overlapping(g, has_var, t);
  if (!p)
    throw Discard{};
  auto &[base, a, b] = *p;
  const auto before = read(base);
  const auto ca = read(a), cb = read(b);
  const auto what = [&] {
    return cat(name, " in ", show(before), " target ", layout(a), " ", show(ca), " argument ",
               layout(b), " ", show(cb));
  };
  g.note(what);
  if (has_var && a.is_same(b))
    throw Discard{}; // correlated: C20
  // As if the argument had been copied first.
  std::optional<Content> expected;
  const auto argument = copy(b);
  try {
    expected = read(op.f(copy(a), argument));
  } catch (const std::exception &) {
  }
  const auto fp = footprint(base, std::as_const(a));
  std::string error;
  bool ok = true;
  try {
    op.in_place(a, b);
  } catch (const std::exception &e) {
    ok = false;
    error = e.what();
  }
  const auto now = read(a);
  if (!ok) {
    PBT_CHECK("overlap-failed-with-effect", read(base) == before, what(), " ", error);
    if (expected && expected->type == ca.type)
      fail("overlap-refused", cat(what(), " ", error));
    return;
  }
  PBT_CHECK("overlap-accepted", expected.has_value(), what());
  g.nontrivial(!a.is_same(b));
  for (size_t i = 0; i < now.val.size(); ++i) {
    const auto e = expected->val[i];
    PBT_CHECK("overlap-value",
              expected->type == now.type ? same(now.val[i], e)
                                         : now.val[i] == std::trunc(e) || !std::isfinite(e),
              what(), " now ", show(now), " expected ", show(*expected));
    if (has_var)
      PBT_CHECK("overlap-variance", same(now.var[i], expected->var[i]), what(), " now ",
                show(now), " expected ", show(*expected));
  }
  check_outside(fp, before, what());
}

/// copy() into a view, also of the same array; setSlice; fill.
void assign(Gen &g) {
  const bool has_var = g.boolean(0.3);
  const auto t = g.one_of({dtype<double>, dtype<float>, dtype<int64_t>, dtype<bool>});
  const auto mode = g.draw(2);
  if (mode == 0) {
    auto p = overlapping(g, has_var && t != dtype<int64_t> && t != dtype<bool>, t);
    if (!p)
      throw Discard{};
    auto &[base, a, b] = *p;
    const auto before = read(base);
    const auto source = read(b);
    const auto shape = read(a).shape;
    const auto what = [&] {
      return cat("copy within ", show(before), " to ", layout(a), " ", show(shape), " from ",
                 layout(b), " ", show(source));
    };
    g.note(what);
    const auto fp = footprint(base, std::as_const(a));
    copy(b, a);
    const auto now = read(a);
    g.nontrivial(!a.is_same(b));
    idx i = 0;
    for_each(shape, [&](const std::vector<idx> &at) {
      const auto q = static_cast<size_t>(position(source.shape, shape, at));
      const auto k = static_cast<size_t>(i++);
      PBT_CHECK("copy-value", same(now.val[k], source.val[q]), what(), " now ", show(now));
      if (now.has_var)
        PBT_CHECK("copy-variance", same(now.var[k], source.var[q]), what(), " now ", show(now));
    });
    check_outside(fp, before, what());
    return;
  }
  // setSlice, fill
  Content c;
  c.shape = gen_shape(g, 3, 4, 0.0);
  c.type = t;
  c.unit = t == dtype<bool> ? units::none : g.one_of<Unit>({units::one, units::m});
  c.has_var = has_var && (t == dtype<double> || t == dtype<float>);
  gen_elements(g, c, true);
  Variable base;
  auto v = make_view(g, c, {.broadcast = false}, &base);
  const auto before = read(base);
  if (mode == 1) {
    if (c.shape.empty())
      throw Discard{};
    const auto &[dim, n] = c.shape[g.draw(c.shape.size() - 1)];
    const auto begin = g.integer(0, n - 1);
    const bool point = g.boolean(0.4);
    const auto end = point ? begin + 1 : g.integer(begin, n);
    const idx step = point ? 1 : g.integer(1, 2);
    Slice s = point ? Slice(dim, begin) : Slice(dim, begin, end, step);
    auto target = v.slice(s);
    Content d;
    for (const auto &x : shape_of(target.dims()))
      if (g.boolean(0.85))
        d.shape.push_back(x);
    if (g.boolean(0.3))
      d.shape = g.permutation(d.shape);
    if (g.boolean(0.1))
      d.shape.emplace_back(Dim("other"), 1);
    d.type = g.boolean(0.9) ? c.type : dtype<int32_t>;
    d.unit = g.boolean(0.9) ? c.unit : units::s;
    d.has_var = (d.type == dtype<double> || d.type == dtype<float>)&&g.boolean(0.9)
                    ? c.has_var
                    : false;
    gen_elements(g, d);
    const auto source = make_view(g, d);
    const bool bad = d.type != c.type || d.unit != c.unit || d.has_var != c.has_var ||
                     find(d.shape, Dim("other")) >= 0;
    const auto what = [&] {
      return cat("setSlice(", dim.name(), " ", begin, ":", end, ":", step,
                 point ? " point" : "", ") of ", show(c), " ", layout(v), " from ", show(d));
    };
    g.note(what);
    const auto fp = footprint(base, std::as_const(target));
    std::string error;
    bool ok = true;
    try {
      v.setSlice(s, source);
    } catch (const std::exception &e) {
      ok = false;
      error = e.what();
    }
    PBT_EQ("setslice-error", !ok, bad, what(), " ", error);
    if (!ok) {
      PBT_CHECK("setslice-failed-with-effect", read(base) == before, what());
      return;
    }
    g.nontrivial(volume(d.shape) > 0);
    const auto shape = shape_of(target.dims());
    const auto now = read(target);
    idx i = 0;
    for_each(shape, [&](const std::vector<idx> &at) {
      const auto q = static_cast<size_t>(position(d.shape, shape, at));
      const auto k = static_cast<size_t>(i++);
      PBT_CHECK("setslice-value", same(now.val[k], d.val[q]), what(), " now ", show(now));
      if (now.has_var)
        PBT_CHECK("setslice-variance", same(now.var[k], d.var[q]), what(), " now ", show(now));
    });
    check_outside(fp, before, what());
    return;
  }
  // fill: value and unit
  if (t != dtype<double> && t != dtype<float>)
    throw Discard{};
  Content x = c;
  x.shape.clear();
  x.has_var = false; // one uncertain number does not go into many elements
  gen_elements(g, x);
  if (t != dtype<bool> && g.boolean(0.3))
    x.unit = units::s;
  const auto what = [&] { return cat("fill ", show(c), " ", layout(v), " with ", show(x)); };
  g.note(what);
  const auto fp = footprint(base, std::as_const(v));
  bool ok = true;
  try {
    sv::fill(v, make_plain(x));
  } catch (const std::exception &) {
    ok = false;
  }
  const bool bad = v.is_slice() && x.unit != c.unit;
  PBT_EQ("fill-error", !ok, bad, what());
  if (!ok) {
    PBT_CHECK("fill-failed-with-effect", read(base) == before, what());
    return;
  }
  g.nontrivial(v.is_slice());
  const auto now = read(v);
  PBT_CHECK("fill-unit", now.unit == x.unit, what());
  for (size_t i = 0; i < now.val.size(); ++i)
    PBT_CHECK("fill-value", same(now.val[i], x.val[0]) &&
                                (!now.has_var || now.var[i] == 0),
              what(), " now ", show(now));
  check_outside(fp, before, what());
}

/// Operations with an output argument.
void output(Gen &g) {
  Content a;
  a.shape = gen_shape(g, 3, 4, 0.0);
  a.type = g.boolean(0.7) ? dtype<double> : dtype<float>;
  a.unit = g.one_of<Unit>({units::one, units::m});
  a.has_var = g.boolean(0.3);
  gen_elements(g, a, true);
  Content o = a;
  gen_elements(g, o);
  if (g.boolean(0.2))
    o.unit = units::s;
  Content r = a;
  r.shape.clear();
  gen_elements(g, r);
  Variable base;
  auto out = make_view(g, o, {.broadcast = false}, &base);
  auto in = make_view(g, a);
  const bool aliased = g.boolean(0.3);
  if (aliased) {
    in = out;
    a = read(out);
  }
  const auto rep = make_plain(r);
  const auto which = g.draw(2);
  const auto what = [&] {
    return cat("special value ", which, " of ", show(a), " by ", show(r), " into ", show(o), " ",
               layout(out), aliased ? " aliased" : "");
  };
  g.note(what);
  const auto before = read(base);
  const auto fp = footprint(base, std::as_const(out));
  bool ok = true;
  try {
    which == 0   ? sv::nan_to_num(in, rep, out)
    : which == 1 ? sv::positive_inf_to_num(in, rep, out)
                 : sv::negative_inf_to_num(in, rep, out);
  } catch (const std::exception &) {
    ok = false;
  }
  if (!ok) {
    PBT_CHECK("output-failed-with-effect", read(base) == before, what());
    return;
  }
  g.nontrivial(volume(a.shape) > 1);
  const auto now = read(out);
  PBT_CHECK("output-unit", now.unit == a.unit, what());
  for (size_t i = 0; i < now.val.size(); ++i) {
    const auto x = a.val[i];
    const bool hit = which == 0   ? std::isnan(x)
                     : which == 1 ? x == HUGE_VAL
                                  : x == -HUGE_VAL;
    PBT_CHECK("output-value", same(now.val[i], hit ? r.val[0] : x), what(), " now ", show(now));
    if (now.has_var)
      PBT_CHECK("output-variance", same(now.var[i], hit ? r.var[0] : a.var[i]), what(), " now ",
                show(now));
  }
  check_outside(fp, before, what());
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C21";
  p.rule = "targets that are padded, strided or transposed views of a larger array and "
           "arguments of matching, smaller or conflicting shape, type and unit; views of "
           "one array as target and argument; every outcome compared with the "
           "out-of-place operation on copies, all elements outside the view compared "
           "with before. Non-trivial: the target is part of a larger array, target and "
           "argument are different views.";
  p.laws = {{"in_place", 400000, 6000000, in_place},
            {"overlap", 300000, 4000000, overlap},
            {"assign", 300000, 4000000, assign},
            {"output", 150000, 2000000, output}};
  return run(argc, argv, p);
}
