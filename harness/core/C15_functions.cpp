// C15: the functions applied to elements compute what they are named for, their
// unit follows from what they compute, and preconditions are enforced.
#include "pbt.h"

#include <array>
#include <functional>

#include "scipp/core/dimensions.h"
#include "scipp/core/eigen.h"
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/bin.h"
#include "scipp/core/element/comparison.h"
#include "scipp/core/element/creation.h"
#include "scipp/core/element/event_operations.h"
#include "scipp/core/element/geometric_operations.h"
#include "scipp/core/element/histogram.h"
#include "scipp/core/element/hyperbolic.h"
#include "scipp/core/element/logical.h"
#include "scipp/core/element/math.h"
#include "scipp/core/element/rebin.h"
#include "scipp/core/element/special_values.h"
#include "scipp/core/element/to_unit.h"
#include "scipp/core/element/trigonometry.h"
#include "scipp/core/element/util.h"
#include "scipp/core/except.h"
#include "scipp/core/slice.h"
#include "scipp/core/spatial_transforms.h"
#include "scipp/core/transform_common.h"
#include "scipp/core/values_and_variances.h"
#include "scipp/units/except.h"

using namespace pbt;
using namespace scipp::core;
namespace element = scipp::core::element;
namespace units = scipp::units;
using units::Dim;
using units::Unit;
using scipp::core::ValueAndVariance;

namespace {
const std::vector<Unit> &basis() {
  static const std::vector<Unit> b{
      units::one,    units::m,   units::s,  units::kg,     units::K,
      units::rad,    units::deg, units::us, units::ns,     units::mm,
      units::counts, units::angstrom, units::meV, units::c};
  return b;
}
Unit gen_unit(Gen &g) {
  if (g.boolean(0.2))
    return units::none;
  if (g.boolean(0.2))
    return units::one;
  if (g.boolean(0.15))
    return g.boolean() ? units::rad : units::deg;
  Unit u = g.pick(basis());
  for (int64_t n = g.length(0, 2); n > 0; --n) {
    const auto &v = g.pick(basis());
    try {
      u = g.boolean() ? u * v : u / v;
    } catch (const scipp::except::UnitError &) {
    }
  }
  return u;
}
std::string show(const Unit &u) { return u.has_value() ? u.name() : "None"; }
using Result = std::optional<Unit>;
std::string show(const Result &u) { return u ? show(*u) : "refused"; }
template <class F> Result attempt(F &&f) {
  try {
    return f();
  } catch (const scipp::except::UnitError &) {
    return std::nullopt;
  }
}
template <class Op> Result in_place(const Op &op, Unit a, const Unit &b) {
  return attempt([&] {
    op(a, b);
    return a;
  });
}

void expect_unit(const char *name, const Result &got, const Result &want,
                 const std::string &ctx) {
  PBT_CHECK(name, got == want, "got ", show(got), " expected ", show(want), " for ", ctx);
}
#define UNARY(op, want) \
  expect_unit(#op, attempt([&]() -> Unit { return element::op(a); }), want, ctx)
#define BINARY(op, want) \
  expect_unit(#op, attempt([&]() -> Unit { return element::op(a, b); }), want, ctx)
#define INPLACE(op, want) expect_unit(#op, in_place(element::op, a, b), want, ctx)

void units_of_one(Gen &g) {
  const auto a = gen_unit(g);
  const auto ctx = show(a);
  g.note(ctx);
  g.nontrivial(a != units::one && a != units::none);
  const bool some = a.has_value();
  const Result one = a == units::one ? Result(units::one) : Result();
  const Result angle = a == units::rad || a == units::deg ? Result(units::one) : Result();
  const Result same = a, none = units::none;
  const Result to_angle = one ? Result(units::rad) : Result();
  UNARY(sin, angle);
  UNARY(cos, angle);
  UNARY(tan, angle);
  UNARY(asin, to_angle);
  UNARY(acos, to_angle);
  UNARY(atan, to_angle);
  UNARY(sinh, one);
  UNARY(cosh, one);
  UNARY(tanh, one);
  UNARY(asinh, one);
  UNARY(acosh, one);
  UNARY(atanh, one);
  UNARY(exp, one);
  UNARY(log, one);
  UNARY(log10, one);
  UNARY(erf, one);
  UNARY(erfc, one);
  UNARY(abs, same);
  UNARY(norm, same);
  UNARY(negative, same);
  UNARY(floor, same);
  UNARY(ceil, same);
  UNARY(rint, same);
  UNARY(sqrt, attempt([&] { return sqrt(a); }));
  UNARY(reciprocal, some ? attempt([&] { return units::one / a; }) : Result());
  UNARY(isnan, none);
  UNARY(isinf, none);
  UNARY(isfinite, none);
  UNARY(isposinf, none);
  UNARY(isneginf, none);
  UNARY(islinspace, none);
  UNARY(isarange, none);
  UNARY(values, same);
  UNARY(stddevs, same);
  UNARY(variances, attempt([&] { return a * a; }));
  UNARY(get<0>, same);
  UNARY(geometry::x, same);
  UNARY(geometry::y, same);
  UNARY(geometry::z, same);
  UNARY(zeros_not_bool_like, same);
  UNARY(numeric_limits_max_like, same);
  UNARY(logical_not, a == units::none ? none : Result());
}

void units_of_two(Gen &g) {
  const auto a = gen_unit(g);
  const auto b = g.boolean(0.4) ? a : gen_unit(g);
  const auto ctx = show(a) + " and " + show(b);
  g.note(ctx);
  g.nontrivial(a != b && a.has_value() && b.has_value());
  const bool equal = a == b, nones = a == units::none && b == units::none;
  const Result same = equal ? Result(a) : Result();
  const Result none = equal ? Result(units::none) : Result();
  const Result flag = nones ? Result(units::none) : Result();
  const Result product = attempt([&] { return a * b; });
  const Result quotient = attempt([&] { return a / b; });
  BINARY(add, same);
  BINARY(subtract, same);
  BINARY(mod, same);
  BINARY(multiply, product);
  BINARY(divide, quotient);
  BINARY(floor_divide, quotient);
  BINARY(dot, product);
  BINARY(cross, product);
  BINARY(apply_spatial_transformation, same);
  BINARY(midpoint, same);
  BINARY(atan2, equal && a.has_value() ? Result(units::rad) : Result());
  BINARY(pow, a == units::one && b == units::one ? Result(units::one) : Result());
  BINARY(less, none);
  BINARY(greater, none);
  BINARY(less_equal, none);
  BINARY(greater_equal, none);
  BINARY(equal, none);
  BINARY(not_equal, none);
  BINARY(logical_and, flag);
  BINARY(logical_or, flag);
  BINARY(logical_xor, flag);
  BINARY(zip, same);
  BINARY(nan_to_num, same);
  BINARY(positive_inf_to_num, same);
  BINARY(negative_inf_to_num, same);
  INPLACE(add_equals, same);
  INPLACE(subtract_equals, same);
  INPLACE(mod_equals, same);
  INPLACE(multiply_equals, product);
  INPLACE(divide_equals, quotient);
  INPLACE(floor_divide_equals, quotient);
  INPLACE(logical_and_equals, flag);
  INPLACE(logical_or_equals, flag);
  INPLACE(logical_xor_equals, flag);
}

void units_of_more(Gen &g) {
  const auto a = gen_unit(g);
  const auto b = g.boolean(0.7) ? a : gen_unit(g);
  const auto c = g.boolean(0.7) ? (g.boolean() ? a : b) : gen_unit(g);
  const auto d = g.boolean(0.6) ? c : gen_unit(g);
  const auto ctx = show(a) + ", " + show(b) + ", " + show(c) + ", " + show(d);
  g.note(ctx);
  g.nontrivial(!(a == b && b == c) && a.has_value());
  const auto is = [](const bool ok, const Unit &u) { return ok ? Result(u) : Result(); };
#define NARY(op, want, ...) \
  expect_unit(#op, attempt([&]() -> Unit { return element::op(__VA_ARGS__); }), want, ctx)
#define WRITES(op, first, want, ...)              \
  expect_unit(#op, attempt([&]() -> Unit {        \
                Unit out = first;                 \
                element::op(out, __VA_ARGS__);    \
                return out;                       \
              }),                                 \
              want, ctx)
  NARY(isclose, is(a == b && a == c, units::none), a, b, c);
  NARY(isclose_equal_nan, is(a == b && a == c, units::none), a, b, c);
  NARY(where, is(a == units::none && b == c, b), a, b, c);
  NARY(geometry::position, is(a == b && a == c, a), a, b, c);
  NARY(histogram, is(a == c, b), a, b, c);
  NARY(rebin<std::less<>>, is(a == c, b), a, b, c);
  NARY(event::map_linspace, is(a == b && c == d, c), a, b, c, d);
  NARY(event::map_sorted_edges, is(a == b && c == d, c), a, b, c, d);
  NARY(event::lookup_previous, is(a == b && c == d, c), a, b, c, d);
  WRITES(event::map_and_mul_linspace, d, a == b ? attempt([&] { return d * c; }) : Result(), a, b, c);
  WRITES(event::map_and_mul_sorted_edges, d, a == b ? attempt([&] { return d * c; }) : Result(), a,
         b, c);
  WRITES(issorted_nondescending, c, is(a == b, units::none), a, b);
  WRITES(issorted_nonascending, c, is(a == b, units::none), a, b);
  WRITES(nan_to_num_out_arg, c, is(a == b, a), a, b);
  WRITES(positive_inf_to_num_out_arg, c, is(a == b, a), a, b);
  WRITES(negative_inf_to_num_out_arg, c, is(a == b, a), a, b);
  NARY(to_unit, is(true, b), a, b);
}

// --- values ------------------------------------------------------------------

template <class T> T number(Gen &g) {
  switch (g.draw(4)) {
  case 0:
    return static_cast<T>(g.integer(-4, 4));
  case 1:
    return static_cast<T>(g.uniform(-1, 1));
  case 2:
    return static_cast<T>(g.uniform(-20, 20));
  case 3:
    return g.one_of<T>({T(0), -T(0), std::numeric_limits<T>::infinity(),
                        -std::numeric_limits<T>::infinity(),
                        std::numeric_limits<T>::quiet_NaN(), T(1), T(-1)});
  default:
    return static_cast<T>(g.uniform(-1e4, 1e4));
  }
}
template <class T> bool near(const T got, const long double want) {
  if (std::isnan(want))
    return std::isnan(got);
  const auto w = static_cast<T>(want);
  if (std::isinf(w) || std::isinf(got))
    return w == got;
  if (w == 0 && got == 0)
    return std::signbit(w) == std::signbit(got);
  return std::abs(got - want) <=
         4 * std::numeric_limits<T>::epsilon() *
             std::max<long double>(std::abs(want), std::numeric_limits<T>::min());
}

template <class T> void values_of(Gen &g) {
  const auto x = number<T>(g), y = number<T>(g);
  const auto ctx = cat(double(x), " ", double(y));
  g.note(ctx);
  g.nontrivial(std::isfinite(x) && x != 0);
  const long double X = x, Y = y;
#define VALUE(op, reference)                                                    \
  do {                                                                          \
    const auto r = element::op(x);                                              \
    static_assert(std::is_same_v<std::decay_t<decltype(r)>, T>);                \
    PBT_CHECK(#op, near<T>(r, reference), "got ", double(r), " for ", ctx);     \
  } while (0)
  VALUE(sin, std::sin(X));
  VALUE(cos, std::cos(X));
  VALUE(tan, std::tan(X));
  VALUE(asin, std::asin(X));
  VALUE(acos, std::acos(X));
  VALUE(atan, std::atan(X));
  VALUE(sinh, std::sinh(X));
  VALUE(cosh, std::cosh(X));
  VALUE(tanh, std::tanh(X));
  VALUE(asinh, std::asinh(X));
  VALUE(acosh, std::acosh(X));
  VALUE(atanh, std::atanh(X));
  VALUE(exp, std::exp(X));
  VALUE(log, std::log(X));
  VALUE(log10, std::log10(X));
  VALUE(erf, std::erf(X));
  VALUE(erfc, std::erfc(X));
  VALUE(sqrt, std::sqrt(X));
  VALUE(abs, std::abs(X));
  VALUE(negative, -X);
  VALUE(floor, std::floor(X));
  VALUE(ceil, std::ceil(X));
  VALUE(rint, std::rint(X));
  VALUE(reciprocal, 1 / X);
  PBT_CHECK("atan2", near<T>(element::atan2(x, y), std::atan2(X, Y)), ctx);
  // Values and variances apart
  const ValueAndVariance<T> v{x, std::abs(y)};
  const auto is = [](const T p, const T q) { return p == q || (std::isnan(p) && std::isnan(q)); };
  PBT_CHECK("values", is(element::values(v), x) && is(element::values(x), x), ctx);
  PBT_CHECK("variances", is(element::variances(v), std::abs(y)), ctx);
  PBT_CHECK("stddevs", is(element::stddevs(v), std::sqrt(std::abs(y))), ctx);
  // Choices
  const bool c = g.boolean();
  PBT_CHECK("where", is(element::where(c, x, y), c ? x : y), ctx);
  const ValueAndVariance<T> w{y, std::abs(x)};
  const auto chosen = element::where(c, v, w);
  PBT_CHECK("where", is(chosen.value, c ? x : y) && is(chosen.variance, std::abs(c ? y : x)), ctx);
  T out = y;
  element::fill(out, x);
  PBT_CHECK("fill", is(out, x), ctx);
  element::fill_zeros(out);
  PBT_CHECK("fill_zeros", out == 0, ctx);
}
void values(Gen &g) { g.boolean() ? values_of<double>(g) : values_of<float>(g); }

/// Negation and division by zero of integers, logic, pairs, limits and vectors.
void choices(Gen &g) {
  const bool a = g.boolean(), b = g.boolean();
  const auto i = g.integer(-1000, 1000), j = g.integer(-1000, 1000);
  const auto ctx = cat(a, " ", b, " ", i, " ", j);
  g.note(ctx);
  g.nontrivial(i != j && i != 0);
  PBT_EQ("and", element::logical_and(a, b), a && b, ctx);
  PBT_EQ("or", element::logical_or(a, b), a || b, ctx);
  PBT_EQ("xor", element::logical_xor(a, b), a != b, ctx);
  PBT_EQ("not", element::logical_not(a), !a, ctx);
  bool r = a;
  element::logical_and_equals(r, b);
  PBT_EQ("and_equals", r, a && b, ctx);
  r = a;
  element::logical_or_equals(r, b);
  PBT_EQ("or_equals", r, a || b, ctx);
  r = a;
  element::logical_xor_equals(r, b);
  PBT_EQ("xor_equals", r, a != b, ctx);
  const auto pair = element::zip(i, j);
  PBT_CHECK("zip", pair.first == i && pair.second == j, ctx);
  PBT_CHECK("get", element::get<0>(pair) == i && element::get<1>(pair) == j, ctx);
  PBT_EQ("where", element::where(a, i, j), a ? i : j, ctx);
  const auto s = std::to_string(i), t = std::to_string(j);
  PBT_EQ("where", element::where(a, s, t), a ? s : t, ctx);
  PBT_EQ("negative", element::negative(i), -i, ctx);
  PBT_EQ("abs", element::abs(i), i < 0 ? -i : i, ctx);
  PBT_EQ("zeros", element::zeros_not_bool_like(i), 0, ctx);
  PBT_CHECK("zeros", (std::is_same_v<decltype(element::zeros_not_bool_like(a)), int64_t>)&&
                     element::zeros_not_bool_like(a) == 0, ctx);
  PBT_EQ("max", element::numeric_limits_max_like(i), std::numeric_limits<int64_t>::max(), ctx);
  PBT_EQ("lowest", element::numeric_limits_lowest_like(i), std::numeric_limits<int64_t>::min(), ctx);
  PBT_EQ("lowest", element::numeric_limits_lowest_like(1.5 * double(i)),
         std::numeric_limits<double>::lowest(), ctx);
  const auto time = element::numeric_limits_max_like(time_point{i});
  PBT_EQ("max", time.time_since_epoch(), std::numeric_limits<int64_t>::max(), ctx);
  bool up = g.boolean(), down = up;
  const bool before = up;
  element::issorted_nondescending(up, i, j);
  element::issorted_nonascending(down, i, j);
  PBT_CHECK("issorted", up == (before && i <= j) && down == (before && i >= j), ctx);
  const auto p = element::geometry::position(double(i), double(j), 0.5);
  PBT_CHECK("position", element::geometry::x(p) == double(i) && element::geometry::y(p) == double(j) &&
                            element::geometry::z(p) == 0.5, ctx);
}

/// The checks of preconditions throw exactly if the condition is not met.
void preconditions(Gen &g) {
  const std::vector<Dim> names{Dim("x"), Dim("y"), Dim("z"), Dim("a"), Dim("b")};
  const auto build = [&](const double p) {
    Dimensions dims;
    for (const auto dim : g.permutation(names))
      if (g.boolean(p))
        dims.addInner(dim, g.integer(0, 3));
    return dims;
  };
  auto a = build(0.7);
  Dimensions b;
  if (g.boolean(0.6)) {
    for (const auto dim : g.permutation(std::vector<Dim>(a.labels().begin(), a.labels().end())))
      if (g.boolean(0.6))
        b.addInner(dim, g.boolean(0.9) ? a[dim] : g.integer(0, 3));
  } else {
    b = build(0.4);
  }
  const auto ctx = to_string(a) + " " + to_string(b);
  g.note(ctx);
  g.nontrivial(a.ndim() > 1 && b.ndim() > 0);
  bool inside = true;
  for (const auto dim : b.labels())
    inside &= a.contains(dim) && a[dim] == b[dim];
  PBT_EQ("includes", throws([&] { scipp::expect::includes(a, b); }), !inside, ctx);
  PBT_EQ("includes", throws([&] { scipp::expect::includes(Sizes(a), Sizes(b)); }), !inside, ctx);
  bool same = inside && a.ndim() == b.ndim();
  PBT_EQ("equals", throws([&] { scipp::core::expect::equals(Sizes(a), Sizes(b)); }), !same, ctx);
  for (scipp::index i = 0; same && i < a.ndim(); ++i)
    same = a.label(i) == b.label(i);
  PBT_EQ("equals", throws([&] { scipp::core::expect::equals(a, b); }), !same, ctx);
  const auto n = g.integer(0, 5);
  PBT_EQ("ndim_is", throws([&] { scipp::core::expect::ndim_is(a, n); }), n != a.ndim(), ctx);
  const auto dim = g.pick(names);
  PBT_EQ("contains", throws([&] { scipp::expect::contains(a, dim); }), !a.contains(dim), ctx);
  const auto begin = g.integer(0, 4), end = g.integer(begin, 5);
  PBT_EQ("validSlice", throws([&] { scipp::core::expect::validSlice(a, Slice(dim, begin, end)); }),
         !a.contains(dim) || end > a[dim], ctx, " ", begin, " ", end);
  PBT_EQ("validSlice", throws([&] { scipp::core::expect::validSlice(a, Slice(dim, begin)); }),
         !a.contains(dim) || begin >= a[dim], ctx, " ", begin);
  PBT_CHECK("validSlice", !throws([&] { scipp::core::expect::validSlice(a, Slice{}); }), ctx);
  PBT_EQ("validExtent", throws([&] { scipp::core::expect::validExtent(begin - 2); }), begin < 2, begin);
  PBT_EQ("validDim", throws([&] { scipp::core::expect::validDim(dim); }), false, ctx);
  PBT_EQ("validDim", throws([&] { scipp::core::expect::validDim(Dim::Invalid); }), true, ctx);
  const std::vector<int> x(n), y(begin), z(end);
  PBT_EQ("sizeMatches", throws([&] { scipp::core::expect::sizeMatches(x, y, z); }),
         !(n == begin && n == end), n, begin, end);
  // Messages name what was expected and what was found.
  try {
    scipp::core::expect::ndim_is(a, a.ndim() + 1);
    PBT_CHECK("ndim_is", false, ctx);
  } catch (const scipp::except::DimensionError &e) {
    const std::string text = e.what();
    PBT_CHECK("message", text.find(std::to_string(a.ndim() + 1)) != text.npos &&
                             text.find(std::to_string(a.ndim())) != text.npos, text);
  }
  try {
    (void)a[Dim("missing")];
    PBT_CHECK("missing", false, ctx);
  } catch (const scipp::except::DimensionError &e) {
    const std::string text = e.what();
    bool all = text.find("missing") != text.npos;
    for (const auto d : a.labels())
      all &= text.find(d.name() + ":" + std::to_string(a[d])) != text.npos;
    PBT_CHECK("message", all, text);
  }
}
// Lists of events with and without variances, and what operators are made of.
void event_lists(Gen &g) {
  using List = std::vector<double>;
  const auto gen_list = [&](const int64_t n) {
    List x;
    for (int64_t i = 0; i < n; ++i)
      x.push_back(g.integer(-9, 9) * 0.5);
    return x;
  };
  const auto n = g.length(0, 4), m = g.length(0, 4);
  const List a = gen_list(n), va = gen_list(n), b = gen_list(m), vb = gen_list(m);
  const auto at = g.integer(0, n), from = g.integer(0, m), to = g.integer(from, m);
  const auto ctx = cat(n, " ", m, " at ", at, " from ", from, " to ", to);
  g.note(ctx);
  g.nontrivial(n > 0 && m > 0);
  const auto inserted = [&](List x, const List &y, const int64_t where, const int64_t i, const int64_t j) {
    x.insert(x.begin() + where, y.begin() + i, y.begin() + j);
    return x;
  };
  {
    List x = a, v = va;
    List y = b, w = vb;
    ValuesAndVariances out(x, v);
    ValuesAndVariances in(y, w);
    PBT_EQ("size", int64_t(out.size()), n, ctx);
    const auto range = in.begin();
    const std::pair first{range.first + from, range.second + from};
    const std::pair last{range.first + to, range.second + to};
    const std::pair pos{out.begin().first + at, out.begin().second + at};
    switch (g.integer(0, 4)) {
    case 0:
      out.insert(pos, first, last);
      PBT_CHECK("insert", x == inserted(a, b, at, from, to) && v == inserted(va, vb, at, from, to), ctx);
      break;
    case 1:
      out.insert(out.end(), in.begin(), in.end());
      PBT_CHECK("append", x == inserted(a, b, n, 0, m) && v == inserted(va, vb, n, 0, m), ctx);
      break;
    case 2: {
      bool thrown = false;
      try {
        out.insert(out.end(), b.begin(), b.end());
      } catch (const scipp::except::VariancesError &) {
        thrown = true;
      }
      PBT_CHECK("insert-mixed", thrown && x == a && v == va, ctx);
      break;
    }
    case 3:
      out = std::pair(List(b), List(vb));
      PBT_CHECK("assign", x == b && v == vb, ctx);
      break;
    default:
      out.reserve(n + m);
      PBT_CHECK("reserve", x == a && v == va && int64_t(x.capacity()) >= n + m && int64_t(v.capacity()) >= n + m, ctx);
      out.clear();
      PBT_CHECK("clear", x.empty() && v.empty(), ctx);
    }
    PBT_CHECK("operand", y == b && w == vb, ctx);
    bool refused = false;
    try {
      List s = a, t = b;
      ValuesAndVariances both(s, t);
    } catch (const scipp::except::SizeError &) {
      refused = true;
    }
    PBT_EQ("sizes", refused, n != m, ctx);
  }
  const Unit u = gen_unit(g), w = g.boolean() ? u : gen_unit(g);
  {
    const auto assign = assign_unary{scipp::overloaded{[](const auto &x) { return x * 2.0; }, [](const Unit &x) { return x; }}};
    double out = 1.0;
    const double in = g.integer(-9, 9) * 0.5;
    auto copy = assign;
    copy(out, in);
    PBT_EQ("assign_unary", out, in * 2.0, ctx);
    Unit unit = units::one;
    copy(unit, u);
    PBT_CHECK("assign_unary", unit == u, show(u));
  }
  {
    Unit x = u;
    const bool refused = !attempt([&] {
      dimensionless_unit_check(x, w);
      return x;
    });
    PBT_CHECK("dimensionless_unit_check", refused == !(u == units::one && w == units::one) && x == u, show(u), show(w));
    keep_unit(x);
    keep_unit(x, w);
    PBT_CHECK("keep_unit", x == u, show(u), show(w));
  }
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C15";
  p.rule = "all combinations of none, one, angles and products and quotients of 14 units "
           "for one to four operands of every element function; random and special "
           "numbers against long double; random dimensions. Non-trivial: units that "
           "differ and are not none or one; finite numbers other than 0; at least two dims.";
  p.assumptions = {"LLNL-Units is replaced by a stand-in with the same bit fields"};
  p.laws = {{"units_of_one", 60000, 1000000, units_of_one},
            {"units_of_two", 100000, 2000000, units_of_two},
            {"units_of_more", 100000, 2000000, units_of_more},
            {"values", 400000, 8000000, values},
            {"choices", 200000, 4000000, choices},
            {"preconditions", 100000, 2000000, preconditions},
            {"event_lists", 60000, 1000000, event_lists}};
  return run(argc, argv, p);
}
