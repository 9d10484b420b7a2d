// C12: element operations behind comparison, min/max, unit conversion, sorting,
// special values and rebinning obey their definitions.
// sanitize: -D_GLIBCXX_ASSERTIONS
#include "pbt.h"

#include <algorithm>
#include <memory>

#include "scipp/core/element/comparison.h"
#include "scipp/core/element/creation.h"
#include "scipp/core/element/logical.h"
#include "scipp/core/element/rebin.h"
#include "scipp/core/element/sort.h"
#include "scipp/core/element/special_values.h"
#include "scipp/core/element/to_unit.h"
#include "scipp/core/element/util.h"

using namespace pbt;
using scipp::span;
using scipp::core::time_point;
using scipp::core::ValueAndVariance;
namespace element = scipp::core::element;
using idx = scipp::index;
using ld = long double;

namespace {
template <class T> T number(Gen &g) {
  if constexpr (std::is_same_v<T, time_point>)
    return time_point(g.integer(-50, 50));
  else if constexpr (std::is_same_v<T, bool>)
    return g.boolean();
  else if constexpr (std::is_integral_v<T>)
    return g.boolean(0.8)
               ? static_cast<T>(g.integer(-9, 9))
               : static_cast<T>(g.integer(std::numeric_limits<T>::min() / 2,
                                          std::numeric_limits<T>::max() / 2));
  else
    return g.boolean() ? static_cast<T>(g.integer(-9, 9) / 4.0)
                       : static_cast<T>(g.any_double());
}
template <class T> bool nan(const T x) {
  if constexpr (std::is_floating_point_v<T>)
    return x != x;
  else
    return false;
}
template <class T> bool same(const T a, const T b) {
  return a == b || (nan(a) && nan(b));
}
template <class T> std::string str(const T &x) {
  if constexpr (std::is_same_v<T, time_point>)
    return cat("t", x.time_since_epoch());
  else
    return cat(+x);
}
template <class T> std::string show(const std::vector<T> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i)
    s += str<T>(v[i]) + " ";
  return s + "]";
}

// --------------------------------------------------------------- comparison
template <class A, class B> void compare_(Gen &g) {
  const A a = number<A>(g);
  B b = number<B>(g);
  if constexpr (std::is_arithmetic_v<A> && !std::is_same_v<B, bool>)
    if (g.boolean(0.2) && (std::is_floating_point_v<B> || std::abs(double(a)) < 1e9))
      b = static_cast<B>(a);
  const auto ctx = cat(str(a), " and ", str(b));
  g.note(ctx);
  bool lt, gt, eq;
  if constexpr (std::is_same_v<A, time_point>) {
    lt = a.time_since_epoch() < b.time_since_epoch();
    gt = a.time_since_epoch() > b.time_since_epoch();
    eq = a.time_since_epoch() == b.time_since_epoch();
  } else {
    using C = std::common_type_t<A, B>;
    lt = C(a) < C(b);
    gt = C(a) > C(b);
    eq = C(a) == C(b);
  }
  PBT_EQ("less", bool(element::less(a, b)), lt, ctx);
  PBT_EQ("greater", bool(element::greater(a, b)), gt, ctx);
  PBT_EQ("less-equal", bool(element::less_equal(a, b)), lt || eq, ctx);
  PBT_EQ("greater-equal", bool(element::greater_equal(a, b)), gt || eq, ctx);
  PBT_EQ("equal", bool(element::equal(a, b)), eq, ctx);
  PBT_EQ("not-equal", bool(element::not_equal(a, b)), !eq, ctx);
  g.nontrivial(!(a == A{}) && !(b == B{}));
}
void compare(Gen &g) {
  switch (g.draw(9)) {
  case 0:
    return compare_<double, double>(g);
  case 1:
    return compare_<float, float>(g);
  case 2:
    return compare_<int64_t, int64_t>(g);
  case 3:
    return compare_<int32_t, int32_t>(g);
  case 4:
    return compare_<int32_t, int64_t>(g);
  case 5:
    return compare_<double, float>(g);
  case 6:
    return compare_<double, int64_t>(g);
  case 7:
    return compare_<bool, bool>(g);
  case 8:
    return compare_<int32_t, double>(g);
  default:
    return compare_<time_point, time_point>(g);
  }
}

template <class A, class B, class T> void isclose_(Gen &g) {
  const A a = number<A>(g);
  const B b = g.boolean(0.3) && std::abs(double(a)) < 1e9
                  ? static_cast<B>(static_cast<B>(a) + static_cast<B>(g.integer(-2, 2)))
                  : number<B>(g);
  T t = number<T>(g);
  if (t < 0)
    t = -t;
  const auto ctx = cat(+a, " and ", +b, " tolerance ", +t);
  g.note(ctx);
  using C = std::common_type_t<A, B>;
  bool expected;
  bool near = false; // decided by rounding
  if constexpr (std::is_integral_v<C>) {
    const auto d = static_cast<__int128>(a) - static_cast<__int128>(b);
    const auto m = d < 0 ? -d : d;
    if (m > std::numeric_limits<C>::max())
      throw Discard{}; // the difference is not representable
    expected = std::is_integral_v<T> ? m <= static_cast<__int128>(t) : double(m) <= double(t);
  } else {
    expected = std::abs(C(a) - C(b)) <= t;
  }
  PBT_EQ("isclose", bool(element::isclose(a, b, t)), expected, ctx);
  bool expected_nan = expected;
  if constexpr (std::is_floating_point_v<A> && std::is_floating_point_v<B>) {
    if (nan(a) && nan(b))
      expected_nan = true;
    if (std::isinf(a) && std::isinf(b) && (a > 0) == (b > 0))
      expected_nan = true;
    if constexpr (std::is_same_v<T, A>) {
      const ValueAndVariance<A> va{a, A(1)};
      const ValueAndVariance<B> vb{b, B(2)};
      PBT_EQ("isclose-value", bool(element::isclose_equal_nan(va, vb, t)),
             expected_nan, ctx);
    }
  }
  (void)near;
  PBT_EQ("isclose-nan", bool(element::isclose_equal_nan(a, b, t)), expected_nan, ctx);
  g.nontrivial(!(a == b));
}
void isclose(Gen &g) {
  switch (g.draw(6)) {
  case 0:
    return isclose_<double, double, double>(g);
  case 1:
    return isclose_<float, float, float>(g);
  case 2:
    return isclose_<int64_t, int64_t, int64_t>(g);
  case 3:
    return isclose_<int32_t, int32_t, int32_t>(g);
  case 4:
    return isclose_<int32_t, int64_t, int64_t>(g);
  case 5:
    return isclose_<int64_t, int32_t, double>(g);
  default:
    return isclose_<float, float, double>(g);
  }
}

// ------------------------------------------------------------------ min, max
template <class T> void extreme_(Gen &g) {
  const auto n = g.length(1, 8);
  std::vector<T> v;
  for (int64_t i = 0; i < n; ++i) {
    T x = number<T>(g);
    if constexpr (std::is_floating_point_v<T>)
      if (g.boolean(0.15))
        x = std::numeric_limits<T>::quiet_NaN();
    v.push_back(x);
  }
  g.note(show(v));
  bool any_nan = false, all_nan = true;
  std::optional<T> lo, hi;
  for (const T x : v)
    if (nan(x)) {
      any_nan = true;
    } else {
      all_nan = false;
      if (!lo || x < *lo)
        lo = x;
      if (!hi || x > *hi)
        hi = x;
    }
  const auto fold = [&](const auto &op) {
    T a = v[0];
    for (size_t i = 1; i < v.size(); ++i) {
      const T b = v[i];
      op(a, b);
    }
    return a;
  };
  const auto expect = [&](const char *name, const T got, const std::optional<T> &want,
                          const bool is_nan) {
    PBT_CHECK(name, is_nan ? nan(got) : got == *want, str(got), " from ", show(v));
  };
  expect("max", fold(element::max_equals), hi, any_nan);
  expect("min", fold(element::min_equals), lo, any_nan);
  expect("nanmax", fold(element::nanmax_equals), hi, all_nan);
  expect("nanmin", fold(element::nanmin_equals), lo, all_nan);
  if constexpr (std::is_floating_point_v<T>) {
    // The variance belongs to the value that was chosen.
    using VV = ValueAndVariance<T>;
    const auto fold_var = [&](const auto &op, const char *name) {
      VV a{v[0], T(1)};
      for (size_t i = 1; i < v.size(); ++i)
        op(a, VV{v[i], T(i + 1)});
      bool ok = false;
      for (size_t i = 0; i < v.size(); ++i)
        ok |= same(v[i], a.value) && a.variance == T(i + 1);
      PBT_CHECK(name, ok, a.value, " variance ", a.variance, " from ", show(v));
      return a.value;
    };
    expect("max", fold_var(element::max_equals, "max-variance"), hi, any_nan);
    expect("min", fold_var(element::min_equals, "min-variance"), lo, any_nan);
    expect("nanmax", fold_var(element::nanmax_equals, "nanmax-variance"), hi, all_nan);
    expect("nanmin", fold_var(element::nanmin_equals, "nanmin-variance"), lo, all_nan);
  }
  // Neutral start values
  const T first = v[0];
  const T a = element::numeric_limits_lowest_like(first);
  const T b = element::numeric_limits_max_like(first);
  if (hi) {
    PBT_CHECK("lowest", a <= *lo || std::is_floating_point_v<T>, "");
    PBT_CHECK("highest", *hi <= b || std::is_floating_point_v<T>, "");
  }
  g.nontrivial(n > 1);
  if (any_nan)
    g.label("nan");
}
void extreme(Gen &g) {
  switch (g.draw(5)) {
  case 0:
    return extreme_<double>(g);
  case 1:
    return extreme_<float>(g);
  case 2:
    return extreme_<int64_t>(g);
  case 3:
    return extreme_<int32_t>(g);
  case 4:
    return extreme_<bool>(g);
  default:
    return extreme_<time_point>(g);
  }
}

// ---------------------------------------------------------- unit conversion
// The scale is exact; integers are rounded to nearest, halves away from zero,
// and saturate.
template <class T> void convert_int(Gen &g) {
  const auto mk = [](const T x) { return x; };
  using lim = std::numeric_limits<T>;
  T x;
  switch (g.draw(2)) {
  case 0:
    x = static_cast<T>(g.integer(-5000, 5000));
    break;
  case 1:
    x = static_cast<T>(g.integer(lim::min(), lim::max()));
    break;
  default:
    x = static_cast<T>(g.integer(lim::min(), lim::max()) >> g.draw(40));
  }
  if constexpr (sizeof(T) == 8) {
    if (g.boolean()) { // whole scale: exact
      const int64_t scale = g.one_of<int64_t>({1, 60, 1000, 3600, 1000000, 1000000000});
      const auto r = static_cast<__int128>(x) * scale;
      if (r > lim::max() || r < lim::min())
        throw Discard{};
      const auto ctx = cat(x, " * ", scale);
      g.note(ctx);
      PBT_EQ("whole-scale", element::to_unit(mk(x), scale), static_cast<int64_t>(r),
             ctx);
      PBT_EQ("whole-scale-time",
             element::to_unit(time_point(x), scale).time_since_epoch(),
             static_cast<int64_t>(r), ctx);
      g.nontrivial(std::abs(x) > 1);
      return;
    }
  }
  const double scale = g.one_of({1e-3, 1e-6, 1e-9, 0.5, 0.25, 1.0 / 60, 1.0 / 3600,
                                 2.54, 1e3, 1e12, 1.5});
  const ld exact = static_cast<ld>(x) * static_cast<ld>(scale);
  const ld slack = 1 + std::abs(exact) * 4e-16L; // double arithmetic
  const T r = element::to_unit(mk(x), scale);
  const auto ctx = cat(+x, " * ", scale, " = ", +r);
  g.note(ctx);
  if (exact > static_cast<ld>(lim::max()) + slack)
    PBT_EQ("saturate", r, lim::max(), ctx);
  else if (exact < static_cast<ld>(lim::min()) - slack)
    PBT_EQ("saturate", r, lim::min(), ctx);
  else {
    PBT_CHECK("scaled",
              std::abs(static_cast<ld>(r) - exact) <= 0.5L + std::abs(exact) * 4e-16L,
              ctx);
    // Exactly representable products: to nearest, halves away from zero.
    if (std::abs(static_cast<ld>(x)) < 9e15L && (scale == 0.5 || scale == 0.25 || scale == 1.5) &&
        std::abs(exact) < 4e15L)
      PBT_EQ("nearest", static_cast<ld>(r), std::round(exact), ctx);
  }
  if constexpr (sizeof(T) == 8)
    PBT_EQ("time", element::to_unit(time_point(x), scale).time_since_epoch(), r, ctx);
  g.nontrivial(x != 0);
}
void convert_real(Gen &g) {
  const double x = g.any_double();
  const double scale = g.one_of({1e-3, 1e3, 0.5, 2.54, 1.0});
  g.note(cat(x, " * ", scale));
  PBT_CHECK("double", same(element::to_unit(x, scale), x * scale), x, " ", scale);
  const float f = static_cast<float>(x);
  PBT_CHECK("float", same(element::to_unit(f, scale), static_cast<float>(f * scale)),
            f, " ", scale);
  const ValueAndVariance<double> v{x, 2.0};
  const auto r = element::to_unit(v, scale);
  PBT_CHECK("variance", same(r.value, x * scale) &&
                            std::abs(r.variance - 2.0 * scale * scale) <=
                                1e-15 * scale * scale * 4,
            x, " ", scale, " ", r.variance);
  const Eigen::Vector3d p(1, -2, g.finite());
  PBT_CHECK("vector", element::to_unit(p, scale) == Eigen::Vector3d(p * scale), "");
  const scipp::core::Translation t(p);
  PBT_CHECK("translation", element::to_unit(t, scale).vector() == Eigen::Vector3d(p * scale), "");
  Eigen::Affine3d a(Eigen::AngleAxisd(g.uniform(0, 3), Eigen::Vector3d::UnitX()));
  a.translation() = p;
  const auto b = element::to_unit(a, scale);
  PBT_CHECK("affine", b.linear() == a.linear() &&
                          b.translation() == Eigen::Vector3d(p * scale), "");
  g.nontrivial(x != 0 && scale != 1);
}
void convert(Gen &g) {
  switch (g.draw(2)) {
  case 0:
    return convert_int<int64_t>(g);
  case 1:
    return convert_int<int32_t>(g);
  default:
    return convert_real(g);
  }
}

// ------------------------------------------------------------------- sorting
template <class T> T sortable(Gen &g) {
  if constexpr (std::is_same_v<T, std::string>) {
    return g.ident(2);
  } else {
    T x = number<T>(g);
    return nan(x) ? T{} : x;
  }
}
template <class T> void sort_(Gen &g) {
  const auto n = g.length(0, 30);
  std::vector<T> v;
  for (int64_t i = 0; i < n; ++i)
    v.push_back(sortable<T>(g));
  const bool up = g.boolean();
  auto expected = v;
  std::stable_sort(expected.begin(), expected.end(),
                   [&](const T &a, const T &b) { return up ? a < b : b < a; });
  bool vars = false;
  if constexpr (std::is_floating_point_v<T>) {
    vars = g.boolean();
    if (vars) {
      auto x = v;
      std::vector<T> var;
      std::vector<std::pair<T, T>> before, after;
      for (int64_t i = 0; i < n; ++i) {
        var.push_back(T(i));
        before.emplace_back(x[i], var[i]);
      }
      ValueAndVariance<span<T>> range{span<T>(x.data(), n), span<T>(var.data(), n)};
      up ? element::sort_nondescending(range) : element::sort_nonascending(range);
      PBT_CHECK("sorted", x == expected, show(v), " to ", show(x), " up ", up);
      for (int64_t i = 0; i < n; ++i)
        after.emplace_back(x[i], var[i]);
      std::sort(before.begin(), before.end());
      std::sort(after.begin(), after.end());
      PBT_CHECK("pairs-kept", before == after, show(v), " up ", up);
    }
  }
  if (!vars) {
    auto x = v;
    span<T> range(x.data(), n);
    up ? element::sort_nondescending(range) : element::sort_nonascending(range);
    PBT_CHECK("sorted", x == expected, "up ", up);
  }
  bool ascending = true, descending = true;
  for (int64_t i = 0; i + 1 < n; ++i) {
    element::issorted_nondescending(ascending, v[i], v[i + 1]);
    element::issorted_nonascending(descending, v[i], v[i + 1]);
  }
  PBT_EQ("issorted", ascending, std::is_sorted(v.begin(), v.end()), "");
  PBT_EQ("issorted-down", descending, std::is_sorted(v.rbegin(), v.rend()), "");
  g.nontrivial(n > 2);
}
void sorting(Gen &g) {
  switch (g.draw(5)) {
  case 0:
    return sort_<double>(g);
  case 1:
    return sort_<float>(g);
  case 2:
    return sort_<int64_t>(g);
  case 3:
    return sort_<int32_t>(g);
  case 4:
    return sort_<std::string>(g);
  default:
    return sort_<time_point>(g);
  }
}

// ------------------------------------------------ special values, where, logic
template <class T> void special_(Gen &g) {
  const T x = static_cast<T>(g.any_double());
  const T r = static_cast<T>(g.integer(-3, 3));
  const bool n = x != x, inf = std::isinf(x), pos = inf && x > 0, neg = inf && x < 0;
  const auto ctx = cat(x, " replaced by ", r);
  g.note(ctx);
  PBT_EQ("isnan", bool(element::isnan(x)), n, ctx);
  PBT_EQ("isinf", bool(element::isinf(x)), inf, ctx);
  PBT_EQ("isfinite", bool(element::isfinite(x)), !n && !inf, ctx);
  PBT_EQ("isposinf", bool(element::isposinf(x)), pos, ctx);
  PBT_EQ("isneginf", bool(element::isneginf(x)), neg, ctx);
  PBT_CHECK("nan-to-num", same(element::nan_to_num(x, r), n ? r : x), ctx);
  PBT_CHECK("posinf-to-num", same(element::positive_inf_to_num(x, r), pos ? r : x), ctx);
  PBT_CHECK("neginf-to-num", same(element::negative_inf_to_num(x, r), neg ? r : x), ctx);
  const auto out = [&](const auto &op) {
    T o = T(99);
    op(o, x, r);
    return o;
  };
  PBT_CHECK("nan-to-num-out", same(out(element::nan_to_num_out_arg), n ? r : x), ctx);
  PBT_CHECK("posinf-out", same(out(element::positive_inf_to_num_out_arg), pos ? r : x), ctx);
  PBT_CHECK("neginf-out", same(out(element::negative_inf_to_num_out_arg), neg ? r : x), ctx);
  using VV = ValueAndVariance<T>;
  const VV v{x, T(2)}, w{r, T(5)};
  const auto check = [&](const char *name, const auto &op, const auto &op_out,
                         const bool replaced) {
    const VV a = op(v, w);
    VV b{T(99), T(99)};
    op_out(b, v, w);
    const auto ok = [&](const VV &y) {
      return same(y.value, replaced ? r : x) && y.variance == (replaced ? T(5) : T(2));
    };
    PBT_CHECK(name, ok(a) && ok(b), ctx);
  };
  check("nan-variance", element::nan_to_num, element::nan_to_num_out_arg, n);
  check("posinf-variance", element::positive_inf_to_num,
        element::positive_inf_to_num_out_arg, pos);
  check("neginf-variance", element::negative_inf_to_num,
        element::negative_inf_to_num_out_arg, neg);
  PBT_CHECK("values", same(element::values(v), x) && element::variances(v) == T(2) &&
                          element::stddevs(v) == std::sqrt(T(2)),
            ctx);
  const bool c = g.boolean();
  PBT_CHECK("where", same(element::where(c, x, r), c ? x : r), ctx);
  const bool a = g.boolean(), b = g.boolean();
  PBT_EQ("and", bool(element::logical_and(a, b)), a && b, "");
  PBT_EQ("or", bool(element::logical_or(a, b)), a || b, "");
  PBT_EQ("xor", bool(element::logical_xor(a, b)), a != b, "");
  PBT_EQ("not", bool(element::logical_not(a)), !a, "");
  bool i = a;
  element::logical_and_equals(i, b);
  PBT_EQ("and-equals", i, a && b, "");
  i = a;
  element::logical_or_equals(i, b);
  PBT_EQ("or-equals", i, a || b, "");
  i = a;
  element::logical_xor_equals(i, b);
  PBT_EQ("xor-equals", i, a != b, "");
  const Eigen::Vector3d vec(1, x, 2);
  PBT_EQ("vector-isnan", bool(element::isnan(vec)), n, ctx);
  PBT_EQ("vector-isinf", bool(element::isinf(vec)), inf, ctx);
  PBT_EQ("vector-isfinite", bool(element::isfinite(vec)), !n && !inf, ctx);
  g.nontrivial(n || inf);
}
void special(Gen &g) { return g.boolean() ? special_<double>(g) : special_<float>(g); }

// -------------------------------------------------------------------- rebin
struct Up {
  template <class A, class B> constexpr bool operator()(const A a, const B b) const noexcept {
    return a < b;
  }
};
struct Down {
  template <class A, class B> constexpr bool operator()(const A a, const B b) const noexcept {
    return a > b;
  }
};
template <class E> std::vector<E> rebin_edges(Gen &g, const std::vector<E> &other) {
  std::vector<int64_t> v;
  const auto n = g.length(2, 9);
  int64_t x = g.integer(-10, 10);
  for (int64_t i = 0; i < n; ++i) {
    v.push_back(x);
    x += g.integer(1, 8);
  }
  (void)other;
  std::vector<E> out;
  for (auto i : v)
    if constexpr (std::is_floating_point_v<E>)
      out.push_back(static_cast<E>(i) / 4);
    else
      out.push_back(E(i));
  return out;
}
template <class E> double num(const E &x) {
  if constexpr (std::is_same_v<E, time_point>)
    return double(x.time_since_epoch());
  else
    return double(x);
}
template <class Out, class In, class E> void rebin_(Gen &g) {
  auto xo = rebin_edges<E>(g, {});
  auto xn = rebin_edges<E>(g, {});
  const idx no = idx(xo.size()) - 1, nn = idx(xn.size()) - 1;
  const bool down = g.boolean(0.3);
  if (down) {
    std::reverse(xo.begin(), xo.end());
    std::reverse(xn.begin(), xn.end());
  }
  const auto data = std::make_unique<In[]>(no);
  std::vector<Out> out(nn, Out(55)), outv(nn, Out(55));
  std::vector<double> in(no);
  for (idx i = 0; i < no; ++i) {
    in[i] = std::is_same_v<In, bool> ? double(g.boolean()) : double(g.integer(-20, 20));
    data[i] = static_cast<In>(in[i]);
  }
  bool vars = false;
  const auto ctx = cat("data ", seq(in), " edges ", show(xo), " to ", show(xn));
  g.note(ctx);
  const auto run = [&](const auto &kernel) {
    const span<const E> sn(xn.data(), nn + 1), so(xo.data(), no + 1);
    const span<const In> d(data.get(), no);
    const span<Out> o(out.data(), nn);
    if constexpr (std::is_same_v<In, Out>) {
      vars = g.boolean(0.3);
      if (vars) {
        kernel(ValueAndVariance<span<Out>>{o, span<Out>(outv.data(), nn)}, sn,
               ValueAndVariance<span<const In>>{d, d}, so);
        return;
      }
    }
    kernel(o, sn, d, so);
  };
  down ? run(element::rebin<Down>) : run(element::rebin<Up>);
  bool partial = false;
  for (idx j = 0; j < nn; ++j) {
    ld sum = 0, scale = 0;
    const ld nl = std::min(num(xn[j]), num(xn[j + 1])), nh = std::max(num(xn[j]), num(xn[j + 1]));
    for (idx i = 0; i < no; ++i) {
      const ld ol = std::min(num(xo[i]), num(xo[i + 1])), oh = std::max(num(xo[i]), num(xo[i + 1]));
      const ld overlap = std::max<ld>(0, std::min(nh, oh) - std::max(nl, ol));
      sum += in[i] * overlap / (oh - ol);
      scale += std::abs(in[i]);
      partial |= overlap > 0 && overlap < oh - ol;
    }
    const ld tol = 8 * std::numeric_limits<Out>::epsilon() * scale;
    PBT_CHECK("rebin", std::abs(out[j] - sum) <= tol, "bin ", j, " is ", out[j],
              " expected ", sum, " ", ctx);
    if (vars)
      PBT_CHECK("rebin-variance", std::abs(outv[j] - sum) <= tol, "bin ", j, " is ",
                outv[j], " expected ", sum, " ", ctx);
  }
  g.nontrivial(partial);
  g.label(down ? "descending" : "ascending");
}
void rebin(Gen &g) {
  switch (g.draw(6)) {
  case 0:
    return rebin_<double, double, double>(g);
  case 1:
    return rebin_<float, float, float>(g);
  case 2:
    return rebin_<float, float, double>(g);
  case 3:
    return rebin_<double, int64_t, double>(g);
  case 4:
    return rebin_<double, bool, double>(g);
  case 5:
    return rebin_<double, double, time_point>(g);
  default:
    return rebin_<double, int32_t, time_point>(g);
  }
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C12";
  p.rule =
      "operands of every supported element type, small, extreme and special, in "
      "single operations and folds; compared with definitions in 128-bit integers "
      "and long double, rebinning with the sum of overlaps. Non-trivial: operands "
      "differ or are not zero; more than one element; a bin is split.";
  p.laws = {{"compare", 1600000, 16000000, compare},
            {"isclose", 1600000, 16000000, isclose},
            {"extreme", 1200000, 12000000, extreme},
            {"convert", 1600000, 16000000, convert},
            {"sorting", 800000, 8000000, sorting},
            {"special", 800000, 8000000, special},
            {"rebin", 1200000, 12000000, rebin}};
  return run(argc, argv, p);
}
