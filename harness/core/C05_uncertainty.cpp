// C05: uncertainties propagate to first order.
#include "pbt.h"

#include "scipp/common/numeric.h"
#include "scipp/core/value_and_variance.h"

using namespace pbt;
using scipp::core::ValueAndVariance;
using ld = long double;

namespace {
template <class T> constexpr bool is_vv = scipp::is_ValueAndVariance_v<T>;
template <class T> struct elem {
  using type = T;
};
template <class T> struct elem<ValueAndVariance<T>> {
  using type = T;
};
template <class T> using elem_t = typename elem<T>::type;
template <class T> constexpr bool is_single = std::is_same_v<elem_t<T>, float>;

template <class T> T scalar(Gen &g, bool wide, bool single = false) {
  if constexpr (std::is_integral_v<T>) {
    const int64_t top =
        sizeof(T) == 8 ? (wide ? int64_t(1) << (single ? 40 : 62) : 1000000)
                       : (wide ? (int64_t(1) << 31) - 1 : 1000);
    const auto x = g.integer(-top, top);
    return static_cast<T>(x);
  } else {
    const auto top = std::is_same_v<T, float> ? 3.0 : (wide ? 35.0 : 3.0);
    double x;
    switch (g.weighted({3, 3, 1})) {
    case 0:
      x = static_cast<double>(g.integer(-20, 20));
      break;
    case 1:
      x = std::pow(10.0, g.uniform(-top, top)) * (g.boolean() ? -1 : 1);
      break;
    default:
      x = g.one_of({0.0, -0.0, 1.0, -1.0});
    }
    return static_cast<T>(x);
  }
}
template <class T> T variance(Gen &g, bool wide) {
  if (g.boolean(0.1))
    return 0;
  return std::abs(scalar<T>(g, wide));
}
template <class T> T operand(Gen &g, bool wide, bool single = false) {
  if constexpr (is_vv<T>)
    return T(scalar<elem_t<T>>(g, wide), variance<elem_t<T>>(g, wide));
  else
    return scalar<T>(g, wide, single);
}

template <class T> ld val(const T &x) {
  if constexpr (is_vv<T>)
    return x.value;
  else
    return x;
}
template <class T> ld var(const T &x) {
  if constexpr (is_vv<T>)
    return x.variance;
  else
    return 0;
}
template <class T> auto raw(const T &x) {
  if constexpr (is_vv<T>)
    return x.value;
  else
    return x;
}
template <class T> std::string show(const T &x) {
  if constexpr (is_vv<T>)
    return cat("(", x.value, " +- var ", x.variance, ")");
  else
    return cat(x);
}

bool close(ld got, ld want, ld rel, ld scale) {
  if (std::isnan(want) || std::isinf(want))
    return std::isnan(want) ? std::isnan(got) : got == want;
  return std::abs(got - want) <= rel * std::max(std::abs(want), scale);
}

template <class A> bool same_value(A got, A want) {
  if constexpr (std::is_floating_point_v<A>)
    if (std::isnan(got) || std::isnan(want))
      return std::isnan(got) == std::isnan(want);
  return got == want;
}

// The value is that of the operation without variances; the variance is
// sum (df/dx)^2 var(x).
template <class R, class V>
void check(const char *what, const R &got, const V &value, ld want_var,
           bool single, const std::string &ctx) {
  static_assert(is_vv<R>);
  const ld rel = single ? 1e-4L : 1e-10L;
  PBT_CHECK("value",
            close(got.value, static_cast<ld>(value), single ? 1e-6L : 1e-14L, 0),
            what, " gives ", show(got), ", want value ", value, ", ", ctx);
  PBT_CHECK("variance", close(got.variance, want_var, rel, 0), what, " gives ",
            show(got), ", want variance ", static_cast<double>(want_var), ", ",
            ctx);
}

template <class A, class B> void binary_typed(Gen &g) {
  const bool wide = g.boolean(0.4);
  constexpr bool single = is_single<A> || is_single<B>;
  const auto a = operand<A>(g, wide, single);
  const auto b = operand<B>(g, wide, single);
  const auto ctx = cat(show(a), " ", sizeof(elem_t<A>), " and ", show(b), " ",
                       sizeof(elem_t<B>));
  g.note(ctx);
  const ld x = val(a), y = val(b), vx = var(a), vy = var(b);
  const auto p = raw(a);
  const auto q = raw(b);
  check("+", a + b, p + q, vx + vy, single, ctx);
  check("-", a - b, p - q, vx + vy, single, ctx);
  check("*", a * b, p * q, vx * y * y + vy * x * x, single, ctx);
  if (y != 0)
    check("/", a / b, p / q, vx / (y * y) + vy * x * x / (y * y * y * y),
          single, ctx);
  if constexpr (is_vv<A> && is_vv<B>) {
    const bool lt = p < q, gt = p > q, eq = p == q;
    PBT_EQ("<", a < b, lt, ctx);
    PBT_EQ(">", a > b, gt, ctx);
    PBT_EQ("==", a == b, eq, ctx);
    PBT_EQ("!=", a != b, !eq, ctx);
    PBT_EQ("<=", a <= b, lt || eq, ctx);
    PBT_EQ(">=", a >= b, gt || eq, ctx);
    if constexpr (std::is_same_v<A, B>) {
      const auto lo = min(a, b);
      const auto hi = max(a, b);
      auto is = [](const A &u, const A &v) {
        return u.value == v.value && u.variance == v.variance;
      };
      PBT_CHECK("min", lt ? is(lo, a) : gt ? is(lo, b) : is(lo, a) || is(lo, b),
                ctx);
      PBT_CHECK("max", gt ? is(hi, a) : lt ? is(hi, b) : is(hi, a) || is(hi, b),
                ctx);
    }
  } else {
    PBT_EQ("<", a < b, p < q, ctx);
    PBT_EQ(">", a > b, p > q, ctx);
    PBT_EQ("==", a == b, p == q, ctx);
    PBT_EQ("!=", a != b, p != q, ctx);
    PBT_EQ("<=", a <= b, p <= q, ctx);
    PBT_EQ(">=", a >= b, p >= q, ctx);
  }
  if constexpr (is_vv<A>) { // in place, rounded to the type of a
    auto same = [&](const char *what, const A &got, const auto &want) {
      const A w{static_cast<elem_t<A>>(want.value),
                static_cast<elem_t<A>>(want.variance)};
      PBT_CHECK("in-place",
                same_value(got.value, w.value) &&
                    same_value(got.variance, w.variance),
                what, " gives ", show(got), ", want ", show(w), ", ", ctx);
    };
    auto r = a;
    same("+=", r += b, a + b);
    r = a;
    same("-=", r -= b, a - b);
    r = a;
    same("*=", r *= b, a * b);
    if (y != 0) {
      r = a;
      same("/=", r /= b, a / b);
      same("/= result", r, a / b);
    }
    A s(1, 1);
    s = b;
    PBT_CHECK("assign",
              same_value(s.value, static_cast<elem_t<A>>(q)) &&
                  same_value(s.variance, static_cast<elem_t<A>>(var(b))),
              show(s), ", ", ctx);
  }
  g.nontrivial(x != 0 && y != 0 && x != y && vx != vy);
  g.label(cat(is_vv<A> ? "VV" : "scalar", sizeof(elem_t<A>), ", ",
              is_vv<B> ? "VV" : "scalar", sizeof(elem_t<B>)));
}

using D = ValueAndVariance<double>;
using F = ValueAndVariance<float>;

void binary(Gen &g) {
  switch (g.draw(14)) {
  case 0:
    return binary_typed<D, D>(g);
  case 1:
    return binary_typed<D, F>(g);
  case 2:
    return binary_typed<F, D>(g);
  case 3:
    return binary_typed<F, F>(g);
  case 4:
    return binary_typed<D, double>(g);
  case 5:
    return binary_typed<D, float>(g);
  case 6:
    return binary_typed<D, int64_t>(g);
  case 7:
    return binary_typed<D, int32_t>(g);
  case 8:
    return binary_typed<F, float>(g);
  case 9:
    return binary_typed<F, int64_t>(g);
  case 10:
    return binary_typed<double, D>(g);
  case 11:
    return binary_typed<int64_t, D>(g);
  case 12:
    return binary_typed<int32_t, D>(g);
  case 13:
    return binary_typed<float, F>(g);
  default:
    return binary_typed<int32_t, F>(g);
  }
}

template <class A> void unary_typed(Gen &g) {
  using T = elem_t<A>;
  const bool wide = g.boolean(0.3);
  constexpr bool single = is_single<A>;
  const auto a = operand<A>(g, wide);
  const auto ctx = cat(show(a), " ", sizeof(T));
  g.note(ctx);
  const ld x = val(a), v = var(a);
  check("-", -a, -a.value, v, single, ctx);
  check("abs", abs(a), std::abs(a.value), v, single, ctx);
  PBT_CHECK("abs-exact", abs(a).variance == a.variance, ctx);
  const A pos(std::abs(a.value), a.variance);
  if (x != 0) {
    const ld p = val(pos);
    check("sqrt", sqrt(pos), std::sqrt(pos.value), 0.25L * v / p, single, ctx);
    check("log", log(pos), std::log(pos.value), v / (p * p), single, ctx);
    const ld ln10 = std::log(10.0L);
    check("log10", log10(pos), std::log10(pos.value), v / (p * p * ln10 * ln10),
          single, ctx);
    if (x < 0) {
      PBT_CHECK("sqrt-negative", std::isnan(sqrt(a).value), ctx);
      PBT_CHECK("log-negative", std::isnan(log(a).value), ctx);
      PBT_CHECK("log-negative", std::isnan(log10(a).value), ctx);
    }
  }
  if (std::abs(x) < (single ? 30 : 80)) {
    const ld e = std::exp(x);
    check("exp", exp(a), std::exp(a.value), e * e * v, single, ctx);
  }
  if constexpr (!single) {
    const auto f = static_cast<F>(a);
    PBT_CHECK("convert",
              f.value == static_cast<float>(a.value) &&
                  f.variance == static_cast<float>(a.variance),
              ctx);
  }
  g.nontrivial(x != 0 && v != 0);
  g.label(cat("value ", x < 0 ? "negative" : x > 0 ? "positive" : "zero"));
}
void unary(Gen &g) {
  return g.boolean() ? unary_typed<D>(g) : unary_typed<F>(g);
}

template <class A, class E> void pow_typed(Gen &g) {
  using T = elem_t<A>;
  A a = operand<A>(g, false);
  E e;
  if constexpr (std::is_integral_v<E>)
    e = static_cast<E>(g.integer(-9, 9));
  else {
    e = static_cast<E>(g.weighted({1, 1}) ? g.uniform(-4, 4)
                                          : double(g.integer(-5, 5)));
    if (e != std::floor(e))
      a.value = std::abs(a.value);
  }
  if (g.boolean(0.05)) { // where x ** (n - 1) is out of range
    a.value = g.one_of<T>({0, T(1) / 0, -T(1) / 0, std::numeric_limits<T>::max(),
                           std::numeric_limits<T>::min()});
    if (!std::is_integral_v<E> || g.boolean())
      e = static_cast<E>(g.integer(-2, 2));
    const auto plain = scipp::numeric::pow(a.value, e);
    const auto got = pow(a, e).value;
    PBT_CHECK("pow-extreme", close(got, plain, 1e-6L, 0), "gives ", got,
              ", without variance ", plain, ", ", show(a), " ** ", e);
    return;
  }
  // bound the result such that it is representable
  if (std::abs(std::log10(std::abs(a.value)) * e) >
      (sizeof(T) == 4 ? 12 : 120)) {
    g.label("out of range");
    if (a.value != 0)
      return;
  }
  const auto ctx = cat(show(a), " ** ", e);
  g.note(ctx);
  const ld x = val(a), v = var(a), n = e;
  // 0 ** 0 and 0 ** negative have no first-order variance
  if (x == 0 && n <= 0) {
    PBT_CHECK("pow-zero",
              n < 0 ? std::isinf(pow(a, e).value) : pow(a, e).value == 1, ctx);
    return;
  }
  if (x == 0 && n < 1) {
    PBT_EQ("pow-zero", pow(a, e).value, T(0), ctx);
    return;
  }
  const ld want = std::pow(x, n);
  const ld d = n * std::pow(x, n - 1);
  const auto got = pow(a, e);
  const ld rel =
      is_single<A> || std::is_same_v<E, float> ? 1e-4L : 1e-11L;
  PBT_CHECK("pow-value", close(got.value, want, rel, 0), "gives ", show(got),
            ", want ", static_cast<double>(want), ", ", ctx);
  const auto plain = scipp::numeric::pow(a.value, e);
  PBT_CHECK("pow-same-value", close(got.value, plain, 1e-14L, 0), "gives ",
            show(got), ", without variance ", plain, ", ", ctx);
  PBT_CHECK("pow-variance",
            close(got.variance, d * d * v, 10 * rel, 0) ||
                (std::is_same_v<T, float> && d * d * v > 1e37L) ||
                (std::is_same_v<T, float> && d * d * v < 1e-36L),
            "gives ", show(got), ", want ", static_cast<double>(d * d * v),
            ", ", ctx);
  g.nontrivial(x != 0 && v != 0 && n != 0 && n != 1);
  g.label(cat(std::is_integral_v<E> ? "integer" : "real",
              n < 0 ? " negative" : " positive", " exponent"));
}
void powers(Gen &g) {
  switch (g.draw(5)) {
  case 0:
    return pow_typed<D, int64_t>(g);
  case 1:
    return pow_typed<D, int32_t>(g);
  case 2:
    return pow_typed<D, double>(g);
  case 3:
    return pow_typed<F, int64_t>(g);
  case 4:
    return pow_typed<F, float>(g);
  default:
    return pow_typed<D, float>(g);
  }
}

template <class A> void special_typed(Gen &g) {
  using T = elem_t<A>;
  const A a(static_cast<T>(g.any_double()), static_cast<T>(g.any_double()));
  const auto ctx = show(a);
  g.note(ctx);
  PBT_EQ("isnan", isnan(a), std::isnan(a.value), ctx);
  PBT_EQ("isinf", isinf(a), std::isinf(a.value), ctx);
  PBT_EQ("isfinite", isfinite(a), std::isfinite(a.value), ctx);
  PBT_EQ("signbit", signbit(a), std::signbit(a.value), ctx);
  PBT_EQ("isposinf", isposinf(a), std::isinf(a.value) && a.value > 0, ctx);
  PBT_EQ("isneginf", isneginf(a), std::isinf(a.value) && a.value < 0, ctx);
  // Comparison ignores the variances, whatever they are.
  const T b = static_cast<T>(g.boolean(0.3) ? double(a.value) : g.any_double());
  const A vb(b, static_cast<T>(g.any_double()));
  PBT_EQ("==", a == vb, a.value == b, ctx, " ", show(vb));
  PBT_EQ("!=", a != vb, !(a.value == b), ctx, " ", show(vb));
  PBT_EQ("<", a < vb, a.value < b, ctx, " ", show(vb));
  PBT_EQ("<=", a <= vb, a.value <= b, ctx, " ", show(vb));
  PBT_EQ(">", a > vb, a.value > b, ctx, " ", show(vb));
  PBT_EQ(">=", a >= vb, a.value >= b, ctx, " ", show(vb));
  PBT_EQ("==", b == a, a.value == b, ctx, " ", show(vb));
  PBT_EQ("<", b < a, b < a.value, ctx, " ", show(vb));
  PBT_EQ("<=", b <= a, b <= a.value, ctx, " ", show(vb));
  PBT_EQ(">", b > a, b > a.value, ctx, " ", show(vb));
  PBT_EQ(">=", b >= a, b >= a.value, ctx, " ", show(vb));
  PBT_EQ("!=", b != a, !(b == a.value), ctx, " ", show(vb));
  g.nontrivial(!std::isfinite(a.value) || !std::isfinite(b));
}
void special(Gen &g) {
  return g.boolean() ? special_typed<D>(g) : special_typed<F>(g);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C05";
  p.rule =
      "operands with and without variance of every type combination, small "
      "integers, log-uniform magnitudes (to 1e35 for double, 2^62 for int64) "
      "and zeros; result compared with the operation on values and with "
      "sum (df/dx)^2 var(x) in long double. Non-trivial: operands non-zero and "
      "different with different variances; exponents other than 0 and 1; "
      "special values where those are the point.";
  p.laws = {{"binary", 3200000, 32000000, binary},
            {"unary", 1600000, 16000000, unary},
            {"pow", 1600000, 16000000, powers},
            {"special", 800000, 8000000, special}};
  return run(argc, argv, p);
}
