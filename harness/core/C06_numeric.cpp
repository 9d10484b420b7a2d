// C06: element arithmetic follows its mathematical definition for every type.
#include "pbt.h"

#include "scipp/common/numeric.h"
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/math.h"

using namespace pbt;
namespace numeric = scipp::numeric;
namespace element = scipp::core::element;
using i128 = __int128;

namespace {
template <class T> T number(Gen &g) {
  if constexpr (std::is_integral_v<T>) {
    switch (g.weighted({4, 3, 2, 1})) {
    case 0:
      return static_cast<T>(g.integer(-12, 12));
    case 1:
      return static_cast<T>(g.integer(std::numeric_limits<T>::min() / 2,
                                      std::numeric_limits<T>::max() / 2));
    case 2: { // close to a power of two, where floating point loses bits
      const int bits = static_cast<int>(g.integer(0, sizeof(T) * 8 - 2));
      const T x = T(1) << bits;
      const auto d = static_cast<T>(g.integer(-2, 2));
      const T y = d > 0 && x > std::numeric_limits<T>::max() - d ? x : x + d;
      return g.boolean() ? -y : y;
    }
    default:
      return g.one_of<T>({std::numeric_limits<T>::min(),
                          std::numeric_limits<T>::max(), 0, 1, -1});
    }
  } else {
    return static_cast<T>(g.boolean(0.25) ? g.any_double() : g.finite());
  }
}
template <class T> bool same(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isnan(a) || std::isnan(b))
      return std::isnan(a) && std::isnan(b);
    return a == b && (a != 0 || std::signbit(a) == std::signbit(b));
  } else
    return a == b;
}

template <class T, class U> void integer_division(Gen &g) {
  using C = std::common_type_t<T, U>;
  const auto a = number<T>(g);
  const auto b = number<U>(g);
  const auto ctx = cat(a, " (", sizeof(T), ") and ", b, " (", sizeof(U), ")");
  g.note(ctx);
  const auto q = numeric::floor_divide(a, b);
  const auto r = numeric::remainder(a, b);
  const auto t = numeric::true_divide(a, b);
  static_assert(std::is_same_v<decltype(t), const double>);
  if (b == 0) {
    PBT_CHECK("divide-by-zero", q == 0 && r == 0, q, " ", r, ", ", ctx);
    PBT_CHECK("divide-by-zero",
              a == 0 ? std::isnan(t) : std::isinf(t) && (t < 0) == (a < 0), t,
              ", ", ctx);
    g.label("by zero");
    return;
  }
  i128 wq = i128(a) / i128(b);
  if (wq * b != a && (a < 0) != (b < 0))
    --wq;
  const i128 wr = i128(a) - wq * b;
  if (wq > std::numeric_limits<C>::max()) {
    g.label("not representable");
    return;
  }
  PBT_EQ("floor-divide", q, static_cast<C>(wq), ctx);
  PBT_EQ("remainder", i128(r) == wr, true, "remainder ", r, ", ", ctx);
  PBT_EQ("true-divide", t, static_cast<double>(a) / static_cast<double>(b),
         ctx);
  // as transforms use it
  PBT_EQ("element-floor-divide", element::floor_divide(a, b), q, ctx);
  PBT_EQ("element-remainder", element::mod(a, b), r, ctx);
  PBT_EQ("element-divide", element::divide(a, b), t, ctx);
  if constexpr (std::is_same_v<T, C>) {
    T x = a;
    element::floor_divide_equals(x, b);
    PBT_EQ("floor-divide-in-place", x, q, ctx);
    x = a;
    element::mod_equals(x, b);
    PBT_EQ("remainder-in-place", x, r, ctx);
  }
  g.nontrivial(wr != 0 && wq != 0);
  g.label((a < 0) == (b < 0) ? "same sign" : "different sign");
}

template <class T, class U> void real_division(Gen &g) {
  const auto a = number<T>(g);
  const auto b = number<U>(g);
  const auto ctx = cat(a, " (", sizeof(T), ") and ", b, " (", sizeof(U), ")");
  g.note(ctx);
  const auto q = numeric::floor_divide(a, b);
  const auto r = numeric::remainder(a, b);
  const auto t = numeric::true_divide(a, b);
  PBT_CHECK("true-divide", same(t, a / b), t, ", ", ctx);
  PBT_CHECK("floor-divide", same(q, decltype(q)(std::floor(a / b))), q, ", ",
            ctx);
  if (b == 0) {
    PBT_CHECK("remainder-by-zero", std::isnan(r), r, ", ", ctx);
  } else if (std::isfinite(q) && std::isfinite(static_cast<double>(b)) &&
             std::abs(q) < 1e5) {
    // complementary to floor division, and has the sign of the divisor
    const double scale = std::max(std::abs(double(a)), std::abs(double(b)));
    const double eps = std::numeric_limits<decltype(q)>::epsilon();
    const double tiny = std::numeric_limits<decltype(q)>::min();
    PBT_CHECK("remainder",
              std::abs(double(q) * double(b) + double(r) - double(a)) <=
                  4 * eps * scale + tiny,
              "remainder ", r, " quotient ", q, ", ", ctx);
    const double in = double(r) / double(b); // in [0, 1] up to rounding
    const double slack = 4 * eps * std::max(1.0, double(std::abs(q)));
    if (std::abs(double(b)) > 100 * tiny)
      PBT_CHECK("remainder-range", in >= -slack && in <= 1 + slack,
                "remainder ", r, ", ", ctx);
    g.nontrivial(r != 0 && q != 0);
  }
  PBT_CHECK("element-floor-divide", same(element::floor_divide(a, b), q), ctx);
  PBT_CHECK("element-remainder", same(element::mod(a, b), r), ctx);
  PBT_CHECK("element-divide", same(element::divide(a, b), t), ctx);
  g.label(std::isfinite(double(a)) && std::isfinite(double(b)) ? "finite"
                                                              : "special");
}

void division(Gen &g) {
  switch (g.draw(10)) {
  case 0:
    return integer_division<int64_t, int64_t>(g);
  case 1:
    return integer_division<int32_t, int32_t>(g);
  case 2:
    return integer_division<int64_t, int32_t>(g);
  case 3:
    return integer_division<int32_t, int64_t>(g);
  case 4:
    return real_division<double, double>(g);
  case 5:
    return real_division<float, float>(g);
  case 6:
    return real_division<double, float>(g);
  case 7:
    return real_division<float, double>(g);
  case 8:
    return real_division<double, int64_t>(g);
  case 9:
    return real_division<int64_t, double>(g);
  default:
    return real_division<double, int32_t>(g);
  }
}

template <class B, class E> void integer_base_pow(Gen &g) {
  const auto e = static_cast<E>(g.length(0, 63));
  B base = g.boolean(0.7) ? static_cast<B>(g.integer(-9, 9)) : number<B>(g);
  const auto ctx = cat(base, " ** ", e);
  g.note(ctx);
  i128 want = 1;
  for (E k = 0; k < e; ++k) {
    want *= base;
    if (want > std::numeric_limits<B>::max() ||
        want < std::numeric_limits<B>::min()) {
      g.label("overflow");
      return;
    }
  }
  PBT_EQ("pow-integer", numeric::pow(base, e), static_cast<B>(want), ctx);
  PBT_EQ("element-pow", element::pow(base, e), static_cast<B>(want), ctx);
  g.nontrivial(e > 1 && base != 0 && base != 1);
  g.label(cat("integer base, exponent ", e > 3 ? "> 3" : "<= 3"));
}
template <class B, class E> void real_base_pow(Gen &g) {
  const auto base = static_cast<B>(g.boolean(0.1) ? g.any_double()
                                   : g.boolean() ? double(g.integer(-9, 9))
                                                  : g.uniform(-10, 10));
  E e;
  if constexpr (std::is_integral_v<E>)
    e = static_cast<E>(g.integer(-20, 20));
  else
    e = static_cast<E>(g.boolean() ? g.uniform(-9, 9) : double(g.integer(-9, 9)));
  const auto ctx = cat(base, " ** ", e);
  g.note(ctx);
  const long double want =
      std::pow(static_cast<long double>(base), static_cast<long double>(e));
  const auto got = numeric::pow(base, e);
  constexpr bool single = sizeof(B) == 4;
  const bool ok =
      std::isnan(want)   ? std::isnan(got)
      : std::isinf(want) ? std::isinf(got) && (got > 0) == (want > 0)
                         : std::abs(got - want) <=
                               (single ? 1e-5L : 1e-13L) * std::abs(want) +
                                   (single ? 1e-37L : 1e-307L);
  const bool in_range = std::abs(want) < (single ? 1e37L : 1e307L) ||
                        !std::isfinite(static_cast<double>(base)) || base == 0;
  PBT_CHECK("pow-real", ok || !in_range, "got ", got, " want ",
            static_cast<double>(want), ", ", ctx);
  g.nontrivial(base != 0 && base != 1 && e != 0 && e != 1);
  g.label(cat("real base, ", std::is_integral_v<E> ? "integer" : "real",
              e < 0 ? " negative" : "", " exponent"));
}
void powers(Gen &g) {
  switch (g.draw(6)) {
  case 0:
    return integer_base_pow<int64_t, int64_t>(g);
  case 1:
    return integer_base_pow<int64_t, int32_t>(g);
  case 2:
    return real_base_pow<double, int64_t>(g);
  case 3:
    return real_base_pow<double, double>(g);
  case 4:
    return real_base_pow<float, int32_t>(g);
  case 5:
    return real_base_pow<float, float>(g);
  default:
    return real_base_pow<double, int32_t>(g);
  }
}

template <class T> void classify_typed(Gen &g) {
  const T x = number<T>(g);
  const double d = static_cast<double>(x);
  PBT_EQ("isnan", numeric::isnan(x), std::isnan(d), x);
  PBT_EQ("isinf", numeric::isinf(x), std::isinf(d), x);
  PBT_EQ("isfinite", numeric::isfinite(x), std::isfinite(d), x);
  PBT_EQ("signbit", numeric::signbit(x), std::signbit(d), x);
  g.nontrivial(x != 0);
}
void classify(Gen &g) {
  switch (g.draw(3)) {
  case 0:
    return classify_typed<double>(g);
  case 1:
    return classify_typed<float>(g);
  case 2:
    return classify_typed<int64_t>(g);
  default:
    return classify_typed<int32_t>(g);
  }
}

template <class T> void midpoint_int(Gen &g) {
  const T a = number<T>(g);
  const T b = number<T>(g);
  const auto ctx = cat(a, " ", b);
  g.note(ctx);
  // Half way, rounded towards the first argument.
  const i128 sum = i128(a) + i128(b);
  i128 want = sum / 2;
  if (sum % 2 != 0) {
    const i128 lo = sum < 0 ? want - 1 : want;
    want = a <= b ? lo : lo + 1;
  }
  PBT_EQ("midpoint", element::midpoint(a, b), static_cast<T>(want), ctx);
  if constexpr (sizeof(T) == 8) {
    using scipp::core::time_point;
    PBT_EQ("midpoint-time",
           element::midpoint(time_point{a}, time_point{b}).time_since_epoch(),
           static_cast<T>(want), ctx);
  }
  g.nontrivial(a != b);
  g.label(sum % 2 == 0 ? "exact" : "rounded");
}
template <class T> void midpoint_real(Gen &g) {
  const T a = number<T>(g);
  const T b = number<T>(g);
  const auto ctx = cat(a, " ", b);
  g.note(ctx);
  const T got = element::midpoint(a, b);
  if (!std::isfinite(a) || !std::isfinite(b)) {
    PBT_CHECK("midpoint-special", !std::isfinite(got), got, ", ", ctx);
    return;
  }
  const long double want =
      (static_cast<long double>(a) + static_cast<long double>(b)) / 2;
  PBT_CHECK("midpoint",
            std::abs(got - want) <=
                2 * std::numeric_limits<T>::epsilon() * std::abs(want) +
                    2 * std::numeric_limits<T>::denorm_min(),
            "got ", got, ", ", ctx);
  g.nontrivial(a != b);
}
void midpoint(Gen &g) {
  switch (g.draw(3)) {
  case 0:
    return midpoint_int<int64_t>(g);
  case 1:
    return midpoint_int<int32_t>(g);
  case 2:
    return midpoint_real<double>(g);
  default:
    return midpoint_real<float>(g);
  }
}

// ---- evenly spaced and consecutive values

template <class T> struct range {
  using value_type = T;
  std::vector<T> v;
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
  auto size() const { return v.size(); }
  const auto &front() const { return v.front(); }
  const auto &back() const { return v.back(); }
  const auto &operator[](size_t i) const { return v[i]; }
};

template <class T> void spacing_int(Gen &g) {
  range<T> r;
  const auto n = g.length(0, 8);
  T x = static_cast<T>(g.integer(-20, 20));
  const T step = static_cast<T>(g.weighted({3, 2}) ? g.integer(-3, 3) : 1);
  for (int64_t i = 0; i < n; ++i, x += step)
    r.v.push_back(x);
  // break the pattern: back steps, repeats, jumps
  const auto edits = g.weighted({3, 3, 1});
  for (size_t k = 0; k < edits && n > 0; ++k) {
    const auto at = static_cast<int64_t>(g.draw(n - 1));
    switch (g.draw(2)) {
    case 0:
      r.v[at] += static_cast<T>(g.integer(-2, 2));
      break;
    case 1: // walk back for a step, keeping |step|
      for (auto i = at; i < n; ++i)
        r.v[i] -= 2 * step;
      break;
    default:
      for (auto i = at; i < n; ++i)
        r.v[i] += static_cast<T>(1);
    }
  }
  g.note(seq(r.v));
  bool even = n >= 2, consecutive = true;
  for (int64_t i = 1; i < n; ++i) {
    const auto d = r.v[i] - r.v[i - 1];
    even &= d > 0 && d == r.v[1] - r.v[0];
    consecutive &= d == 1;
  }
  PBT_EQ("islinspace", numeric::islinspace(r), even, seq(r.v));
  PBT_EQ("isarange", numeric::isarange(r), consecutive, seq(r.v));
  g.nontrivial(n > 2);
  g.label(even ? "even" : "uneven");
}

template <class T> void spacing_real(Gen &g) {
  range<T> r;
  const auto n = g.length(0, 9);
  // Tests of spacing must not depend on the scale.
  const int max_exponent = std::is_same_v<T, float> ? 40 : 300;
  const double unit = g.boolean() ? 1.0 : std::ldexp(1.0, g.integer(-max_exponent, max_exponent));
  const double x0 = unit * (g.boolean() ? double(g.integer(-50, 50)) : g.uniform(-1e3, 1e3));
  const double step = unit * (g.boolean() ? double(g.integer(-2, 4)) : g.uniform(-1, 5));
  for (int64_t i = 0; i < n; ++i)
    r.v.push_back(static_cast<T>(x0 + i * step));
  std::string kind = "even";
  const double eps = std::numeric_limits<T>::epsilon();
  const double scale = std::abs(x0) + std::abs(x0 + n * step);
  if (n > 0 && g.boolean(0.6)) {
    const auto at = g.draw(n - 1);
    switch (g.draw(3)) {
    case 0: { // clearly off
      kind = "off";
      r.v[at] += static_cast<T>((scale * 1000 * eps + std::abs(step) * 0.01) *
                                (g.boolean() ? -1 : 1));
      break;
    }
    case 1:
      kind = "special";
      r.v[at] = static_cast<T>(g.one_of({double(NAN), HUGE_VAL, -HUGE_VAL}));
      break;
    case 2: // walk back
      kind = "back";
      for (auto i = at; i < size_t(n); ++i)
        r.v[i] = static_cast<T>(r.v[i] - 2 * step);
      if (at == 0 || step == 0 || n == 2)
        kind = "even";
      break;
    default:
      break;
    }
  }
  g.note(seq(r.v) + kind);
  const bool got = numeric::islinspace(r);
  if (n == 2) {
    const T d = r.v[1] - r.v[0];
    PBT_EQ("linspace-2", got, d > 0 && std::isfinite(d), seq(r.v));
  } else if (n < 2 || kind == "special" || kind == "back" || step <= 0) {
    PBT_EQ("not-linspace", got, false, seq(r.v), " ", kind);
  } else if (kind == "off") {
    PBT_EQ("not-linspace", got, false, seq(r.v), " ", kind);
  } else if (step > 1e3 * eps * scale) {
    PBT_EQ("linspace", got, true, seq(r.v));
  }
  g.nontrivial(n > 2);
  g.label(kind);
}
void spacing(Gen &g) {
  switch (g.draw(3)) {
  case 0:
    return spacing_int<int64_t>(g);
  case 1:
    return spacing_int<int32_t>(g);
  case 2:
    return spacing_real<double>(g);
  default:
    return spacing_real<float>(g);
  }
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C06";
  p.rule =
      "operands of int32, int64, float and double, small, near powers of two, "
      "extreme and special; integer results compared with 128-bit arithmetic, "
      "real ones with long double. Sequences are arithmetic progressions with "
      "edits (offset, back step, repeat, NaN, infinity). Non-trivial: quotient "
      "and remainder non-zero; exponent and base not 0 or 1; operands differ; "
      "more than two elements.";
  p.laws = {{"division", 4000000, 40000000, division},
            {"pow", 1600000, 16000000, powers},
            {"classify", 400000, 4000000, classify},
            {"midpoint", 1600000, 16000000, midpoint},
            {"spacing", 2400000, 24000000, spacing}};
  return run(argc, argv, p);
}
