// C13: units form an algebra; the unit "none" mixes with nothing.
#include "pbt.h"

#include <array>

#include "scipp/units/except.h"
#include "scipp/units/unit.h"

using namespace pbt;
namespace units = scipp::units;
using units::Unit;

namespace {
using Exponents = std::array<int, 10>;
Exponents exponents(const Unit &u) {
  Exponents e{};
  size_t i = 0;
  u.map_over_bases([&](const char *, const int x) { e[i++] = x; });
  return e;
}
double multiplier(const Unit &u) { return u.underlying().multiplier(); }

const std::vector<Unit> &basis() {
  static const std::vector<Unit> b{
      units::one,    units::m,   units::s,  units::kg,     units::K,
      units::rad,    units::deg, units::us, units::ns,     units::mm,
      units::counts, units::angstrom, units::meV, units::c};
  return b;
}
Unit gen_unit(Gen &g, bool with_none = true) {
  if (with_none && g.boolean(0.15))
    return units::none;
  Unit u = g.pick(basis());
  for (int64_t n = g.length(0, 3); n > 0; --n) {
    const auto &v = g.pick(basis());
    try {
      u = g.boolean() ? u * v : u / v;
    } catch (const scipp::except::UnitError &) {
    }
  }
  return u;
}
std::string show(const Unit &u) {
  if (!u.has_value())
    return "None";
  return cat(multiplier(u), seq(exponents(u)));
}
template <class F> std::optional<Unit> attempt(F &&f) {
  try {
    return f();
  } catch (const scipp::except::UnitError &) {
    return std::nullopt;
  }
}
bool close(double a, double b) {
  return a == b || std::abs(a - b) <= 1e-12 * std::max(std::abs(a), std::abs(b));
}
/// Result has these exponents and multiplier.
void expect(const char *sig, const std::optional<Unit> &u, const Exponents &e, double mult,
            const std::string &ctx) {
  if (!u) // exponents that cannot be stored are refused
    return;
  PBT_CHECK(sig, exponents(*u) == e && close(multiplier(*u), mult), show(*u),
            " expected ", mult, seq(e), " ", ctx);
}

void algebra(Gen &g) {
  const auto a = gen_unit(g), b = gen_unit(g);
  const auto ctx = show(a) + " and " + show(b);
  g.note(ctx);
  const auto prod = attempt([&] { return a * b; });
  const auto quot = attempt([&] { return a / b; });
  const bool na = a == units::none, nb = b == units::none;
  if (na || nb) {
    PBT_EQ("none-times", prod.has_value(), na && nb, ctx);
    PBT_EQ("none-divide", quot.has_value(), na && nb, ctx);
    if (na && nb)
      PBT_CHECK("none-stays", *prod == units::none && *quot == units::none, ctx);
    PBT_CHECK("none-atan2", throws([&] { (void)atan2(a, b); }), ctx);
    PBT_EQ("none-base", na ? a.has_same_base(a) : false, false, ctx);
  } else {
    Exponents p, q;
    const auto ea = exponents(a), eb = exponents(b);
    bool small = true;
    for (size_t i = 0; i < p.size(); ++i) {
      p[i] = ea[i] + eb[i];
      q[i] = ea[i] - eb[i];
      small &= std::abs(p[i]) <= 1 && std::abs(q[i]) <= 1;
    }
    expect("product", prod, p, multiplier(a) * multiplier(b), ctx);
    expect("quotient", quot, q, multiplier(a) / multiplier(b), ctx);
    PBT_CHECK("representable", !small || (prod && quot), ctx);
    const auto swapped = attempt([&] { return b * a; });
    PBT_CHECK("commute", prod.has_value() == swapped.has_value() &&
                             (!prod || *prod == *swapped),
              ctx);
    PBT_EQ("atan2", throws([&] { (void)atan2(a, b); }), a != b, ctx);
    PBT_EQ("same-base", a.has_same_base(b), ea == eb, ctx);
  }
  // In place, and adding
  const auto in_place = [&](auto &&op) {
    return attempt([&] {
      Unit u = a;
      op(u);
      return u;
    });
  };
  PBT_CHECK("times-equals", in_place([&](Unit &u) { u *= b; }) == prod, ctx);
  PBT_CHECK("divide-equals", in_place([&](Unit &u) { u /= b; }) == quot, ctx);
  const std::optional<Unit> same = a == b ? std::optional(a) : std::nullopt;
  PBT_CHECK("add", attempt([&] { return a + b; }) == same, ctx);
  PBT_CHECK("subtract", attempt([&] { return a - b; }) == same, ctx);
  PBT_CHECK("modulo", attempt([&] { return a % b; }) == same, ctx);
  PBT_CHECK("add-equals", in_place([&](Unit &u) { u += b; }) == same, ctx);
  PBT_CHECK("subtract-equals", in_place([&](Unit &u) { u -= b; }) == same, ctx);
  PBT_CHECK("modulo-equals", in_place([&](Unit &u) { u %= b; }) == same, ctx);
  PBT_CHECK("equality", (a == b) == (b == a) && (a != b) == !(a == b) && a == a, ctx);
  if (!na && !nb && a == b)
    PBT_CHECK("hash", std::hash<Unit>{}(a) == std::hash<Unit>{}(b), ctx);
  PBT_EQ("identical-none", identical(a, b) && (na || nb), false, ctx);
  g.nontrivial(!na && !nb && a != units::one && b != units::one);
  g.label(na || nb ? "with none" : "units");
}

void powers(Gen &g) {
  const auto a = gen_unit(g);
  const auto n = g.boolean(0.9) ? g.integer(-4, 4)
                                : g.integer(std::numeric_limits<int64_t>::min(),
                                            std::numeric_limits<int64_t>::max());
  const auto ctx = cat(show(a), " to ", n);
  g.note(ctx);
  const auto r = attempt([&] { return pow(a, n); });
  if (a == units::none) {
    PBT_CHECK("none", r && *r == units::none && sqrt(a) == units::none, ctx);
    return;
  }
  const auto e = exponents(a);
  if (std::abs(n) > 100) {
    PBT_EQ("huge-power", r.has_value(), e == Exponents{}, ctx);
    return;
  }
  Exponents p;
  for (size_t i = 0; i < p.size(); ++i)
    p[i] = static_cast<int>(n) * e[i];
  expect("pow", r, p, std::pow(multiplier(a), static_cast<double>(n)), ctx);
  // As repeated multiplication
  auto rep = attempt([&] { return units::one; });
  for (int64_t i = 0; i < std::abs(n) && rep; ++i)
    rep = attempt([&] { return n > 0 ? *rep * a : *rep / a; });
  if (rep && r)
    PBT_CHECK("repeated", *rep == *r, show(*rep), " ", ctx);
  const auto square = attempt([&] { return pow(a, 2); });
  if (square) {
    const auto root = attempt([&] { return sqrt(*square); });
    PBT_CHECK("sqrt-of-square", root && *root == a, ctx);
  }
  const auto root = attempt([&] { return sqrt(a); });
  bool even = true;
  for (const auto x : e)
    even &= x % 2 == 0;
  if (root)
    PBT_CHECK("square-of-sqrt", *root * *root == a, ctx);
  if (!even)
    PBT_CHECK("odd-root-refused", !root, ctx);
  g.nontrivial(a != units::one && n != 0 && n != 1);
}

void functions(Gen &g) {
  const auto a = gen_unit(g);
  const auto ctx = show(a);
  g.note(ctx);
  const bool angle = a == units::rad || a == units::deg, one = a == units::one;
  const auto rule = [&](const char *name, auto &&f, const bool ok, const Unit &result) {
    const auto r = attempt(f);
    PBT_CHECK(name, ok ? r && *r == result : !r, ctx);
  };
  rule("sin", [&] { return sin(a); }, angle, units::one);
  rule("cos", [&] { return cos(a); }, angle, units::one);
  rule("tan", [&] { return tan(a); }, angle, units::one);
  rule("asin", [&] { return asin(a); }, one, units::rad);
  rule("acos", [&] { return acos(a); }, one, units::rad);
  rule("atan", [&] { return atan(a); }, one, units::rad);
  rule("sinh", [&] { return sinh(a); }, one, units::one);
  rule("cosh", [&] { return cosh(a); }, one, units::one);
  rule("tanh", [&] { return tanh(a); }, one, units::one);
  rule("asinh", [&] { return asinh(a); }, one, units::one);
  rule("acosh", [&] { return acosh(a); }, one, units::one);
  rule("atanh", [&] { return atanh(a); }, one, units::one);
  rule("abs", [&] { return abs(a); }, true, a);
  rule("minus", [&] { return -a; }, true, a);
  rule("floor", [&] { return floor(a); }, true, a);
  rule("ceil", [&] { return ceil(a); }, true, a);
  rule("rint", [&] { return rint(a); }, true, a);
  PBT_EQ("counts", a.isCounts(), a == units::counts, ctx);
  if (a.has_value()) {
    PBT_EQ("density", a.isCountDensity(), a != units::counts && exponents(a)[8] != 0, ctx);
    PBT_CHECK("name", !a.name().empty(), ctx);
  } else {
    PBT_CHECK("density", !a.isCountDensity() && a.name() == "None", ctx);
  }
  g.nontrivial(a != units::one);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C13";
  p.rule = "products and quotients of up to four of 14 units (with multipliers), and "
           "none; powers -4..4 and huge ones; compared with vectors of exponents and "
           "a multiplier. Non-trivial: no operand is one or none.";
  p.assumptions = {"LLNL-Units is replaced by a stand-in with the same bit fields; the "
                   "laws are about scipp's rules on top of it"};
  p.laws = {{"algebra", 100000, 2000000, algebra},
            {"powers", 100000, 2000000, powers},
            {"functions", 50000, 1000000, functions}};
  return run(argc, argv, p);
}
