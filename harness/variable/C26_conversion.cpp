// C26: conversions of type and unit keep the quantity.
// sanitize: -D_GLIBCXX_ASSERTIONS
#define VERIF_ALL_TYPES
#include "gen_var.h"

#include "scipp/core/flags.h"
#include "scipp/variable/astype.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/to_unit.h"

using namespace gv;
namespace sv = scipp::variable;
using scipp::CopyPolicy;

namespace {
bool is_flt(const DType t) { return t == dtype<double> || t == dtype<float>; }
const std::vector<DType> number_types{dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>,
                                      dtype<bool>};

/// Units with their size as num/den of the base unit.
struct Scale {
  Unit unit;
  int64_t num, den;
  int base;
};
const std::vector<Scale> &scales() {
  static const std::vector<Scale> s{
      {units::m, 1, 1, 0},
      {Unit("mm"), 1, 1000, 0},
      {Unit("um"), 1, 1000000, 0},
      {Unit("km"), 1000, 1, 0},
      {Unit("cm"), 1, 100, 0},
      {Unit("nm"), 1, 1000000000, 0},
      {units::s, 1, 1, 1},
      {Unit("ms"), 1, 1000, 1},
      {units::us, 1, 1000000, 1},
      {units::ns, 1, 1000000000, 1},
      {Unit("min"), 60, 1, 1},
      {Unit("h"), 3600, 1, 1},
      {units::kg, 1, 1, 2},
      {Unit("g"), 1, 1000, 2},
      {units::one, 1, 1, 3},
      {units::m * units::m, 1, 1, 4},
      {Unit("mm") * Unit("mm"), 1, 1000000, 4},
  };
  return s;
}

Content gen_content(Gen &g, const DType t) {
  Content c;
  c.shape = gen_shape(g, 3, 4);
  c.type = t;
  c.has_var = is_flt(t) && g.boolean(0.3);
  for (idx i = 0; i < volume(c.shape); ++i) {
    double x = gen_value(g, t);
    if (t != dtype<bool>)
      switch (g.weighted({4, 3, 2, 1})) {
      case 1: x = static_cast<double>(g.integer(-3000000, 3000000)); break;
      case 2:
        x = t == dtype<int32_t>  ? static_cast<double>(g.integer(-2147483648LL, 2147483647LL))
            : t == dtype<float> ? static_cast<double>(g.integer(-16777216, 16777216))
                                : static_cast<double>(g.integer(-(1LL << 53), 1LL << 53));
        break;
      case 3:
        if (is_flt(t))
          x = g.one_of<double>({NAN, HUGE_VAL, -HUGE_VAL, -0.0, 0.5, -2.5, 1e-3f});
        break;
      default: break;
      }
    c.val.push_back(x);
    if (c.has_var)
      c.var.push_back(static_cast<double>(g.integer(0, 40)) / 4);
  }
  return c;
}

double cast_to(const DType t, const double x) {
  if (t == dtype<float>)
    return static_cast<double>(static_cast<float>(x));
  if (t == dtype<bool>)
    return x != 0;
  if (t == dtype<int64_t> || t == dtype<int32_t>)
    return std::trunc(x) + 0.0;
  return x;
}

void type(Gen &g) {
  auto c = gen_content(g, g.pick(number_types));
  c.unit = g.one_of<Unit>({units::one, units::m, units::none});
  const auto to = g.pick(number_types);
  // Values the target cannot represent are undefined.
  for (auto &x : c.val)
    if ((to == dtype<int64_t> || to == dtype<int32_t>)&&(
            !std::isfinite(x) || std::abs(x) > (to == dtype<int32_t> ? 2147483647.0 : 9e15)))
      x = 3;
  const auto v = make_view(g, c);
  c = read(v);
  const auto policy = g.boolean() ? CopyPolicy::Always : CopyPolicy::TryAvoid;
  const auto what = [&] {
    return cat("astype ", to_string(to), " of ", show(c), " ", layout(v));
  };
  g.note(what);
  Variable r;
  try {
    r = sv::astype(v, to, policy);
  } catch (const std::exception &e) {
    PBT_CHECK("astype-throws", c.has_var && !is_flt(to), what(), " ", e.what());
    PBT_CHECK("astype-argument", read(v) == c, what());
    return;
  }
  PBT_CHECK("astype-variances", !c.has_var || is_flt(to), what());
  auto e = c;
  e.type = to;
  for (auto &x : e.val)
    x = cast_to(to, x);
  for (auto &x : e.var)
    x = cast_to(to, x);
  PBT_CHECK("astype", read(r) == e, what(), " -> ", show(read(r)), " expected ", show(e));
  PBT_CHECK("astype-argument", read(v) == c, what());
  PBT_EQ("astype-shares", r.is_same(v), c.type == to && policy == CopyPolicy::TryAvoid, what());
  g.nontrivial(!c.val.empty() && c.type != to);
}

void common(Gen &g) {
  Content a, b;
  a.type = g.pick(number_types);
  b.type = g.pick(number_types);
  a.val = b.val = {1};
  const auto x = make_plain(a), y = make_plain(b);
  g.nontrivial(a.type != b.type);
  const auto what = cat(to_string(a.type), " and ", to_string(b.type));
  // Type that holds both: order bool < int32 < int64 < float < double, and
  // integers with float need double.
  const auto rank = [](const DType t) {
    return t == dtype<bool>      ? 0
           : t == dtype<int32_t> ? 1
           : t == dtype<int64_t> ? 2
           : t == dtype<float>   ? 3
                                 : 4;
  };
  std::optional<DType> r;
  try {
    r = sv::common_type(x, y);
  } catch (const std::exception &) {
  }
  if (a.type == b.type)
    PBT_CHECK("common-type-same", r == a.type, what);
  if (r) {
    PBT_CHECK("common-type-order", sv::common_type(y, x) == *r, what);
    PBT_CHECK("common-type-holds", rank(*r) >= std::max(rank(a.type), rank(b.type)), what);
  } else
    PBT_CHECK("common-type-throws", throws([&] { (void)sv::common_type(y, x); }), what);
}

void unit(Gen &g) {
  const auto &from = g.pick(scales());
  const auto &to = g.pick(scales());
  std::vector<DType> types{dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>};
  if (from.base == 1)
    types.push_back(dtype<time_point>);
  auto c = gen_content(g, g.pick(types));
  c.unit = from.unit;
  const bool none = g.boolean(0.03);
  if (none)
    c.unit = units::none;
  const auto v = make_view(g, c);
  c = read(v);
  const auto policy = g.boolean() ? CopyPolicy::Always : CopyPolicy::TryAvoid;
  const auto what = [&] {
    return cat("to ", to.unit.name(), " from ", show(c), " ", layout(v));
  };
  g.note(what);
  Variable r;
  try {
    r = sv::to_unit(v, to.unit, policy);
  } catch (const std::exception &e) {
    PBT_CHECK("to-unit-throws", none || from.base != to.base, what(), " ", e.what());
    PBT_CHECK("to-unit-argument", read(v) == c, what());
    return;
  }
  PBT_CHECK("to-unit-incompatible", !none && from.base == to.base, what());
  PBT_CHECK("to-unit-argument", read(v) == c, what());
  const auto a = read(r);
  PBT_CHECK("to-unit-unit",
            a.unit == to.unit && a.type == c.type && a.shape == c.shape && a.has_var == c.has_var,
            what(), " -> ", show(a));
  PBT_EQ("to-unit-shares", r.is_same(v), c.unit == to.unit && policy == CopyPolicy::TryAvoid,
         what());
  g.nontrivial(!c.val.empty() && c.unit != to.unit);
  const __int128 num = static_cast<__int128>(from.num) * to.den;
  const __int128 den = static_cast<__int128>(from.den) * to.num;
  const auto scale = static_cast<long double>(num) / static_cast<long double>(den);
  for (size_t i = 0; i < c.val.size(); ++i) {
    const auto x = c.val[i];
    if (is_flt(c.type)) {
      const double rel = c.type == dtype<float> ? 3e-7 : 1e-14;
      auto e = static_cast<double>(x * scale);
      if (c.type == dtype<float> && std::abs(e) > 3e38)
        continue;
      PBT_CHECK("to-unit-float", close(a.val[i], e, rel), what(), " element ", i, ": ", a.val[i],
                " expected ", e);
      if (c.has_var) {
        e = static_cast<double>(c.var[i] * scale * scale);
        if (c.type == dtype<float> && std::abs(e) > 3e38)
          continue;
        PBT_CHECK("to-unit-variance", close(a.var[i], e, 2 * rel, c.type == dtype<float> ? 1e-37 : 0),
                  what(), " variance ", i, ": ", a.var[i], " expected ", e);
      }
    } else {
      const auto exact = static_cast<__int128>(static_cast<int64_t>(x)) * num;
      const auto whole = static_cast<int64_t>(a.val[i]);
      const auto limit = c.type == dtype<int32_t> ? static_cast<__int128>(2147483647)
                                                  : static_cast<__int128>(1) << 53;
      if (exact / den > limit || exact / den < -limit) {
        if (c.type == dtype<int32_t>) // saturates
          PBT_CHECK("to-unit-saturate",
                    whole == (x > 0 ? 2147483647LL : -2147483648LL), what(), " element ", i, ": ",
                    whole);
        continue;
      }
      // Nearest integer up to the rounding of scale and product in double
      const auto slack =
          static_cast<__int128>(std::abs(static_cast<double>(exact)) * 1e-15);
      auto err = static_cast<__int128>(whole) * den - exact;
      if (err < 0)
        err = -err;
      PBT_CHECK("to-unit-int", 2 * err <= den + slack, what(), " element ", i, ": ",
                whole);
    }
  }
  // To a smaller unit and back
  if (from.base == to.base && num >= den && is_flt(c.type) == false) {
    bool fits = true;
    for (const auto x : c.val)
      fits &= std::abs(x) * static_cast<double>(scale) <
              (c.type == dtype<int32_t> ? 2147483647.0 : 9e15);
    if (fits)
      PBT_CHECK("to-unit-back", read(sv::to_unit(r, from.unit)) == c, what());
  }
}

void days(Gen &g) {
  Content c;
  c.type = g.boolean() ? dtype<time_point> : dtype<int64_t>;
  c.shape = gen_shape(g, 2, 3);
  gen_elements(g, c);
  const std::vector<Unit> big{Unit("D"), Unit("month"), Unit("Y")};
  const std::vector<Unit> small{units::s, units::ns, Unit("min"), Unit("h")};
  const auto a = g.pick(big);
  const auto b = g.boolean(0.3) ? g.pick(big) : g.pick(small);
  const bool swap = g.boolean();
  c.unit = swap ? b : a;
  const auto to = swap ? a : b;
  const auto v = make_view(g, c);
  c = read(v);
  const auto what = [&] { return cat("to ", to.name(), " from ", show(c)); };
  g.note(what);
  g.nontrivial(!c.val.empty());
  if (a == b)
    throw Discard{};
  PBT_EQ("to-unit-days", throws([&] { (void)sv::to_unit(v, to); }), c.type == dtype<time_point>,
         what());
}

void vectors(Gen &g) {
  Content c;
  c.shape = gen_shape(g, 2, 4);
  c.type = g.one_of<DType>({dtype<Eigen::Vector3d>, dtype<scipp::core::Translation>,
                            dtype<Eigen::Affine3d>});
  const auto &from = g.pick(scales());
  const auto &to = g.pick(scales());
  c.unit = from.unit;
  for (idx i = 0; i < volume(c.shape); ++i)
    c.val.push_back(static_cast<double>(g.integer(-20, 20)));
  const auto v = make_view(g, c);
  c = read(v);
  const auto what = [&] { return cat("to ", to.unit.name(), " from ", show(c)); };
  g.note(what);
  if (from.base != to.base)
    throw Discard{};
  g.nontrivial(!c.val.empty());
  const auto r = sv::to_unit(v, to.unit);
  const auto scale =
      static_cast<double>(static_cast<long double>(from.num) * to.den / from.den / to.num);
  PBT_CHECK("to-unit-vector", r.unit() == to.unit && shape_of(r.dims()) == c.shape, what());
  for (size_t i = 0; i < c.val.size(); ++i) {
    const auto j = static_cast<idx>(i);
    const double x = c.val[i];
    const auto near = [&](const double p, const double e) {
      PBT_CHECK("to-unit-vector", close(p, e, 1e-14), what(), " element ", i, ": ", p,
                " expected ", e);
    };
    if (c.type == dtype<Eigen::Vector3d>)
      for (int k = 0; k < 3; ++k)
        near(Eigen::Vector3d(std::as_const(r).values<Eigen::Vector3d>()[j])(k), (x + 100 * k) * scale);
    else if (c.type == dtype<scipp::core::Translation>)
      for (int k = 0; k < 3; ++k)
        near(std::as_const(r).values<scipp::core::Translation>()[j].vector()(k),
             (x + 100 * k) * scale);
    else {
      const Eigen::Affine3d t = std::as_const(r).values<Eigen::Affine3d>()[j];
      for (int k = 0; k < 12; ++k) // the rotation has no unit
        near(t.matrix()(k / 4, k % 4), (x + 100 * k) * (k % 4 == 3 ? scale : 1));
    }
  }
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C26";
  p.rule = "variables of all element types with variances, in random memory layouts, with "
           "values up to the limits of exact representation, converted between all pairs of "
           "types and of units of length, time, mass, area; compared with exact rational "
           "arithmetic. Non-trivial: at least one element changes type or unit.";
  p.assumptions = {"scale factors of units come from the stand-in for LLNL-Units"};
  p.laws = {{"type", 400000, 6000000, type},
            {"common", 2000, 2000, common},
            {"unit", 400000, 6000000, unit},
            {"days", 20000, 200000, days},
            {"vectors", 100000, 1000000, vectors}};
  return run(argc, argv, p);
}
