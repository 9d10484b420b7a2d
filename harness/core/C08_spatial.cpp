// C08: spatial transforms compose, invert and compare as maps of space.
#include "pbt.h"

#include <array>

#include "scipp/core/eigen.h"
#include "scipp/core/element/arithmetic.h"
#include "scipp/core/element/geometric_operations.h"
#include "scipp/core/element/math.h"
#include "scipp/core/spatial_transforms.h"

using namespace pbt;
using namespace scipp::core;
using Eigen::Affine3d;
using Eigen::Matrix3d;
using Eigen::Vector3d;
namespace element = scipp::core::element;

namespace {
// Reference: x -> L x + t, written out.
struct Map {
  double l[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  double t[3] = {0, 0, 0};
};
using V = std::array<double, 3>;
V image(const Map &m, const V &v) {
  V r;
  for (int i = 0; i < 3; ++i)
    r[i] = m.l[i][0] * v[0] + m.l[i][1] * v[1] + m.l[i][2] * v[2] + m.t[i];
  return r;
}
double coefficient(Gen &g) {
  return g.boolean(0.5) ? double(g.integer(-4, 4)) : g.uniform(-5, 5);
}

Quaternion make(Gen &g, Map &m, const Quaternion *) {
  double w = coefficient(g), x = coefficient(g), y = coefficient(g),
         z = coefficient(g);
  const double n = std::sqrt(w * w + x * x + y * y + z * z);
  if (n == 0)
    w = 1;
  else
    w /= n, x /= n, y /= n, z /= n;
  const double l[3][3] = {
      {1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)},
      {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)},
      {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
  std::copy(&l[0][0], &l[0][0] + 9, &m.l[0][0]);
  return Quaternion(Eigen::Quaterniond(w, x, y, z));
}
Translation make(Gen &g, Map &m, const Translation *) {
  for (auto &c : m.t)
    c = coefficient(g);
  return Translation(Vector3d(m.t[0], m.t[1], m.t[2]));
}
Matrix3d make(Gen &g, Map &m, const Matrix3d *) {
  Matrix3d r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      r(i, j) = m.l[i][j] = coefficient(g);
  return r;
}
Affine3d make(Gen &g, Map &m, const Affine3d *) {
  Affine3d r;
  r.linear() = make(g, m, static_cast<Matrix3d *>(nullptr));
  r.translation() = make(g, m, static_cast<Translation *>(nullptr)).vector();
  r.makeAffine();
  return r;
}

template <class T> Vector3d act(const T &t, const Vector3d &v) { return t * v; }
V array(const Vector3d &v) { return {v[0], v[1], v[2]}; }
double norm(const Map &m) {
  double r = 1;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      r = std::max({r, std::abs(m.l[i][j]), std::abs(m.t[i])});
  return r;
}

void same(const char *what, const V &got, const V &want, double scale,
          const std::string &ctx) {
  for (int i = 0; i < 3; ++i)
    PBT_CHECK("action", std::abs(got[i] - want[i]) <= 1e-12 * scale, what, ": ",
              seq(got), ", want ", seq(want), ", ", ctx);
}

template <class T> constexpr const char *name() {
  return std::is_same_v<T, Quaternion>    ? "rotation"
         : std::is_same_v<T, Translation> ? "translation"
         : std::is_same_v<T, Matrix3d>    ? "linear"
                                          : "affine";
}

template <class A, class B> void pair_typed(Gen &g) {
  Map ma, mb;
  const A a = make(g, ma, static_cast<A *>(nullptr));
  const B b = make(g, mb, static_cast<B *>(nullptr));
  const V v{coefficient(g), coefficient(g), coefficient(g)};
  const Vector3d ev(v[0], v[1], v[2]);
  const auto ctx = cat(name<A>(), " * ", name<B>(), " at ", seq(v));
  g.note(ctx);
  const double scale = 100 * norm(ma) * norm(mb);
  same("one transform", array(act(a, ev)), image(ma, v), scale, ctx);
  const auto want = image(ma, image(mb, v));
  same("in sequence", array(act(a, Vector3d(act(b, ev)))), want, scale, ctx);
  const auto ab = a * b;
  // The product is a transform of the narrowest kind that can hold it.
  constexpr bool rot = std::is_same_v<A, Quaternion> && std::is_same_v<B, Quaternion>;
  constexpr bool tr = std::is_same_v<A, Translation> && std::is_same_v<B, Translation>;
  constexpr bool shifts = std::is_same_v<A, Translation> || std::is_same_v<B, Translation> ||
                          std::is_same_v<A, Affine3d> || std::is_same_v<B, Affine3d>;
  if constexpr (rot) {
    static_assert(std::is_same_v<std::decay_t<decltype(ab)>, Quaternion>);
    same("product", array(act(ab, ev)), want, scale, ctx);
  } else if constexpr (tr) {
    static_assert(std::is_same_v<std::decay_t<decltype(ab)>, Translation>);
    same("product", array(act(ab, ev)), want, scale, ctx);
  } else if constexpr (shifts) {
    const Affine3d p(ab);
    same("product", array(act(p, ev)), want, scale, ctx);
  } else {
    const Matrix3d p(ab);
    same("product", array(act(p, ev)), want, scale, ctx);
  }
  g.nontrivial(v[0] != 0 && v[1] != 0 && v[2] != 0);
  g.label(cat(name<A>(), " * ", name<B>()));
}
template <class A> void pair_left(Gen &g) {
  switch (g.draw(3)) {
  case 0:
    return pair_typed<A, Quaternion>(g);
  case 1:
    return pair_typed<A, Translation>(g);
  case 2:
    return pair_typed<A, Matrix3d>(g);
  default:
    return pair_typed<A, Affine3d>(g);
  }
}
void compose(Gen &g) {
  switch (g.draw(3)) {
  case 0:
    return pair_left<Quaternion>(g);
  case 1:
    return pair_left<Translation>(g);
  case 2:
    return pair_left<Matrix3d>(g);
  default:
    return pair_left<Affine3d>(g);
  }
}

void inverse(Gen &g) {
  Map m;
  const V v{coefficient(g), coefficient(g), coefficient(g)};
  const Vector3d ev(v[0], v[1], v[2]);
  const auto ctx = cat("at ", seq(v));
  if (g.boolean()) {
    auto q = make(g, m, static_cast<Quaternion *>(nullptr));
    same("q^-1 q", array(q.inverse() * (q * ev)), v, 100, ctx);
    same("q q^-1", array(q * (q.inverse() * ev)), v, 100, ctx);
    same("(q^-1 q)", array((q.inverse() * q) * ev), v, 100, ctx);
    // also when not normalized, the product with the inverse is 1
    const double s = g.uniform(0.1, 10);
    const Quaternion scaled(Eigen::Quaterniond(
        q.quat().w() * s, q.quat().x() * s, q.quat().y() * s,
        q.quat().z() * s));
    const auto one = (scaled * scaled.inverse()).quat();
    PBT_CHECK("inverse-scaled",
              std::abs(one.w() - 1) < 1e-12 && one.vec().norm() < 1e-12, ctx,
              " scale ", s);
    g.label("rotation");
  } else {
    const auto t = make(g, m, static_cast<Translation *>(nullptr));
    same("t^-1 t", array(t.inverse() * (t * ev)), v, 100, ctx);
    same("t t^-1", array(t * (t.inverse() * ev)), v, 100, ctx);
    for (int i = 0; i < 3; ++i)
      PBT_EQ("inverse-shift", t.inverse().vector()[i], -m.t[i], ctx);
    g.label("translation");
  }
  g.nontrivial(v[0] != 0);
}

void components(Gen &g) {
  Map m;
  // Component access: x, y, z, w of a rotation; x, y, z of a translation.
  const double c[4] = {coefficient(g), coefficient(g), coefficient(g),
                       coefficient(g)};
  const auto ctx = cat(c[0], " ", c[1], " ", c[2], " ", c[3]);
  g.note(ctx);
  Quaternion q(Eigen::Quaterniond(c[3], c[0], c[1], c[2]));
  for (int i = 0; i < 4; ++i)
    PBT_EQ("component", q(i), c[i], "component ", i, " of ", ctx);
  for (int i : {-1, 4, 5, 100})
    PBT_CHECK("component-range", throws([&] { q(i); }), i);
  Quaternion p;
  PBT_CHECK("identity", p == Quaternion(Eigen::Quaterniond(1, 0, 0, 0)), "");
  for (int i = 0; i < 4; ++i)
    p(i) = c[i];
  PBT_CHECK("component-write", p == q && !(p != q), ctx);
  const auto at = static_cast<int>(g.draw(3));
  p(at) = c[at] + 1;
  PBT_CHECK("unequal", p != q && !(p == q) && q != p, "component ", at, " of ",
            ctx);
  Translation t(Vector3d(c[0], c[1], c[2])), u;
  PBT_CHECK("identity", u == Translation(Vector3d(0, 0, 0)), "");
  for (int i = 0; i < 3; ++i) {
    PBT_EQ("component", t(i), c[i], ctx);
    u(i) = c[i];
  }
  PBT_CHECK("component-write", u == t && !(u != t), ctx);
  u(at % 3) += 1;
  PBT_CHECK("unequal", u != t && !(u == t), "component ", at % 3, " of ", ctx);
  g.nontrivial(c[0] != c[1] && c[1] != c[2] && c[2] != c[3]);
}

// Vector operations used on arrays of positions.
void vectors(Gen &g) {
  const V a{coefficient(g), coefficient(g), coefficient(g)};
  const V b{coefficient(g), coefficient(g), coefficient(g)};
  const Vector3d x(a[0], a[1], a[2]), y(b[0], b[1], b[2]);
  const auto ctx = cat(seq(a), " ", seq(b));
  g.note(ctx);
  const double dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
  PBT_CHECK("dot", std::abs(element::dot(x, y) - dot) < 1e-12, ctx);
  const Vector3d c = element::cross(x, y);
  const V want{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
               a[0] * b[1] - a[1] * b[0]};
  same("cross", array(c), want, 100, ctx);
  const double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
  PBT_CHECK("norm", std::abs(element::norm(x) - n) < 1e-12, ctx);
  const auto p = element::geometry::position(a[0], a[1], a[2]);
  PBT_CHECK("position", p == x && element::geometry::x(p) == a[0] &&
                            element::geometry::y(p) == a[1] &&
                            element::geometry::z(p) == a[2],
            ctx);
  const V special{g.any_double(), g.any_double(), g.any_double()};
  const Vector3d s(special[0], special[1], special[2]);
  bool nan = false, finite = true;
  for (auto e : special) {
    nan |= std::isnan(e);
    finite &= std::isfinite(e);
  }
  PBT_EQ("isnan", scipp::numeric::isnan(s), nan, seq(special));
  PBT_EQ("isfinite", scipp::numeric::isfinite(s), finite, seq(special));
  if (!nan)
    PBT_EQ("isinf", scipp::numeric::isinf(s), !finite, seq(special));
  g.nontrivial(dot != 0);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C08";
  p.rule =
      "rotations (normalized), translations, linear and affine maps with small "
      "integer or uniform coefficients, in all 16 pairings, acting on a vector; "
      "compared with matrices written out. Non-trivial: no zero component in "
      "the vector; components differ.";
  p.laws = {{"compose", 2000000, 20000000, compose},
            {"inverse", 500000, 5000000, inverse},
            {"components", 500000, 5000000, components},
            {"vectors", 500000, 5000000, vectors}};
  return run(argc, argv, p);
}
