// Law "structures" of C20: vectors and spatial transforms as elements.  The
// oracle are 4x4 matrices and vectors of plain numbers.
#pragma once
#include "gen_var.h"

#include "scipp/core/spatial_transforms.h"
#include "scipp/core/string.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/inv.h"
#include "scipp/variable/math.h"
#include "scipp/variable/reduction.h"
#include "scipp/variable/structures.h"

namespace structures {
using namespace gv;
namespace sv = scipp::variable;
using Quat = scipp::core::Quaternion;
using Trans = scipp::core::Translation;

enum class Kind { num, whole, vec, mat, aff, rot, tra };
inline const char *name(const Kind k) {
  const char *n[] = {"double", "int64", "vector3", "linear", "affine", "rotation", "translation"};
  return n[static_cast<int>(k)];
}
/// Row-major homogeneous matrix; vectors and numbers use the first elements.
using Elem = std::array<double, 16>;
struct Arr {
  Shape shape;
  Kind kind;
  Unit unit;
  std::vector<Elem> el;
};
inline bool is_map(const Kind k) { return k >= Kind::mat; }
inline bool shifts(const Kind k) { return k == Kind::aff || k == Kind::tra; }

inline Elem identity() { return {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}; }
inline Elem gen_elem(Gen &g, const Kind k) {
  Elem e{};
  const auto small = [&] { return static_cast<double>(g.integer(-6, 6)); };
  if (k == Kind::num || k == Kind::whole) {
    e[0] = k == Kind::num ? small() / 2 : small();
  } else if (k == Kind::vec) {
    for (int i = 0; i < 3; ++i)
      e[i] = small();
  } else {
    e = identity();
    if (k == Kind::mat || k == Kind::aff)
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
          e[4 * i + j] = small();
    if (k == Kind::aff || k == Kind::tra)
      for (int i = 0; i < 3; ++i)
        e[4 * i + 3] = small();
    if (k == Kind::rot) {
      double q[4], n = 0;
      for (auto &x : q)
        x = small(), n += x * x;
      n = std::sqrt(n);
      if (n == 0)
        q[0] = n = 1;
      for (auto &x : q)
        x /= n;
      const auto [w, x, y, z] = std::make_tuple(q[0], q[1], q[2], q[3]);
      e = {1 - 2 * (y * y + z * z), 2 * (x * y - w * z),     2 * (x * z + w * y),     0,
           2 * (x * y + w * z),     1 - 2 * (x * x + z * z), 2 * (y * z - w * x),     0,
           2 * (x * z - w * y),     2 * (y * z + w * x),     1 - 2 * (x * x + y * y), 0,
           0,                       0,                       0,                       1};
    }
  }
  return e;
}
inline Elem product(const Elem &a, const Elem &b) {
  Elem r{};
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j)
      for (int k = 0; k < 4; ++k)
        r[4 * i + j] += a[4 * i + k] * b[4 * k + j];
  return r;
}
inline Elem image(const Elem &a, const Elem &v) {
  Elem r{};
  for (int i = 0; i < 3; ++i)
    r[i] = a[4 * i] * v[0] + a[4 * i + 1] * v[1] + a[4 * i + 2] * v[2] + a[4 * i + 3];
  return r;
}
inline DType type_of(const Kind k) {
  const DType t[] = {dtype<double>,          dtype<int64_t>,         dtype<Eigen::Vector3d>,
                     dtype<Eigen::Matrix3d>, dtype<Eigen::Affine3d>, dtype<Quat>,
                     dtype<Trans>};
  return t[static_cast<int>(k)];
}
inline Eigen::Matrix3d linear(const Elem &e) {
  Eigen::Matrix3d m;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      m(i, j) = e[4 * i + j];
  return m;
}
inline void put(Variable &&s, const Kind k, const Elem &e) {
  switch (k) {
  case Kind::num:
    s.value<double>() = e[0];
    break;
  case Kind::whole:
    s.value<int64_t>() = static_cast<int64_t>(e[0]);
    break;
  case Kind::vec:
    s.value<Eigen::Vector3d>() = {e[0], e[1], e[2]};
    break;
  case Kind::mat:
    s.value<Eigen::Matrix3d>() = linear(e);
    break;
  case Kind::aff: {
    auto &t = s.value<Eigen::Affine3d>();
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 4; ++j)
        t.matrix()(i, j) = e[4 * i + j];
    break;
  }
  case Kind::rot:
    s.value<Quat>() = Quat(Eigen::Quaterniond(linear(e)));
    break;
  case Kind::tra:
    s.value<Trans>() = Trans({e[3], e[7], e[11]});
    break;
  }
}
inline Elem get(const Variable &s) {
  Elem e = identity();
  const auto put_linear = [&](const auto &m) {
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j)
        e[4 * i + j] = m(i, j);
  };
  const auto t = s.dtype();
  if (t == dtype<double>)
    e = {s.value<double>()};
  else if (t == dtype<int64_t>)
    e = {static_cast<double>(s.value<int64_t>())};
  else if (t == dtype<Eigen::Vector3d>) {
    const auto &v = s.value<Eigen::Vector3d>();
    e = {v[0], v[1], v[2]};
  } else if (t == dtype<Eigen::Matrix3d>)
    put_linear(s.value<Eigen::Matrix3d>());
  else if (t == dtype<Eigen::Affine3d>)
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 4; ++j)
        e[4 * i + j] = s.value<Eigen::Affine3d>().matrix()(i, j);
  else if (t == dtype<Quat>)
    put_linear(s.value<Quat>().quat().toRotationMatrix());
  else if (t == dtype<Trans>)
    for (int i = 0; i < 3; ++i)
      e[4 * i + 3] = s.value<Trans>().vector()[i];
  else
    fail("type", to_string(t));
  return e;
}
inline Variable at(const Variable &v, const Shape &shape, const std::vector<idx> &pos) {
  Variable s = v;
  for (size_t i = 0; i < shape.size(); ++i)
    s = s.slice({shape[i].first, pos[i]});
  return s;
}
inline std::string show(const Elem &e) {
  std::string s = "[";
  for (const auto x : e)
    s += cat(x, " ");
  return s + "]";
}
inline std::string show(const Arr &a) {
  std::string s = cat(name(a.kind), " ", to_string(dimensions(a.shape)), " ", to_string(a.unit));
  for (size_t i = 0; i < a.el.size() && i < 4; ++i)
    s += " " + show(a.el[i]);
  return s;
}
inline Arr gen_arr(Gen &g, const Shape &shape, const Kind k) {
  Arr a{shape, k, g.one_of<Unit>({units::one, units::m, units::s}), {}};
  for (idx i = 0; i < volume(shape); ++i)
    a.el.push_back(gen_elem(g, k));
  return a;
}
inline Variable make(Gen &g, const Arr &a) {
  Content c;
  c.shape = a.shape;
  c.type = type_of(a.kind);
  c.unit = a.unit;
  c.val.assign(a.el.size(), 1);
  LayoutOptions o;
  o.broadcast = false;
  auto v = make_view(g, c, o);
  size_t i = 0;
  for_each(a.shape, [&](const std::vector<idx> &pos) { put(at(v, a.shape, pos), a.kind, a.el[i++]); });
  return v;
}
inline bool close(const Elem &a, const Elem &b, const double tol = 1e-10) {
  for (int i = 0; i < 16; ++i)
    if (!(std::abs(a[i] - b[i]) <= tol * (1 + std::abs(b[i]))) &&
        !(std::isnan(a[i]) && std::isnan(b[i])) && !(a[i] == b[i]))
      return false;
  return true;
}
inline void check(const Variable &r, const Arr &want, const std::string &ctx) {
  PBT_CHECK("structures-shape", shape_of(r.dims()) == want.shape, to_string(r.dims()), " ", ctx);
  PBT_CHECK("structures-type", r.dtype() == type_of(want.kind), to_string(r.dtype()), " ", ctx);
  PBT_CHECK("structures-unit", r.unit() == want.unit, to_string(r.unit()), " wanted ",
            to_string(want.unit), " ", ctx);
  size_t i = 0;
  for_each(want.shape, [&](const std::vector<idx> &pos) {
    const auto got = get(at(r, want.shape, pos));
    PBT_CHECK("structures-value", close(got, want.el[i]), "at ", i, " got ", show(got),
              " expected ", show(want.el[i]), " ", ctx);
    ++i;
  });
}
/// Merged dimensions, if there are.
inline std::optional<Shape> merged(const Shape &a, const Shape &b) {
  try {
    return shape_of(scipp::core::merge(dimensions(a), dimensions(b)));
  } catch (const std::exception &) {
    return std::nullopt;
  }
}
/// Kind of the product; nullopt if there is none.
inline std::optional<Kind> product_kind(const Kind a, const Kind b) {
  const bool na = a == Kind::num || a == Kind::whole, nb = b == Kind::num || b == Kind::whole;
  if ((na && b == Kind::vec) || (a == Kind::vec && nb) || (is_map(a) && b == Kind::vec))
    return Kind::vec;
  if (!is_map(a) || !is_map(b))
    return std::nullopt;
  if (a == b)
    return a;
  return shifts(a) || shifts(b) ? Kind::aff : Kind::mat;
}
inline Elem product(const Kind a, const Elem &x, const Kind b, const Elem &y) {
  if (is_map(a) && is_map(b))
    return product(x, y);
  if (is_map(a))
    return image(x, y);
  const auto f = b == Kind::vec ? x[0] : y[0];
  auto r = b == Kind::vec ? y : x;
  for (auto &c : r)
    c *= f;
  return r;
}
template <class F>
Arr elementwise(const Shape &out, const Kind kind, const Unit &unit, const Arr &a, const Arr &b,
                const F &f) {
  Arr r{out, kind, unit, {}};
  for_each(out, [&](const std::vector<idx> &pos) {
    r.el.push_back(f(a.el[static_cast<size_t>(position(a.shape, out, pos))],
                     b.el[static_cast<size_t>(position(b.shape, out, pos))]));
  });
  return r;
}
inline Shape sub_shape(Gen &g, const Shape &s) {
  Shape out;
  for (const auto &x : s)
    if (g.boolean(0.7))
      out.push_back(x);
  if (g.boolean(0.4))
    out = g.permutation(out);
  if (g.boolean(0.2))
    out.insert(out.begin() + static_cast<long>(g.draw(out.size())),
               {Dim("other"), g.length(1, 3)});
  if (!out.empty() && g.boolean(0.05))
    out[g.draw(out.size() - 1)].second += 1;
  return out;
}
template <class F>
void outcome(const bool allowed, const std::string &ctx, const F &f, std::optional<Variable> &r) {
  std::string error;
  try {
    r = f();
  } catch (const std::exception &e) {
    error = e.what();
  }
  PBT_CHECK("structures-error", r.has_value() == allowed, ctx, " ", error);
}

inline void products(Gen &g) {
  const auto shape = gen_shape(g, 2, 3);
  auto ka = static_cast<Kind>(g.integer(0, 6)), kb = static_cast<Kind>(g.integer(0, 6));
  if (g.boolean(0.8))
    ka = static_cast<Kind>(g.integer(3, 6));
  if (g.boolean(0.8))
    kb = static_cast<Kind>(g.integer(2, 6));
  auto a = gen_arr(g, shape, ka), b = gen_arr(g, sub_shape(g, shape), kb);
  const bool same_unit = shifts(ka) && (shifts(kb) || kb == Kind::vec);
  if (same_unit && g.boolean(0.85))
    b.unit = a.unit;
  if (g.boolean())
    std::swap(a, b);
  if (!is_map(a.kind) && !is_map(b.kind) && (a.kind != Kind::vec) == (b.kind != Kind::vec))
    if (a.kind != Kind::vec)
      throw Discard{}; // numbers
  const bool equal_units =
      shifts(a.kind) && (shifts(b.kind) || b.kind == Kind::vec);
  const auto va = make(g, a), vb = make(g, b);
  const auto out = merged(a.shape, b.shape);
  const auto kind = product_kind(a.kind, b.kind);
  const auto ctx = show(a) + " " + layout(va) + " * " + show(b) + " " + layout(vb);
  g.note(ctx);
  g.nontrivial(a.el.size() > 1 && b.el.size() > 1);
  std::optional<Variable> r;
  outcome(out && kind && (!equal_units || a.unit == b.unit), ctx, [&] { return va * vb; }, r);
  if (!r)
    return;
  check(*r,
        elementwise(*out, *kind, equal_units ? a.unit : a.unit * b.unit, a, b,
                    [&](const Elem &x, const Elem &y) { return product(a.kind, x, b.kind, y); }),
        ctx);
  // Vectors scale, and matrices multiply, in place too.
  const bool in_place = (a.kind == Kind::vec && !is_map(b.kind) && b.kind != Kind::vec) ||
                        (a.kind == Kind::mat && b.kind == Kind::mat);
  if (in_place && *out == a.shape) {
    // Slices keep their unit.
    b.unit = units::one;
    auto target = make(g, a);
    target *= make(g, b);
    check(target, elementwise(*out, *kind, a.unit, a, b,
                              [&](const Elem &x, const Elem &y) {
                                return product(a.kind, x, b.kind, y);
                              }),
          "in place: " + ctx);
  }
}
inline void inverse(Gen &g) {
  auto a = gen_arr(g, gen_shape(g, 3, 3), static_cast<Kind>(g.integer(2, 6)));
  // Invertible: diagonally dominant
  if (a.kind == Kind::mat || a.kind == Kind::aff)
    for (auto &e : a.el)
      for (int i = 0; i < 3; ++i)
        e[5 * i] = 20 + i;
  const auto v = make(g, a);
  const auto ctx = "inv " + show(a) + " " + layout(v);
  g.note(ctx);
  g.nontrivial(a.el.size() > 1);
  std::optional<Variable> r;
  outcome(a.kind != Kind::vec, ctx, [&] { return sv::inv(v); }, r);
  if (!r)
    return;
  PBT_CHECK("inv-type", r->dtype() == v.dtype() && shape_of(r->dims()) == a.shape, ctx);
  PBT_CHECK("inv-unit", r->unit() == (shifts(a.kind) ? a.unit : units::one / a.unit), ctx);
  size_t i = 0;
  for_each(a.shape, [&](const std::vector<idx> &pos) {
    const auto x = get(at(*r, a.shape, pos));
    PBT_CHECK("inv", close(product(x, a.el[i]), identity(), 1e-9), "at ", i, " got ", show(x), ctx);
    ++i;
  });
}
inline void vectors(Gen &g) {
  const auto shape = gen_shape(g, 3, 3);
  const auto a = gen_arr(g, shape, Kind::vec);
  const auto op = g.integer(0, 5);
  auto b = gen_arr(g, sub_shape(g, shape),
                   op == 3 ? g.one_of<Kind>({Kind::num, Kind::whole}) : Kind::vec);
  if (g.boolean(0.85) || op == 3)
    b.unit = a.unit;
  const auto va = make(g, a), vb = make(g, b);
  const char *names[] = {"+", "-", "negative", "/", "dot", "cross"};
  const auto ctx = show(a) + " " + layout(va) + " " + names[op] + " " + show(b) + " " + layout(vb);
  g.note(ctx);
  g.label(names[op]);
  g.nontrivial(a.el.size() > 1 && b.el.size() > 1);
  const auto out = op == 2 ? std::optional(shape) : merged(a.shape, b.shape);
  std::optional<Variable> r;
  outcome(out && (op > 1 || a.unit == b.unit), ctx,
          [&]() -> Variable {
            switch (op) {
            case 0:
              return va + vb;
            case 1:
              return va - vb;
            case 2:
              return -va;
            case 3:
              return va / vb;
            case 4:
              return sv::dot(va, vb);
            default:
              return sv::cross(va, vb);
            }
          },
          r);
  if (op == 2) {
    Arr want = a;
    for (auto &e : want.el)
      for (auto &x : e)
        x = -x;
    check(*r, want, ctx);
    const auto n = sv::norm(va);
    want.kind = Kind::num;
    for (auto &e : want.el)
      e = {std::sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2])};
    check(n, want, "norm " + ctx);
    return;
  }
  if (!r)
    return;
  const auto f = [&](const Elem &x, const Elem &y) -> Elem {
    switch (op) {
    case 0:
      return {x[0] + y[0], x[1] + y[1], x[2] + y[2]};
    case 1:
      return {x[0] - y[0], x[1] - y[1], x[2] - y[2]};
    case 3:
      return {x[0] / y[0], x[1] / y[0], x[2] / y[0]};
    case 4:
      return {x[0] * y[0] + x[1] * y[1] + x[2] * y[2]};
    default:
      return {x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]};
    }
  };
  const auto unit = op < 2 ? a.unit : op == 3 ? a.unit / b.unit : a.unit * b.unit;
  const auto want = elementwise(*out, op == 4 ? Kind::num : Kind::vec, unit, a, b, f);
  check(*r, want, ctx);
  if ((op < 2 || op == 3) && *out == a.shape) {
    auto target = make(g, a);
    if (op == 3)
      b.unit = units::one; // slices keep their unit
    const auto operand = make(g, b);
    if (op == 0)
      target += operand;
    else if (op == 1)
      target -= operand;
    else
      target /= operand;
    check(target, elementwise(*out, Kind::vec, a.unit, a, b, f), "in place: " + ctx);
  }
}
/// Components of structures are views of them.
template <class T>
void components_of(Gen &g, Arr a, const std::vector<std::string> &keys,
                   const std::vector<size_t> &where) {
  auto v = make(g, a);
  const auto k = static_cast<size_t>(g.integer(0, static_cast<int64_t>(keys.size()) - 1));
  const auto ctx = "component " + keys[k] + " of " + show(a) + " " + layout(v);
  g.note(ctx);
  g.nontrivial(a.el.size() > 1 && a.shape.size() > 1);
  auto c = v.elements<T>(keys[k]);
  Arr want{a.shape, Kind::num, a.unit, {}};
  for (const auto &e : a.el)
    want.el.push_back({e[where[k]]});
  check(c, want, ctx);
  PBT_CHECK("component-keys", sv::element_keys(v) == keys, ctx);
  PBT_CHECK("component-unknown", throws([&] { (void)v.elements<T>("w"); }), ctx);
  // Sums go component by component.
  if (!a.shape.empty()) {
    const auto i = static_cast<size_t>(g.integer(0, static_cast<int64_t>(a.shape.size()) - 1));
    const auto dim = a.shape[i].first;
    if constexpr (std::is_same_v<T, Eigen::Vector3d>) {
      const auto s = sv::sum(v, dim);
      PBT_CHECK("component-sum", s.elements<T>(keys[k]) == sv::sum(c, dim), ctx);
    }
  }
  // Writing to a component changes nothing else.
  auto other = gen_arr(g, a.shape, Kind::num);
  other.unit = a.unit;
  const auto vo = make(g, other);
  copy(vo, c);
  for (size_t i = 0; i < a.el.size(); ++i)
    a.el[i][where[k]] = other.el[i][0];
  check(v, a, "written " + ctx);
}
inline void components(Gen &g) {
  const auto shape = gen_shape(g, 3, 3);
  if (g.boolean())
    components_of<Eigen::Vector3d>(g, gen_arr(g, shape, Kind::vec), {"x", "y", "z"}, {0, 1, 2});
  else
    components_of<Eigen::Matrix3d>(g, gen_arr(g, shape, Kind::mat),
                                   {"xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"},
                                   {0, 1, 2, 4, 5, 6, 8, 9, 10});
}
/// Structures are close if all their components are.
inline void closeness(Gen &g) {
  const auto shape = gen_shape(g, 3, 3);
  // Components of rotations are those of the quaternion.
  const auto kind = g.one_of<Kind>({Kind::vec, Kind::mat, Kind::aff, Kind::tra});
  const auto a = gen_arr(g, shape, kind);
  const double scale = 0.25;
  auto b = a;
  const size_t n_rows = kind == Kind::vec ? 1 : 3;
  for (auto &e : b.el)
    if (g.boolean(0.7)) {
      const auto row = static_cast<size_t>(g.integer(0, static_cast<int64_t>(n_rows) - 1));
      const auto col = static_cast<size_t>(kind == Kind::vec   ? g.integer(0, 2)
                                           : kind == Kind::tra ? 3
                                           : kind == Kind::mat ? g.integer(0, 2)
                                                               : g.integer(0, 3));
      auto &x = e[4 * row + col];
      x = g.boolean(0.15) ? std::numeric_limits<double>::quiet_NaN()
                          : x + scale * static_cast<double>(g.integer(-3, 3));
    }
  const double atol = scale * static_cast<double>(g.integer(0, 3));
  const double rtol = g.boolean() ? 0.0 : 0.25;
  const bool equal_nan = g.boolean();
  auto bn = b;
  if (g.boolean(0.3))
    bn.unit = units::kg;
  const auto va = make(g, a), vb = make(g, bn);
  const auto ctx = cat("isclose atol ", atol, " rtol ", rtol, " ", show(a), ", ", show(bn));
  g.note(ctx);
  g.nontrivial(a.el.size() > 1 && a.shape.size() > 1);
  std::optional<Variable> r;
  outcome(a.unit == bn.unit, ctx,
          [&] {
            return sv::isclose(va, vb, rtol * units::one, atol * a.unit,
                               equal_nan ? sv::NanComparisons::Equal : sv::NanComparisons::NotEqual);
          },
          r);
  if (!r)
    return;
  PBT_CHECK("isclose-shape", shape_of(r->dims()) == shape && r->dtype() == dtype<bool>, ctx);
  size_t i = 0;
  for_each(shape, [&](const std::vector<idx> &pos) {
    bool want = true;
    for (size_t k = 0; k < 16; ++k) {
      const auto x = a.el[i][k], y = b.el[i][k];
      want &= (equal_nan && std::isnan(x) && std::isnan(y)) ||
              std::abs(x - y) <= atol + rtol * std::abs(y);
    }
    PBT_CHECK("isclose", at(*r, shape, pos).value<bool>() == want, "at ", i, " ", ctx);
    ++i;
  });
}
inline void law(Gen &g) {
  switch (g.weighted({3, 1, 3, 2, 2})) {
  case 0:
    return products(g);
  case 1:
    return inverse(g);
  case 2:
    return vectors(g);
  case 3:
    return components(g);
  default:
    return closeness(g);
  }
}
} // namespace structures
