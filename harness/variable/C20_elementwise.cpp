// C20: elementwise operations act element by element, whatever the memory layout
// of the operands.
// sanitize: -D_GLIBCXX_ASSERTIONS
#define VERIF_ALL_TYPES
#include "structures_law.h"

#include "scipp/core/except.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/hyperbolic.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/pow.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/trigonometry.h"
#include "scipp/variable/util.h"

using namespace gv;
namespace sv = scipp::variable;

namespace {
struct Unary {
  const char *name;
  Variable (*f)(const Variable &);
};
struct Binary {
  const char *name;
  Variable (*f)(const Variable &, const Variable &);
  bool broadcasts_variances = false; // comparisons, choice of elements
};
#define U(F) {#F, [](const Variable &x) { return sv::F(x); }}
#define B(F) {#F, [](const Variable &x, const Variable &y) { return sv::F(x, y); }}
#define OP(F) {#F, [](const Variable &x, const Variable &y) { return x F y; }}

const std::vector<Unary> unary{
    U(abs), U(sqrt), U(exp), U(log), U(log10), U(floor), U(ceil), U(rint),
    U(erf), U(erfc), U(reciprocal), U(sin), U(cos), U(tan), U(asin), U(acos),
    U(atan), U(sinh), U(cosh), U(tanh), U(asinh), U(acosh), U(atanh), U(isnan),
    U(isinf), U(isfinite), U(isposinf), U(isneginf), U(values), U(variances),
    U(stddevs),
    {"-", [](const Variable &x) { return -x; }},
    {"~", [](const Variable &x) { return ~x; }}};
const std::vector<Binary> binary{
    OP(+), OP(-), OP(*), OP(/), OP(%), OP(&), OP(|), OP(^),
    B(floor_divide), B(atan2), B(pow),
    {"nan_to_num", [](const Variable &x, const Variable &y) { return sv::nan_to_num(x, y); }, true},
    {"pos_inf_to_num", [](const Variable &x, const Variable &y) { return sv::pos_inf_to_num(x, y); }, true},
    {"neg_inf_to_num", [](const Variable &x, const Variable &y) { return sv::neg_inf_to_num(x, y); }, true},
    {"equal", [](const Variable &x, const Variable &y) { return sv::equal(x, y); }, true},
    {"not_equal", [](const Variable &x, const Variable &y) { return sv::not_equal(x, y); }, true},
    {"less", [](const Variable &x, const Variable &y) { return sv::less(x, y); }, true},
    {"greater", [](const Variable &x, const Variable &y) { return sv::greater(x, y); }, true},
    {"less_equal", [](const Variable &x, const Variable &y) { return sv::less_equal(x, y); }, true},
    {"greater_equal", [](const Variable &x, const Variable &y) { return sv::greater_equal(x, y); }, true}};

Content gen_content(Gen &g, const Shape &shape, const bool logical = false) {
  Content c;
  c.shape = shape;
  switch (logical ? 4 : g.weighted({6, 3, 2, 2, 1, 1})) {
  case 0:
    c.type = dtype<double>;
    break;
  case 1:
    c.type = dtype<float>;
    break;
  case 2:
    c.type = dtype<int64_t>;
    break;
  case 3:
    c.type = dtype<int32_t>;
    break;
  case 4:
    c.type = dtype<bool>;
    break;
  default:
    c.type = dtype<time_point>;
  }
  if (c.type == dtype<bool>)
    c.unit = units::none;
  else if (c.type == dtype<time_point>)
    c.unit = g.one_of<Unit>({units::ns, units::s});
  else
    c.unit = g.one_of<Unit>({units::one, units::one, units::m, units::rad, units::none});
  if (c.type == dtype<double> || c.type == dtype<float>)
    c.has_var = g.boolean(0.4);
  gen_elements(g, c, true);
  return c;
}
/// Shape related to s: subset, permuted, extended, in conflict.
Shape related(Gen &g, const Shape &s) {
  Shape out;
  for (const auto &x : s)
    if (g.boolean(0.75))
      out.push_back(x);
  if (g.boolean(0.3))
    out = g.permutation(out);
  if (g.boolean(0.25))
    out.insert(out.begin() + static_cast<long>(g.draw(out.size())),
               {Dim("other"), g.length(1, 4)});
  if (!out.empty() && g.boolean(0.08))
    out[g.draw(out.size() - 1)].second += g.integer(1, 2);
  return out;
}
bool lt(const Shape &a, const Shape &b) {
  return a.size() < b.size();
}
/// Variances may not be broadcast.
bool bad_broadcast(const Content &c, const Shape &out) { return c.has_var && lt(c.shape, out); }

/// Element of the operand that goes into element `at` of the output.
Variable element_of(const Content &c, const Shape &out, const std::vector<idx> &at) {
  return scalar(c, position(c.shape, out, at));
}
/// Scalar to find out about types and units if there are no elements.
Variable stand_in(Content c) {
  c.shape.clear();
  c.val = {1};
  if (c.has_var)
    c.var = {1};
  return make_plain(c);
}

/// Compare the outcome of the operation on whole operands with the outcome of
/// the same operation on scalars, element by element.
void check_op(const std::string &name, const std::vector<Content> &in,
              const std::vector<Variable> &vars,
              const std::function<Variable(const std::vector<Variable> &)> &f,
              const bool may_broadcast_variances = false,
              std::function<Dimensions()> dims_of = nullptr) {
  const auto show_in = [&] {
    std::string s = name;
    for (size_t i = 0; i < in.size(); ++i)
      s += cat("\n  ", show(in[i]), " ", layout(vars[i]));
    return s;
  };
  // Which dimensions has the result?
  std::optional<Shape> out;
  try {
    auto dims = dims_of ? dims_of() : vars[0].dims();
    if (!dims_of)
      for (size_t i = 1; i < vars.size(); ++i)
        dims = merge(dims, vars[i].dims());
    out = shape_of(dims);
  } catch (const std::exception &) {
  }
  std::optional<Variable> result;
  std::string error;
  try {
    result = f(vars);
  } catch (const std::exception &e) {
    error = e.what();
  }
  // Operands are as they were.
  for (size_t i = 0; i < vars.size(); ++i)
    PBT_CHECK("operand-changed", read(vars[i]) == in[i], show_in());
  bool expect_error = !out;
  if (out && !may_broadcast_variances)
    for (const auto &c : in)
      expect_error |= bad_broadcast(c, *out);
  std::vector<Variable> expected;
  if (!expect_error) {
    try {
      if (volume(*out) == 0) {
        std::vector<Variable> s;
        for (const auto &c : in)
          s.push_back(stand_in(c));
        expected.push_back(f(s));
      } else
        for_each(*out, [&](const std::vector<idx> &at) {
          std::vector<Variable> s;
          for (const auto &c : in)
            s.push_back(element_of(c, *out, at));
          expected.push_back(f(s));
        });
    } catch (const std::exception &e) {
      expect_error = true;
      error += cat(" (element: ", e.what(), ")");
    }
  }
  if (expect_error) {
    PBT_CHECK("no-error", !result, show_in(), "\n  ", error);
    return;
  }
  PBT_CHECK("error", result.has_value(), show_in(), "\n  ", error);
  const auto r = read(*result);
  PBT_CHECK("shape", r.shape == *out, show_in(), " -> ", show(r));
  PBT_CHECK("type", r.type == expected.front().dtype(), show_in(), " -> ", show(r));
  PBT_CHECK("unit", r.unit == expected.front().unit(), show_in(), " -> ", show(r));
  PBT_CHECK("variances", r.has_var == expected.front().has_variances(), show_in(), " -> ",
            show(r));
  for (size_t i = 0; i < r.val.size(); ++i) {
    const auto e = read(expected[i]);
    PBT_CHECK("value", same(r.val[i], e.val[0]), show_in(), " -> ", show(r), " at ", i,
              " expected ", e.val[0]);
    if (r.has_var)
      PBT_CHECK("variance", same(r.var[i], e.var[0]), show_in(), " -> ", show(r), " at ", i,
                " expected ", e.var[0]);
  }
  // The result owns its memory.
  for (const auto &v : vars)
    if (volume(*out) > 0)
      PBT_CHECK("result-shared", !result->is_same(v) && !result->is_slice(), show_in());
}

void unary_law(Gen &g) {
  const auto &op = g.pick(unary);
  auto c = gen_content(g, gen_shape(g, 3, 4));
  if (op.name == std::string("sin") || op.name == std::string("cos") ||
      op.name == std::string("tan"))
    if (g.boolean(0.7))
      c.unit = units::rad;
  const auto v = make_view(g, c);
  g.nontrivial(volume(c.shape) > 1 && c.shape.size() > 1);
  g.note([&] { return cat(op.name, " ", show(c), " ", layout(v)); });
  check_op(op.name, {c}, {v}, [&](const auto &x) { return op.f(x[0]); });
}

void binary_law(Gen &g) {
  const auto &op = g.pick(binary);
  const std::string name = op.name;
  const bool logical = name == "&" || name == "|" || name == "^";
  const auto shape = gen_shape(g, 3, 4);
  auto a = gen_content(g, g.boolean(0.8) ? shape : related(g, shape), logical);
  auto b = gen_content(g, related(g, shape), logical);
  // Mostly matching, or nothing but errors would be seen.
  if (g.boolean(0.7))
    b.unit = a.unit;
  if (g.boolean(0.5)) {
    b.type = a.type;
    b.has_var = a.has_var && lt(a.shape, b.shape) == false && g.boolean(0.7);
    b.unit = a.unit;
    gen_elements(g, b, true);
  }
  const bool is_replacement = name.find("_num") != std::string::npos;
  if (is_replacement && g.boolean(0.7)) {
    b.shape.clear();
    b.type = a.type;
    b.unit = a.unit;
    b.has_var = a.has_var;
    gen_elements(g, b);
  }
  if (name == "pow") {
    // Domain: rules for integers and units look at all elements at once; see
    // the law "power".
    a.unit = units::one;
    b.unit = units::one;
    if (b.type != dtype<double> && b.type != dtype<float>)
      for (auto &x : b.val)
        x = std::abs(x);
    if (a.type == dtype<time_point> || b.type == dtype<time_point> ||
        a.type == dtype<bool> || b.type == dtype<bool> || volume(a.shape) == 0 ||
        volume(b.shape) == 0)
      throw Discard{};
  }
  auto va = make_view(g, a);
  auto vb = make_view(g, b);
  g.nontrivial(volume(a.shape) > 1 && volume(b.shape) > 1 &&
               (a.shape != b.shape || va.strides()[0] != vb.strides()[0]));
  g.note([&] { return cat(name, " ", show(a), " ", layout(va), ", ", show(b), " ", layout(vb)); });
  check_op(name, {a, b}, {va, vb}, [&](const auto &x) { return op.f(x[0], x[1]); },
           op.broadcasts_variances);
}

void ternary_law(Gen &g) {
  const auto shape = gen_shape(g, 3, 4);
  const bool where = g.boolean();
  auto a = gen_content(g, g.boolean(0.8) ? shape : related(g, shape), where);
  auto b = gen_content(g, related(g, shape));
  auto c = gen_content(g, related(g, shape));
  if (where) {
    if (g.boolean(0.8)) {
      c.type = b.type;
      c.unit = b.unit;
      c.has_var = b.has_var;
      gen_elements(g, c, true);
    }
    auto x = make_view(g, a), y = make_view(g, b), z = make_view(g, c);
    g.nontrivial(volume(a.shape) > 1 && volume(b.shape) > 1 && volume(c.shape) > 1);
    g.note([&] { return cat("where ", show(a), ", ", show(b), ", ", show(c)); });
    check_op("where", {a, b, c}, {x, y, z},
             [&](const auto &v) { return sv::where(v[0], v[1], v[2]); }, true);
    return;
  }
  if (g.boolean(0.8)) {
    b.type = a.type;
    b.unit = a.unit;
    b.has_var = a.has_var && a.shape.size() <= b.shape.size();
    gen_elements(g, b, true);
    if (g.boolean())
      for (size_t i = 0; i < std::min(a.val.size(), b.val.size()); ++i)
        if (g.boolean(0.7))
          b.val[i] = a.val[i];
  }
  // Tolerances
  c.type = dtype<double>;
  c.has_var = false;
  c.unit = g.boolean(0.9) ? b.unit : units::m;
  gen_elements(g, c);
  for (auto &x : c.val)
    x = std::abs(x) / 8;
  Content r = c;
  r.shape.clear();
  r.unit = c.unit == units::none ? units::none : units::one;
  r.val = {g.boolean() ? 0.0 : 0.125};
  const auto nan_mode =
      g.boolean() ? sv::NanComparisons::Equal : sv::NanComparisons::NotEqual;
  auto x = make_view(g, a), y = make_view(g, b), z = make_view(g, c), w = make_plain(r);
  g.nontrivial(volume(a.shape) > 1 && volume(b.shape) > 1);
  g.note([&] { return cat("isclose ", show(a), ", ", show(b), ", ", show(r), ", ", show(c)); });
  // Variances take part as values of their own if both have them, so which
  // operands may be broadcast depends on the others; not the subject here.
  if ((a.has_var && (a.shape.size() < b.shape.size() || !c.shape.empty())) ||
      (b.has_var && (b.shape.size() < a.shape.size() || !c.shape.empty())) ||
      (a.has_var && b.has_var && a.shape != b.shape))
    throw Discard{};
  check_op("isclose", {a, b, r, c}, {x, y, w, z}, [&](const auto &v) {
    return sv::isclose(v[0], v[1], v[2], v[3], nan_mode);
  }, false, [&] { return merge(merge(x.dims(), y.dims()), merge(z.dims(), y.dims())); });
}

/// pow() rules about units and integers.
void power(Gen &g) {
  const auto shape = gen_shape(g, 2, 4, 0.0);
  auto a = gen_content(g, shape);
  auto b = gen_content(g, g.boolean(0.6) ? Shape{} : related(g, shape));
  const auto number = [](const Content &c) {
    return c.type != dtype<bool> && c.type != dtype<time_point>;
  };
  if (!number(a) || !number(b))
    throw Discard{};
  if (a.unit == units::none)
    a.unit = units::m;
  b.unit = g.boolean(0.9) ? units::one : units::m;
  b.has_var = g.boolean(0.05) && b.has_var;
  if (!b.has_var)
    b.var.clear();
  const bool int_a = a.type == dtype<int64_t> || a.type == dtype<int32_t>;
  const bool int_b = b.type == dtype<int64_t> || b.type == dtype<int32_t>;
  for (auto &x : b.val)
    x = g.integer(-3, 3) + (int_b || g.boolean(0.8) ? 0 : 0.5);
  for (auto &x : a.val)
    x = std::isfinite(x) ? x / 4 : 1;
  if (int_a)
    for (auto &x : a.val)
      x = std::trunc(x);
  auto va = make_view(g, a), vb = make_view(g, b);
  const auto show_in = [&] { return cat(show(a), " ** ", show(b)); };
  g.note(show_in);
  bool negative = false, fraction = false;
  for (const auto x : b.val) {
    negative |= x < 0;
    fraction |= x != std::trunc(x);
  }
  Shape out;
  try {
    out = shape_of(merge(va.dims(), vb.dims()));
  } catch (const std::exception &) {
    throw Discard{};
  }
  bool error = b.unit != units::one;                // exponents have no unit
  error |= int_a && int_b && negative;              // no integer result
  error |= a.unit != units::one && !b.shape.empty(); // no common unit
  error |= a.unit != units::one && fraction;
  error |= b.has_var || bad_broadcast(a, out);
  g.nontrivial(!error && volume(out) > 1);
  std::optional<Variable> res;
  std::string what;
  try {
    res = pow(va, vb);
  } catch (const scipp::except::TypeError &e) {
    g.label("unsupported types");
    return;
  } catch (const std::exception &e) {
    what = e.what();
  }
  PBT_CHECK("pow-operand-changed", read(va) == a && read(vb) == b, show_in());
  PBT_EQ("pow-error", !res, error, show_in(), " ", what);
  if (error)
    return;
  const auto r = read(*res);
  PBT_CHECK("pow-shape", r.shape == out, show_in(), " -> ", show(r));
  Unit unit = units::one;
  if (a.unit != units::one) {
    const int n = static_cast<int>(b.val[0]);
    for (int i = 0; i < std::abs(n); ++i)
      unit = n > 0 ? unit * a.unit : unit / a.unit;
  }
  PBT_CHECK("pow-unit", r.unit == unit, show_in(), " -> ", show(r));
  const bool single = r.type == dtype<float>;
  idx i = 0;
  for_each(out, [&](const std::vector<idx> &at) {
    const auto p = static_cast<size_t>(position(a.shape, out, at));
    const auto x = a.val[p];
    const auto y = b.val[static_cast<size_t>(position(b.shape, out, at))];
    const auto k = static_cast<size_t>(i++);
    const auto e = std::pow(x, y);
    PBT_CHECK("pow-value", close(r.val[k], e, single ? 1e-5 : 1e-12), show_in(), " -> ",
              show(r), " at ", k, " expected ", e);
    if (r.has_var) {
      const auto d = y == 0 ? 0 : y * std::pow(x, y - 1);
      if (std::isfinite(d) && (x != 0 || y >= 1))
        PBT_CHECK("pow-variance", close(r.var[k], d * d * a.var[p], single ? 1e-4 : 1e-10),
                  show_in(), " -> ", show(r), " at ", k, " expected ", d * d * a.var[p]);
    }
  });
}

/// + - * / % // computed with plain numbers.
void arithmetic(Gen &g) {
  const auto shape = gen_shape(g, 3, 4, 0.0);
  const auto numeric = [&](const Shape &s) {
    Content c;
    c.shape = s;
    c.type = g.one_of({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>});
    c.has_var = (c.type == dtype<double> || c.type == dtype<float>)&&g.boolean(0.4);
    c.unit = g.one_of<Unit>({units::one, units::m, units::s});
    gen_elements(g, c);
    return c;
  };
  auto a = numeric(shape);
  Shape sb;
  for (const auto &x : shape)
    if (g.boolean(0.7))
      sb.push_back(x);
  sb = g.permutation(sb);
  auto b = numeric(sb);
  if (sb.size() < shape.size()) {
    b.has_var = false;
    b.var.clear();
  }
  const auto op = g.draw(5);
  if (op < 2 || op == 4 || g.boolean())
    b.unit = a.unit;
  if (op > 2)
    for (auto &x : b.val)
      if (x == 0)
        x = 1;
  if (op >= 4)
    a.has_var = b.has_var = false, a.var.clear(), b.var.clear();
  auto va = make_view(g, a), vb = make_view(g, b);
  const auto int_type = [](const Content &c) {
    return c.type == dtype<int64_t> || c.type == dtype<int32_t>;
  };
  const char *names[] = {"+", "-", "*", "/", "%", "//"};
  const auto show_in = [&] { return cat(show(a), " ", names[op], " ", show(b)); };
  g.note(show_in);
  g.nontrivial(volume(a.shape) > 1);
  std::optional<Variable> res;
  try {
    res = op == 0   ? va + vb
          : op == 1 ? va - vb
          : op == 2 ? va * vb
          : op == 3 ? va / vb
          : op == 4 ? va % vb
                    : sv::floor_divide(va, vb);
  } catch (const scipp::except::UnitError &e) {
    fail("arith-unit-error", cat(show_in(), " ", e.what()));
  } catch (const scipp::except::TypeError &) {
    // Not every combination of types is supported; which is not the subject.
    g.label("unsupported types");
    return;
  }
  const auto r = read(*res);
  const auto unit = op < 2 || op == 4 ? a.unit
                    : op == 2         ? a.unit * b.unit
                                      : a.unit / b.unit;
  PBT_CHECK("arith-unit", r.unit == unit, show_in(), " -> ", show(r));
  PBT_CHECK("arith-shape", r.shape == a.shape, show_in(), " -> ", show(r));
  PBT_CHECK("arith-has-var", r.has_var == (a.has_var || b.has_var), show_in(), " -> ", show(r));
  if (int_type(a) && int_type(b) && op == 3)
    PBT_CHECK("true-division", r.type == dtype<double>, show_in(), " -> ", show(r));
  if (a.type == dtype<double> || b.type == dtype<double>)
    PBT_CHECK("arith-type", r.type == dtype<double>, show_in(), " -> ", show(r));
  const double tol = r.type == dtype<float> ? 1e-5 : 1e-13;
  idx i = 0;
  for_each(a.shape, [&](const std::vector<idx> &at) {
    const auto k = static_cast<size_t>(i++);
    const auto p = static_cast<size_t>(position(b.shape, a.shape, at));
    const double x = a.val[k], y = b.val[p];
    const double e = op == 0   ? x + y
                     : op == 1 ? x - y
                     : op == 2 ? x * y
                     : op == 3 ? x / y
                     : op == 4 ? x - y * std::floor(x / y)
                               : std::floor(x / y);
    PBT_CHECK("arith-value", close(r.val[k], e, tol, tol), show_in(), " -> ", show(r), " at ",
              k, " expected ", e);
    if (r.has_var) {
      const double vx = a.has_var ? a.var[k] : 0, vy = b.has_var ? b.var[p] : 0;
      const double v = op < 2    ? vx + vy
                       : op == 2 ? vx * y * y + vy * x * x
                                 : (vx + vy * x * x / (y * y)) / (y * y);
      PBT_CHECK("arith-variance", close(r.var[k], v, 10 * tol, 10 * tol), show_in(), " -> ",
                show(r), " at ", k, " expected ", v);
    }
  });
}

/// An operand combined with itself is fully correlated with itself.
void correlated(Gen &g) {
  Content c;
  c.shape = gen_shape(g, 2, 4, 0.0);
  c.type = g.boolean(0.7) ? dtype<double> : dtype<float>;
  c.has_var = true;
  c.unit = g.one_of<Unit>({units::m, units::one});
  gen_elements(g, c);
  for (auto &x : c.val)
    if (x == 0)
      x = 2;
  const auto v = make_view(g, c);
  const auto op = g.draw(3);
  const bool in_place = g.boolean(0.4);
  g.nontrivial(volume(c.shape) > 1);
  g.note([&] { return cat("+-*/"[op], in_place ? "=" : "", " itself ", show(c)); });
  Variable r;
  if (in_place) {
    if (op > 1 && v.is_slice() && c.unit != units::one)
      throw Discard{}; // a slice cannot change its unit
    auto w = v;
    r = op == 0 ? (w += v) : op == 1 ? (w -= v) : op == 2 ? (w *= v) : (w /= v);
    PBT_CHECK("correlated-in-place", read(r) == read(v), show(c));
  } else
    r = op == 0 ? v + v : op == 1 ? v - v : op == 2 ? v * v : v / v;
  const auto got = read(r);
  const double tol = c.type == dtype<float> ? 1e-5 : 1e-13;
  PBT_CHECK("correlated-unit",
            got.unit == (op < 2 ? c.unit : op == 2 ? c.unit * c.unit : units::one), show(got));
  PBT_CHECK("correlated-var", got.has_var, show(got));
  for (size_t i = 0; i < c.val.size(); ++i) {
    const auto x = c.val[i];
    const double e = op == 0 ? 2 * x : op == 1 ? 0 : op == 2 ? x * x : 1;
    const double d = op == 0 ? 2 : op == 2 ? 2 * x : 0;
    PBT_CHECK("correlated-value", close(got.val[i], e, tol), show(c), " -> ", show(got));
    PBT_CHECK("correlated-variance", close(got.var[i], d * d * c.var[i], tol), show(c), " -> ",
              show(got));
  }
}

/// Operands large enough to be split among threads.
void large(Gen &g) {
  const idx n = g.integer(1, 6), m = 16000 + g.integer(0, 9000);
  Content a, b;
  a.shape = {{Dim::X, n}, {Dim::Y, m}};
  a.type = dtype<double>;
  a.has_var = g.boolean(0.3);
  const auto kind = g.draw(3);
  b.shape = kind == 0   ? a.shape
            : kind == 1 ? Shape{{Dim::Y, m}}
            : kind == 2 ? Shape{{Dim::Y, m}, {Dim::X, n}}
                        : Shape{{Dim::X, n}};
  b.type = g.boolean(0.8) ? dtype<double> : dtype<int64_t>;
  const auto fill = [&](Content &c, const idx step) {
    const auto k = g.integer(1, 97);
    for (idx i = 0; i < volume(c.shape); ++i)
      c.val.push_back(static_cast<double>((i * k + step) % 1009));
    if (c.has_var)
      for (idx i = 0; i < volume(c.shape); ++i)
        c.var.push_back(static_cast<double>((i * k + step) % 103));
  };
  fill(a, 3);
  fill(b, 5);
  const auto before = g.integer(0, 2), stride = g.integer(1, 2);
  const auto view = [&](const Content &c) {
    auto s = c.shape;
    Content p = c;
    for (auto &[d, l] : p.shape)
      if (d == Dim::Y)
        l = l * stride + before;
    p.val.assign(static_cast<size_t>(volume(p.shape)), -1);
    p.var.assign(c.has_var ? p.val.size() : 0, 1);
    auto base = make_plain(p);
    if (find(s, Dim::Y) < 0) {
      write(base, c);
      return base;
    }
    auto v = base.slice({Dim::Y, before, before + m * stride, stride});
    write(v, c);
    return v;
  };
  const auto va = view(a), vb = view(b);
  const auto op = g.draw(2);
  g.nontrivial();
  g.note([&] {
    return cat(show(a.shape), " ", show(b.shape), " before ", before, " step ", stride, " op ",
               op);
  });
  Variable r;
  if (g.boolean(0.3)) {
    r = copy(va);
    op == 0 ? (r += vb) : op == 1 ? (r -= vb) : (r *= vb);
    g.label("in-place");
  } else
    r = op == 0 ? va + vb : op == 1 ? va - vb : va * vb;
  const auto out = read(r);
  PBT_CHECK("large-shape", out.shape == a.shape, show(out.shape));
  for (idx i = 0; i < n; ++i)
    for (idx j = 0; j < m; ++j) {
      const auto k = static_cast<size_t>(i * m + j);
      const auto q = static_cast<size_t>(kind == 0   ? i * m + j
                                         : kind == 1 ? j
                                         : kind == 2 ? j * n + i
                                                     : i);
      const auto x = a.val[k], y = b.val[q];
      const auto e = op == 0 ? x + y : op == 1 ? x - y : x * y;
      PBT_CHECK("large-value", out.val[k] == e, "at ", i, ",", j, " got ", out.val[k],
                " expected ", e);
      if (a.has_var)
        PBT_CHECK("large-variance", out.var[k] == (op < 2 ? a.var[k] : a.var[k] * y * y), "at ",
                  i, ",", j);
    }
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C20";
  p.rule = "operands of up to 3 dimensions in random memory layouts (padded, strided, "
           "transposed, broadcast views), all element types, units, variances, special "
           "values; every elementwise operation compared with the same operation on "
           "scalars, arithmetic and powers also with plain numbers. Non-trivial: several "
           "elements and dimensions, operands of different shape or layout.";
  p.laws = {{"unary", 400000, 6000000, unary_law},
            {"binary", 800000, 12000000, binary_law},
            {"ternary", 300000, 4000000, ternary_law},
            {"power", 300000, 4000000, power},
            {"arithmetic", 500000, 8000000, arithmetic},
            {"correlated", 150000, 2000000, correlated},
            {"large", 800, 8000, large},
            {"structures", 250000, 4000000, structures::law}};
  return run(argc, argv, p);
}
