// sanitize: -D_GLIBCXX_ASSERTIONS
// C41: operations on data arrays and datasets match coordinates and unite masks.
#include "../gen_data.h"

#include "scipp/dataset/arithmetic.h"
#include "scipp/dataset/generated_comparison.h"
#include "scipp/dataset/generated_util.h"
#include "scipp/dataset/generated_math.h"
#include "scipp/dataset/generated_special_values.h"
#include "scipp/dataset/generated_trigonometry.h"
#include "scipp/dataset/generated_logical.h"
#include "scipp/variable/arithmetic.h"
#include "scipp/variable/comparison.h"
#include "scipp/variable/logical.h"
#include "scipp/variable/math.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/trigonometry.h"

using namespace gv;

namespace {
bool fits(const Shape &item, const Shape &sizes) {
  bool edge = false;
  for (const auto &[d, n] : item) {
    const bool known = find(sizes, d) >= 0;
    if (known && n == length_of(sizes, d))
      continue;
    if (edge || n != (known ? length_of(sizes, d) + 1 : 2))
      return false;
    edge = true;
  }
  return true;
}
bool equal_nan(const Content &a, const Content &b) { return a == b; }

Content gen_data(Gen &g, const Shape &shape) {
  Content c;
  c.shape = shape;
  c.type = g.boolean(0.6) ? dtype<double> : g.one_of<DType>({dtype<int64_t>, dtype<float>, dtype<int32_t>});
  c.unit = g.boolean(0.8) ? units::m : units::s;
  c.has_var = (c.type == dtype<double> || c.type == dtype<float>)&&g.boolean(0.3);
  gen_elements(g, c);
  return c;
}
Shape related_shape(Gen &g, const Shape &s, const bool may_extend) {
  Shape out;
  const auto kind = g.draw(3);
  for (const auto &x : kind == 3 ? g.permutation(s) : s)
    if (kind <= 1 || g.boolean(0.6))
      out.push_back(x);
  if (may_extend && g.boolean(0.2)) {
    const auto d = dim_label(3);
    if (find(out, d) < 0)
      out.emplace_back(d, g.length(1, 2));
  }
  return out;
}
void spoil_masks(Gen &g, Array &a) {
  for (auto &[k, v] : a.masks)
    if (g.boolean(0.04)) {
      if (g.boolean())
        v.c.unit = units::m;
      else
        v.c.type = dtype<int64_t>;
    }
}
/// Items for `sizes`, many of them as in `a`.
Items related_items(Gen &g, const Items &a, const Items &own, const Shape &sizes, const bool mask) {
  Items out;
  for (const auto &[k, v] : own)
    if (!a.count(k) || (mask && g.boolean(0.6)) || g.boolean(0.08))
      out[k] = v;
  for (const auto &[k, v] : a) {
    if (out.count(k) || !fits(v.c.shape, sizes) || !g.boolean(0.8))
      continue;
    out[k] = v;
    if (!mask && g.boolean(0.2))
      out[k].aligned = !v.aligned;
    if (!out[k].c.val.empty() && g.boolean(0.07)) {
      auto &x = g.pick(out[k].c.val);
      x = mask ? 1 - x : x + 1;
    }
  }
  return out;
}
Array gen_related(Gen &g, const Array &a, const Shape &shape, const bool extra_dim = true) {
  auto b = gen_array(g, gen_data(g, shape), {.extra_dim = extra_dim});
  if (g.boolean(0.8)) {
    b.data.unit = a.data.unit;
  }
  b.coords = related_items(g, a.coords, b.coords, shape, false);
  b.attrs = related_items(g, a.attrs, b.attrs, shape, false);
  for (auto &[k, v] : b.attrs)
    v.aligned = true;
  b.masks = related_items(g, a.masks, b.masks, shape, true);
  spoil_masks(g, b);
  return b;
}
Array gen_first(Gen &g, const Shape &shape) {
  auto a = gen_array(g, gen_data(g, shape));
  spoil_masks(g, a);
  return a;
}

// ---------------------------------------------------------------- model
/// Coordinates of the result, nothing if they do not match.
std::optional<Items> unite_coords(const Items &a, const Items &b) {
  Items out;
  for (const auto &[k, v] : a) {
    const auto it = b.find(k);
    if (it == b.end()) {
      if (v.aligned)
        out[k] = v;
      continue;
    }
    const auto &w = it->second;
    if (v.aligned && w.aligned) {
      if (!equal_nan(v.c, w.c))
        return {};
      out[k] = v;
    } else if (v.aligned)
      out[k] = v;
    else if (w.aligned)
      out[k] = w;
    else if (equal_nan(v.c, w.c))
      out[k] = v;
  }
  for (const auto &[k, w] : b)
    if (!a.count(k) && w.aligned)
      out[k] = w;
  return out;
}
bool plain_mask(const Content &c) { return c.type == dtype<bool> && c.unit == units::none; }
Content unite(const Content &a, const Content &b) {
  Content c = a;
  c.shape = shape_of(merge(dimensions(a.shape), dimensions(b.shape)));
  c.val.clear();
  for_each(c.shape, [&](const std::vector<idx> &i) {
    c.val.push_back(at(a, c.shape, i) != 0 || at(b, c.shape, i) != 0);
  });
  return c;
}
std::optional<Items> unite_masks(const Items &a, const Items &b) {
  Items out = a;
  for (const auto &[k, w] : b) {
    const auto it = out.find(k);
    if (it == out.end()) {
      out[k] = w;
      continue;
    }
    if (!plain_mask(it->second.c) || !plain_mask(w.c))
      return {};
    if (throws([&] { merge(dimensions(it->second.c.shape), dimensions(w.c.shape)); }))
      return {};
    it->second.c = unite(it->second.c, w.c);
  }
  return out;
}
Items common(const Items &a, const Items &b) {
  Items out;
  for (const auto &[k, v] : a)
    if (b.count(k) && equal_nan(v.c, b.at(k).c))
      out[k] = v;
  return out;
}

using BinaryV = Variable (*)(const Variable &, const Variable &);
struct Binary {
  const char *name;
  std::function<Variable(const Variable &, const Variable &)> v;
  std::function<DataArray(const DataArray &, const DataArray &)> d;
  std::function<DataArray(const DataArray &, const Variable &)> dv;
  std::function<DataArray(const Variable &, const DataArray &)> vd;
};
#define OP(NAME, EXPR)                                                                               \
  Binary {                                                                                           \
    NAME, [](const Variable &a, const Variable &b) { return EXPR; },                                 \
        [](const DataArray &a, const DataArray &b) { return EXPR; },                                 \
        [](const DataArray &a, const Variable &b) { return EXPR; },                                  \
        [](const Variable &a, const DataArray &b) { return EXPR; }                                   \
  }
const std::vector<Binary> &binaries() {
  static const std::vector<Binary> ops{
      OP("+", a + b),         OP("-", a - b),           OP("*", a *b),
      OP("/", a / b),         OP("less", less(a, b)),   OP("equal", equal(a, b)),
      OP("not_equal", not_equal(a, b)), OP("greater_equal", greater_equal(a, b)),
      OP("atan2", atan2(a, b)), OP("mod", a % b), OP("floor_divide", floor_divide(a, b))};
  return ops;
}
struct Inplace {
  const char *name;
  std::function<void(Variable &, const Variable &)> v;
  std::function<void(DataArray &, const DataArray &)> d;
  std::function<void(DataArray &, const Variable &)> dv;
  std::function<void(Dataset &, const Dataset &)> s;
  std::function<void(Dataset &, const DataArray &)> sd;
  std::function<void(Dataset &, const Variable &)> sv;
};
#define IN(OPERATOR)                                                                                 \
  Inplace {                                                                                          \
#OPERATOR, [](Variable &a, const Variable &b) { a OPERATOR b; },                                 \
        [](DataArray &a, const DataArray &b) { a OPERATOR b; },                                      \
        [](DataArray &a, const Variable &b) { a OPERATOR b; },                                       \
        [](Dataset &a, const Dataset &b) { a OPERATOR b; },                                          \
        [](Dataset &a, const DataArray &b) { a OPERATOR b; },                                        \
        [](Dataset &a, const Variable &b) { a OPERATOR b; }                                          \
  }
const std::vector<Inplace> &inplaces() {
  static const std::vector<Inplace> ops{IN(+=), IN(-=), IN(*=), IN(/=)};
  return ops;
}
std::optional<Content> run_op(const Binary &op, const Variable &a, const Variable &b) {
  try {
    return read(op.v(a, b));
  } catch (const std::exception &) {
    return {};
  }
}
template <class F> std::string error_of(F &&f) {
  try {
    f();
  } catch (const std::exception &e) {
    return cat("threw: ", e.what());
  }
  return {};
}
/// Result of an operation with two data arrays, nothing if it throws.
std::optional<Array> model(const Binary &op, const Array &a, const Array &b, const bool same = false) {
  const auto va = make_plain(a.data);
  const auto data = run_op(op, va, same ? va : make_plain(b.data));
  const auto coords = unite_coords(a.coords, b.coords);
  const auto masks = unite_masks(a.masks, b.masks);
  if (!data || !coords || !masks)
    return {};
  return Array{"", *data, *coords, *masks, common(a.attrs, b.attrs)};
}

void binary(Gen &g) {
  const auto &op = g.pick(binaries());
  const auto shape = gen_shape(g, 3, 3);
  auto ma = gen_first(g, shape);
  if (g.boolean(0.5))
    ma.data.has_var = false;
  ma.data.var.resize(ma.data.has_var ? ma.data.val.size() : 0);
  const bool same = g.boolean(0.05);
  auto mb = same ? ma : gen_related(g, ma, related_shape(g, shape, true));
  auto a = make(g, ma);
  // Memory layouts can change contents: what was related may not be any more.
  if (!same) {
    auto &b = mb;
    for (auto *p : {&b.coords, &b.attrs})
      for (auto &[k, v] : *p) {
        const auto &mine = p == &b.coords ? ma.coords : ma.attrs;
        if (const auto it = mine.find(k); it != mine.end() && it->second.c.shape == v.c.shape &&
                                          it->second.c.type == v.c.type && g.boolean(0.8)) {
          v.c = it->second.c;
          if (!v.c.val.empty() && g.boolean(0.1))
            g.pick(v.c.val) += 1;
        }
      }
  }
  auto b = same ? a : make(g, mb, true, false);
  if (same)
    mb = ma;
  // Layouts of b that repeat no elements keep the contents.
  g.note([&] { return cat(op.name, same ? " same" : "", "\na ", show(ma), "\nb ", show(mb)); });
  const auto expected = model(op, ma, mb, same);
  g.nontrivial(expected && (!ma.coords.empty() || !ma.masks.empty()) && volume(expected->data.shape) > 1);
  g.label(expected ? "ok" : "throws");
  std::optional<DataArray> out;
  const auto error = error_of([&] { out.emplace(op.d(a, b)); });
  PBT_EQ("throws", !error.empty(), !expected, op.name, " ", error);
  if (expected) {
    expect_array("binary", read(*out), *expected, op.name);
    // Masks of the result are its own.
    for (const auto &[k, v] : out->masks())
      if (v.dtype() == dtype<bool> && !v.is_readonly()) {
        auto c = expected->masks.at(k).c;
        for (auto &x : c.val)
          x = 1 - x;
        write(v, c);
      }
  }
  expect_array("arguments", read(a), ma, op.name);
  expect_array("arguments", read(b), mb, op.name);
}

void binary_variable(Gen &g) {
  const auto &op = g.pick(binaries());
  const auto shape = gen_shape(g, 3, 3);
  auto ma = gen_first(g, shape);
  auto mv = gen_data(g, related_shape(g, shape, true));
  if (g.boolean(0.7)) {
    mv.unit = ma.data.unit;
    mv.has_var = false;
    mv.var.clear();
  }
  const auto a = make(g, ma);
  const auto v = make_view(g, mv);
  const bool left = g.boolean();
  g.note([&] { return cat(op.name, left ? " variable left" : "", "\na ", show(ma), "\nv ", show(mv)); });
  auto data = left ? run_op(op, make_plain(mv), make_plain(ma.data)) : run_op(op, make_plain(ma.data), make_plain(mv));
  g.nontrivial(data.has_value());
  std::optional<DataArray> out;
  const auto error = error_of([&] { out.emplace(left ? op.vd(v, a) : op.dv(a, v)); });
  PBT_EQ("throws", !error.empty(), !data, op.name, " ", error);
  if (data) {
    Array expected = ma;
    expected.name = "";
    expected.data = *data;
    expect_array("variable", read(*out), expected, op.name);
    for (const auto &[k, m] : out->masks())
      if (m.dtype() == dtype<bool> && !m.is_readonly()) {
        auto c = expected.masks.at(k).c;
        for (auto &x : c.val)
          x = 1 - x;
        write(m, c);
      }
  }
  expect_array("arguments", read(a), ma, op.name);
  PBT_CHECK("arguments", read(v) == mv, op.name);
}

bool superset(const Items &a, const Items &b) {
  for (const auto &[k, v] : b) {
    const auto it = a.find(k);
    if (it == a.end()) {
      if (v.aligned)
        return false;
    } else if (it->second.aligned && v.aligned && !equal_nan(it->second.c, v.c))
      return false;
  }
  return true;
}
/// Masks after an in-place operation, nothing if it is refused.
std::optional<Items> unite_in_place(const Items &a, const Items &b, const Shape &sizes) {
  Items out = a;
  for (const auto &[k, w] : b) {
    const auto it = out.find(k);
    if (it == out.end()) {
      if (!fits(w.c.shape, sizes))
        return {};
      out[k] = w;
      continue;
    }
    if (!plain_mask(it->second.c) || !plain_mask(w.c))
      return {};
    if (throws([&] { merge(dimensions(it->second.c.shape), dimensions(w.c.shape)); }))
      return {};
    auto c = unite(it->second.c, w.c);
    if (c.shape != it->second.c.shape)
      return {};
    it->second.c = c;
  }
  return out;
}
std::optional<Array> model(const Inplace &op, const Array &a, const Array &b) {
  auto v = make_plain(a.data);
  if (throws([&] { op.v(v, make_plain(b.data)); }) || !superset(a.coords, b.coords))
    return {};
  const auto masks = unite_in_place(a.masks, b.masks, a.data.shape);
  if (!masks)
    return {};
  auto out = a;
  out.data = read(v);
  out.masks = *masks;
  return out;
}
std::optional<Array> model(const Inplace &op, const Array &a, const Content &b) {
  auto v = make_plain(a.data);
  if (throws([&] { op.v(v, make_plain(b)); }))
    return {};
  auto out = a;
  out.data = read(v);
  return out;
}
/// An operand and its own data: fully correlated uncertainties.
std::optional<Array> model_same(const Inplace &op, const Array &a, const bool with_masks) {
  auto v = make_plain(a.data);
  if (throws([&] { op.v(v, v); }))
    return {};
  auto out = a;
  out.data = read(v);
  if (with_masks) {
    const auto masks = unite_in_place(a.masks, a.masks, a.data.shape);
    if (!masks)
      return {};
    out.masks = *masks;
  }
  return out;
}

void in_place(Gen &g) {
  const auto &op = g.pick(inplaces());
  const auto shape = gen_shape(g, 3, 3);
  auto ma = gen_first(g, shape);
  auto a = make(g, ma, false, false);
  // A view of all of the data, so that units can be set.
  if (g.boolean(0.7))
    a.setData(make_plain(ma.data));
  const bool whole = !throws([&] {
    auto d = a.data();
    d.setUnit(units::kg);
    d.setUnit(ma.data.unit);
  });
  if (g.boolean(0.3)) {
    auto mv = gen_data(g, related_shape(g, shape, g.boolean(0.1)));
    const auto v = make_view(g, mv);
    auto expected = model(op, ma, mv);
    if (expected && !whole && expected->data.unit != ma.data.unit)
      expected = {};
    g.note([&] { return cat(op.name, "\na ", show(ma), "\nv ", show(mv)); });
    g.nontrivial(expected.has_value());
    const auto error = error_of([&] { op.dv(a, v); });
    PBT_EQ("throws", !error.empty(), !expected, op.name, " ", error);
    expect_array(expected ? "in-place" : "changed before failure", read(a), expected ? *expected : ma, op.name);
    return;
  }
  const bool same = g.boolean(0.08);
  auto mb = same ? ma : gen_related(g, ma, related_shape(g, shape, g.boolean(0.1)));
  auto b = same ? a.view() : make(g, mb, true, false);
  auto expected = model(op, ma, mb);
  if (same) {
    expected = model_same(op, ma, true);
  }
  if (expected && !whole && expected->data.unit != ma.data.unit)
    expected = {};
  g.note([&] { return cat(op.name, same ? " same" : "", "\na ", show(ma), "\nb ", show(mb)); });
  g.label(expected ? "ok" : "throws");
  g.nontrivial(expected && !ma.coords.empty());
  const auto error = error_of([&] { op.d(a, b); });
  PBT_EQ("throws", !error.empty(), !expected, op.name, " ", error);
  expect_array(expected ? "in-place" : "changed before failure", read(a), expected ? *expected : ma, op.name);
  if (!same)
    expect_array("arguments", read(b), mb, op.name);
}

struct Unary {
  const char *name;
  std::function<Variable(const Variable &)> v;
  std::function<DataArray(const DataArray &)> d;
};
#define UN(NAME, EXPR)                                                                               \
  Unary { NAME, [](const Variable &a) { return EXPR; }, [](const DataArray &a) { return EXPR; } }
void unary(Gen &g) {
  static const std::vector<Unary> ops{UN("abs", abs(a)),     UN("neg", -a),           UN("sqrt", sqrt(a)),
                                      UN("isnan", isnan(a)), UN("floor", floor(a)),   UN("isfinite", isfinite(a)),
                                      UN("exp", exp(a)),     UN("sin", sin(a)),       UN("reciprocal", reciprocal(a)),
                                      UN("not", ~a),         UN("isneginf", isneginf(a)), UN("rint", rint(a)),
                                      UN("atan", atan(a)),   UN("norm", norm(a))};
  const auto &op = g.pick(ops);
  auto c = gen_data(g, gen_shape(g, 3, 3));
  c.unit = g.one_of<Unit>({units::one, units::m, units::rad, units::none});
  if (c.unit == units::none)
    c.type = dtype<bool>, c.has_var = false;
  gen_elements(g, c, true);
  auto ma = gen_array(g, c);
  const auto a = make(g, ma);
  g.note([&] { return cat(op.name, "\na ", show(ma)); });
  std::optional<Content> data;
  try {
    data = read(op.v(make_plain(ma.data)));
  } catch (const std::exception &) {
  }
  g.nontrivial(data.has_value());
  std::optional<DataArray> out;
  const auto error = error_of([&] { out.emplace(op.d(a)); });
  PBT_EQ("throws", !error.empty(), !data, op.name, " ", error);
  if (data) {
    auto expected = ma;
    expected.data = *data;
    expect_array("unary", read(*out), expected, op.name);
    for (const auto &[k, m] : out->masks())
      if (!m.is_readonly()) {
        auto w = expected.masks.at(k).c;
        for (auto &x : w.val)
          x = 1 - x;
        write(m, w);
      }
  }
  expect_array("arguments", read(a), ma, op.name);
}

// ---------------------------------------------------------------- datasets
struct Set {
  std::map<std::string, Array> items; // with coordinates
  Items coords;
  Dataset real;
};
/// Dataset with shared coordinates; items of related contents.
Set gen_set(Gen &g, const Shape &shape, const Items &coords, const std::vector<std::string> &names,
            const bool views) {
  Set s;
  s.coords = coords;
  scipp::core::Dict<std::string, DataArray> data;
  scipp::core::Dict<Dim, Variable> real_coords;
  for (auto &[k, v] : s.coords)
    real_coords.insert_or_assign(Dim(k), make_item(g, v, views));
  for (const auto &n : names) {
    auto a = gen_array(g, gen_data(g, g.boolean(0.8) ? shape : g.permutation(shape)), {.coords = 0});
    a.coords.clear();
    a.name = n;
    spoil_masks(g, a);
    data.insert_or_assign(n, make(g, a, false, views));
    a.coords = {};
    for (const auto &[k, v] : s.coords) {
      bool applies = true;
      for (const auto &[d, len] : v.c.shape)
        applies &= find(a.data.shape, d) >= 0;
      if (applies)
        a.coords[k] = v;
    }
    s.items[n] = a;
  }
  s.real = Dataset(data, real_coords);
  return s;
}
void expect_set(const std::string &sig, const Dataset &d, const std::map<std::string, Array> &items,
                const std::string &what) {
  PBT_EQ(sig + " items", size_t(d.size()), items.size(), what);
  for (const auto &[k, a] : items) {
    PBT_CHECK(sig + " items", d.contains(k), what, " ", k);
    auto x = a;
    x.name = k;
    expect_array(sig, read(d[k]), x, cat(what, " item ", k));
  }
}
Items set_coords(Gen &g, const Shape &shape) {
  return gen_array(g, gen_data(g, shape), {.edges = 0.2, .unaligned = 0.1, .extra_dim = false}).coords;
}
const std::vector<std::string> item_names{"a", "b", "c"};
std::vector<std::string> some_names(Gen &g) {
  std::vector<std::string> out;
  for (const auto &n : item_names)
    if (g.boolean(0.6))
      out.push_back(n);
  if (out.empty())
    out.push_back(g.pick(item_names));
  return out;
}
/// Can the arrays be items of one dataset?
bool make_set(const std::map<std::string, Array> &items) {
  Items coords;
  bool first = true;
  Shape shape;
  for (const auto &[k, a] : items) {
    if (first)
      shape = a.data.shape;
    first = false;
    if (Dimensions(dimensions(a.data.shape)).volume() < 0)
      return false;
    for (const auto &[d, n] : shape)
      if (find(a.data.shape, d) < 0 || length_of(a.data.shape, d) != n)
        return false;
    if (shape.size() != a.data.shape.size())
      return false;
  }
  return true;
}

void dataset_binary(Gen &g) {
  const std::vector<Binary> &all = binaries();
  const auto which = g.draw(3);
  const auto &op = all[which];
  const auto shape = gen_shape(g, 2, 3);
  const auto coords = set_coords(g, shape);
  auto a = gen_set(g, shape, coords, some_names(g), false);
  const auto kind = g.draw(3);
  std::map<std::string, Array> expected;
  bool ok = true;
  std::optional<Dataset> out;
  std::string error;
  const auto apply = [&](auto &&x, auto &&y) {
    error = error_of([&] {
      out.emplace(which == 0 ? x + y : which == 1 ? x - y : which == 2 ? x * y : x / y);
    });
  };
  const auto own = [](Array x, const std::string &n) {
    x.name = n;
    return x;
  };
  if (kind == 0) {
    auto other = coords;
    if (g.boolean(0.3) && !other.empty()) {
      auto it = other.begin();
      std::advance(it, long(g.draw(other.size() - 1)));
      if (g.boolean() || it->second.c.val.empty())
        other.erase(it);
      else
        g.pick(it->second.c.val) += 1;
    }
    auto b = gen_set(g, shape, other, some_names(g), false);
    for (const auto &[k, x] : a.items)
      if (b.items.count(k)) {
        const auto m = model(op, x, b.items.at(k));
        ok = ok && m;
        if (ok)
          expected[k] = own(*m, k);
      }
    g.note([&] { return cat("dataset ", op.name, " dataset"); });
    apply(a.real, b.real);
    expect_set("arguments", b.real, b.items, op.name);
  } else if (kind == 1) {
    auto mb = gen_related(g, a.items.begin()->second, related_shape(g, shape, true), false);
    const auto b = make(g, mb, true, false);
    const bool left = g.boolean();
    for (const auto &[k, x] : a.items) {
      const auto m = left ? model(op, mb, x) : model(op, x, mb);
      ok = ok && m;
      if (ok)
        expected[k] = own(*m, k);
    }
    g.note([&] { return cat("dataset ", op.name, " array ", left ? "left " : "", show(mb)); });
    if (left)
      apply(b, a.real);
    else
      apply(a.real, b);
    expect_array("arguments", read(b), mb, op.name);
  } else {
    auto mv = gen_data(g, related_shape(g, shape, true));
    const auto v = make_view(g, mv);
    const bool left = g.boolean();
    for (const auto &[k, x] : a.items) {
      auto data = left ? run_op(op, make_plain(mv), make_plain(x.data)) : run_op(op, make_plain(x.data), make_plain(mv));
      ok = ok && data;
      if (ok) {
        expected[k] = own(x, k);
        expected[k].data = *data;
      }
    }
    g.note([&] { return cat("dataset ", op.name, " variable ", left ? "left " : "", show(mv)); });
    if (left)
      apply(v, a.real);
    else
      apply(a.real, v);
  }
  g.note([&] {
    std::string s;
    for (const auto &[k, x] : a.items)
      s += cat("\nitem ", k, " ", show(x));
    return s;
  });
  // Results are items of one dataset, so share coordinates.
  for (const auto &[k, x] : expected)
    for (const auto &[l, y] : expected)
      for (const auto &[c, m] : x.coords)
        if (y.coords.count(c) && !(y.coords.at(c) == m))
          throw Discard{};
  ok = ok && make_set(expected);
  g.nontrivial(ok && expected.size() > 1);
  PBT_EQ("dataset throws", !error.empty(), !ok, op.name, " ", error);
  if (ok) {
    Items all_coords;
    for (const auto &[k, x] : expected)
      for (const auto &[c, m] : x.coords)
        all_coords[c] = m;
    for (auto &[k, x] : expected)
      for (const auto &[c, m] : all_coords) {
        bool applies = true;
        for (const auto &[d, len] : m.c.shape)
          applies &= find(x.data.shape, d) >= 0;
        if (applies)
          x.coords[c] = m;
      }
    expect_set("dataset", *out, expected, op.name);
  }
  expect_set("arguments", a.real, a.items, op.name);
}

void dataset_in_place(Gen &g) {
  const auto &op = g.pick(inplaces());
  const auto shape = gen_shape(g, 2, 3);
  const auto coords = set_coords(g, shape);
  auto a = gen_set(g, shape, coords, some_names(g), false);
  for (auto &[k, x] : a.items)
    if (g.boolean(0.8))
      a.real[k].setData(make_plain(x.data));
  const auto fixed_unit = [&](const std::string &k) {
    auto d = a.real[k].data();
    const auto u = d.unit();
    return throws([&] {
      d.setUnit(units::kg);
      d.setUnit(u);
    });
  };
  auto expected = a.items;
  bool ok = true;
  std::string error;
  const auto merge_in = [&](const std::string &k, const std::optional<Array> &m) {
    ok = ok && m && !(m->data.unit != a.items[k].data.unit && fixed_unit(k));
    if (ok)
      expected[k] = *m;
  };
  const auto kind = g.draw(3);
  if (kind == 0) {
    auto b = gen_set(g, shape, coords, some_names(g), false);
    if (g.boolean(0.5))
      for (auto &n : item_names)
        if (!a.items.count(n) && b.items.count(n)) {
          b.items.erase(n);
          b.real.erase(n);
        }
    for (const auto &[k, y] : b.items) {
      if (!a.items.count(k))
        ok = false;
      else
        merge_in(k, model(op, a.items[k], y));
    }
    g.note([&] {
      std::string s = cat("dataset ", op.name, " dataset");
      for (const auto &[k, x] : b.items)
        s += cat("\nb item ", k, " ", show(x));
      return s;
    });
    error = error_of([&] { op.s(a.real, b.real); });
    expect_set("arguments", b.real, b.items, op.name);
  } else if (kind == 1) {
    auto mb = gen_related(g, a.items.begin()->second, related_shape(g, shape, g.boolean(0.1)), false);
    const auto b = make(g, mb, true, false);
    for (const auto &[k, x] : a.items)
      merge_in(k, model(op, x, mb));
    g.note([&] { return cat("dataset ", op.name, " array ", show(mb)); });
    error = error_of([&] { op.sd(a.real, b); });
    expect_array("arguments", read(b), mb, op.name);
  } else if (kind == 2) {
    // One of the items: counts with its values from before.
    auto it = a.items.begin();
    std::advance(it, long(g.draw(a.items.size() - 1)));
    const auto name = it->first;
    const auto mb = it->second;
    for (const auto &[k, x] : a.items)
      merge_in(k, k == name ? model_same(op, x, true) : model(op, x, mb));
    g.note([&] { return cat("dataset ", op.name, " own item ", name); });
    if (g.boolean())
      error = error_of([&] { op.sd(a.real, a.real[name]); });
    else {
      expected = a.items;
      ok = true;
      for (const auto &[k, x] : a.items)
        merge_in(k, k == name ? model_same(op, x, false) : model(op, x, mb.data));
      error = error_of([&] { op.sv(a.real, a.real[name].data()); });
    }
  } else {
    auto mv = gen_data(g, related_shape(g, shape, g.boolean(0.1)));
    const auto v = make_view(g, mv);
    for (const auto &[k, x] : a.items)
      merge_in(k, model(op, x, mv));
    g.note([&] { return cat("dataset ", op.name, " variable ", show(mv)); });
    error = error_of([&] { op.sv(a.real, v); });
  }
  g.note([&] {
    std::string s;
    for (const auto &[k, x] : a.items)
      s += cat("\nitem ", k, " ", show(x));
    return s;
  });
  g.nontrivial(ok && expected.size() > 1);
  PBT_EQ("dataset throws", !error.empty(), !ok, op.name, " ", error);
  expect_set(ok ? "dataset in-place" : "changed before failure", a.real, ok ? expected : a.items, op.name);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C41";
  p.rule = "Data arrays and datasets with random coordinates, masks and attributes (shared, changed, "
           "missing or extra in the second operand); non-trivial: the operation succeeds on more than "
           "one element with metadata.";
  p.laws = {{"binary", 120000, 3000000, binary},
            {"binary_variable", 40000, 500000, binary_variable},
            {"in_place", 120000, 3000000, in_place},
            {"unary", 40000, 500000, unary},
            {"dataset_binary", 80000, 1500000, dataset_binary},
            {"dataset_in_place", 80000, 1500000, dataset_in_place}};
  return run(argc, argv, p);
}
