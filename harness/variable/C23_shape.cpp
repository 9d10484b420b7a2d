// C23: operations on the shape keep every element and put it where defined.
// sanitize: -D_GLIBCXX_ASSERTIONS
#define VERIF_ALL_TYPES
#include "gen_var.h"

#include "scipp/variable/creation.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/special_values.h"
#include "scipp/variable/util.h"

using namespace gv;
namespace sv = scipp::variable;

namespace {
const std::vector<DType> all_types{dtype<double>,
                                   dtype<float>,
                                   dtype<int64_t>,
                                   dtype<int32_t>,
                                   dtype<bool>,
                                   dtype<time_point>,
                                   dtype<std::string>,
                                   dtype<Eigen::Vector3d>,
                                   dtype<Eigen::Matrix3d>,
                                   dtype<Eigen::Affine3d>,
                                   dtype<scipp::core::Quaternion>,
                                   dtype<scipp::core::Translation>,
                                   dtype<scipp::index_pair>};
bool may_have_var(const DType t) { return t == dtype<double> || t == dtype<float>; }

Content gen_content(Gen &g, const Shape &shape) {
  Content c;
  c.shape = shape;
  c.type = g.boolean(0.5) ? dtype<double> : g.pick(all_types);
  c.has_var = may_have_var(c.type) && g.boolean(0.3);
  c.unit = c.type == dtype<time_point>                                  ? units::ns
           : c.type == dtype<bool> || c.type == dtype<std::string> ||
                   c.type == dtype<scipp::index_pair>
               ? units::none
               : g.one_of<Unit>({units::one, units::m});
  // Distinct elements tell places apart.
  for (idx i = 0; i < volume(shape); ++i) {
    c.val.push_back(c.type == dtype<bool> ? static_cast<double>(g.boolean())
                                          : static_cast<double>(i + 1));
    if (c.has_var)
      c.var.push_back(static_cast<double>(i + 500));
  }
  return c;
}
template <class F> Variable attempt(F &&f, std::string &error) {
  try {
    return f();
  } catch (const std::exception &e) {
    error = e.what();
  }
  return {};
}
void expect(const char *sig, const Variable &result, const Content &expected,
            const std::string &what) {
  const auto r = read(result);
  PBT_CHECK(sig, r == expected, what, " -> ", show(r), " expected ", show(expected));
}
/// Contents of shape `shape`: element at index i is element from(i) of c.
template <class F> Content rearranged(const Content &c, const Shape &shape, F &&from) {
  Content r = c;
  r.shape = shape;
  r.val.clear();
  r.var.clear();
  for_each(shape, [&](const std::vector<idx> &at) {
    const auto p = static_cast<size_t>(position(c.shape, c.shape, from(at)));
    r.val.push_back(c.val[p]);
    if (c.has_var)
      r.var.push_back(c.var[p]);
  });
  return r;
}

void flatten(Gen &g) {
  auto c = gen_content(g, gen_shape(g, 4, 3));
  const auto v = make_view(g, c);
  c = read(v);
  const auto n = c.shape.size();
  const auto b = g.draw(n), e = b + g.draw(n - b);
  std::vector<Dim> labels;
  for (auto i = b; i < e; ++i)
    labels.push_back(c.shape[i].first);
  bool bad = false;
  if (g.boolean(0.1) && labels.size() > 1) {
    const auto p = g.permutation(labels);
    bad |= p != labels;
    labels = p;
  }
  if (g.boolean(0.05)) {
    labels.push_back(Dim("absent"));
    bad = true;
  }
  Dim to = Dim("flat");
  if (n > 0 && g.boolean(0.25))
    to = c.shape[g.draw(n - 1)].first;
  const auto what = [&] {
    std::string s;
    for (const auto &l : labels)
      s += l.name() + " ";
    return cat("flatten ", show(c), " ", layout(v), " dims ", s, "to ", to.name());
  };
  g.note(what);
  Shape shape;
  for (size_t i = 0; i < n; ++i)
    if (i < b || i >= e || bad)
      shape.push_back(c.shape[i]);
  idx size = 1;
  for (auto i = b; i < e; ++i)
    size *= c.shape[i].second;
  bad |= find(shape, to) >= 0;
  if (labels.empty())
    shape.emplace_back(to, 1);
  else if (!bad)
    shape.insert(shape.begin() + static_cast<long>(b), {to, size});
  std::string error;
  const auto r = attempt([&] { return sv::flatten(v, labels, to); }, error);
  PBT_EQ("flatten-error", !r.is_valid(), bad, what(), " ", error);
  expect("flatten-argument", v, c, what());
  if (bad)
    return;
  g.nontrivial(labels.size() > 1 && volume(shape) > 1);
  auto expected = c; // elements keep their order
  expected.shape = shape;
  expect("flatten", r, expected, what());
  PBT_CHECK("flatten-readonly", !v.is_readonly() || r.is_readonly() || !r.is_same(v), what());
  // And back.
  if (!labels.empty()) {
    Dimensions target;
    for (auto i = b; i < e; ++i)
      target.addInner(c.shape[i].first, c.shape[i].second);
    if (to == Dim("flat"))
      expect("flatten-fold", sv::fold(r, to, target), c, what());
  }
}

void fold(Gen &g) {
  auto c = gen_content(g, gen_shape(g, 3, 12));
  if (c.shape.empty())
    throw Discard{};
  const auto v = make_view(g, c);
  c = read(v);
  const auto k = g.draw(c.shape.size() - 1);
  const auto [dim, n] = c.shape[k];
  // Factors
  std::vector<idx> f;
  auto rest = n;
  for (int i = 0; i < 2 && rest > 1; ++i)
    if (g.boolean(0.8)) {
      std::vector<idx> d;
      for (idx j = 1; j <= rest; ++j)
        if (rest % j == 0)
          d.push_back(j);
      f.push_back(g.pick(d));
      rest /= f.back();
    }
  f.push_back(rest);
  bool bad = false;
  if (g.boolean(0.1)) {
    f[g.draw(f.size() - 1)] += 1;
    idx p = 1;
    for (const auto x : f)
      p *= x;
    // The volume decides, also if it is zero because of other dimensions.
    bad = p * (n == 0 ? volume(c.shape) : volume(c.shape) / n) != volume(c.shape);
    if (volume(c.shape) == 0 && p != n)
      throw Discard{};
  }
  Shape shape = c.shape;
  Dimensions target;
  shape.erase(shape.begin() + static_cast<long>(k));
  const bool reuse = g.boolean(0.2);
  for (size_t i = 0; i < f.size(); ++i) {
    const auto d = i == 0 && reuse ? dim : Dim("f" + std::to_string(i));
    shape.insert(shape.begin() + static_cast<long>(k + i), {d, f[i]});
    target.addInner(d, f[i]);
  }
  if (shape.size() > 6)
    throw Discard{};
  const auto what = [&] {
    return cat("fold ", show(c), " ", layout(v), " dim ", dim.name(), " to ", show(shape));
  };
  g.note(what);
  std::string error;
  const auto r = attempt([&] { return sv::fold(v, dim, target); }, error);
  PBT_EQ("fold-error", !r.is_valid(), bad, what(), " ", error);
  if (bad)
    return;
  g.nontrivial(f.size() > 1 && volume(shape) > 1);
  auto expected = c;
  expected.shape = shape;
  expect("fold", r, expected, what());
}

void concat(Gen &g) {
  // Pieces of one array.
  auto c = gen_content(g, gen_shape(g, 3, 6));
  if (c.shape.empty())
    throw Discard{};
  const auto k = g.draw(c.shape.size() - 1);
  const auto [dim, n] = c.shape[k];
  std::vector<Variable> parts;
  std::string text;
  std::optional<Shape> first; // order of dimensions comes from here
  Shape first_of_all;
  idx at = 0;
  bool bad = false;
  do {
    const bool point = at < n && g.boolean(0.25);
    const auto len = point ? 1 : g.integer(0, n - at);
    auto shape = c.shape;
    shape[k].second = len;
    auto p = rearranged(c, shape, [&, a = at](std::vector<idx> i) {
      i[k] += a;
      return i;
    });
    if (point)
      p.shape.erase(p.shape.begin() + static_cast<long>(k));
    if (g.boolean(0.25)) {
      auto order = g.permutation(p.shape);
      p = rearranged(p, order, [&](const std::vector<idx> &i) {
        auto o = i;
        for (size_t j = 0; j < order.size(); ++j)
          o[static_cast<size_t>(find(p.shape, order[j].first))] = i[j];
        return o;
      });
    }
    // Pieces that do not belong.
    if (at > 0 && volume(p.shape) > 0 && g.boolean(0.04)) {
      switch (g.draw(3)) {
      case 0:
        p.unit = units::rad;
        break;
      case 1:
        p.type = p.type == dtype<double> ? dtype<int64_t> : dtype<double>;
        p.has_var = false;
        p.var.clear();
        break;
      case 2:
        if (!may_have_var(p.type))
          throw Discard{};
        p.has_var = !p.has_var;
        p.var.assign(p.has_var ? p.val.size() : 0, 1);
        break;
      default: {
        size_t j = 0;
        while (j < p.shape.size() && p.shape[j].first == dim)
          ++j;
        if (j == p.shape.size())
          throw Discard{};
        p.shape[j].second += 1;
        p.val.assign(static_cast<size_t>(volume(p.shape)), 1);
        p.var.assign(p.has_var ? p.val.size() : 0, 1);
      }
      }
      bad = true;
    }
    if (parts.empty())
      first_of_all = p.shape;
    if (!point && !first)
      first = p.shape;
    const auto v = make_view(g, p, {.broadcast = false});
    text += cat("\n  ", show(p), " ", layout(v));
    parts.push_back(v);
    at += len;
    if (parts.size() > 6) {
      // The rest
      throw Discard{};
    }
  } while (at < n || (at == n && g.boolean(0.1)));
  const auto what = [&] { return cat("concat along ", dim.name(), text); };
  g.note(what);
  Shape shape = first ? *first : first_of_all;
  if (first)
    shape[static_cast<size_t>(find(shape, dim))].second = n;
  else
    shape.insert(shape.begin(), {dim, n});
  std::string error;
  const auto r = attempt([&] { return sv::concat(parts, dim); }, error);
  PBT_EQ("concat-error", !r.is_valid(), bad, what(), " ", error);
  if (bad)
    return;
  g.nontrivial(parts.size() > 1 && volume(shape) > 1);
  const auto expected = rearranged(c, shape, [&](const std::vector<idx> &i) {
    auto o = i;
    for (size_t j = 0; j < shape.size(); ++j)
      o[static_cast<size_t>(find(c.shape, shape[j].first))] = i[j];
    return o;
  });
  expect("concat", r, expected, what());
  for (const auto &p : parts)
    PBT_CHECK("concat-shares", volume(shape) == 0 || p.data_handle() != r.data_handle(), what());
}

void reorder(Gen &g) {
  auto c = gen_content(g, gen_shape(g, 4, 3));
  const auto v = make_view(g, c);
  c = read(v);
  switch (g.draw(3)) {
  case 0: { // transpose
    auto order = g.permutation(c.shape);
    std::vector<Dim> labels;
    for (const auto &x : order)
      labels.push_back(x.first);
    bool bad = false;
    if (g.boolean(0.15)) {
      if (g.boolean() && !labels.empty()) {
        labels.pop_back();
        bad = !labels.empty(); // none means all, reversed
        if (!bad)
          throw Discard{};
      } else {
        labels.push_back(g.boolean() && !labels.empty() ? labels[0] : Dim("absent"));
        bad = true;
      }
    } else if (g.boolean(0.2)) {
      labels.clear();
      order = Shape(c.shape.rbegin(), c.shape.rend());
    }
    const auto what = [&] {
      return cat("transpose ", show(c), " ", layout(v), " to ", bad ? "bad" : show(order));
    };
    g.note(what);
    std::string error;
    const auto r = attempt([&] { return sv::transpose(v, labels); }, error);
    PBT_EQ("transpose-error", !r.is_valid(), bad, what(), " ", error);
    if (bad)
      return;
    g.nontrivial(order != c.shape);
    expect("transpose", r, rearranged(c, order, [&](const std::vector<idx> &i) {
             auto o = i;
             for (size_t j = 0; j < order.size(); ++j)
               o[static_cast<size_t>(find(c.shape, order[j].first))] = i[j];
             return o;
           }),
           what());
    // Contiguous along any dimension
    if (!order.empty()) {
      const auto d = order[g.draw(order.size() - 1)].first;
      const auto con = sv::as_contiguous(r, d);
      PBT_CHECK("as-contiguous", con.stride(d) == 1, what());
      auto back = read(con.transpose(r.dims().labels()));
      PBT_CHECK("as-contiguous-elements", back == read(r), what(), " ", d.name(), show(back));
    }
    return;
  }
  case 1: { // squeeze
    std::vector<Dim> dims;
    bool bad = false;
    Shape rest;
    const bool all = g.boolean(0.5);
    for (auto &x : c.shape)
      if (all ? x.second == 1 : g.boolean(x.second == 1 ? 0.6 : 0.05)) {
        dims.push_back(x.first);
        bad |= x.second != 1;
      } else
        rest.push_back(x);
    const auto what = [&] { return cat("squeeze ", show(c), " to ", show(rest)); };
    g.note(what);
    std::string error;
    const auto r = attempt(
        [&] {
          return sv::squeeze(v, all ? std::nullopt
                                    : std::optional<scipp::span<const Dim>>(
                                          scipp::span<const Dim>(dims.data(), dims.size())));
        },
        error);
    PBT_EQ("squeeze-error", !r.is_valid(), bad, what(), " ", error);
    if (bad)
      return;
    g.nontrivial(!dims.empty());
    auto e = c;
    e.shape = rest;
    expect("squeeze", r, e, what());
    return;
  }
  case 2: { // broadcast
    auto shape = c.shape;
    const auto extra = g.integer(1, 2);
    for (int i = 0; i < extra && shape.size() < 5; ++i)
      shape.insert(shape.begin() + static_cast<long>(g.draw(shape.size())),
                   {Dim("n" + std::to_string(i)), g.length(0, 3)});
    if (g.boolean(0.3))
      shape = g.permutation(shape);
    bool bad = false;
    if (!c.shape.empty() && g.boolean(0.1)) {
      shape[static_cast<size_t>(find(shape, c.shape[0].first))].second += 1;
      bad = true;
    }
    const auto what = [&] {
      return cat("broadcast ", show(c), " ", layout(v), " to ", show(shape));
    };
    g.note(what);
    std::string error;
    const auto r = attempt([&] { return sv::broadcast(v, dimensions(shape)); }, error);
    PBT_EQ("broadcast-error", !r.is_valid(), bad, what(), " ", error);
    if (bad)
      return;
    g.nontrivial(volume(c.shape) > 1);
    expect("broadcast", r, rearranged(c, shape, [&](const std::vector<idx> &i) {
             std::vector<idx> o;
             for (const auto &x : c.shape)
               o.push_back(i[static_cast<size_t>(find(shape, x.first))]);
             return o;
           }),
           what());
    expect("broadcast-copy", copy(r), read(r), what());
    return;
  }
  default: { // resize, special_like
    if (c.type != dtype<double> && c.type != dtype<float> && c.type != dtype<int64_t> &&
        c.type != dtype<int32_t>)
      throw Discard{};
    const auto fill = g.draw(4);
    const auto f = fill == 0   ? scipp::FillValue::Default
                   : fill == 1 ? scipp::FillValue::ZeroNotBool
                   : fill == 2 ? scipp::FillValue::True
                   : fill == 3 ? scipp::FillValue::Max
                               : scipp::FillValue::Lowest;
    const auto limit = [&](const bool max) {
      return with_type(c.type, [&](auto t) {
        using T = typename decltype(t)::type;
        if constexpr (std::is_arithmetic_v<T>)
          return static_cast<double>(max ? std::numeric_limits<T>::max()
                                         : std::numeric_limits<T>::lowest());
        else
          return 0.0;
      });
    };
    auto e = c;
    Variable r;
    std::string what;
    if (!c.shape.empty() && g.boolean()) {
      const auto k = g.draw(c.shape.size() - 1);
      e.shape[k].second = g.integer(0, 5);
      what = cat("resize ", show(c), " to ", show(e.shape), " fill ", fill);
      g.note([&] { return what; });
      r = sv::resize(v, e.shape[k].first, e.shape[k].second, f);
    } else {
      what = cat("special_like ", show(c), " ", layout(v), " fill ", fill);
      g.note([&] { return what; });
      r = sv::special_like(v, f);
    }
    g.nontrivial(volume(e.shape) > 1);
    const auto got = read(r);
    if (fill == 2)
      e.type = dtype<bool>;
    const double x = fill == 2 ? 1 : fill == 3 ? limit(true) : fill == 4 ? limit(false) : 0;
    PBT_CHECK("fill-shape", got.shape == e.shape && got.type == e.type, what, " -> ", show(got));
    if (fill < 2)
      PBT_CHECK("fill-unit", got.unit == c.unit && got.has_var == c.has_var, what, " -> ",
                show(got));
    for (const auto y : got.val)
      PBT_CHECK("fill-value", y == x, what, " -> ", show(got));
    for (const auto y : got.var)
      PBT_CHECK("fill-variance", y == 0, what, " -> ", show(got));
  }
  }
}

/// Components of vectors and matrices are views of them.
void components(Gen &g) {
  Content c;
  c.shape = gen_shape(g, 3, 3);
  c.type = g.boolean() ? dtype<Eigen::Vector3d> : dtype<Eigen::Matrix3d>;
  c.unit = g.one_of<Unit>({units::one, units::m});
  for (idx i = 0; i < volume(c.shape); ++i)
    c.val.push_back(static_cast<double>(i + 1));
  Variable base;
  auto v = make_view(g, c, {.broadcast = false}, &base);
  const auto base_before = read(base);
  const bool vec = c.type == dtype<Eigen::Vector3d>;
  const auto k = static_cast<int>(g.draw(vec ? 2 : 8));
  const char *xyz[] = {"x", "y", "z"};
  const auto key = vec ? std::string(xyz[k]) : std::string(xyz[k / 3]) + xyz[k % 3];
  const auto what = [&] { return cat(key, " of ", show(c), " ", layout(v)); };
  g.note(what);
  auto e = vec ? v.elements<Eigen::Vector3d>(key) : v.elements<Eigen::Matrix3d>(key);
  const auto r = read(e);
  g.nontrivial(volume(c.shape) > 1);
  PBT_CHECK("component-shape", r.shape == c.shape && r.unit == c.unit &&
                                   r.type == dtype<double> && !r.has_var,
            what(), show(r));
  for (size_t i = 0; i < r.val.size(); ++i)
    PBT_CHECK("component", r.val[i] == c.val[i] + 100 * k, what(), show(r));
  // Write through
  if (r.val.empty())
    return;
  const auto at = g.draw(r.val.size() - 1);
  e.values<double>()[static_cast<idx>(at)] = 7777;
  size_t i = 0;
  const auto check = [&](const auto &x) {
    for (int a = 0; a < (vec ? 3 : 9); ++a) {
      const double y = vec ? x(a % 3, 0) : x(a / 3, a % 3);
      PBT_CHECK("component-write",
                y == (i == at && a == k ? 7777 : c.val[i] + 100 * a), what(), " element ", i, " ",
                a);
    }
    ++i;
  };
  if (vec)
    for (const auto &x : std::as_const(v).values<Eigen::Vector3d>())
      check(x);
  else
    for (const auto &x : std::as_const(v).values<Eigen::Matrix3d>()) {
      Eigen::Matrix3d m = x;
      check(m);
    }
  const auto now = read(base);
  size_t changed = 0;
  for (size_t j = 0; j < now.val.size(); ++j)
    changed += now.val[j] != base_before.val[j];
  PBT_CHECK("component-write-elsewhere", changed == 1, what());
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C23";
  p.rule = "variables of all element types, up to 4 dimensions, in random memory layouts, "
           "with distinct elements; contiguous and other sets of dimensions, all "
           "factorizations, pieces in any order of dimensions, with missing dimensions or "
           "in conflict; compared with index arithmetic. Non-trivial: more than one element "
           "and dimension or piece takes part.";
  p.laws = {{"flatten", 300000, 5000000, flatten},
            {"fold", 300000, 5000000, fold},
            {"concat", 300000, 5000000, concat},
            {"reorder", 500000, 8000000, reorder},
            {"components", 100000, 1500000, components}};
  return run(argc, argv, p);
}
