// C22: which variables share data, who may write, and what a copy is.
// sanitize: -D_GLIBCXX_ASSERTIONS
#include "gen_var.h"

#include <memory>

#include "scipp/variable/arithmetic.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/util.h"

using namespace gv;
namespace sv = scipp::variable;

namespace {
/// The data that variables share.
struct Buffer {
  std::vector<double> val, var;
  bool has_var = false;
  Unit unit = units::one;
};
/// A variable and what it should be.
struct Handle {
  Variable v;
  std::shared_ptr<Buffer> buffer;
  Shape shape;
  std::vector<idx> at; // elements in row-major order
  bool readonly = false;
  bool aligned = true;
  int id = 0;
};
bool partial(const Handle &h) {
  if (h.buffer->val.empty()) // no data: any view may count as the whole
    return h.v.is_slice();
  return std::set<idx>(h.at.begin(), h.at.end()).size() != h.buffer->val.size();
}

struct World {
  Gen &g;
  DType type;
  std::vector<Handle> handles;
  std::string log;
  int next_id = 0;
  int next_dim = 0;

  explicit World(Gen &g_) : g(g_), type(dtype<double>) {}

  bool can_have_var() const { return type != dtype<int64_t>; }
  Handle &any() { return handles[g.draw(handles.size() - 1)]; }
  void say(const std::string &s) {
    log += s + "\n";
    g.note([&] { return s; });
  }
  std::string name(const Handle &h) const { return "v" + std::to_string(h.id); }
  void add(Handle h) {
    h.id = next_id++;
    if (handles.size() < 7)
      handles.push_back(std::move(h));
    else
      handles[g.draw(handles.size() - 1)] = std::move(h);
  }
  Content content(const Handle &h) const {
    Content c;
    c.shape = h.shape;
    c.unit = h.buffer->unit;
    c.type = type;
    c.has_var = h.buffer->has_var;
    for (const auto i : h.at) {
      c.val.push_back(h.buffer->val[static_cast<size_t>(i)]);
      if (c.has_var)
        c.var.push_back(h.buffer->var[static_cast<size_t>(i)]);
    }
    return c;
  }
  void check(const std::string &op) {
    for (const auto &h : handles) {
      const auto e = content(h);
      const auto r = read(std::as_const(h.v));
      PBT_CHECK("content", r == e, "after ", op, ": ", name(h), " is ", show(r), " but expected ",
                show(e), "\n", log);
      PBT_CHECK("readonly-flag", h.v.is_readonly() == h.readonly, "after ", op, ": ", name(h),
                "\n", log);
      PBT_CHECK("aligned-flag", h.v.is_aligned() == h.aligned, "after ", op, ": ", name(h), "\n",
                log);
      if (!h.readonly && !h.buffer->val.empty())
        PBT_CHECK("is-slice", h.v.is_slice() == partial(h), "after ", op, ": ", name(h), "\n",
                  log);
    }
  }
  void create() {
    Content c;
    c.shape = gen_shape(g, 3, 4, 0.0);
    c.type = type;
    c.unit = g.one_of<Unit>({units::one, units::m});
    c.has_var = can_have_var() && g.boolean(0.35);
    gen_elements(g, c);
    Handle h;
    h.v = make_plain(c);
    h.buffer = std::make_shared<Buffer>(Buffer{c.val, c.var, c.has_var, c.unit});
    h.shape = c.shape;
    for (idx i = 0; i < volume(c.shape); ++i)
      h.at.push_back(i);
    say(cat("v", next_id, " = ", show(c)));
    add(h);
  }
  /// New view of h: element `from(index)` of h for every index of `shape`.
  template <class F> Handle view(const Handle &h, const Shape &shape, F &&from) {
    Handle r = h;
    r.shape = shape;
    r.at.clear();
    for_each(shape, [&](const std::vector<idx> &i) {
      r.at.push_back(h.at[static_cast<size_t>(position(h.shape, h.shape, from(i)))]);
    });
    return r;
  }
  void slice() {
    const auto h = any();
    if (h.shape.empty())
      return;
    const auto k = g.draw(h.shape.size() - 1);
    const auto [dim, n] = h.shape[k];
    Handle r;
    auto shape = h.shape;
    if (n > 0 && g.boolean(0.4)) {
      const auto i = g.integer(0, n - 1);
      shape.erase(shape.begin() + static_cast<long>(k));
      r = view(h, shape, [&](std::vector<idx> at) {
        at.insert(at.begin() + static_cast<long>(k), i);
        return at;
      });
      r.v = h.v.slice({dim, i});
      say(cat("v", next_id, " = ", name(h), "[", dim.name(), ",", i, "]"));
    } else {
      const auto b = g.integer(0, n), e = g.integer(b, n);
      const auto step = g.boolean(0.3) ? g.integer(2, 3) : 1;
      shape[k].second = (e - b + step - 1) / step;
      r = view(h, shape, [&](std::vector<idx> at) {
        at[k] = b + at[k] * step;
        return at;
      });
      r.v = h.v.slice({dim, b, e, step});
      say(cat("v", next_id, " = ", name(h), "[", dim.name(), ",", b, ":", e, ":", step, "]"));
    }
    add(r);
  }
  void transpose() {
    const auto h = any();
    const auto shape = g.permutation(h.shape);
    auto r = view(h, shape, [&](const std::vector<idx> &at) {
      auto out = at;
      for (size_t i = 0; i < shape.size(); ++i)
        out[static_cast<size_t>(find(h.shape, shape[i].first))] = at[i];
      return out;
    });
    std::vector<Dim> labels;
    for (const auto &x : shape)
      labels.push_back(x.first);
    r.v = h.v.transpose(labels);
    say(cat("v", next_id, " = transpose of ", name(h), " to ", show(shape)));
    add(r);
  }
  void rename() {
    auto h = any();
    if (h.shape.empty())
      return;
    const auto k = g.draw(h.shape.size() - 1);
    const auto to = Dim("d" + std::to_string(next_dim++ % 5));
    if (find(h.shape, to) >= 0)
      return;
    const auto from = h.shape[k].first;
    h.shape[k].first = to;
    h.v = h.v.rename_dims({{from, to}});
    say(cat("v", next_id, " = ", name(h), " with ", from.name(), " renamed to ", to.name()));
    add(h);
  }
  void broadcast() {
    const auto h = any();
    const Dim d("n" + std::to_string(next_dim++ % 5));
    if (find(h.shape, d) >= 0)
      return;
    const auto n = g.integer(1, 3);
    auto shape = h.shape;
    const auto k = g.draw(shape.size());
    shape.insert(shape.begin() + static_cast<long>(k), {d, n});
    if (volume(shape) > 64 || shape.size() > 5)
      return;
    auto r = view(h, shape, [&](std::vector<idx> at) {
      at.erase(at.begin() + static_cast<long>(k));
      return at;
    });
    r.v = h.v.broadcast(dimensions(shape));
    // Elements that are in several places cannot be written.
    r.readonly = h.readonly || (n != 1 && volume(h.shape) != 0);
    say(cat("v", next_id, " = broadcast of ", name(h), " to ", show(shape)));
    add(r);
  }
  void fold() {
    const auto h = any();
    if (h.shape.empty() || h.shape.size() > 4)
      return;
    const auto k = g.draw(h.shape.size() - 1);
    const auto [dim, n] = h.shape[k];
    if (n < 2)
      return;
    idx a = 1;
    for (idx i = 2; i <= n; ++i)
      if (n % i == 0 && g.boolean()) {
        a = i;
        break;
      }
    const Dim d0("f" + std::to_string(next_dim++ % 6)), d1("f" + std::to_string(next_dim++ % 6));
    if (find(h.shape, d0) >= 0 || find(h.shape, d1) >= 0)
      return;
    auto shape = h.shape;
    shape[k] = {d0, a};
    shape.insert(shape.begin() + static_cast<long>(k) + 1, {d1, n / a});
    auto r = view(h, shape, [&](std::vector<idx> at) {
      at[k] = at[k] * (n / a) + at[k + 1];
      at.erase(at.begin() + static_cast<long>(k) + 1);
      return at;
    });
    Dimensions target;
    target.addInner(d0, a);
    target.addInner(d1, n / a);
    r.v = h.v.fold(dim, target);
    say(cat("v", next_id, " = fold of ", name(h), " ", dim.name(), " to ", show(shape)));
    add(r);
  }
  void deep_copy() {
    auto h = any();
    const auto c = content(h);
    h.v = copy(h.v);
    h.buffer = std::make_shared<Buffer>(Buffer{c.val, c.var, c.has_var, c.unit});
    for (size_t i = 0; i < h.at.size(); ++i)
      h.at[i] = static_cast<idx>(i);
    h.readonly = false;
    say(cat("v", next_id, " = copy(", name(h), ")"));
    add(h);
  }
  void shallow() {
    auto h = any();
    if (g.boolean(0.3)) {
      h.v = h.v.as_const();
      h.readonly = true;
      say(cat("v", next_id, " = as_const ", name(h)));
    } else
      say(cat("v", next_id, " = ", name(h)));
    add(h);
  }
  void assign() {
    auto &a = any();
    const auto id = a.id;
    if (g.boolean()) {
      const auto b = any();
      say(cat(name(a), " = ", name(b)));
      a.v = b.v;
      const auto v = a.v;
      a = b;
      a.v = v;
    } else {
      auto &b = any();
      if (&a == &b)
        return;
      say(cat(name(a), " = move(", name(b), ")"));
      a.v = std::move(b.v);
      const auto v = a.v;
      const auto bv = v;
      a = b;
      a.v = v;
      b.v = bv; // moved-from variables can be assigned to
    }
    a.id = id;
  }
  template <class F> bool attempt(F &&f) {
    try {
      f();
      return true;
    } catch (const std::exception &e) {
      say(cat("  error: ", e.what()));
      return false;
    }
  }
  void arithmetic() {
    auto &h = any();
    const bool product = g.boolean();
    const double k = static_cast<double>(g.integer(-2, 3));
    Content s;
    s.type = type;
    s.unit = product ? g.boolean(0.8) ? units::one : units::m : h.buffer->unit;
    s.val = {k};
    const auto scalar = make_plain(s);
    say(cat(name(h), product ? " *= " : " += ", k, " [", s.unit.name(), "]"));
    const bool ok = attempt([&] { product ? h.v *= scalar : h.v += scalar; });
    const bool error = h.readonly || (product && s.unit != units::one && partial(h));
    PBT_EQ("arithmetic-error", !ok, error, log);
    if (!ok)
      return;
    for (const auto i : h.at) {
      auto &x = h.buffer->val[static_cast<size_t>(i)];
      x = product ? x * k : x + k;
      if (h.buffer->has_var && product)
        h.buffer->var[static_cast<size_t>(i)] *= k * k;
    }
    if (product)
      h.buffer->unit = h.buffer->unit * s.unit;
    tame(h);
  }
  /// Keep numbers small enough to be exact.
  void tame(Handle &h) {
    double m = 0;
    for (const auto x : h.buffer->val)
      m = std::max(m, std::abs(x));
    for (const auto x : h.buffer->var)
      m = std::max(m, std::abs(x));
    if (m > 1000)
      throw Discard{};
  }
  void add_other() {
    auto &a = any();
    const auto b = any();
    say(cat(name(a), " += ", name(b)));
    const auto source = content(b);
    const bool same = a.v.is_same(b.v);
    PBT_CHECK("is-same", !same || (a.buffer == b.buffer && a.at == b.at && a.shape == b.shape),
              log);
    const bool ok = attempt([&] { a.v += b.v; });
    bool error = a.readonly || a.buffer->unit != b.buffer->unit;
    for (const auto &[d, n] : b.shape)
      error |= find(a.shape, d) < 0 || length_of(a.shape, d) != n;
    const bool bcast = b.shape.size() < a.shape.size();
    if (b.buffer->has_var) {
      error |= !a.buffer->has_var || (bcast && !same);
      const bool repeated = std::set<idx>(b.at.begin(), b.at.end()).size() != b.at.size();
      bool zero_stride = false;
      for (const auto s : b.v.strides())
        zero_stride |= s == 0;
      // Broadcasting over one element counts as broadcasting.
      if (zero_stride && !repeated)
        throw Discard{};
      error |= repeated && !same;
    }
    PBT_EQ("add-error", !ok, error, log);
    if (!ok)
      return;
    idx i = 0;
    auto &dst = *a.buffer;
    for_each(a.shape, [&](const std::vector<idx> &at) {
      const auto q = static_cast<size_t>(position(b.shape, a.shape, at));
      const auto p = static_cast<size_t>(a.at[static_cast<size_t>(i++)]);
      dst.val[p] += source.val[q];
      if (dst.has_var) {
        if (same)
          dst.var[p] *= 4;
        else if (source.has_var)
          dst.var[p] += source.var[q];
      }
    });
    tame(a);
  }
  void element() {
    auto &h = any();
    if (h.at.empty())
      return;
    const auto i = g.draw(h.at.size() - 1);
    const double x = static_cast<double>(g.integer(-9, 9));
    const bool variance = h.buffer->has_var && g.boolean(0.3);
    say(cat(name(h), variance ? " variance " : " value ", i, " = ", x));
    const bool ok = attempt([&] {
      with_type(type, [&](auto t) {
        using T = typename decltype(t)::type;
        if constexpr (scipp::core::canHaveVariances<T>())
          if (variance) {
            h.v.variances<T>()[static_cast<idx>(i)] = static_cast<T>(std::abs(x));
            return;
          }
        h.v.values<T>()[static_cast<idx>(i)] = from_double<T>(x);
      });
    });
    PBT_EQ("element-error", !ok, h.readonly, log);
    if (ok)
      (variance ? h.buffer->var : h.buffer->val)[static_cast<size_t>(h.at[i])] =
          variance ? std::abs(x) : x;
  }
  void set_unit() {
    auto &h = any();
    const auto u = g.one_of<Unit>({units::one, units::m, units::s});
    say(cat(name(h), " unit = ", u.name()));
    const bool ok = attempt([&] { h.v.setUnit(u); });
    PBT_EQ("unit-error", !ok, h.readonly || (partial(h) && h.buffer->unit != u), log);
    if (ok)
      h.buffer->unit = u;
  }
  void set_slice() {
    auto &h = any();
    const auto src = any();
    if (h.shape.empty())
      return;
    const auto k = g.draw(h.shape.size() - 1);
    const auto [dim, n] = h.shape[k];
    const auto b = g.integer(0, n), e = g.integer(b, n);
    const bool point = b < n && g.boolean(0.4);
    say(cat(name(h), "[", dim.name(), ",", b, ":", point ? b + 1 : e, point ? " point" : "",
            "] = ", name(src)));
    const auto source = content(src);
    const bool ok = attempt([&] {
      h.v.setSlice(point ? Slice(dim, b) : Slice(dim, b, e), src.v);
    });
    auto shape = h.shape;
    if (point)
      shape.erase(shape.begin() + static_cast<long>(k));
    else
      shape[k].second = e - b;
    bool error = h.readonly || h.buffer->unit != src.buffer->unit ||
                 h.buffer->has_var != src.buffer->has_var;
    for (const auto &[d, l] : src.shape)
      error |= find(shape, d) < 0 || length_of(shape, d) != l;
    PBT_EQ("set-slice-error", !ok, error, log);
    if (!ok)
      return;
    for_each(shape, [&](const std::vector<idx> &at) {
      const auto q = static_cast<size_t>(position(src.shape, shape, at));
      auto in = at;
      if (point)
        in.insert(in.begin() + static_cast<long>(k), b);
      else
        in[k] += b;
      const auto p = static_cast<size_t>(
          h.at[static_cast<size_t>(position(h.shape, h.shape, in))]);
      h.buffer->val[p] = source.val[q];
      if (source.has_var)
        h.buffer->var[p] = source.var[q];
    });
  }
  void set_variances() {
    auto &h = any();
    if (!can_have_var())
      return;
    if (g.boolean(0.25)) {
      say(cat(name(h), " variances dropped"));
      const bool ok = attempt([&] { h.v.setVariances(Variable{}); });
      PBT_EQ("drop-variances-error", !ok, h.readonly || partial(h), log);
      if (ok) {
        h.buffer->has_var = false;
        h.buffer->var.clear();
      }
      return;
    }
    const auto src = any();
    say(cat(name(h), " variances = values of ", name(src)));
    const auto source = content(src);
    const bool ok = attempt([&] { h.v.setVariances(src.v); });
    const bool error = h.readonly || partial(h) || h.shape != src.shape ||
                       h.buffer->unit != src.buffer->unit || src.buffer->has_var;
    PBT_EQ("set-variances-error", !ok, error, log);
    if (!ok)
      return;
    h.buffer->has_var = true;
    h.buffer->var.assign(h.buffer->val.size(), 0);
    for (size_t i = 0; i < h.at.size(); ++i)
      h.buffer->var[static_cast<size_t>(h.at[i])] = source.val[i];
  }
  void set_aligned() {
    auto &h = any();
    const bool a = g.boolean();
    say(cat(name(h), " aligned = ", a));
    h.v.set_aligned(a);
    h.aligned = a;
  }
  void step() {
    const auto what = g.weighted({3, 8, 5, 3, 4, 3, 3, 4, 2, 5, 5, 5, 3, 5, 4, 1});
    switch (what) {
    case 0:
      return create();
    case 1:
      return slice();
    case 2:
      return transpose();
    case 3:
      return rename();
    case 4:
      return broadcast();
    case 5:
      return fold();
    case 6:
      return deep_copy();
    case 7:
      return shallow();
    case 8:
      return assign();
    case 9:
      return arithmetic();
    case 10:
      return add_other();
    case 11:
      return element();
    case 12:
      return set_unit();
    case 13:
      return set_slice();
    case 14:
      return set_variances();
    default:
      return set_aligned();
    }
  }
};

void history(Gen &g) {
  World w(g);
  w.type = g.one_of({dtype<double>, dtype<double>, dtype<float>, dtype<int64_t>});
  w.create();
  w.check("creation");
  const auto n = g.length(1, 25);
  for (int64_t i = 0; i < n; ++i) {
    w.step();
    w.check("step " + std::to_string(i));
  }
  std::set<Buffer *> buffers;
  for (const auto &h : w.handles)
    buffers.insert(h.buffer.get());
  g.nontrivial(n > 4 && buffers.size() < w.handles.size());
}

/// Equality: of shape, unit, type, variances and all elements, whatever the layout.
void equality(Gen &g) {
  Content a;
  a.shape = gen_shape(g, 3, 3);
  a.type = g.one_of({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>, dtype<bool>,
                     dtype<time_point>});
  a.unit = a.type == dtype<time_point> ? units::ns
                                       : g.one_of<Unit>({units::one, units::m, units::none});
  a.has_var = (a.type == dtype<double> || a.type == dtype<float>)&&g.boolean();
  const bool nan = g.boolean(0.2);
  gen_elements(g, a, nan);
  auto va = make_view(g, a);
  Content b = a;
  bool equal = true;
  switch (g.draw(7)) {
  case 0: // one element
    if (!b.val.empty() && b.type != dtype<bool>) {
      b.val[g.draw(b.val.size() - 1)] += 1;
      b = b;
    }
    break;
  case 1:
    if (!b.var.empty())
      b.var[g.draw(b.var.size() - 1)] += 1;
    break;
  case 2:
    b.unit = b.type == dtype<time_point> ? units::s : units::rad;
    break;
  case 3:
    if (b.type != dtype<bool> && b.type != dtype<time_point> && !b.has_var && !nan)
      b.type = b.type == dtype<double> ? dtype<int64_t> : dtype<double>;
    break;
  case 4:
    if (b.has_var) {
      b.has_var = false;
      b.var.clear();
    }
    break;
  case 5:
    if (b.shape.size() > 1) {
      b.shape = g.permutation(b.shape);
      gen_elements(g, b);
    }
    break;
  case 6:
    if (!b.shape.empty())
      b.shape[g.draw(b.shape.size() - 1)].first = Dim("other");
    break;
  default:
    break;
  }
  if (a.type != b.type)
    for (auto &x : b.val)
      x = std::trunc(x);
  auto vb = make_view(g, b, {.broadcast = false});
  b = read(vb);
  a = read(va);
  const bool special = [&] {
    for (const auto x : a.val)
      if (std::isnan(x))
        return true;
    for (const auto x : b.val)
      if (std::isnan(x))
        return true;
    return false;
  }();
  equal = a == b;
  g.nontrivial(volume(a.shape) > 1);
  const auto what = [&] {
    return cat(show(a), " ", layout(va), " and ", show(b), " ", layout(vb));
  };
  g.note(what);
  PBT_EQ("equals-nan", equals_nan(va, vb), equal, what());
  PBT_EQ("equals-nan-symmetric", equals_nan(vb, va), equal, what());
  PBT_EQ("equals", va == vb, equal && !special, what());
  PBT_EQ("not-equals", va != vb, !(equal && !special), what());
  PBT_CHECK("equals-copy", special || copy(va) == va, what());
  PBT_CHECK("equals-nan-itself", equals_nan(va, va), what());
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C22";
  p.rule = "histories of up to 25 operations (slices, transposes, renames, broadcasts, folds, "
           "copies, assignments, moves, in-place arithmetic, element writes, units, "
           "variances) on up to 7 variables that share data, compared after every step with "
           "a model of buffers and index lists. Non-trivial: more than 4 steps and shared data.";
  p.laws = {{"history", 300000, 4000000, history}, {"equality", 300000, 5000000, equality}};
  return run(argc, argv, p);
}
