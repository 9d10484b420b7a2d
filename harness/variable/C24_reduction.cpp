// C24: reductions and cumulative sums visit each element exactly once.
// sanitize: -D_GLIBCXX_ASSERTIONS
#define VERIF_ALL_TYPES
#include "../reduce_model.h"

#include "scipp/variable/cumulative.h"

using namespace gv;

namespace {
void expect(const std::string &sig, const Content &actual, const Content &expected,
            const bool tolerant, const std::string &what) {
  bool ok = actual.shape == expected.shape && actual.unit == expected.unit &&
            actual.type == expected.type && actual.has_var == expected.has_var &&
            actual.val.size() == expected.val.size();
  const double eps = !tolerant ? 0 : actual.type == dtype<float> ? 1e-5 : 1e-13;
  for (size_t i = 0; ok && i < actual.val.size(); ++i) {
    ok &= close(actual.val[i], expected.val[i], eps, eps);
    if (actual.has_var)
      ok &= close(actual.var[i], expected.var[i], eps, eps) ||
            (tolerant && !std::isfinite(expected.val[i]));
  }
  PBT_CHECK(sig, ok, what, " -> ", show(actual), " expected ", show(expected));
}

void small(Gen &g) {
  const auto [op, name] = g.pick(ops);
  auto c = gen_content(g, op, gen_shape(g, 4, 4));
  const auto v = make_view(g, c);
  c = read(v);
  const bool all = c.shape.empty() || g.boolean(0.3);
  auto out = c.shape;
  Dim dim = Dim::Invalid;
  if (all)
    out.clear();
  else {
    const auto k = g.draw(out.size() - 1);
    dim = out[k].first;
    out.erase(out.begin() + static_cast<long>(k));
  }
  const std::string n = name;
  const auto what = [&, name = n] {
    return cat(name, " over ", all ? "all" : dim.name(), " of ", show(c), " ", layout(v));
  };
  g.note(what);
  const auto r = all ? apply(op, v) : apply(op, v, dim);
  PBT_CHECK("reduce-argument", read(v) == c, what());
  if (all && c.shape.empty() && !is_mean(op) && op != Op::NanSum) { // nothing to reduce
    expect("reduce-scalar", read(r), c, false, what());
    return;
  }
  expect("reduce-" + n, read(r), reduced(op, c, out), is_mean(op), what());
  g.nontrivial(volume(c.shape) > volume(out) && volume(out) > 0);
  // A dimension that is not there
  if (g.boolean(0.05))
    PBT_CHECK("reduce-absent", throws([&] { (void)apply(op, v, Dim("absent")); }), what());
}

void into(Gen &g) {
  const auto [op, name] = g.pick(ops);
  if (is_mean(op))
    throw Discard{};
  auto c = gen_content(g, op, gen_shape(g, 3, 4));
  if (c.type == dtype<bool> && is_sum(op))
    throw Discard{};
  const auto v = make_view(g, c);
  c = read(v);
  Shape out;
  for (const auto &d : c.shape)
    if (g.boolean())
      out.push_back(d);
  out = g.permutation(out);
  Content init;
  init.shape = out;
  init.type = c.type;
  init.unit = c.unit;
  init.has_var = c.has_var;
  gen_elements(g, init);
  if (init.has_var && !is_sum(op))
    for (size_t i = 0; i < init.var.size(); ++i)
      init.var[i] = std::abs(init.val[i]) / 4;
  Variable base;
  auto target = make_view(g, init, {.broadcast = false}, &base);
  init = read(target);
  const auto what = [&, n = std::string(name)] {
    return cat(n, " of ", show(c), " ", layout(v), " into ", show(init), " ", layout(target));
  };
  g.note(what);
  const auto base_before = read(base);
  apply_into(op, target, v);
  PBT_CHECK("into-argument", read(v) == c, what());
  expect(cat("into-", name), read(target), reduced(op, c, out, init), false, what());
  // Nothing else of the target's memory changed.
  const auto now = read(base);
  size_t changed = 0;
  for (size_t i = 0; i < now.val.size(); ++i)
    changed += !same(now.val[i], base_before.val[i]);
  size_t expected = 0;
  const auto t = read(target);
  for (size_t i = 0; i < t.val.size(); ++i)
    expected += !same(t.val[i], init.val[i]);
  PBT_EQ("into-elsewhere", changed, expected, what());
  g.nontrivial(volume(c.shape) > volume(out) && volume(out) > 0);
}

void large(Gen &g) {
  const auto [op, name] = g.pick(ops);
  // Shapes around the limits of threading
  const std::vector<Shape> shapes{
      {{Dim("x"), 16383}},
      {{Dim("x"), 16384}},
      {{Dim("x"), 40001}},
      {{Dim("x"), 23}, {Dim("y"), 997}},
      {{Dim("x"), 997}, {Dim("y"), 23}},
      {{Dim("x"), 128}, {Dim("y"), 131}},
      {{Dim("x"), 127}, {Dim("y"), 150}},
      {{Dim("x"), 25}, {Dim("y"), 26}, {Dim("z"), 27}},
      {{Dim("x"), 3}, {Dim("y"), 66000}},
      {{Dim("x"), 66000}, {Dim("y"), 3}},
      {{Dim("x"), 2}, {Dim("y"), 3}, {Dim("z"), 4001}},
      {{Dim("x"), 4001}, {Dim("y"), 1}, {Dim("z"), 5}},
      {{Dim("x"), 1}, {Dim("y"), 17000}},
      {{Dim("x"), 49}, {Dim("y"), 7}, {Dim("z"), 49}}};
  Content c;
  c.shape = g.pick(shapes);
  if (g.boolean(0.3) && !c.shape.empty())
    c.shape[0].second += g.integer(0, 30);
  c.type = logical(op) ? dtype<bool>
                       : g.one_of<DType>({dtype<double>, dtype<float>, dtype<int64_t>,
                                          dtype<int32_t>});
  c.has_var = is_flt(c.type) && g.boolean(0.3);
  c.unit = logical(op) ? units::none : units::m;
  // Elements from a simple recurrence, few choices
  const auto n = volume(c.shape);
  auto s = g.draw(1 << 20) * 2 + 1;
  const auto nans = is_flt(c.type) && g.boolean(0.3);
  const auto rare = static_cast<size_t>(g.draw(static_cast<uint64_t>(n - 1)));
  for (idx i = 0; i < n; ++i) {
    s = s * 6364136223846793005ULL + 1442695040888963407ULL;
    const auto r = static_cast<int64_t>(s >> 40) % 2001 - 1000;
    double x = static_cast<double>(r);
    if (logical(op))
      x = (op == Op::All) != (static_cast<size_t>(i) == rare);
    else if (static_cast<size_t>(i) == rare)
      x = op == Op::Min || op == Op::NanMin ? -5000 : 5000;
    else if (nans && r % 50 == 0)
      x = NAN;
    c.val.push_back(x);
    if (c.has_var)
      c.var.push_back(std::isnan(x) ? 2 : std::abs(x));
  }
  const auto v = g.boolean(0.5) ? make_plain(c) : make_view(g, c, {.broadcast = false});
  const bool all = g.boolean(0.3);
  auto out = c.shape;
  Dim dim = Dim::Invalid;
  if (all)
    out.clear();
  else {
    const auto k = g.draw(out.size() - 1);
    dim = out[k].first;
    out.erase(out.begin() + static_cast<long>(k));
  }
  const auto sname = std::string(name);
  const auto what = [&] {
    return cat(sname, " over ", all ? "all" : dim.name(), " of ", show(c.shape), " ",
               to_string(c.type), c.has_var ? " with variances" : "", " ", layout(v));
  };
  g.note(what);
  g.nontrivial(n >= 16384);
  const auto compare = [&](const std::string &sig, const Content &a, const Content &e,
                           const bool tolerant) {
    bool ok = a.shape == e.shape && a.unit == e.unit && a.type == e.type &&
              a.has_var == e.has_var && a.val.size() == e.val.size();
    PBT_CHECK(sig, ok, what(), " -> ", show(a.shape), " expected ", show(e.shape));
    const double eps = !tolerant ? 0 : a.type == dtype<float> ? 1e-4 : 1e-12;
    for (size_t i = 0; i < a.val.size(); ++i)
      PBT_CHECK(sig,
                close(a.val[i], e.val[i], eps, eps) &&
                    (!a.has_var || close(a.var[i], e.var[i], eps, eps)),
                what(), " element ", i, ": ", a.val[i], " expected ", e.val[i]);
  };
  // Sums of float in steps are rounded more than once if intermediate results
  // exceed 2^24.
  const bool tolerant = is_mean(op) || (is_sum(op) && c.type == dtype<float>);
  compare("large-" + sname, read(all ? apply(op, v) : apply(op, v, dim)), reduced(op, c, out),
          tolerant);
  // into a target that is not at its neutral value
  if (!is_mean(op) && g.boolean(0.4)) {
    Content init;
    init.shape = out;
    init.type = c.type;
    init.unit = c.unit;
    init.has_var = c.has_var;
    for (idx i = 0; i < volume(out); ++i) {
      init.val.push_back(logical(op) ? (op == Op::All) : static_cast<double>(i % 7 + 1));
      if (c.has_var)
        init.var.push_back(static_cast<double>(i % 7 + 1));
    }
    auto target = make_plain(init);
    apply_into(op, target, v);
    compare("large-into-" + sname, read(target), reduced(op, c, out, init), tolerant);
  }
}

/// float is summed in double
void precise(Gen &g) {
  const auto n = g.integer(1000, 60000);
  Content c;
  c.type = dtype<float>;
  c.shape = {{Dim("x"), n}};
  c.unit = units::one;
  const auto step = static_cast<float>(g.integer(1, 9)) / 10.0f;
  c.val.assign(static_cast<size_t>(n), static_cast<double>(step));
  const auto v = make_plain(c);
  const auto exact = static_cast<double>(step) * static_cast<double>(n);
  const auto what = cat("sum of ", n, " times ", step);
  g.note(what);
  g.nontrivial();
  PBT_CHECK("sum-precision", close(sv::sum(v).value<float>(), exact, 2e-7), what, " ",
            sv::sum(v).value<float>());
  PBT_CHECK("nansum-precision", close(sv::nansum(v, Dim("x")).value<float>(), exact, 2e-7), what);
  PBT_CHECK("mean-precision", close(sv::mean(v).value<float>(), static_cast<double>(step), 5e-7),
            what, " ", sv::mean(v).value<float>());
  const auto cs = sv::cumsum(v, Dim("x"));
  PBT_CHECK("cumsum-precision",
            close(cs.values<float>()[n - 1], exact, 2e-7), what, " ", cs.values<float>()[n - 1]);
}

void cumsum(Gen &g) {
  Content c;
  c.shape = gen_shape(g, 4, 4);
  c.type = g.one_of<DType>({dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>});
  c.unit = g.one_of<Unit>({units::one, units::m});
  c.has_var = is_flt(c.type) && g.boolean(0.05);
  gen_elements(g, c);
  const auto v = make_view(g, c);
  c = read(v);
  const bool exclusive = g.boolean();
  const auto mode = exclusive ? sv::CumSumMode::Exclusive : sv::CumSumMode::Inclusive;
  const bool all = c.shape.empty() || g.boolean(0.4);
  auto out = c.shape;
  Dim dim = Dim::Invalid;
  if (all)
    out.clear();
  else {
    const auto k = g.draw(out.size() - 1);
    dim = out[k].first;
    out.erase(out.begin() + static_cast<long>(k));
  }
  const auto what = [&] {
    return cat(exclusive ? "exclusive" : "inclusive", " cumsum over ", all ? "all" : dim.name(),
               " of ", show(c), " ", layout(v));
  };
  g.note(what);
  Variable r;
  try {
    r = all ? sv::cumsum(v, mode) : sv::cumsum(v, dim, mode);
  } catch (const std::exception &e) {
    PBT_CHECK("cumsum-throws", c.has_var, what(), " ", e.what());
    PBT_CHECK("cumsum-argument", read(v) == c, what());
    return;
  }
  PBT_CHECK("cumsum-argument", read(v) == c, what());
  if (volume(c.shape) == 0) {
    PBT_CHECK("cumsum-empty", read(r).shape == c.shape, what());
    return;
  }
  PBT_CHECK("cumsum-variances", !c.has_var, what());
  g.nontrivial(volume(c.shape) > volume(out));
  auto e = c;
  std::vector<double> run(static_cast<size_t>(volume(out)), 0);
  size_t i = 0;
  for_each(c.shape, [&](const std::vector<idx> &at) {
    auto &s = run[static_cast<size_t>(position(out, c.shape, at))];
    if (exclusive)
      e.val[i] = s;
    s += c.val[i];
    if (!exclusive)
      e.val[i] = s;
    ++i;
  });
  PBT_CHECK("cumsum", read(r) == e, what(), " -> ", show(read(r)), " expected ", show(e));
  PBT_CHECK("cumsum-shares", !r.is_same(v), what());
}

/// Vectors add up by component.
void vectors(Gen &g) {
  Content c;
  c.type = dtype<Eigen::Vector3d>;
  c.shape = gen_shape(g, 3, 4);
  c.unit = units::m;
  for (idx i = 0; i < volume(c.shape); ++i)
    c.val.push_back(static_cast<double>(g.integer(-9, 9)));
  const auto v = make_view(g, c);
  c = read(v);
  if (c.shape.empty())
    throw Discard{};
  const auto k = g.draw(c.shape.size() - 1);
  const auto dim = c.shape[k].first;
  const auto n = static_cast<double>(c.shape[k].second);
  auto out = c.shape;
  out.erase(out.begin() + static_cast<long>(k));
  const auto what = [&] { return cat("over ", dim.name(), " of ", show(c), layout(v)); };
  g.note(what);
  g.nontrivial(volume(c.shape) > volume(out));
  auto scalars = c;
  scalars.type = dtype<double>;
  const auto e = reduced(Op::Sum, scalars, out);
  const auto total = sv::sum(v, dim), mean = sv::mean(v, dim);
  PBT_CHECK("vector-shape", shape_of(total.dims()) == out && total.unit() == c.unit, what());
  for (idx i = 0; i < volume(out); ++i) {
    const Eigen::Vector3d s = total.values<Eigen::Vector3d>()[i];
    const Eigen::Vector3d m = mean.values<Eigen::Vector3d>()[i];
    for (int a = 0; a < 3; ++a) {
      const auto x = e.val[static_cast<size_t>(i)] + n * a * 100;
      PBT_CHECK("vector-sum", s(a) == x, what(), " element ", i, " component ", a);
      PBT_CHECK("vector-mean", close(m(a), x / n, 1e-13, 1e-13), what(), " element ", i);
    }
  }
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C24";
  p.rule = "variables of up to 4 dimensions in random memory layouts, reduced over each or all "
           "dimensions, also into an output with contents; values are multiples of 1/4, so "
           "that sums are exact in any order, with NaN and inf; large arrays around the "
           "limits for threads. Compared with a loop over indices. Non-trivial: the "
           "reduction combines at least two elements.";
  p.laws = {{"small", 400000, 6000000, small}, {"into", 200000, 3000000, into},
            {"large", 1500, 20000, large, true}, {"precise", 300, 3000, precise},
            {"cumsum", 200000, 3000000, cumsum}, {"vectors", 50000, 500000, vectors}};
  return run(argc, argv, p);
}
