// C25: sorting and the tests for order and spacing along a dimension.
// sanitize: -D_GLIBCXX_ASSERTIONS
#define VERIF_ALL_TYPES
#include "gen_var.h"

#include "scipp/common/numeric.h"
#include "scipp/variable/math.h"
#include "scipp/variable/sort.h"
#include "scipp/variable/util.h"

using namespace gv;
namespace sv = scipp::variable;

namespace {
bool is_flt(const DType t) { return t == dtype<double> || t == dtype<float>; }

struct Lines {
  Shape rest;
  Dim dim;
  idx n = 0;
  std::vector<std::vector<size_t>> at; // positions along dim for each of rest
};
Lines lines(const Content &c, const size_t k) {
  Lines l;
  l.dim = c.shape[k].first;
  l.n = c.shape[k].second;
  l.rest = c.shape;
  l.rest.erase(l.rest.begin() + static_cast<long>(k));
  l.at.resize(static_cast<size_t>(volume(l.rest)));
  size_t i = 0;
  for_each(c.shape, [&](const std::vector<idx> &at) {
    l.at[static_cast<size_t>(position(l.rest, c.shape, at))].push_back(i);
    ++i;
  });
  return l;
}
/// Line of n values: sorted either way, with repeats, exceptions, equal steps.
std::vector<double> gen_line(Gen &g, const idx n, const DType t) {
  std::vector<double> x;
  const auto kind = g.weighted({3, 3, 2, 2});
  const double unit = is_flt(t) && g.boolean(0.4) ? 0.25 : 1;
  if (kind == 2) { // linear
    const auto step = g.integer(-3, 3);
    auto v = static_cast<double>(g.integer(-9, 9));
    for (idx i = 0; i < n; ++i, v += static_cast<double>(step))
      x.push_back(v * unit);
  } else {
    for (idx i = 0; i < n; ++i)
      x.push_back(static_cast<double>(g.integer(-9, 9)) * unit);
    if (kind == 0)
      std::sort(x.begin(), x.end());
    else if (kind == 1)
      std::sort(x.begin(), x.end(), std::greater<>());
  }
  if (!x.empty() && g.boolean(0.3))
    x[g.draw(x.size() - 1)] += unit * (g.boolean() ? 1 : -1);
  if (!x.empty() && is_flt(t) && g.boolean(0.1))
    x[g.draw(x.size() - 1)] = g.one_of<double>({NAN, HUGE_VAL, -HUGE_VAL});
  return x;
}
Content gen_content(Gen &g, std::vector<DType> types, size_t &k, const idx maxlen = 6) {
  Content c;
  c.shape = gen_shape(g, 3, 3);
  if (c.shape.empty())
    c.shape = {{Dim("x"), 1}};
  k = g.draw(c.shape.size() - 1);
  c.shape[k].second = g.length(0, maxlen);
  c.type = g.pick(types);
  c.unit = c.type == dtype<time_point>    ? units::ns
           : c.type == dtype<std::string> ? units::none
                                          : g.one_of<Unit>({units::one, units::m});
  c.val.resize(static_cast<size_t>(volume(c.shape)));
  for (const auto &line : lines(c, k).at) {
    const auto x = gen_line(g, c.shape[k].second, c.type);
    for (size_t i = 0; i < line.size(); ++i)
      c.val[line[i]] = x[i];
  }
  return c;
}
/// Order of elements: strings are compared as such.
bool less_eq(const DType t, const double a, const double b) {
  if (t == dtype<std::string>)
    return from_double<std::string>(a) <= from_double<std::string>(b);
  return a <= b;
}

void sorted(Gen &g) {
  size_t k;
  auto c = gen_content(g,
                       {dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>,
                        dtype<std::string>, dtype<time_point>},
                       k);
  const auto v = make_view(g, c);
  c = read(v);
  const auto l = lines(c, k);
  const bool asc = g.boolean();
  const auto order = asc ? scipp::SortOrder::Ascending : scipp::SortOrder::Descending;
  const auto what = [&] {
    return cat(asc ? "ascending " : "descending ", show(c), " along ", l.dim.name(), " ",
               layout(v));
  };
  g.note(what);
  g.nontrivial(l.n > 1 && !l.at.empty());
  Content e;
  e.shape = l.rest;
  e.type = dtype<bool>;
  bool all = true;
  for (const auto &line : l.at) {
    bool ok = true;
    for (size_t i = 0; i + 1 < line.size(); ++i) {
      const auto a = c.val[line[i]], b = c.val[line[i + 1]];
      ok &= asc ? less_eq(c.type, a, b) : less_eq(c.type, b, a);
    }
    e.val.push_back(ok);
    all &= ok;
  }
  const auto r = sv::issorted(v, l.dim, order);
  PBT_CHECK("issorted", read(r) == e, what(), " -> ", show(read(r)), " expected ", show(e));
  PBT_EQ("allsorted", sv::allsorted(v, l.dim, order), all, what());
  PBT_CHECK("issorted-argument", read(v) == c, what());
}

void sort(Gen &g) {
  size_t k;
  auto c = gen_content(g,
                       {dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>,
                        dtype<std::string>, dtype<time_point>},
                       k, 12);
  for (auto &x : c.val)
    if (std::isnan(x))
      x = 1;
  c.has_var = is_flt(c.type) && g.boolean(0.3);
  if (c.has_var) // equal values may come in any order
    for (const auto x : c.val)
      c.var.push_back(std::isfinite(x) ? x * x : 7);
  const auto v = make_view(g, c);
  c = read(v);
  const auto l = lines(c, k);
  const bool asc = g.boolean();
  const auto order = asc ? scipp::SortOrder::Ascending : scipp::SortOrder::Descending;
  const auto what = [&] {
    return cat(asc ? "ascending " : "descending ", show(c), " along ", l.dim.name(), " ",
               layout(v));
  };
  g.note(what);
  auto e = c;
  for (const auto &line : l.at) {
    std::vector<double> x;
    for (const auto i : line)
      x.push_back(c.val[i]);
    std::sort(x.begin(), x.end(), [&](const double a, const double b) {
      return asc ? !less_eq(c.type, b, a) : !less_eq(c.type, a, b);
    });
    for (size_t i = 0; i < line.size(); ++i) {
      e.val[line[i]] = x[i];
      if (c.has_var)
        e.var[line[i]] = std::isfinite(x[i]) ? x[i] * x[i] : 7;
    }
  }
  Variable r;
  try {
    r = sv::sort(v, l.dim, order);
  } catch (const std::exception &ex) {
    // Only along the inner dimension
    PBT_CHECK("sort-throws", k + 1 != c.shape.size(), what(), ex.what());
    PBT_CHECK("sort-argument", read(v) == c, what());
    return;
  }
  g.nontrivial(l.n > 1 && !l.at.empty());
  PBT_CHECK("sort", read(r) == e, what(), " -> ", show(read(r)), " expected ", show(e));
  PBT_CHECK("sort-argument", read(v) == c, what());
}

void spacing(Gen &g) {
  size_t k;
  auto c = gen_content(g,
                       {dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>,
                        dtype<time_point>},
                       k);
  const auto v = make_view(g, c);
  c = read(v);
  const auto l = lines(c, k);
  const auto what = [&] {
    return cat(show(c), " along ", l.dim.name(), " ", layout(v));
  };
  g.note(what);
  g.nontrivial(l.n > 2 && !l.at.empty());
  Content lin, ara;
  lin.shape = ara.shape = l.rest;
  lin.type = ara.type = dtype<bool>;
  for (const auto &line : l.at) {
    std::vector<double> x;
    for (const auto i : line)
      x.push_back(c.val[i]);
    // Steps are multiples of 1/4: equal or clearly different.
    bool equal = true, one = true;
    for (size_t i = 1; i < x.size(); ++i) {
      equal &= x[i] - x[i - 1] == x[1] - x[0] && x[i] > x[i - 1];
      one &= x[i] - x[i - 1] == 1;
    }
    for (const auto y : x)
      equal &= x.size() < 2 || std::isfinite(y);
    lin.val.push_back(x.size() >= 2 && equal);
    ara.val.push_back(one);
  }
  if (l.n >= 2) {
    const auto r = sv::islinspace(v, l.dim);
    PBT_CHECK("islinspace", read(r) == lin, what(), " -> ", show(read(r)), " expected ",
              show(lin));
  }
  if (c.type == dtype<int64_t> || c.type == dtype<int32_t>) {
    Variable r;
    try {
      r = sv::isarange(v, l.dim);
    } catch (const std::exception &) {
      PBT_CHECK("isarange-throws", v.stride(l.dim) != 1, what());
      return;
    }
    PBT_CHECK("isarange", read(r) == ara, what(), " -> ", show(read(r)), " expected ", show(ara));
  }
  PBT_CHECK("spacing-argument", read(v) == c, what());
}

void linspace(Gen &g) {
  Content a;
  a.shape = gen_shape(g, 2, 3);
  a.type = g.one_of<DType>({dtype<double>, dtype<float>});
  a.unit = units::m;
  gen_elements(g, a);
  auto b = a;
  gen_elements(g, b);
  const auto va = make_view(g, a), vb = make_view(g, b);
  a = read(va), b = read(vb);
  const auto n = g.length(2, 30);
  const Dim dim("lin");
  const auto what = [&] {
    return cat("from ", show(a), " ", layout(va), " to ", show(b), " ", layout(vb), " in ", n);
  };
  g.note(what);
  g.nontrivial(n > 2 && !a.val.empty());
  const auto r = read(sv::linspace(va, vb, dim, n));
  auto shape = a.shape;
  shape.emplace_back(dim, n);
  PBT_CHECK("linspace-shape", r.shape == shape && r.type == a.type && r.unit == a.unit, what());
  const double eps = a.type == dtype<float> ? 1e-5 : 1e-13;
  for (size_t k = 0; k < a.val.size(); ++k)
    for (idx i = 0; i < n; ++i) {
      const auto x = r.val[k * static_cast<size_t>(n) + static_cast<size_t>(i)];
      const auto e = a.val[k] + (b.val[k] - a.val[k]) * static_cast<double>(i) /
                                    static_cast<double>(n - 1);
      PBT_CHECK("linspace", i == 0 ? x == a.val[k] : i == n - 1 ? x == b.val[k]
                                                                : close(x, e, eps, eps * 40),
                what(), " element ", k, ",", i, " is ", x, " expected ", e);
      if (i > 0) {
        const auto before = r.val[k * static_cast<size_t>(n) + static_cast<size_t>(i) - 1];
        PBT_CHECK("linspace-monotonic", b.val[k] >= a.val[k] ? x >= before : x <= before, what());
      }
    }
}

void midpoints(Gen &g) {
  size_t k;
  auto c = gen_content(g,
                       {dtype<double>, dtype<float>, dtype<int64_t>, dtype<int32_t>,
                        dtype<time_point>},
                       k);
  for (auto &x : c.val)
    if (!std::isfinite(x))
      x = 1;
  if (!is_flt(c.type) && g.boolean(0.2)) // near the limits of the type
    for (auto &x : c.val)
      x += c.type == dtype<int32_t> ? (g.boolean() ? 2147483600.0 : -2147483600.0)
                                    : (g.boolean() ? 4503599627370400.0 : -4503599627370400.0);
  const auto v = make_view(g, c);
  c = read(v);
  const auto l = lines(c, k);
  const auto what = [&] {
    return cat(show(c), " along ", l.dim.name(), " ", layout(v));
  };
  g.note(what);
  Variable r;
  try {
    r = c.shape.size() == 1 && g.boolean(0.3) ? sv::midpoints(v) : sv::midpoints(v, l.dim);
  } catch (const std::exception &e) {
    PBT_CHECK("midpoints-throws", l.n < 2, what(), " ", e.what());
    return;
  }
  PBT_CHECK("midpoints-of-nothing", l.n >= 2 , what());
  g.nontrivial(!l.at.empty());
  Content e = c;
  e.shape[k].second = l.n - 1;
  const auto to = lines([&] {
    e.val.resize(static_cast<size_t>(volume(e.shape)));
    return e;
  }(), k);
  for (size_t j = 0; j < l.at.size(); ++j)
    for (size_t i = 0; i + 1 < l.at[j].size(); ++i) {
      const auto a = c.val[l.at[j][i]], b = c.val[l.at[j][i + 1]];
      const auto m = (a + b) / 2;
      e.val[to.at[j][i]] = m;
      if (!is_flt(c.type)) { // rounded to the first of the two
        const auto exact = static_cast<int64_t>(a) + static_cast<int64_t>(b);
        e.val[to.at[j][i]] =
            exact % 2 == 0 ? m : a < b ? std::floor(m) : std::ceil(m);
      }
    }
  PBT_CHECK("midpoints", read(r) == e, what(), " -> ", show(read(r)), " expected ", show(e));
  PBT_CHECK("midpoints-argument", read(v) == c, what());
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C25";
  p.rule = "variables of up to 3 dimensions in random memory layouts; lines along one dimension "
           "that are sorted, linear, nearly so or random, with repeats, NaN and inf; compared "
           "line by line with the definition. Non-trivial: lines of at least two (spacing: "
           "three) elements.";
  p.laws = {{"sorted", 300000, 4000000, sorted},
            {"sort", 200000, 3000000, sort},
            {"spacing", 300000, 4000000, spacing},
            {"linspace", 100000, 1500000, linspace},
            {"midpoints", 200000, 3000000, midpoints}};
  return run(argc, argv, p);
}
