// C10: every event lands in the one bin whose edges enclose it.
// sanitize: -D_GLIBCXX_ASSERTIONS
#include "pbt.h"

#include <algorithm>
#include <memory>
#include <unordered_map>

#include "scipp/core/element/bin.h"
#include "scipp/core/element/bin_detail.h"
#include "scipp/core/element/event_operations.h"
#include "scipp/core/element/histogram.h"

using namespace pbt;
using scipp::span;
using scipp::core::time_point;
using scipp::core::ValueAndVariance;
namespace element = scipp::core::element;
using idx = scipp::index;

namespace {
template <class T> constexpr bool is_time = std::is_same_v<T, time_point>;
template <class T> struct raw_ {
  using type = T;
};
template <> struct raw_<time_point> {
  using type = int64_t;
};
template <class T> using raw = typename raw_<T>::type;

template <class T> auto number(const T &x) {
  if constexpr (is_time<T>)
    return x.time_since_epoch();
  else
    return x;
}
template <class T> std::string show(const std::vector<T> &v) {
  std::string s = "[";
  for (const auto &x : v)
    s += cat(+number(x), " ");
  return s + "]";
}

template <class T> T next_up(const T x) {
  if constexpr (std::is_floating_point_v<T>)
    return std::nextafter(x, std::numeric_limits<T>::infinity());
  else
    return T(number(x) + 1);
}
template <class T> T next_down(const T x) {
  if constexpr (std::is_floating_point_v<T>)
    return std::nextafter(x, -std::numeric_limits<T>::infinity());
  else
    return T(number(x) - 1);
}

struct Kind {
  std::string name;
  bool sorted = true;
};

/// Edges: linear, nearly linear, irregular, with repeats, unsorted, short.
template <class E> std::vector<E> gen_edges(Gen &g, Kind &kind) {
  using R = raw<E>;
  std::vector<R> v;
  const auto kinds = g.weighted({4, 3, 3, 2, 1, 2});
  const auto n = g.boolean(0.05) ? g.integer(0, 1) : g.length(2, 5 + g.size());
  R offset{}, step{1};
  if constexpr (std::is_floating_point_v<R>) {
    offset = static_cast<R>(g.boolean() ? g.integer(-20, 20) / 4.0
                            : g.boolean(0.7) ? g.uniform(-100, 100)
                                             : g.uniform(-1e9, 1e9));
    step = static_cast<R>(g.boolean() ? g.integer(1, 8) / 4.0
                                      : std::exp(g.uniform(-10, 5)));
    if (g.boolean(0.1)) // steps of only a few ulp
      step = static_cast<R>((next_up(std::abs(offset)) - std::abs(offset)) *
                            static_cast<R>(g.integer(1, 8)));
  } else {
    offset = static_cast<R>(g.boolean(0.8) ? g.integer(-20, 20)
                                           : g.integer(-1000000000, 1000000000));
    if (sizeof(R) == 8 && g.boolean(0.1))
      offset = static_cast<R>(g.integer(-(int64_t(1) << 60), int64_t(1) << 60));
    step = static_cast<R>(g.boolean() ? 1 : g.integer(1, 1000));
  }
  for (int64_t i = 0; i < n; ++i)
    v.push_back(static_cast<R>(offset + static_cast<R>(i) * step));
  switch (kinds) {
  case 0:
    kind.name = "linear";
    break;
  case 1: { // one or all edges moved, order kept
    kind.name = "moved";
    for (int64_t i = 1; i + 1 < n; ++i) {
      if (!g.boolean(0.4))
        continue;
      if constexpr (std::is_floating_point_v<R>)
        v[i] = static_cast<R>(v[i] + (v[i] - v[i - 1]) *
                                         static_cast<R>(g.uniform(-0.4, 0.4)));
      else
        v[i] = static_cast<R>(v[i] + g.integer(-1, 1));
    }
    std::sort(v.begin(), v.end());
    break;
  }
  case 2: { // unrelated steps
    kind.name = "irregular";
    for (auto &x : v)
      if constexpr (std::is_floating_point_v<R>)
        x = static_cast<R>(offset + g.uniform(0, 1) * step * static_cast<R>(n));
      else
        x = static_cast<R>(offset + g.integer(0, 4 * n));
    std::sort(v.begin(), v.end());
    break;
  }
  case 3: { // repeated edges: empty bins
    kind.name = "repeated";
    for (auto &x : v)
      x = v[g.draw(v.size() - 1)];
    std::sort(v.begin(), v.end());
    break;
  }
  case 4: {
    kind.name = "unsorted";
    std::reverse(v.begin(), v.end());
    break;
  }
  default: { // irregular steps of some ulp, far from zero
    kind.name = "ulps";
    if constexpr (std::is_floating_point_v<R>) {
      R x = static_cast<R>(g.uniform(1, 2) * (g.boolean() ? 1 : 1e9));
      for (auto &e : v) {
        e = x;
        for (int64_t k = g.integer(1, 9); k > 0; --k)
          x = next_up(x);
      }
    }
  }
  }
  kind.sorted = std::is_sorted(v.begin(), v.end());
  std::vector<E> out;
  for (const auto x : v)
    out.push_back(E(x));
  return out;
}

/// A coordinate value, often at or next to an edge.
template <class C, class E> C gen_coord(Gen &g, const std::vector<E> &edges) {
  using R = raw<C>;
  const auto any = [&]() -> C {
    if constexpr (std::is_floating_point_v<R>)
      return static_cast<R>(g.any_double());
    else
      return C(static_cast<R>(g.integer(-1000, 1000)));
  };
  if (edges.empty() || g.boolean(0.1))
    return any();
  const auto fits = [](const auto x) {
    if constexpr (std::is_integral_v<R> && sizeof(R) == 4)
      return std::abs(double(x)) < 2e9;
    return true;
  };
  const auto e = number(edges[g.draw(edges.size() - 1)]);
  if (!fits(e))
    return any();
  const auto x = C(static_cast<R>(e));
  switch (g.draw(4)) {
  case 0:
    return x;
  case 1:
    return next_down(x);
  case 2:
    return next_up(x);
  case 3: {
    if constexpr (std::is_floating_point_v<R>)
      return static_cast<R>(g.one_of({double(NAN), HUGE_VAL, -HUGE_VAL}));
    return x;
  }
  default: {
    const auto a = number(edges.front()), b = number(edges.back());
    if (!fits(a) || !fits(b) || !(a < b))
      return x;
    if constexpr (std::is_floating_point_v<R>)
      return static_cast<R>(g.uniform(double(a), double(b)));
    else
      return C(static_cast<R>(g.integer(int64_t(a), int64_t(b))));
  }
  }
}

/// Reference: the bin i with edges[i] <= x < edges[i+1], or -1.
template <class C, class E> idx bin_of(const C &x, const std::vector<E> &edges) {
  for (size_t i = 0; i + 1 < edges.size(); ++i)
    if (edges[i] <= x && x < edges[i + 1])
      return static_cast<idx>(i);
  return -1;
}

template <class T> span<const T> cspan(const std::vector<T> &v) {
  return {v.data(), static_cast<idx>(v.size())};
}
template <class T> span<T> mspan(std::vector<T> &v) {
  return {v.data(), static_cast<idx>(v.size())};
}

// ---------------------------------------------------------------- histogram
template <class C, class E, class W> void histogram_(Gen &g) {
  Kind kind;
  const auto edges = gen_edges<E>(g, kind);
  const auto n = g.length(0, 10 + g.size());
  std::vector<C> events;
  std::vector<W> weights, variances;
  for (int64_t i = 0; i < n; ++i) {
    events.push_back(gen_coord<C>(g, edges));
    weights.push_back(static_cast<W>(g.integer(-4, 8)));
    variances.push_back(static_cast<W>(g.integer(0, 8)));
  }
  const bool vars = std::is_floating_point_v<W> && g.boolean(0.3);
  const auto nbin = edges.empty() ? 0 : edges.size() - 1;
  std::vector<W> out(nbin, W(77)), outv(nbin, W(77));
  const auto ctx = cat(kind.name, " edges ", show(edges), " events ", show(events),
                       " weights ", show(weights));
  g.note(ctx);
  const auto run = [&] {
    if (vars) {
      if constexpr (std::is_floating_point_v<W>) {
        const auto m = mspan(out), mv = mspan(outv);
        element::histogram(
            ValueAndVariance<span<W>>{m, mv}, cspan(events),
            ValueAndVariance<span<const W>>{cspan(weights), cspan(variances)},
            cspan(edges));
      }
    } else {
      const auto m = mspan(out);
      element::histogram(m, cspan(events), cspan(weights), cspan(edges));
    }
  };
  if (!kind.sorted) {
    // Steps below the resolution of the type may pass as linear.
    if (kind.name == "unsorted")
      PBT_CHECK("unsorted-edges-refused", throws(run), ctx);
    return;
  }
  run();
  std::vector<W> expected(nbin), expectedv(nbin);
  idx inside = 0;
  for (int64_t i = 0; i < n; ++i)
    if (const auto b = bin_of(events[i], edges); b >= 0) {
      expected[b] += weights[i];
      expectedv[b] += variances[i];
      ++inside;
    }
  for (size_t b = 0; b < nbin; ++b) {
    PBT_EQ("histogram", out[b], expected[b], "bin ", b, " ", ctx);
    if (vars)
      PBT_EQ("histogram-variance", outv[b], expectedv[b], "bin ", b, " ", ctx);
  }
  g.nontrivial(inside > 0 && nbin > 1);
  g.label(kind.name);
}
template <class C, class E> void histogram_w(Gen &g) {
  switch (g.draw(3)) {
  case 0:
    return histogram_<C, E, double>(g);
  case 1:
    return histogram_<C, E, float>(g);
  case 2:
    return histogram_<C, E, int64_t>(g);
  default:
    return histogram_<C, E, int32_t>(g);
  }
}
void histogram(Gen &g) {
  switch (g.draw(5)) {
  case 0:
    return histogram_w<double, double>(g);
  case 1:
    return histogram_w<float, float>(g);
  case 2:
    return histogram_w<int64_t, int64_t>(g);
  case 3:
    return histogram_w<int32_t, int32_t>(g);
  default:
    return histogram_w<time_point, time_point>(g);
  }
}

// ------------------------------------------------- indices for (nested) bins
template <class I, class C, class E> void binning_(Gen &g) {
  Kind kind;
  const auto edges = gen_edges<E>(g, kind);
  if (!kind.sorted || edges.empty())
    throw Discard{};
  const auto nbin = static_cast<idx>(edges.size()) - 1;
  const bool linear = scipp::numeric::islinspace(edges);
  const auto ctx0 = cat(kind.name, " edges ", show(edges));
  idx hits = 0;
  for (int i = 0; i < 6; ++i) {
    const auto x = gen_coord<C>(g, edges);
    const I before = g.boolean(0.2) ? I(-1) : I(g.integer(0, 50));
    const auto b = bin_of(x, edges);
    const I expected = before == -1 || b == -1 ? I(-1) : I(before * nbin + b);
    hits += expected > 0;
    const auto ctx = cat(ctx0, " x ", +number(x), " index ", before);
    g.note(ctx);
    I index = before;
    element::update_indices_by_binning_sorted_edges(index, x, cspan(edges));
    PBT_EQ("sorted-edges", index, expected, ctx);
    if (linear) {
      index = before;
      element::update_indices_by_binning_linspace(index, x, cspan(edges));
      PBT_EQ("linspace", index, expected, ctx);
      PBT_EQ("get-bin",
             scipp::core::get_bin<I>(x, edges, scipp::core::linear_edge_params(edges)),
             I(b), ctx);
    }
  }
  g.nontrivial(hits > 0 && nbin > 1);
  g.label(linear ? "linear" : "not linear");
}
template <class I> void binning_i(Gen &g) {
  switch (g.draw(8)) {
  case 0:
    return binning_<I, double, double>(g);
  case 1:
    return binning_<I, float, float>(g);
  case 2:
    return binning_<I, int64_t, int64_t>(g);
  case 3:
    return binning_<I, int32_t, int32_t>(g);
  case 4:
    return binning_<I, time_point, time_point>(g);
  case 5:
    return binning_<I, int64_t, double>(g);
  case 6:
    return binning_<I, float, double>(g);
  case 7:
    return binning_<I, double, float>(g);
  default:
    return binning_<I, int32_t, int64_t>(g);
  }
}
void binning(Gen &g) {
  return g.boolean() ? binning_i<int64_t>(g) : binning_i<int32_t>(g);
}

// ----------------------------------------------------------------- grouping
template <class T> T gen_label(Gen &g) {
  if constexpr (std::is_same_v<T, std::string>)
    return g.ident(2);
  else if constexpr (std::is_same_v<T, bool>)
    return g.boolean();
  else if constexpr (std::is_floating_point_v<T>)
    return static_cast<T>(g.integer(-6, 6) / 2.0);
  else if constexpr (std::is_same_v<T, int64_t>)
    // Including labels which differ only beyond 32 bits.
    return g.integer(-6, 6) + (g.boolean(0.3) ? g.integer(-2, 2) * (int64_t(1) << 32) : 0);
  else
    return T(g.integer(-6, 6));
}
template <class T> auto show_label(const T &x) {
  if constexpr (std::is_same_v<T, time_point>)
    return x.time_since_epoch();
  else
    return x;
}
/// Groups of type T selected by coords of type X.
template <class I, class T, class X = T> void grouping_(Gen &g) {
  std::vector<T> groups;
  const auto n = g.length(0, 8);
  for (int64_t i = 0; i < n; ++i)
    groups.push_back(gen_label<T>(g));
  const bool unique = [&] {
    for (size_t i = 0; i < groups.size(); ++i)
      for (size_t j = 0; j < i; ++j)
        if (groups[i] == groups[j])
          return false;
    return true;
  }();
  const auto buffer = std::make_unique<T[]>(groups.size() + 1);
  std::copy(groups.begin(), groups.end(), buffer.get());
  const span<const T> s(buffer.get(), static_cast<idx>(groups.size()));
  PBT_EQ("duplicate-groups", throws([&] { (void)element::groups_to_map<I>(s); }),
         !unique, "n ", n);
  if (!unique)
    return;
  const auto map = element::groups_to_map<I>(s);
  for (int i = 0; i < 5; ++i) {
    const X x = gen_label<X>(g);
    const I before = g.boolean(0.2) ? I(-1) : I(g.integer(0, 50));
    const auto it = std::find(groups.begin(), groups.end(), x);
    const I expected = before == -1 || it == groups.end()
                           ? I(-1)
                           : I(before * n + (it - groups.begin()));
    I index = before;
    element::update_indices_by_grouping(index, x, map);
    PBT_EQ("group", index, expected, "before ", before, " groups ", n,
           " label ", show_label(x), " size of types ", sizeof(X), " ", sizeof(T));
    g.nontrivial(expected > 0);
  }
  if constexpr (std::is_same_v<T, int64_t> || std::is_same_v<T, int32_t>) {
    const T offset = static_cast<T>(g.integer(-6, 6));
    const idx ngroup = g.integer(0, 6);
    const X x = g.boolean(0.05)
                    ? g.one_of<X>({std::numeric_limits<X>::max(), std::numeric_limits<X>::min()})
                    : gen_label<X>(g);
    const I before = g.boolean(0.2) ? I(-1) : I(g.integer(0, 50));
    I index = before;
    element::update_indices_by_grouping_contiguous(index, x, ngroup, offset);
    const bool in = x >= offset && x < offset + ngroup && before != -1;
    PBT_EQ("group-contiguous", index, in ? I(before * ngroup + x - offset) : I(-1),
           "x ", x, " groups ", ngroup, " from ", offset, " before ", before);
  }
  {
    const I before = g.boolean(0.2) ? I(-1) : I(g.integer(0, 50));
    const idx nbin = g.integer(1, 9), at = g.integer(0, nbin - 1);
    I index = before;
    element::update_indices_from_existing(index, at, nbin);
    PBT_EQ("existing", index, before == -1 ? I(-1) : I(before * nbin + at), "");
  }
}
template <class I> void grouping_i(Gen &g) {
  switch (g.draw(8)) {
  case 6:
    return grouping_<I, int32_t, int64_t>(g);
  case 7:
    return grouping_<I, int64_t, int32_t>(g);
  case 8:
    return grouping_<I, float>(g);
  case 0:
    return grouping_<I, int64_t>(g);
  case 1:
    return grouping_<I, int32_t>(g);
  case 2:
    return grouping_<I, std::string>(g);
  case 3:
    return grouping_<I, double>(g);
  case 4:
    return grouping_<I, bool>(g);
  default:
    return grouping_<I, time_point>(g);
  }
}
void grouping(Gen &g) {
  return g.boolean() ? grouping_i<int64_t>(g) : grouping_i<int32_t>(g);
}

// ------------------------------------------- values of a histogram at events
template <class C, class E, class W> void lookup_(Gen &g) {
  Kind kind;
  const auto edges = gen_edges<E>(g, kind);
  if (!kind.sorted || edges.size() < 2)
    throw Discard{};
  const auto nbin = edges.size() - 1;
  std::vector<W> weights, variances;
  for (size_t i = 0; i < nbin + 1; ++i) {
    weights.push_back(static_cast<W>(g.integer(1, 100)));
    variances.push_back(static_cast<W>(g.integer(1, 100)));
  }
  const W fill = static_cast<W>(-7);
  const auto hist = [&](const auto &w) {
    return span<const W>(w.data(), static_cast<idx>(nbin));
  };
  const bool linear = scipp::numeric::islinspace(edges);
  bool hit = false;
  for (int i = 0; i < 4; ++i) {
    const auto x = gen_coord<C>(g, edges);
    const auto b = bin_of(x, edges);
    hit |= b > 0;
    const W expected = b < 0 ? fill : weights[b];
    const auto ctx = cat(kind.name, " edges ", show(edges), " x ", +number(x));
    g.note(ctx);
    PBT_EQ("map-sorted",
           element::event::map_sorted_edges(x, cspan(edges), hist(weights), fill),
           expected, ctx);
    if (linear)
      PBT_EQ("map-linspace",
             element::event::map_linspace(x, cspan(edges), hist(weights), fill),
             expected, ctx);
    // Value of the last point that is not after x.
    W previous = fill;
    for (size_t e = 0; e < edges.size(); ++e)
      if (edges[e] <= x)
        previous = weights[e];
    PBT_EQ("lookup-previous",
           element::event::lookup_previous(x, cspan(edges), cspan(weights), fill),
           previous, ctx);
    if constexpr (std::is_floating_point_v<W>) {
      using VV = ValueAndVariance<W>;
      const ValueAndVariance<span<const W>> w{hist(weights), hist(variances)};
      const VV f{fill, W(3)};
      const VV expect = b < 0 ? f : VV{weights[b], variances[b]};
      const VV got = element::event::map_sorted_edges(x, cspan(edges), w, f);
      PBT_CHECK("map-variance",
                got.value == expect.value && got.variance == expect.variance, ctx);
      W d = W(3);
      element::event::map_and_mul_sorted_edges(d, x, cspan(edges), hist(weights));
      PBT_EQ("mul-sorted", d, b < 0 ? W(0) : W(3) * weights[b], ctx);
      if (linear) {
        W d2 = W(3);
        element::event::map_and_mul_linspace(d2, x, cspan(edges), hist(weights));
        PBT_EQ("mul-linspace", d2, d, ctx);
        VV v{W(3), W(5)};
        element::event::map_and_mul_linspace(v, x, cspan(edges), hist(weights));
        PBT_CHECK("mul-variance",
                  v.value == d &&
                      v.variance == (b < 0 ? W(0) : W(5) * weights[b] * weights[b]),
                  ctx);
      }
    }
  }
  g.nontrivial(hit);
}
template <class C, class E> void lookup_w(Gen &g) {
  switch (g.draw(2)) {
  case 0:
    return lookup_<C, E, double>(g);
  case 1:
    return lookup_<C, E, float>(g);
  default:
    return lookup_<C, E, int64_t>(g);
  }
}
void lookup(Gen &g) {
  switch (g.draw(6)) {
  case 0:
    return lookup_w<double, double>(g);
  case 1:
    return lookup_w<float, float>(g);
  case 2:
    return lookup_w<int64_t, int64_t>(g);
  case 3:
    return lookup_w<int32_t, int32_t>(g);
  case 4:
    return lookup_w<int64_t, double>(g);
  case 5:
    return lookup_w<float, double>(g);
  default:
    return lookup_w<time_point, time_point>(g);
  }
}

// --------------------------- range of output bins that an input bin may feed
template <class T> void ranges_(Gen &g) {
  Kind kind;
  const auto edges = gen_edges<T>(g, kind);
  if (!kind.sorted || edges.size() < 2)
    throw Discard{};
  const auto nbin = static_cast<idx>(edges.size()) - 1;
  std::vector<T> coord;
  for (int64_t n = g.length(1, 8); n > 0; --n) {
    const auto x = gen_coord<T>(g, edges);
    if (x == x)
      coord.push_back(x);
  }
  std::sort(coord.begin(), coord.end());
  idx bin0 = 0, bin1 = 0;
  std::vector<idx> lower, upper;
  for (const auto &x : coord) {
    idx a = -7, b = -7;
    element::begin_edge(bin0, a, x, cspan(edges));
    element::end_edge(bin1, b, x, cspan(edges));
    lower.push_back(a);
    upper.push_back(b);
  }
  const auto ctx = cat("edges ", show(edges), " coord ", show(coord));
  g.note(ctx);
  for (size_t i = 0; i < coord.size(); ++i) {
    idx a = 0, b = nbin - 1;
    for (idx e = 0; e < nbin; ++e)
      if (edges[e] <= coord[i])
        a = e;
    for (idx e = nbin - 1; e >= 0; --e)
      if (coord[i] <= edges[e + 1])
        b = e;
    PBT_EQ("begin", lower[i], a, "coord ", +number(coord[i]), " ", ctx);
    PBT_EQ("end", upper[i], b + 2, "coord ", +number(coord[i]), " ", ctx);
    // No event between two bin edges of the input can be in another output bin.
    for (size_t j = i + 1; j < coord.size(); ++j) {
      const auto bi = bin_of(coord[i], edges);
      if (bi >= 0 && coord[i] < coord[j])
        PBT_CHECK("enclosed", lower[i] <= bi && bi < upper[j] - 1, ctx);
    }
  }
  g.nontrivial(coord.size() > 1 && nbin > 1);
}
void ranges(Gen &g) {
  switch (g.draw(3)) {
  case 0:
    return ranges_<double>(g);
  case 1:
    return ranges_<float>(g);
  case 2:
    return ranges_<int64_t>(g);
  default:
    return ranges_<time_point>(g);
  }
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C10";
  p.rule =
      "bin edges that are linear, moved by up to 40%, irregular, repeated, some "
      "ulp apart or unsorted, in float, double, int32, int64 and time points; "
      "coordinates at edges, next to edges, between, NaN and infinite; compared "
      "with a linear search for the bin with lower edge <= x < upper edge. "
      "Non-trivial: more than one bin, and an event (or group) is inside.";
  p.laws = {{"histogram", 300000, 4000000, histogram},
            {"binning", 400000, 5000000, binning},
            {"grouping", 300000, 3000000, grouping},
            {"lookup", 300000, 4000000, lookup},
            {"ranges", 300000, 3000000, ranges}};
  return run(argc, argv, p);
}
