// C11: sorting events into output bins moves every event once, in order, and
// the bookkeeping of sparse bin sizes agrees with dense arrays.
// sanitize: -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-omit-frame-pointer
#include "pbt.h"

#include <algorithm>
#include <array>
#include <memory>

#include "scipp/core/element/bin_detail.h"
#include "scipp/core/element/bin.h"
#include "scipp/core/element/cumulative.h"
#include "scipp/core/element/map_to_bins.h"
#include "scipp/core/subbin_sizes.h"

using namespace pbt;
using scipp::span;
using scipp::core::SubbinSizes;
using scipp::core::time_point;
using scipp::core::ValueAndVariance;
namespace element = scipp::core::element;
using idx = scipp::index;

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1";
}

namespace {
std::string show(const SubbinSizes &s) {
  return cat(s.offset(), "+", seq(s.sizes()));
}
constexpr idx range = 24; // dense length of the models
using Dense = std::array<idx, range>;
Dense dense(const SubbinSizes &s, const std::string &ctx) {
  Dense d{};
  PBT_CHECK("bounds", s.offset() >= 0 && s.offset() + idx(s.sizes().size()) <= range,
            show(s), " ", ctx);
  for (size_t i = 0; i < s.sizes().size(); ++i)
    d[s.offset() + i] = s.sizes()[i];
  return d;
}
std::pair<idx, idx> extent(const SubbinSizes &s) {
  return {s.offset(), s.offset() + idx(s.sizes().size())};
}
SubbinSizes gen_sizes(Gen &g, idx min_offset = 0) {
  const idx offset = g.integer(min_offset, 12);
  SubbinSizes::container_type v(g.length(0, 11));
  for (auto &x : v)
    x = g.integer(0, 9);
  return {offset, std::move(v)};
}

void algebra(Gen &g) {
  SubbinSizes a = gen_sizes(g);
  const auto steps = g.length(1, 10);
  bool offsets_differ = false;
  for (int64_t s = 0; s < steps; ++s) {
    const SubbinSizes b = gen_sizes(g);
    const auto op = g.draw(8);
    const auto ctx = cat("op ", op, " on ", show(a), " and ", show(b));
    g.note(ctx);
    const auto da = dense(a, ctx), db = dense(b, ctx);
    const auto [ab, ae] = extent(a);
    const auto [bb, be] = extent(b);
    offsets_differ |= ab != bb && a.sizes().size() > 1 && b.sizes().size() > 1;
    Dense expected{};
    std::pair<idx, idx> ext{std::min(ab, bb), std::max(ae, be)};
    const auto combine = [&](const int sign) {
      for (idx i = 0; i < range; ++i)
        expected[i] = da[i] + sign * db[i];
    };
    SubbinSizes r;
    switch (op) {
    case 0:
      combine(1);
      r = a + b;
      break;
    case 1:
      combine(-1);
      r = a - b;
      break;
    case 2:
      combine(1);
      r = a;
      r += b;
      break;
    case 3:
      combine(-1);
      r = a;
      r -= b;
      break;
    case 4:
      ext = {ab, ae};
      for (idx i = 0; i < range; ++i)
        expected[i] = da[i] + (i >= ab && i < ae ? db[i] : 0);
      r = a;
      PBT_CHECK("add-intersection", &r.add_intersection(b) == &r, ctx);
      break;
    case 5: {
      ext = {ab, ae};
      idx sum = 0;
      for (idx i = 0; i < range; ++i) {
        expected[i] = i >= ab && i < ae ? sum : 0;
        sum += da[i];
      }
      PBT_EQ("sum", a.sum(), sum, ctx);
      r = a.cumsum_exclusive();
      break;
    }
    case 6: {
      ext = {ab, ae};
      const idx v = g.integer(0, 5);
      for (idx i = ab; i < ae; ++i)
        expected[i] = v;
      r = a;
      r = v;
      break;
    }
    case 7:
      ext = {ab, ae};
      expected = da;
      PBT_EQ("equal", a == b, ab == bb && ae == be && da == db, ctx);
      r = a;
      PBT_CHECK("equal", r == a, ctx);
      break;
    default: { // step of a scan: the offset of the argument is not lower
      const auto x0 = gen_sizes(g, ab <= 12 ? ab : 12);
      auto x = x0;
      if (x0.offset() < ab)
        continue;
      const auto dx = dense(x0, ctx);
      r = a;
      r.exclusive_scan(x);
      ext = extent(x0);
      Dense previous{};
      for (idx i = ext.first; i < ext.second; ++i) {
        previous[i] = da[i];
        expected[i] = da[i] + dx[i];
      }
      PBT_CHECK("scan-previous", extent(x) == ext && dense(x, ctx) == previous,
                show(x), " arg ", show(x0), " ", ctx);
    }
    }
    PBT_CHECK("extent", extent(r) == ext, show(r), " expected [", ext.first, ",",
              ext.second, ") ", ctx);
    const auto dr = dense(r, ctx);
    PBT_CHECK("values", dr == expected, show(r), " expected ", seq(expected), " ",
              ctx);
    if (std::all_of(r.sizes().begin(), r.sizes().end(),
                    [](auto x) { return x >= 0; }))
      a = r;
  }
  PBT_CHECK("negative-offset", throws([] { SubbinSizes(-1, {}); }), "");
  g.nontrivial(offsets_differ);
}

// Cumulative sums
template <class T> void scan_(Gen &g) {
  const auto n = g.length(0, 20);
  T inc{}, exc{};
  T model{};
  for (int64_t i = 0; i < n; ++i) {
    const T v = static_cast<T>(g.integer(-100, 100));
    T a = v, b = v;
    element::exclusive_scan(exc, a);
    element::inclusive_scan(inc, b);
    PBT_EQ("exclusive", a, model, "step ", i);
    model += v;
    PBT_EQ("inclusive", b, model, "step ", i);
    PBT_CHECK("accumulated", inc == model && exc == model, "step ", i);
  }
  g.nontrivial(n > 2);
}
void scan(Gen &g) {
  switch (g.draw(3)) {
  case 0:
    return scan_<double>(g);
  case 1:
    return scan_<float>(g);
  case 2:
    return scan_<int64_t>(g);
  default:
    return scan_<int32_t>(g);
  }
}

template <class T> T event(idx i) {
  if constexpr (std::is_same_v<T, std::string>)
    return "event number " + std::to_string(i);
  else if constexpr (std::is_same_v<T, bool>)
    return i % 3 == 0;
  else if constexpr (std::is_same_v<T, Eigen::Vector3d>)
    return Eigen::Vector3d(double(i), -double(i), 0.5);
  else
    return T(static_cast<int32_t>(i));
}

template <class T, class I> void place_(Gen &g) {
  // The algorithm changes with the number of bins and of events per bin.
  idx nbin = 1, n = 0;
  switch (g.weighted({10, 4, 3, 1})) {
  case 0:
    nbin = g.length(1, 20);
    n = g.length(0, 60);
    break;
  case 1:
    nbin = g.integer(500, 700);
    n = g.integer(0, 8000);
    break;
  case 2:
    nbin = g.one_of<idx>({512, 513, 1023, 1024, 1025});
    n = 4 * nbin + g.integer(-2, 6 * nbin);
    break;
  default: {
    if (g.size() < 20 || !g.boolean(0.2))
      throw Discard{};
    nbin = g.one_of<idx>({16384, 16385, 65537});
    n = 4 * nbin + g.integer(1, 1000);
  }
  }
  // Bin of each event, from a small generator (few choices to shrink).
  const uint64_t mul = 2 * g.draw(5000) + 1, add = g.draw(1000);
  const int skip = static_cast<int>(g.draw(4)); // one in so many is dropped
  const int style = static_cast<int>(g.draw(2));
  std::vector<I> bin(n);
  uint64_t state = add;
  for (idx i = 0; i < n; ++i) {
    state = state * 6364136223846793005ULL + mul;
    const auto r = (state >> 33);
    bin[i] = style == 0   ? I(r % nbin)
             : style == 1 ? I((r % 8) * (nbin - 1) / 7)
                          : I(std::min<idx>(nbin - 1, i * nbin / std::max<idx>(n, 1)));
    if (skip > 0 && (r >> 8) % (skip + 1) == 0)
      bin[i] = -1;
  }
  const auto ctx = cat(n, " events in ", nbin, " bins, style ", style, " skip ", skip);
  g.note(ctx);
  g.label(nbin > 512 && nbin * 4 < n ? "chunked" : "direct");
  const span<const I> ind(bin.data(), n);
  // Sizes
  const idx offset = g.integer(0, 3);
  const auto counts = element::count_indices(ind, offset, nbin);
  std::vector<idx> model(nbin);
  for (const auto b : bin)
    if (b >= 0)
      ++model[b];
  PBT_EQ("count-offset", counts.offset(), offset, ctx);
  PBT_CHECK("count", counts.sizes() == model, ctx);
  // Events
  std::vector<std::vector<idx>> order(nbin);
  for (idx i = 0; i < n; ++i)
    if (bin[i] >= 0)
      order[bin[i]].push_back(i);
  const idx gap = g.integer(0, 2); // output bins need not be adjacent
  SubbinSizes::container_type begin(nbin);
  idx total = gap;
  for (idx b = 0; b < nbin; ++b) {
    begin[b] = total;
    total += model[b] + (b % 5 == 0 ? gap : 0);
  }
  const auto starts = begin;
  const SubbinSizes offsets(0, std::move(begin));
  const auto in = std::make_unique<T[]>(n + 1);
  const auto invar = std::make_unique<T[]>(n + 1);
  const auto out = std::make_unique<T[]>(total + 1);
  const auto outvar = std::make_unique<T[]>(total + 1);
  for (idx i = 0; i < n; ++i)
    in[i] = event<T>(i);
  std::fill(out.get(), out.get() + total + 1, event<T>(-1));
  bool vars = false;
  if constexpr (std::is_floating_point_v<T>) {
    vars = g.boolean(0.4);
    for (idx i = 0; i < n; ++i)
      invar[i] = event<T>(i) + T(0.5);
    if (vars)
      element::bin(ValueAndVariance<span<T>>{span<T>(out.get(), total),
                                             span<T>(outvar.get(), total)},
                   offsets,
                   ValueAndVariance<span<const T>>{span<const T>(in.get(), n),
                                                   span<const T>(invar.get(), n)},
                   ind);
  }
  if (!vars)
    element::bin(span<T>(out.get(), total), offsets, span<const T>(in.get(), n), ind);
  std::vector<bool> written(total + 1);
  for (idx b = 0; b < nbin; ++b)
    for (idx k = 0; k < model[b]; ++k) {
      const auto at = starts[b] + k;
      written[at] = true;
      PBT_CHECK("placed", out[at] == event<T>(order[b][k]), "bin ", b, " event ", k,
                " ", ctx);
      if constexpr (std::is_floating_point_v<T>)
        if (vars)
          PBT_CHECK("placed-variance", outvar[at] == event<T>(order[b][k]) + T(0.5),
                    "bin ", b, " event ", k, " ", ctx);
    }
  for (idx i = 0; i <= total; ++i)
    if (!written[i])
      PBT_CHECK("untouched", out[i] == event<T>(-1), "position ", i, " ", ctx);
  g.nontrivial(nbin > 1 && n > 2);
}
template <class I> void place_i(Gen &g) {
  switch (g.draw(7)) {
  case 0:
    return place_<double, I>(g);
  case 1:
    return place_<float, I>(g);
  case 2:
    return place_<int64_t, I>(g);
  case 3:
    return place_<int32_t, I>(g);
  case 4:
    return place_<bool, I>(g);
  case 5:
    return place_<std::string, I>(g);
  case 6:
    return place_<time_point, I>(g);
  default:
    return place_<Eigen::Vector3d, I>(g);
  }
}
void place(Gen &g) { return g.boolean() ? place_i<int64_t>(g) : place_i<int32_t>(g); }

// The chunked variants for any chunk size agree with the direct one.
void chunks(Gen &g) {
  const idx nbin = g.length(1, 300), n = g.length(0, 3000);
  std::vector<int64_t> bin(n);
  std::vector<double> data(n);
  uint64_t state = g.draw(1000);
  const auto mul = 2 * g.draw(5000) + 1;
  for (idx i = 0; i < n; ++i) {
    state = state * 6364136223846793005ULL + mul;
    bin[i] = idx((state >> 33) % (nbin + 1)) - 1;
    data[i] = double(i);
  }
  std::vector<idx> bins(nbin), sizes(nbin + 1);
  for (const auto b : bin)
    ++sizes[b + 1];
  for (idx b = 1; b < nbin; ++b)
    bins[b] = bins[b - 1] + sizes[b];
  const auto go = [&](auto &&f) {
    auto b = bins;
    std::vector<double> out(n, -1.0);
    f(out, b, data, bin);
    return out;
  };
  g.note(cat(n, " events ", nbin, " bins"));
  const auto expected = go(element::map_to_bins_direct);
  std::vector<double> model(n, -1.0);
  auto b = bins;
  for (idx i = 0; i < n; ++i)
    if (bin[i] >= 0)
      model[b[bin[i]]++] = data[i];
  PBT_CHECK("direct", expected == model, n, " ", nbin);
  PBT_CHECK("chunk1", go(element::map_to_bins_chunkwise<1>) == expected, n, " ", nbin);
  PBT_CHECK("chunk4", go(element::map_to_bins_chunkwise<4>) == expected, n, " ", nbin);
  PBT_CHECK("chunk64", go(element::map_to_bins_chunkwise<64>) == expected, n, " ", nbin);
  PBT_CHECK("chunk256", go(element::map_to_bins_chunkwise<256>) == expected, n, " ",
            nbin);
  g.nontrivial(n > nbin && nbin > 4);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C11";
  p.rule =
      "sparse size rows with random offset and length combined in histories and "
      "compared with dense arrays; events of 8 types assigned to up to 65537 bins "
      "(scattered, clustered, sorted, some dropped) and placed, compared with the "
      "list of events per bin. Non-trivial: rows with different offsets and more "
      "than one entry; more than one bin and more than two events.";
  p.laws = {{"algebra", 60000, 1500000, algebra},
            {"scan", 40000, 400000, scan},
            {"place", 6000, 120000, place},
            {"chunks", 3000, 60000, chunks}};
  return run(argc, argv, p);
}
