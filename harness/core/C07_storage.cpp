// C07: element storage has value semantics; memory and parallel helpers keep
// every element exactly once.
// sanitize: -fsanitize=address -fno-omit-frame-pointer
#include "pbt.h"

#include <atomic>
#include <cstring>
#include <thread>

#include "scipp/common/index.h"
#include "scipp/core/aligned_allocator.h"
#include "scipp/core/element_array.h"
#include "scipp/core/memory_pool.h"
#include "scipp/core/parallel.h"

namespace serial {
namespace scipp {
using ::scipp::index;
}
#include "scipp/core/parallel-fallback.h"
} // namespace serial

using namespace pbt;
using namespace scipp::core;
using idx = scipp::index;

// Leak detection needs ptrace, which checks may not use.
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1";
}

namespace {
template <class T> T value(uint64_t i) {
  if constexpr (std::is_same_v<T, std::string>)
    return i == 0 ? std::string() : std::string(1 + i % 40, char('a' + i % 26));
  else
    return static_cast<T>(i);
}

template <class T> void array_history(Gen &g) {
  using Model = std::optional<std::vector<T>>; // nothing: the null array
  constexpr size_t n_slots = 3;
  std::vector<element_array<T>> a(n_slots);
  std::vector<Model> m(n_slots);
  std::string log;
  auto check = [&] {
    for (size_t s = 0; s < n_slots; ++s) {
      const auto &x = a[s];
      const idx want = m[s] ? static_cast<idx>(m[s]->size()) : -1;
      PBT_EQ("size", x.size(), want, "slot ", s, " after ", log);
      PBT_EQ("bool", static_cast<bool>(x), m[s].has_value(), "slot ", s,
             " after ", log);
      PBT_EQ("empty", x.empty(), want == 0, "slot ", s, " after ", log);
      PBT_EQ("range", x.end() - x.begin(), std::max<idx>(0, want), "slot ", s,
             " after ", log);
      PBT_CHECK("data", x.begin() == x.data(), "slot ", s, " after ", log);
      for (idx i = 0; i < want; ++i)
        PBT_CHECK("value", x.data()[i] == (*m[s])[i], "slot ", s, " element ",
                  i, " after ", log);
    }
  };
  auto len = [&]() -> idx {
    if (g.boolean(0.15))
      return 0;
    return g.boolean(0.06) ? g.integer(1000, 3000) : g.length(1, 30);
  };
  const auto steps = g.length(1, 14);
  int changes = 0;
  uint64_t fresh = 1;
  for (int64_t k = 0; k < steps; ++k) {
    const auto s = g.draw(n_slots - 1);
    const auto t = g.draw(n_slots - 1);
    switch (g.draw(12)) {
    case 0: {
      const auto n = len();
      const auto v = value<T>(fresh++);
      log += cat("; ", s, " = array(", n, ", value)");
      a[s] = element_array<T>(n, v);
      m[s] = std::vector<T>(n, v);
      break;
    }
    case 1: {
      const auto n = len();
      log += cat("; ", s, " = array(", n, ")");
      a[s] = element_array<T>(n);
      m[s] = std::vector<T>(n);
      break;
    }
    case 2: {
      std::vector<T> v;
      for (auto n = len(); n > 0; --n)
        v.push_back(value<T>(fresh++));
      log += cat("; ", s, " = array(range of ", v.size(), ")");
      if (g.boolean())
        a[s] = element_array<T>(v.begin(), v.end());
      else
        a[s] = element_array<T>(v);
      m[s] = v;
      break;
    }
    case 3: {
      const auto x = value<T>(fresh++), y = value<T>(fresh++);
      log += cat("; ", s, " = {x, y}");
      a[s] = element_array<T>{x, y};
      m[s] = std::vector<T>{x, y};
      break;
    }
    case 4:
      log += cat("; ", s, " = ", t);
      a[s] = a[t];
      m[s] = m[t];
      break;
    case 5: {
      log += cat("; ", s, " = copy(", t, ")");
      element_array<T> c(a[t]);
      const auto mt = m[t];
      a[s] = std::move(c);
      m[s] = mt;
      break;
    }
    case 6:
      if (s == t)
        break;
      log += cat("; ", s, " = move(", t, ")");
      a[s] = std::move(a[t]);
      m[s] = m[t];
      m[t].reset();
      break;
    case 7: {
      log += cat("; swap ", s, " ", t);
      element_array<T> c(std::move(a[s]));
      PBT_CHECK("moved-from", !a[s] && a[s].begin() == a[s].end(), log);
      if (s != t) {
        a[s] = std::move(a[t]);
        std::swap(m[s], m[t]);
        a[t] = std::move(c);
      } else {
        a[s] = std::move(c);
      }
      break;
    }
    case 8:
      log += cat("; reset ", s);
      a[s].reset();
      m[s].reset();
      break;
    case 9: {
      const auto n = len();
      log += cat("; resize ", s, " to ", n);
      a[s].resize(n);
      m[s] = std::vector<T>(n);
      break;
    }
    case 10: { // contents are unspecified: written before they are read
      const auto n = len();
      log += cat("; resize for overwrite ", s, " to ", n);
      a[s].resize(n, init_for_overwrite);
      m[s] = std::vector<T>(n);
      PBT_EQ("size", a[s].size(), n, log);
      for (idx i = 0; i < n; ++i)
        a[s].data()[i] = (*m[s])[i] = value<T>(fresh++);
      break;
    }
    case 11:
      if (m[s] && !m[s]->empty()) {
        const auto i = g.draw(m[s]->size() - 1);
        log += cat("; ", s, "[", i, "] = value");
        *(a[s].begin() + i) = (*m[s])[i] = value<T>(fresh++);
      }
      break;
    default: { // refused, and nothing changes
      const idx n = g.one_of<idx>({-2, -100, sizeof(T) == 8 ? idx(1) << 61 : -3});
      log += cat("; resize ", s, " to ", n);
      PBT_CHECK("bad-size", throws([&] { a[s].resize(n); }), log);
      PBT_CHECK("bad-size", throws([&] { a[s].resize(n, init_for_overwrite); }),
                log);
    }
    }
    ++changes;
    check();
  }
  g.note(log);
  g.nontrivial(changes > 3);
  g.label(cat("element size ", sizeof(T)));
}
void array(Gen &g) {
  switch (g.draw(3)) {
  case 0:
    return array_history<int64_t>(g);
  case 1:
    return array_history<std::string>(g);
  case 2:
    return array_history<bool>(g);
  default:
    return array_history<double>(g);
  }
}

struct Block {
  unsigned char *p;
  size_t n;
  unsigned char fill;
};
void check_block(const Block &b, const std::string &log) {
  for (size_t i = 0; i < b.n; ++i)
    PBT_CHECK("pool-contents", b.p[i] == b.fill, "byte ", i, " of ", b.n,
              " after ", log);
}

void pool(Gen &g) {
  MemoryPool p;
  std::vector<Block> live;
  std::string log;
  const auto steps = g.length(1, 40);
  unsigned char fill = 1;
  bool reused = false;
  int freed = 0;
  for (int64_t k = 0; k < steps; ++k) {
    switch (g.weighted({5, 4, 1})) {
    case 0: {
      const auto n = static_cast<size_t>(
          g.boolean(0.7) ? g.one_of<int64_t>({1, 8, 64, 100})
                         : g.length(1, 300));
      log += cat("; allocate ", n);
      auto *q = static_cast<unsigned char *>(p.allocate(n));
      PBT_CHECK("pool-null", q != nullptr, log);
      PBT_CHECK("pool-aligned", reinterpret_cast<uintptr_t>(q) % 64 == 0, log);
      for (const auto &b : live)
        PBT_CHECK("pool-overlap", q + n <= b.p || b.p + b.n <= q, log);
      std::memset(q, fill, n);
      live.push_back({q, n, fill++});
      reused |= freed > 0;
      break;
    }
    case 1: {
      if (live.empty())
        break;
      const auto i = g.draw(live.size() - 1);
      log += cat("; deallocate #", i, " of size ", live[i].n);
      check_block(live[i], log);
      p.deallocate(live[i].p);
      const auto old = live[i];
      live.erase(live.begin() + i);
      ++freed;
      if (g.boolean(0.2))
        PBT_CHECK("pool-double-free", throws([&] { p.deallocate(old.p); }),
                  log);
      break;
    }
    default: {
      int x = 0;
      PBT_CHECK("pool-foreign", throws([&] { p.deallocate(&x); }), log);
    }
    }
    for (const auto &b : live)
      check_block(b, log);
  }
  g.note(log);
  g.nontrivial(live.size() > 1 && reused);
}

void pool_threads(Gen &g) {
  MemoryPool p;
  const auto n_threads = static_cast<size_t>(g.integer(2, 4));
  std::atomic<int> errors{0};
  std::vector<std::thread> threads;
  std::vector<std::vector<uint64_t>> choice(n_threads);
  for (auto &c : choice)
    for (int i = 0; i < 60; ++i)
      c.push_back(g.draw(7));
  for (size_t t = 0; t < n_threads; ++t)
    threads.emplace_back([&, t] {
      std::vector<Block> live;
      for (auto c : choice[t]) {
        if (c < 5) {
          const size_t n = 16 << (c % 3);
          auto *q = static_cast<unsigned char *>(p.allocate(n));
          const auto fill = static_cast<unsigned char>(t * 50 + live.size());
          std::memset(q, fill, n);
          live.push_back({q, n, fill});
        } else if (!live.empty()) {
          const auto b = live[c % live.size()];
          for (size_t i = 0; i < b.n; ++i)
            errors += b.p[i] != b.fill;
          live.erase(live.begin() + c % live.size());
          p.deallocate(b.p);
        }
      }
      for (const auto &b : live) {
        for (size_t i = 0; i < b.n; ++i)
          errors += b.p[i] != b.fill;
        p.deallocate(b.p);
      }
    });
  for (auto &t : threads)
    t.join();
  PBT_EQ("pool-threads", errors.load(), 0, n_threads, " threads");
  g.nontrivial();
}

template <class T, Alignment A> void aligned_typed(Gen &g) {
  AlignedAllocator<T, A> alloc;
  std::vector<std::pair<T *, size_t>> live;
  const auto steps = g.length(1, 20);
  for (int64_t k = 0; k < steps; ++k) {
    if (live.empty() || g.boolean(0.7)) {
      const auto n = static_cast<size_t>(g.length(1, 50));
      T *p = alloc.allocate(n);
      PBT_CHECK("aligned", reinterpret_cast<uintptr_t>(p) %
                                   static_cast<size_t>(A) ==
                               0,
                n);
      for (size_t i = 0; i < n; ++i)
        p[i] = static_cast<T>(i + live.size());
      for (const auto &[q, m] : live)
        PBT_CHECK("aligned-overlap", p + n <= q || q + m <= p, n);
      live.emplace_back(p, n);
    } else {
      alloc.deallocate(live.back().first, live.back().second);
      live.pop_back();
    }
  }
  for (size_t s = 0; s < live.size(); ++s)
    for (size_t i = 0; i < live[s].second; ++i)
      PBT_CHECK("aligned-contents", live[s].first[i] == static_cast<T>(i + s),
                s, " ", i);
  g.nontrivial(live.size() > 1);
  std::vector<T, AlignedAllocator<T, A>> v;
  std::vector<T> w;
  for (int64_t k = 0; k < steps; ++k) {
    v.push_back(static_cast<T>(k));
    w.push_back(static_cast<T>(k));
  }
  auto u = v;
  PBT_CHECK("vector", std::equal(v.begin(), v.end(), w.begin(), w.end()) &&
                          u == v,
            steps);
  PBT_CHECK("vector-aligned",
            reinterpret_cast<uintptr_t>(v.data()) % static_cast<size_t>(A) == 0,
            steps);
  for (auto &[p, n] : live)
    alloc.deallocate(p, n);
}
void aligned(Gen &g) {
  switch (g.draw(3)) {
  case 0:
    return aligned_typed<double, Alignment::AVX>(g);
  case 1:
    return aligned_typed<char, Alignment::SSE>(g);
  case 2:
    return aligned_typed<int32_t, Alignment::AVX>(g);
  default:
    return aligned_typed<char, Alignment::Normal>(g);
  }
}

template <class For, class Range>
void cover(const char *what, const For &run, const Range &range, idx begin,
           idx end, const std::string &ctx) {
  std::vector<std::atomic<int>> hits(std::max<idx>(0, end - begin));
  std::atomic<int> outside{0};
  run(range, [&](const auto &r) {
    for (idx i = r.begin(); i < r.end(); ++i) {
      if (i < begin || i >= end)
        ++outside;
      else
        ++hits[i - begin];
    }
  });
  PBT_EQ("parallel-range", outside.load(), 0, what, ", ", ctx);
  for (size_t i = 0; i < hits.size(); ++i)
    PBT_EQ("parallel-once", hits[i].load(), 1, what, ", index ", begin + idx(i),
           ", ", ctx);
}

void parallel_loops(Gen &g) {
  const idx begin = g.boolean() ? 0 : g.integer(-50, 50);
  const idx end = begin + (g.boolean(0.1) ? 0 : g.boolean(0.2) ? g.length(1, 5000)
                                                              : g.length(0, 200));
  const auto grain = g.boolean() ? idx(-1) : g.length(1, 100);
  const auto ctx = cat("[", begin, ", ", end, ") grain ", grain);
  g.note(ctx);
  cover("threads", [](auto &&...a) { parallel::parallel_for(a...); },
        parallel::blocked_range(begin, end, grain), begin, end, ctx);
  namespace sp = serial::scipp::core::parallel;
  cover("serial", [](auto &&...a) { sp::parallel_for(a...); },
        sp::blocked_range(begin, end, grain), begin, end, ctx);
  std::vector<int64_t> v;
  for (idx i = begin; i < end; ++i)
    v.push_back(static_cast<int64_t>(g.draw(1000)));
  auto want = v, w = v;
  std::sort(want.begin(), want.end());
  parallel::parallel_sort(v.begin(), v.end());
  sp::parallel_sort(w.begin(), w.end());
  PBT_CHECK("parallel-sort", v == want, ctx);
  PBT_CHECK("serial-sort", w == want, ctx);
  std::sort(want.begin(), want.end(), std::greater<>());
  parallel::parallel_sort(v.begin(), v.end(), std::greater<>());
  PBT_CHECK("parallel-sort-by", v == want, ctx);
  g.nontrivial(end - begin > 24);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C07";
  p.rule =
      "histories over three arrays (construct, copy, move, swap, assign to "
      "self, resize, reset, write, refused sizes) against optional<vector>; "
      "histories of allocations with byte patterns, also from 2-4 threads; "
      "index ranges and grain sizes of parallel loops. Non-trivial: more than "
      "three steps; more than one live block after a block was reused; more "
      "than 24 indices.";
  p.laws = {{"array", 120000, 1500000, array},
            {"pool", 40000, 500000, pool},
            {"aligned", 20000, 200000, aligned},
            {"parallel", 20000, 200000, parallel_loops},
            {"pool_threads", 600, 6000, pool_threads, true}};
  return run(argc, argv, p);
}
