// Property-based testing engine of the checks in /verif.
//
// A test case is a finite sequence of integer choices.  Generators draw choices
// from a Gen, so shrinking (delete / zero / lower choices, keep the sequence
// shortlex smaller) and replay work on any structured value or operation
// history without per-type code.  Every choice comes from Gen: a run is a pure
// function of the code under test, VERIF_SEED and the tier.
//
// Cases run in forked workers.  A crash, a sanitizer report or a hang of the
// code under test is therefore an observation like any other failing case, and
// is shrunk the same way.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

struct Failure {
  std::string signature;
  std::string message;
};
struct Discard {};

class Gen {
public:
  Gen(uint64_t seed, int size) : m_size(size), m_state(seed) {}
  Gen(std::vector<uint64_t> choices, int size)
      : m_size(size), m_replay(true), m_input(std::move(choices)) {}

  /// Integer in [0, bound]; 0 is the simplest.
  uint64_t draw(uint64_t bound);
  /// Integer in [lo, hi]; shrinks towards the value closest to zero.
  int64_t integer(int64_t lo, int64_t hi);
  /// Size in [lo, hi], skewed towards small values.
  int64_t length(int64_t lo, int64_t hi);
  bool boolean(double p_true = 0.5);
  /// Index drawn with the given weights; index 0 is the simplest.
  size_t weighted(std::initializer_list<int> weights);
  template <class C> auto &pick(C &&c) { return c[draw(std::size(c) - 1)]; }
  template <class T> T one_of(std::initializer_list<T> l) {
    return *(l.begin() + draw(l.size() - 1));
  }
  /// Finite double from several families (small ints, fractions, wide range).
  double finite();
  /// As finite(), plus nan, inf, -0, denormals, extremes.
  double any_double();
  double uniform(double lo, double hi);
  template <class T> std::vector<T> permutation(std::vector<T> v) {
    for (size_t i = 0; i + 1 < v.size(); ++i)
      std::swap(v[i], v[i + draw(v.size() - 1 - i)]);
    return v;
  }
  std::string ident(int maxlen = 6);

  int size() const { return m_size; }

  // ---- reporting
  void nontrivial(bool b = true) { m_nontrivial |= b; }
  void label(const std::string &l) { m_labels.insert(l); }
  /// Description of the case, kept for samples and for the replay file.
  template <class F> void note(F &&f) {
    if (!m_verbose)
      return;
    if constexpr (std::is_invocable_v<F>)
      m_notes += f();
    else
      m_notes += f;
    m_notes += '\n';
    flush_notes();
  }
  void flush_notes();

  // ---- engine side
  const std::vector<uint64_t> &trace() const { return m_trace; }
  bool m_nontrivial = false;
  std::set<std::string> m_labels;
  bool m_verbose = false;
  std::string m_notes;
  int m_size;

private:
  uint64_t next();
  bool m_replay = false;
  uint64_t m_state = 0;
  std::vector<uint64_t> m_input;
  size_t m_pos = 0;
  std::vector<uint64_t> m_trace;
};

struct Law {
  std::string name;
  int quick;    // number of cases, quick tier
  int thorough; // number of cases, thorough tier
  std::function<void(Gen &)> run;
  bool schedule = false; // outcome depends on thread timing: replay may pass
  int per_process = 0;   // most cases one process may run (0: no limit)
};

struct Property {
  std::string id;
  std::string rule; // how cases are made, what makes one non-trivial
  std::vector<std::string> assumptions;
  std::vector<Law> laws;
  std::function<void()> child_init; // run once in each worker
};

int run(int argc, char **argv, const Property &p);

[[noreturn]] void fail(const std::string &signature, const std::string &msg);

template <class... Ts> std::string cat(const Ts &...ts) {
  std::ostringstream s;
  s.precision(17);
  (s << ... << ts);
  return s.str();
}
template <class C> std::string seq(const C &c) {
  std::ostringstream s;
  s.precision(17);
  s << '[';
  bool first = true;
  for (const auto &x : c) {
    s << (first ? "" : ", ") << x;
    first = false;
  }
  s << ']';
  return s.str();
}

template <class F> bool throws(F &&f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

} // namespace pbt

#define PBT_CHECK(sig, cond, ...)                                              \
  do {                                                                         \
    if (!(cond))                                                               \
      ::pbt::fail(sig, ::pbt::cat("violated: " #cond " | ", __VA_ARGS__));     \
  } while (0)
#define PBT_EQ(sig, a, b, ...)                                                 \
  do {                                                                         \
    const auto pbt_a_ = (a);                                                   \
    const auto pbt_b_ = (b);                                                   \
    if (!(pbt_a_ == pbt_b_))                                                   \
      ::pbt::fail(sig, ::pbt::cat(#a " = ", pbt_a_, " but " #b " = ", pbt_b_,  \
                                  " | ", __VA_ARGS__));                        \
  } while (0)
