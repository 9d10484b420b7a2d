#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <unordered_set>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {
namespace {
using Clock = std::chrono::steady_clock;

constexpr size_t max_trace = 1 << 16;
constexpr size_t max_text = 1 << 16;

// Per-worker record in shared memory: survives a crash of the worker.
struct Shared {
  volatile uint64_t case_index;
  volatile uint64_t started; // number of cases begun, watched for hangs
  volatile uint64_t ntrace;
  uint64_t trace[max_trace];
  volatile uint64_t nnotes;
  char notes[max_text];
  // result of a finished worker / attempt
  volatile int outcome; // 0 running, 1 ok, 2 failed, 3 discarded
  volatile uint64_t nmsg, nsig;
  char msg[max_text];
  char sig[512];
};

Shared *g_shared = nullptr; // this worker's record
// Set once a law has failed; shared by the workers of the law.
volatile int *g_stop = nullptr;
volatile int *map_flag() {
  void *p = mmap(nullptr, sizeof(int), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return static_cast<volatile int *>(p);
}

uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return mix(h);
}
uint64_t hash_trace(const std::vector<uint64_t> &t) {
  uint64_t h = 7;
  for (auto c : t)
    h = mix(h ^ c);
  return h;
}

Shared *map_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<Shared *>(p);
}

void put(char *dst, volatile uint64_t &n, size_t cap, const std::string &s) {
  const auto len = std::min(cap, s.size());
  std::memcpy(dst, s.data(), len);
  n = len;
}

struct Result {
  int outcome = 0; // 1 ok, 2 failed, 3 discarded, 4 crashed, 5 hung
  std::string sig, msg, notes;
  std::vector<uint64_t> trace;
};

// Run one case in this process.
int run_case(const Law &law, Gen &g, std::string &sig, std::string &msg) {
  try {
    law.run(g);
    return 1;
  } catch (const Failure &f) {
    sig = f.signature;
    msg = f.message;
    return 2;
  } catch (const Discard &) {
    return 3;
  } catch (const std::exception &e) {
    sig = "unexpected-exception";
    msg = std::string("unexpected exception: ") + e.what();
    return 2;
  } catch (...) {
    sig = "unexpected-exception";
    msg = "unexpected exception of unknown type";
    return 2;
  }
}

int hang_seconds = 120;

// Run one case, given by its choices, in a forked child.
Result attempt(const Property &p, const Law &law,
               const std::vector<uint64_t> &choices, int size, bool verbose,
               int timeout_s) {
  static Shared *sh = map_shared();
  sh->outcome = 0;
  sh->ntrace = 0;
  sh->nnotes = 0;
  sh->nmsg = sh->nsig = 0;
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    g_shared = sh;
    struct rlimit nocore {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    if (p.child_init)
      p.child_init();
    const int devnull = open("/dev/null", O_WRONLY);
    if (!verbose)
      dup2(devnull, 2);
    Gen g(choices, size);
    g.m_verbose = verbose;
    std::string sig, msg;
    const int o = run_case(law, g, sig, msg);
    put(sh->msg, sh->nmsg, max_text, msg);
    put(sh->sig, sh->nsig, sizeof(sh->sig), sig);
    put(sh->notes, sh->nnotes, max_text, g.m_notes);
    sh->outcome = o;
    _exit(0);
  }
  Result r;
  int status = 0;
  const auto t0 = Clock::now();
  for (;;) {
    const auto w = waitpid(pid, &status, WNOHANG);
    if (w == pid)
      break;
    const auto el = Clock::now() - t0;
    if (el > std::chrono::seconds(timeout_s)) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      r.outcome = 5;
      break;
    }
    usleep(el < std::chrono::milliseconds(20) ? 100 : 2000);
  }
  r.trace.assign(sh->trace, sh->trace + sh->ntrace);
  r.notes.assign(sh->notes, sh->nnotes);
  if (r.outcome == 5) {
    r.sig = "hang";
    r.msg = "case did not terminate";
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && sh->outcome) {
    r.outcome = sh->outcome;
    r.sig.assign(sh->sig, sh->nsig);
    r.msg.assign(sh->msg, sh->nmsg);
  } else {
    r.outcome = 4;
    r.sig = "crash";
    r.msg = WIFSIGNALED(status)
                ? cat("crashed with signal ", WTERMSIG(status))
                : cat("process ended with status ", WEXITSTATUS(status),
                      " (sanitizer report or exit in code under test)");
  }
  return r;
}

bool is_failure(const Result &r) {
  return r.outcome == 2 || r.outcome == 4 || r.outcome == 5;
}

bool shortlex_less(const std::vector<uint64_t> &a,
                   const std::vector<uint64_t> &b) {
  if (a.size() != b.size())
    return a.size() < b.size();
  return a < b;
}

Result shrink(const Property &p, const Law &law, Result best, int size,
              int timeout_s) {
  const auto deadline = Clock::now() + std::chrono::seconds(60);
  int attempts = 0;
  const auto want = best.sig;
  const auto want_outcome = best.outcome;
  std::unordered_set<uint64_t> seen;
  auto try_ = [&](std::vector<uint64_t> c) {
    if (attempts > 3000 || Clock::now() > deadline)
      return false;
    if (!shortlex_less(c, best.trace) || !seen.insert(hash_trace(c)).second)
      return false;
    ++attempts;
    auto r = attempt(p, law, c, size, false, timeout_s);
    if (is_failure(r) && r.sig == want && r.outcome == want_outcome) {
      // The trace may be shorter than the input (choices not consumed), or
      // longer (zeros appended); keep it only if it is simpler.
      if (r.outcome != 2 && r.trace.size() < c.size() && r.trace.empty())
        r.trace = c;
      if (!shortlex_less(r.trace, best.trace))
        return false;
      best = std::move(r);
      return true;
    }
    return false;
  };
  if (want_outcome == 5)
    return best; // each attempt at a hang would cost the full time limit
  bool improved = true;
  while (improved && attempts < 3000 && Clock::now() < deadline) {
    improved = false;
    // delete blocks
    for (size_t len : {64, 32, 16, 8, 4, 3, 2, 1})
      for (size_t i = best.trace.size() >= len ? best.trace.size() - len + 1 : 0;
           i-- > 0;) {
        if (i + len > best.trace.size())
          continue;
        auto c = best.trace;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (try_(c)) {
          improved = true;
          continue;
        }
        // deleting often needs a length drawn earlier to go down by one
        for (size_t j = i; j-- > 0 && j + 12 > i;) {
          if (best.trace[j] == 0)
            continue;
          auto d = c;
          if (j < d.size()) {
            d[j] -= 1;
            if (try_(d)) {
              improved = true;
              break;
            }
          }
        }
      }
    // zero blocks
    for (size_t len : {16, 8, 4, 2})
      for (size_t i = 0; i + len <= best.trace.size(); ++i) {
        auto c = best.trace;
        std::fill(c.begin() + i, c.begin() + i + len, 0);
        improved |= try_(c);
      }
    // lower single choices
    for (size_t i = 0; i < best.trace.size(); ++i) {
      if (best.trace[i] == 0)
        continue;
      auto c = best.trace;
      c[i] = 0;
      if (try_(c)) {
        improved = true;
        continue;
      }
      uint64_t lo = 0, hi = best.trace[i]; // hi fails
      for (int k = 0; k < 70 && hi - lo > 1; ++k) {
        const auto mid = lo + (hi - lo) / 2;
        auto d = best.trace;
        if (i >= d.size())
          break;
        d[i] = mid;
        if (try_(d)) {
          improved = true;
          hi = mid;
        } else
          lo = mid;
      }
      if (i < best.trace.size() && best.trace[i] > 0) {
        auto d = best.trace;
        d[i] -= 1;
        improved |= try_(d);
      }
    }
  }
  return best;
}

std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n')
      o += "\\n";
    else if (c < 0x20 || c == 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else if (c >= 0x80) {
      char b[8]; // keep the file ASCII: escape bytes
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += static_cast<char>(c);
  }
  return o + '"';
}

struct WorkerStats {
  uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, std::pair<uint64_t, std::string>> known;
};

struct Options {
  uint64_t seed = 1;
  bool thorough = false;
  std::string evidence, out_dir, replay, only_law;
  std::set<std::string> known;
  int shards = 0;
  double scale = 1.0;
  int budget_s = 0;
};

int case_size(uint64_t i) { return static_cast<int>(i % 100) + 1; }

uint64_t case_seed(const Options &o, const Property &p, const Law &law,
                   uint64_t i) {
  return mix(mix(o.seed * 0x1000193ull + 17) ^ hash_str(p.id + "/" + law.name) ^
             mix(i));
}

// Work of one shard: cases first, first + step, ... of one law. Stats are
// written to fd.
void worker(const Property &p, const Law &law, const Options &o, uint64_t first,
            uint64_t step, uint64_t n, int fd, Clock::time_point deadline) {
  struct rlimit nocore {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
  if (p.child_init)
    p.child_init();
  WorkerStats st;
  bool out_of_time = false;
  for (uint64_t i = first; i < n; i += step) {
    if (Clock::now() > deadline) {
      out_of_time = true;
      break;
    }
    if (*g_stop)
      break;
    g_shared->case_index = i;
    g_shared->ntrace = 0;
    g_shared->nnotes = 0;
    g_shared->started = g_shared->started + 1;
    Gen g(case_seed(o, p, law, i), case_size(i));
    // A few cases spread over the run are described in full as samples.
    g.m_verbose = st.samples.size() < 2 && (i / step) % 37 == 5;
    std::string sig, msg;
    const int outcome = run_case(law, g, sig, msg);
    if (outcome == 2) {
      if (o.known.count(law.name + "/" + sig)) {
        auto &k = st.known[law.name + "/" + sig];
        k.first++;
        k.second = msg;
        continue;
      }
      put(g_shared->msg, g_shared->nmsg, max_text, msg);
      put(g_shared->sig, g_shared->nsig, sizeof(g_shared->sig), sig);
      g_shared->outcome = 2;
      *g_stop = 1;
      break;
    }
    if (outcome == 3) {
      st.discarded++;
      continue;
    }
    st.evaluations++;
    for (const auto &l : g.m_labels)
      st.labels[l]++;
    if (g.m_nontrivial)
      st.distinct.insert(hash_trace(g.trace()));
    if (g.m_verbose && g.m_nontrivial && !g.m_notes.empty())
      st.samples.push_back(g.m_notes.substr(0, 1500));
  }
  std::string s;
  auto w64 = [&](uint64_t x) { s.append(reinterpret_cast<char *>(&x), 8); };
  auto wstr = [&](const std::string &t) {
    w64(t.size());
    s += t;
  };
  w64(st.evaluations);
  w64(st.discarded);
  w64(out_of_time);
  w64(st.labels.size());
  for (auto &[l, c] : st.labels) {
    wstr(l);
    w64(c);
  }
  w64(st.samples.size());
  for (auto &x : st.samples)
    wstr(x);
  w64(st.known.size());
  for (auto &[k, v] : st.known) {
    wstr(k);
    w64(v.first);
    wstr(v.second);
  }
  w64(st.distinct.size());
  for (auto h : st.distinct)
    w64(h);
  size_t off = 0;
  while (off < s.size()) {
    const auto k = write(fd, s.data() + off, s.size() - off);
    if (k <= 0)
      _exit(4);
    off += k;
  }
  if (g_shared->outcome == 0)
    g_shared->outcome = 1;
  _exit(0);
}

struct Job {
  const Law *law;
  uint64_t first, step, n;
  Clock::time_point deadline;
  volatile int *stop = nullptr;
  pid_t pid = 0;
  int fd = -1;
  Shared *sh = nullptr;
  std::string data;
  uint64_t last_started = 0;
  Clock::time_point last_progress;
  bool hung = false;
  int status = 0;
};

struct Found {
  const Law *law;
  uint64_t index;
  Result r;
  int size;
};

} // namespace

void fail(const std::string &signature, const std::string &msg) {
  throw Failure{signature, msg};
}

uint64_t Gen::next() {
  m_state += 0x9e3779b97f4a7c15ull;
  uint64_t x = m_state;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

uint64_t Gen::draw(uint64_t bound) {
  uint64_t c = 0;
  if (m_replay) {
    c = m_pos < m_input.size() ? std::min(m_input[m_pos], bound) : 0;
    m_pos++;
  } else if (bound > 0) {
    const auto r = next();
    if (bound == std::numeric_limits<uint64_t>::max())
      c = r;
    else
      c = static_cast<uint64_t>(
          (static_cast<unsigned __int128>(r) * (bound + 1)) >> 64);
  }
  m_trace.push_back(c);
  if (g_shared && m_trace.size() <= max_trace) {
    g_shared->trace[m_trace.size() - 1] = c;
    g_shared->ntrace = m_trace.size();
  }
  if (m_trace.size() > 4 * max_trace)
    throw Discard{};
  return c;
}

int64_t Gen::integer(int64_t lo, int64_t hi) {
  const auto span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
  if (lo <= 0 && hi >= 0) {
    // zig-zag: 0, 1, -1, 2, -2, ... so that smaller choices are simpler
    const uint64_t pos = static_cast<uint64_t>(hi);
    const uint64_t neg = 0 - static_cast<uint64_t>(lo);
    const uint64_t both = std::min(pos, neg);
    const auto c = draw(span);
    if (c <= 2 * both && both < (uint64_t(1) << 62)) {
      if (c % 2)
        return static_cast<int64_t>((c + 1) / 2);
      return -static_cast<int64_t>(c / 2);
    }
    if (both >= (uint64_t(1) << 62))
      return static_cast<int64_t>(static_cast<uint64_t>(lo) + c);
    const auto rest = c - both;
    return pos > neg ? static_cast<int64_t>(rest)
                     : -static_cast<int64_t>(rest);
  }
  if (lo > 0)
    return static_cast<int64_t>(static_cast<uint64_t>(lo) + draw(span));
  return static_cast<int64_t>(static_cast<uint64_t>(hi) - draw(span));
}

int64_t Gen::length(int64_t lo, int64_t hi) {
  if (hi <= lo)
    return lo;
  // two draws: an upper limit, then the value
  const int64_t span = hi - lo;
  const int64_t cap = std::min<int64_t>(
      span, draw(1) == 1 ? span : std::max<int64_t>(1, span / 2));
  return lo + static_cast<int64_t>(draw(cap));
}

bool Gen::boolean(double p_true) {
  constexpr uint64_t n = 1 << 16;
  const auto c = draw(n - 1);
  // small choices are "false"
  return c >= static_cast<uint64_t>((1.0 - p_true) * n);
}

size_t Gen::weighted(std::initializer_list<int> weights) {
  uint64_t total = 0;
  for (auto w : weights)
    total += w;
  auto c = draw(total - 1);
  size_t i = 0;
  for (auto w : weights) {
    if (c < static_cast<uint64_t>(w))
      return i;
    c -= w;
    ++i;
  }
  return weights.size() - 1;
}

double Gen::uniform(double lo, double hi) {
  constexpr uint64_t n = uint64_t(1) << 40;
  return lo + (hi - lo) * (static_cast<double>(draw(n)) / n);
}

double Gen::finite() {
  switch (weighted({4, 3, 3, 2})) {
  case 0:
    return static_cast<double>(integer(-6, 6));
  case 1:
    return static_cast<double>(integer(-64, 64)) / 8.0;
  case 2:
    return uniform(-100.0, 100.0);
  default: {
    const auto m = uniform(-1.0, 1.0);
    return std::ldexp(m, static_cast<int>(integer(-60, 60)));
  }
  }
}

double Gen::any_double() {
  if (weighted({5, 1}) == 0)
    return finite();
  switch (draw(9)) {
  case 0:
    return std::numeric_limits<double>::quiet_NaN();
  case 1:
    return std::numeric_limits<double>::infinity();
  case 2:
    return -std::numeric_limits<double>::infinity();
  case 3:
    return -0.0;
  case 4:
    return std::numeric_limits<double>::max();
  case 5:
    return std::numeric_limits<double>::lowest();
  case 6:
    return std::numeric_limits<double>::denorm_min();
  case 7:
    return std::numeric_limits<double>::min();
  case 8:
    return -std::numeric_limits<double>::quiet_NaN();
  default:
    return std::ldexp(uniform(-1.0, 1.0), static_cast<int>(integer(-1070, 1023)));
  }
}

std::string Gen::ident(int maxlen) {
  std::string s;
  const auto n = length(1, maxlen);
  for (int64_t i = 0; i < n; ++i)
    s += static_cast<char>('a' + draw(25));
  return s;
}

void Gen::flush_notes() {
  if (g_shared)
    put(g_shared->notes, g_shared->nnotes, max_text, m_notes);
}

int run(int argc, char **argv, const Property &p) {
  Options o;
  if (const char *s = getenv("VERIF_SEED"))
    o.seed = strtoull(s, nullptr, 10);
  if (const char *t = getenv("VERIF_TIER"))
    o.thorough = std::string(t) == "thorough";
  for (int i = 1; i + 1 < argc; i += 2) {
    const std::string a = argv[i], v = argv[i + 1];
    if (a == "--evidence")
      o.evidence = v;
    else if (a == "--out")
      o.out_dir = v;
    else if (a == "--replay")
      o.replay = v;
    else if (a == "--law")
      o.only_law = v;
    else if (a == "--known")
      o.known.insert(v);
    else if (a == "--scale")
      o.scale = atof(v.c_str());
    else if (a == "--budget")
      o.budget_s = atoi(v.c_str());
    else if (a == "--shards")
      o.shards = atoi(v.c_str());
    else {
      std::cerr << "unknown option " << a << "\n";
      return 2;
    }
  }
  const auto t0 = Clock::now();
  if (!o.replay.empty()) {
    std::ifstream f(o.replay);
    std::string line, law_name;
    int size = 100;
    std::vector<uint64_t> choices;
    while (std::getline(f, line)) {
      std::istringstream s(line);
      std::string k;
      s >> k;
      if (k == "law:")
        s >> law_name;
      else if (k == "size:")
        s >> size;
      else if (k == "choices:") {
        uint64_t c;
        while (s >> c)
          choices.push_back(c);
      }
    }
    for (const auto &law : p.laws)
      if (law.name == law_name) {
        Result r;
        for (int k = 0; k < (law.schedule ? 200 : 1); ++k) {
          r = attempt(p, law, choices, size, true, 300);
          if (is_failure(r))
            break;
        }
        std::cout << r.notes << "\n"
                  << (is_failure(r) ? "FAILED " : "passed ") << r.sig << ": "
                  << r.msg << std::endl;
        if (is_failure(r)) {
          std::cout << "VIOLATION property=" << p.id << " replay=" << o.replay
                    << std::endl;
          return 1;
        }
        return 0;
      }
    std::cerr << "no law " << law_name << "\n";
    return 2;
  }

  const int ncpu = std::max(1, o.shards ? o.shards : 8);
  const int budget =
      o.budget_s ? o.budget_s : (o.thorough ? 3000 : 240);
  uint64_t nlaw = 0, nlaw_done = 0;
  for (const auto &law : p.laws)
    nlaw += o.only_law.empty() || law.name == o.only_law;
  std::vector<Job> jobs;
  std::map<std::string, uint64_t> requested;
  for (const auto &law : p.laws) {
    if (!o.only_law.empty() && law.name != o.only_law)
      continue;
    uint64_t n = static_cast<uint64_t>(
        std::max(1.0, (o.thorough ? law.thorough : law.quick) * o.scale));
    requested[law.name] = n;
    uint64_t shards = std::max<uint64_t>(1, std::min<uint64_t>(ncpu, n / 20));
    if (law.per_process)
      shards = std::max<uint64_t>(shards, (n + law.per_process - 1) /
                                              law.per_process);
    // Every law has its share of the time budget.
    nlaw_done++;
    auto *stop = map_flag();
    for (uint64_t s = 0; s < shards; ++s) {
      Job j;
      j.law = &law;
      j.first = s;
      j.step = shards;
      j.n = n;
      j.stop = stop;
      j.deadline = t0 + std::chrono::milliseconds(
                            uint64_t(budget) * 1000 * nlaw_done / nlaw);
      jobs.push_back(j);
    }
  }
  // Run the jobs, ncpu at a time.
  size_t next_job = 0;
  std::vector<size_t> running;
  auto start = [&](size_t k) {
    auto &j = jobs[k];
    j.sh = map_shared();
    j.sh->outcome = 0;
    j.sh->started = 0;
    int fds[2];
    if (pipe(fds) != 0) {
      perror("pipe");
      exit(3);
    }
    fflush(nullptr);
    j.pid = fork();
    if (j.pid == 0) {
      close(fds[0]);
      g_shared = j.sh;
      g_stop = j.stop;
      const int devnull = open("/dev/null", O_WRONLY);
      dup2(devnull, 1);
      worker(p, *j.law, o, j.first, j.step, j.n, fds[1], j.deadline);
    }
    close(fds[1]);
    j.fd = fds[0];
    j.last_progress = Clock::now();
    running.push_back(k);
  };
  while (next_job < jobs.size() || !running.empty()) {
    // A law that starts threads of its own gets the cores for them.
    while (next_job < jobs.size() &&
           running.size() <
               static_cast<size_t>(jobs[next_job].law->schedule ? 2 : ncpu))
      start(next_job++);
    std::vector<pollfd> pfd;
    for (auto k : running)
      pfd.push_back({jobs[k].fd, POLLIN, 0});
    poll(pfd.data(), pfd.size(), 500);
    for (size_t i = 0; i < pfd.size(); ++i) {
      auto &j = jobs[running[i]];
      bool done = false;
      if (pfd[i].revents) {
        char buf[65536];
        const auto k = read(j.fd, buf, sizeof buf);
        if (k > 0) {
          j.data.append(buf, k);
          j.last_progress = Clock::now();
        } else
          done = true;
      }
      if (!done) {
        if (j.sh->started != j.last_started) {
          j.last_started = j.sh->started;
          j.last_progress = Clock::now();
        } else if (Clock::now() - j.last_progress >
                   std::chrono::seconds(hang_seconds)) {
          j.hung = true;
          kill(j.pid, SIGKILL);
          done = true;
        }
      }
      if (done) {
        waitpid(j.pid, &j.status, 0);
        close(j.fd);
        running[i] = SIZE_MAX;
      }
    }
    running.erase(std::remove(running.begin(), running.end(), SIZE_MAX),
                  running.end());
  }
  // Collect
  std::map<std::string, WorkerStats> stats;
  std::map<std::string, bool> truncated;
  std::map<std::string, Found> found; // per law
  for (auto &j : jobs) {
    auto &st = stats[j.law->name];
    const bool clean =
        !j.hung && WIFEXITED(j.status) && WEXITSTATUS(j.status) == 0;
    if (clean) {
      size_t pos = 0;
      auto r64 = [&]() {
        uint64_t x = 0;
        if (pos + 8 <= j.data.size())
          std::memcpy(&x, j.data.data() + pos, 8);
        pos += 8;
        return x;
      };
      auto rstr = [&]() {
        const auto n = r64();
        std::string s;
        if (pos + n <= j.data.size())
          s = j.data.substr(pos, n);
        pos += n;
        return s;
      };
      st.evaluations += r64();
      st.discarded += r64();
      truncated[j.law->name] |= r64() != 0;
      for (auto n = r64(); n > 0; --n) {
        const auto l = rstr();
        st.labels[l] += r64();
      }
      for (auto n = r64(); n > 0; --n)
        st.samples.push_back(rstr());
      for (auto n = r64(); n > 0; --n) {
        const auto k = rstr();
        st.known[k].first += r64();
        st.known[k].second = rstr();
      }
      for (auto n = r64(); n > 0; --n)
        st.distinct.insert(r64());
    }
    if (clean && j.sh->outcome == 1)
      continue;
    Found f;
    f.law = j.law;
    f.index = j.sh->case_index;
    f.size = case_size(f.index);
    f.r.trace.assign(j.sh->trace, j.sh->trace + j.sh->ntrace);
    if (clean && j.sh->outcome == 2) {
      f.r.outcome = 2;
      f.r.sig.assign(j.sh->sig, j.sh->nsig);
      f.r.msg.assign(j.sh->msg, j.sh->nmsg);
    } else if (j.hung) {
      f.r.outcome = 5;
      f.r.sig = "hang";
      f.r.msg = "case did not terminate";
    } else {
      f.r.outcome = 4;
      f.r.sig = "crash";
      f.r.msg = cat("worker ended with status ", j.status);
    }
    const auto it = found.find(j.law->name);
    if (it == found.end() || f.index < it->second.index)
      found.insert_or_assign(j.law->name, f);
  }
  // Confirm, shrink and report.
  int nviolation = 0;
  bool inconclusive = false;
  std::string violations_json;
  std::string first_replay;
  for (auto &[name, f] : found) {
    const auto &law = *f.law;
    const int limit = f.r.outcome == 5 ? hang_seconds : 60;
    Result r = f.r;
    if (!law.schedule) {
      // Three replays from the recorded choices, each in a fresh process.
      bool ok = true;
      for (int k = 0; k < (f.r.outcome == 5 ? 1 : 3) && ok; ++k) {
        const auto again = attempt(p, law, f.r.trace, f.size, false, limit);
        ok = is_failure(again);
        if (k == 0 && ok)
          r = again;
      }
      if (!ok) {
        // A failure that depends on process history or timing: rerun the
        // worker's case several times before giving up on it.
        std::cout << "note: law " << name << " failed once ("
                  << f.r.sig << ": " << f.r.msg
                  << ") and did not fail again on replay" << std::endl;
        int again_failed = 0;
        for (int k = 0; k < 40; ++k)
          again_failed += is_failure(
              attempt(p, law, f.r.trace, f.size, false, limit));
        if (again_failed < 3) {
          inconclusive = true;
          continue;
        }
        r = f.r;
      } else {
        r = shrink(p, law, r, f.size, limit);
      }
    }
    if (o.known.count(name + "/" + r.sig)) {
      stats[name].known[name + "/" + r.sig] = {1, r.msg};
      continue;
    }
    auto shown = attempt(p, law, r.trace, f.size, true, limit);
    if (!is_failure(shown))
      shown = r;
    const auto path = o.out_dir + "/" + p.id + "-" + name + ".replay";
    {
      std::ofstream out(path);
      out << "property: " << p.id << "\nlaw: " << name << "\nsize: " << f.size
          << "\nseed: " << o.seed << "\ncase: " << f.index
          << "\nsignature: " << r.sig << "\nmessage: " << shown.msg
          << "\nchoices:";
      for (auto c : r.trace)
        out << ' ' << c;
      out << "\n--- case ---\n" << shown.notes << "\n";
    }
    std::cout << "FAILED law " << name << " [" << r.sig << "]: " << shown.msg
              << "\n" << shown.notes << std::endl;
    std::cout << "VIOLATION property=" << p.id << " replay=" << path
              << std::endl;
    ++nviolation;
  }
  // Evidence
  uint64_t evals = 0, distinct = 0;
  std::ostringstream laws;
  std::string samples;
  size_t nsamples = 0;
  bool first = true;
  std::vector<std::string> starved;
  for (const auto &law : p.laws) {
    if (!stats.count(law.name))
      continue;
    auto &st = stats[law.name];
    evals += st.evaluations;
    distinct += st.distinct.size();
    laws << (first ? "" : ", ") << json_str(law.name) << ": {\"requested\": "
         << requested[law.name] << ", \"evaluations\": " << st.evaluations
         << ", \"discarded\": " << st.discarded
         << ", \"distinct_nontrivial\": " << st.distinct.size()
         << ", \"stopped_by_time_budget\": "
         << (truncated[law.name] ? "true" : "false") << ", \"classes\": {";
    bool f2 = true;
    for (auto &[l, c] : st.labels) {
      laws << (f2 ? "" : ", ") << json_str(l) << ": " << c;
      f2 = false;
    }
    laws << "}}";
    first = false;
    size_t k = 0;
    for (auto &s : st.samples) {
      if (k++ >= 2)
        break;
      samples += (nsamples++ ? ", " : "") +
                 json_str("law " + law.name + ":\n" + s);
    }
    if (found.find(law.name) == found.end() && st.distinct.empty() &&
        !truncated[law.name])
      starved.push_back(law.name);
    for (auto &[k2, v] : st.known)
      std::cout << "KNOWN-FINDING: property=" << p.id << " " << k2 << " ("
                << v.first << " cases) e.g. " << v.second << std::endl;
  }
  const double wall =
      std::chrono::duration<double>(Clock::now() - t0).count();
  if (!o.evidence.empty()) {
    std::ofstream out(o.evidence);
    out << "{\"property\": " << json_str(p.id) << ", \"tier\": \""
        << (o.thorough ? "thorough" : "quick") << "\", \"seed\": " << o.seed
        << ", \"level\": \"exploration\", \"coverage\": {\"evaluations\": "
        << evals << ", \"distinct_nontrivial\": " << distinct
        << ", \"rule\": " << json_str(p.rule) << ", \"samples\": [" << samples
        << "], \"laws\": {" << laws.str() << "}}, \"assumptions\": [";
    for (size_t i = 0; i < p.assumptions.size(); ++i)
      out << (i ? ", " : "") << json_str(p.assumptions[i]);
    out << "], \"wall_s\": " << wall << ", \"violations\": " << nviolation
        << "}\n";
  }
  std::cout << p.id << ": " << evals << " cases, " << distinct
            << " distinct non-trivial, " << nviolation << " violation(s), "
            << wall << " s" << std::endl;
  if (nviolation)
    return 1;
  for (const auto &s : starved)
    std::cout << "ERROR: law " << s << " explored no non-trivial case\n";
  if (!starved.empty() || inconclusive)
    return 3;
  return 0;
}

} // namespace pbt
