// C01: dimension labels are identities.
#include "pbt.h"

#include <atomic>
#include <thread>
#include <unordered_map>

#include "scipp/units/dim.h"

using namespace pbt;
using scipp::units::Dim;

namespace {
const std::vector<std::pair<std::string, Dim>> builtin = {
    {"energy", Dim::Energy},           {"event", Dim::Event},
    {"group", Dim::Group},             {"position", Dim::Position},
    {"row", Dim::Row},                 {"temperature", Dim::Temperature},
    {"time", Dim::Time},               {"wavelength", Dim::Wavelength},
    {"x", Dim::X},                     {"y", Dim::Y},
    {"z", Dim::Z}};

std::string label(Gen &g) {
  switch (g.weighted({4, 2, 2, 2, 1})) {
  case 0:
    return g.ident(3);
  case 1:
    return g.pick(builtin).first;
  case 2: { // near miss of a builtin name
    auto s = g.pick(builtin).first;
    switch (g.draw(3)) {
    case 0:
      return s + g.ident(1);
    case 1:
      return s.substr(0, s.size() - 1);
    case 2:
      return g.ident(1) + s;
    default:
      s[0] = static_cast<char>(s[0] - 32);
      return s;
    }
  }
  case 3: { // arbitrary bytes, including NUL, spaces and the empty string
    std::string s;
    const auto n = g.length(0, 12);
    for (int64_t i = 0; i < n; ++i)
      s += static_cast<char>(g.draw(255));
    return s;
  }
  default:
    return std::string(g.length(1, 300), 'a' + static_cast<char>(g.draw(2)));
  }
}

std::string show(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c >= 32 && c < 127)
      o += static_cast<char>(c);
    else
      o += cat("\\", int(c));
  }
  return o + "\"";
}

// A history of constructions against the model "label -> identity".
void history(Gen &g) {
  std::unordered_map<std::string, Dim> model;
  const auto n = g.length(1, 60);
  int repeats = 0;
  for (int64_t i = 0; i < n; ++i) {
    const auto l = label(g);
    const Dim d(l);
    g.note([&] { return cat("Dim(", show(l), ") -> id ", int(d.id())); });
    PBT_EQ("roundtrip-name", d.name(), l, "label ", show(l));
    PBT_EQ("roundtrip-name", to_string(d), l, "label ", show(l));
    PBT_CHECK("valid", d != Dim(Dim::Invalid), "label ", show(l),
              " gives the invalid dimension");
    const auto it = model.find(l);
    if (it != model.end()) {
      ++repeats;
      PBT_CHECK("same-label-same-id", it->second == d && !(it->second != d),
                "label ", show(l));
      PBT_CHECK("hash", std::hash<Dim>{}(d) == std::hash<Dim>{}(it->second),
                "label ", show(l));
    }
    for (const auto &[other, o] : model) {
      if (other == l)
        continue;
      PBT_CHECK("different-label-different-id", o != d && !(o == d), "labels ",
                show(other), " and ", show(l));
      PBT_CHECK("order", (o < d) != (d < o), "labels ", show(other), " and ",
                show(l));
    }
    model.emplace(l, d);
  }
  for (const auto &[name, id] : builtin)
    PBT_CHECK("builtin", Dim(name) == id && id.name() == name, "builtin ",
              name);
  // Copying ids and looking names up later must not depend on what was
  // registered in between.
  for (const auto &[l, d] : model) {
    PBT_CHECK("stable", Dim(l) == d, "label ", show(l));
    PBT_CHECK("stable", d.name() == l, "label ", show(l));
  }
  g.nontrivial(model.size() >= 2 && repeats > 0);
}

std::atomic<uint64_t> fresh_counter{0};

// Threads construct overlapping sets of labels nobody constructed before.
void concurrent(Gen &g) {
  const int nthread = static_cast<int>(g.integer(2, 8));
  const int nlabel = static_cast<int>(g.integer(1, 6));
  const auto base = fresh_counter.fetch_add(1);
  std::vector<std::string> labels;
  for (int i = 0; i < nlabel; ++i)
    labels.push_back(cat("c", base, "_", i));
  std::vector<std::vector<int>> order(nthread);
  for (auto &o : order) {
    for (int i = 0; i < nlabel; ++i)
      o.push_back(i);
    o = g.permutation(o);
    if (g.boolean(0.7)) // all threads contend for the same first label
      std::swap(o[0], *std::find(o.begin(), o.end(), 0));
  }
  std::vector<std::vector<Dim>> got(nthread, std::vector<Dim>(nlabel));
  std::vector<std::vector<std::string>> names(
      nthread, std::vector<std::string>(nlabel));
  std::atomic<int> ready{0};
  std::vector<std::thread> threads;
  for (int t = 0; t < nthread; ++t)
    threads.emplace_back([&, t] {
      ready.fetch_add(1);
      while (ready.load() < nthread)
        std::this_thread::yield();
      for (const int i : order[t]) {
        got[t][i] = Dim(labels[i]);
        names[t][i] = got[t][i].name();
      }
    });
  for (auto &t : threads)
    t.join();
  g.note([&] { return cat(nthread, " threads, labels ", seq(labels)); });
  for (int i = 0; i < nlabel; ++i) {
    for (int t = 0; t < nthread; ++t) {
      PBT_CHECK("concurrent-same-id", got[t][i] == got[0][i],
                "threads 0 and ", t, " got different dimensions for label ",
                labels[i], ": ids ", int(got[0][i].id()), " and ",
                int(got[t][i].id()));
      PBT_CHECK("concurrent-name", names[t][i] == labels[i], "thread ", t,
                " label ", labels[i], " read back as ", show(names[t][i]));
    }
    PBT_CHECK("concurrent-stable", Dim(labels[i]) == got[0][i], "label ",
              labels[i]);
    for (int j = 0; j < i; ++j)
      PBT_CHECK("concurrent-distinct", got[0][i] != got[0][j], "labels ",
                labels[i], " ", labels[j]);
  }
  g.nontrivial();
}

// Running out of labels is an error, never a reused identity.
void exhaustion(Gen &g) {
  const auto n = 65536 + g.integer(0, 50);
  std::vector<bool> used(65536, false);
  std::vector<std::pair<std::string, Dim>> kept;
  bool threw = false;
  int64_t made = 0;
  for (int64_t i = 0; i < n && !threw; ++i) {
    const auto l = cat("e", i);
    try {
      const Dim d(l);
      const auto id = static_cast<size_t>(d.id());
      PBT_CHECK("exhaustion-unique", !used[id], "label ", l, " got id ", id,
                " again");
      used[id] = true;
      if (i % 997 == 0)
        kept.emplace_back(l, d);
      ++made;
    } catch (const std::runtime_error &) {
      threw = true;
    }
  }
  g.note([&] { return cat(made, " labels before the error"); });
  PBT_CHECK("exhaustion-error", threw, "no error after ", made, " labels");
  PBT_CHECK("exhaustion-capacity", made >= 32768, "only ", made, " labels");
  for (const auto &[l, d] : kept)
    PBT_CHECK("exhaustion-stable", Dim(l) == d && d.name() == l, "label ", l);
  PBT_CHECK("exhaustion-error", throws([] { Dim d("one more"); }),
            "label after exhaustion accepted");
  PBT_CHECK("exhaustion-builtin", Dim("x") == Dim(Dim::X), "builtin lost");
  g.nontrivial();
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C01";
  p.rule =
      "history: up to 60 constructions from labels that are identifiers, "
      "builtin names, near misses of builtin names, arbitrary bytes or long "
      "strings, compared with the model label->identity; non-trivial if two "
      "labels differ and one repeats. concurrent: 2-8 threads released "
      "together construct 1-6 labels never seen before, in random orders; "
      "each is non-trivial. exhaustion: labels until the error.";
  p.assumptions = {"thread schedules are sampled by running them, not "
                   "enumerated"};
  p.laws = {{"history", 4000, 60000, history},
            {"concurrent", 12000, 100000, concurrent, true, 1500},
            {"exhaustion", 2, 8, exhaustion}};
  return run(argc, argv, p);
}
