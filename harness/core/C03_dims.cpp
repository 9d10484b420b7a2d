// C03: the algebra of dimensions, sizes, slices and strides.
// sanitize: -D_GLIBCXX_ASSERTIONS
#include "pbt.h"
#include "core_gen.h"

#include <algorithm>

#include "scipp/core/dimensions.h"
#include "scipp/core/except.h"
#include "scipp/core/sizes.h"
#include "scipp/core/slice.h"
#include "scipp/core/strides.h"
#include "scipp/core/string.h"

using namespace pbt;
using namespace scipp;
using namespace scipp::core;
using idx = scipp::index;
using Model = std::vector<std::pair<Dim, idx>>;

namespace {
std::string show(const Model &m) {
  std::string s = "(";
  for (auto &[d, n] : m)
    s += cat(d.name(), ":", n, " ");
  return s + ")";
}
auto find(const Model &m, Dim d) {
  return std::find_if(m.begin(), m.end(),
                      [&](const auto &x) { return x.first == d; });
}
bool has(const Model &m, Dim d) { return find(m, d) != m.end(); }
idx get(const Model &m, Dim d) { return find(m, d)->second; }
idx volume(const Model &m) {
  idx v = 1;
  for (auto &x : m)
    v *= x.second;
  return v;
}

Model gen_model(Gen &g, int maxdim = 6, int maxlen = 6) {
  std::vector<int> order{0, 1, 2, 3, 4, 5, 6, 7};
  order = g.permutation(order);
  Model m;
  const auto n = g.length(0, maxdim);
  for (int64_t i = 0; i < n; ++i)
    m.emplace_back(dim_label(order[i]), g.length(0, maxlen));
  return m;
}
Dimensions make(const Model &m) {
  Dimensions d;
  for (auto &[l, n] : m)
    d.addInner(l, n);
  return d;
}
Sizes make_sizes(const Model &m) {
  Sizes d;
  for (auto &[l, n] : m)
    d.set(l, n);
  return d;
}

template <class D> void compare(const char *sig, const D &d, const Model &m) {
  const auto s = [&] { return cat("expected ", show(m)); };
  PBT_EQ(sig, idx(d.labels().size()), idx(m.size()), s());
  
  PBT_EQ(sig, d.empty(), m.empty(), s());
  size_t i = 0;
  for (const auto &l : d) {
    PBT_CHECK(sig, l == m[i].first, "label ", i, " ", s());
    PBT_EQ(sig, d[l], m[i].second, "label ", l.name(), " ", s());
    PBT_EQ(sig, d.at(l), m[i].second, s());
    PBT_EQ(sig, d.index(l), idx(i), s());
    PBT_CHECK(sig, *d.find(l) == l, s());
    ++i;
  }
  PBT_EQ(sig, i, m.size(), s());
  for (size_t k = 0; k < 9; ++k) {
    const auto l = dim_label(k);
    PBT_EQ(sig, d.contains(l), has(m, l), "label ", l.name(), " ", s());
    if (!has(m, l))
      PBT_CHECK(sig, throws([&] { (void)d[l]; }) && throws([&] {
                       (void)d.index(l);
                     }),
                "missing label accepted ", s());
  }
  auto r = m.rbegin();
  for (auto it = d.rbegin(); it != d.rend(); ++it, ++r)
    PBT_CHECK(sig, *it == r->first, "reverse iteration ", s());
}
void compare_dims(const char *sig, const Dimensions &d, const Model &m) {
  compare(sig, d, m);
  PBT_EQ(sig, d.ndim(), idx(m.size()), show(m));
  PBT_EQ(sig, d.volume(), volume(m), show(m));
  PBT_CHECK(sig, d.inner() == (m.empty() ? Dim(Dim::Invalid) : m.back().first),
            show(m));
  idx off = 1;
  for (size_t i = m.size(); i-- > 0;) {
    PBT_EQ(sig, d.offset(m[i].first), off, show(m));
    PBT_CHECK(sig, d.label(i) == m[i].first && d.size(idx(i)) == m[i].second,
              show(m));
    off *= m[i].second;
  }
}

// A history of modifications against an association list.
void history(Gen &g) {
  Dimensions d;
  Model m;
  const auto n = g.length(1, 25);
  int refused = 0, done = 0;
  for (int64_t k = 0; k < n; ++k) {
    const auto l = dim_label(g.draw(7));
    const auto len = g.boolean(0.08) ? -g.integer(1, 3) : g.length(0, 5);
    const auto before = m;
    bool ok = false, want = false;
    const auto op = g.draw(6);
    try {
      switch (op) {
      case 0:
      case 1:
        want = !has(m, l) && len >= 0;
        if (op == 0) {
          d.addInner(l, len);
          m.emplace_back(l, len);
        } else {
          d.add(l, len);
          m.insert(m.begin(), {l, len});
        }
        break;
      case 2:
        want = has(m, l) && len >= 0;
        d.resize(l, len);
        for (auto &x : m)
          if (x.first == l)
            x.second = len;
        break;
      case 3:
        want = has(m, l);
        d.erase(l);
        m.erase(find(m, l));
        break;
      case 4: {
        const auto to = dim_label(g.draw(7));
        want = has(m, l) && (to == l || !has(m, to));
        d.replace_key(l, to);
        for (auto &x : m)
          if (x.first == l)
            x.first = to;
        break;
      }
      case 5:
        want = len >= 0 && (!has(m, l) || get(m, l) == len);
        d.set(l, len);
        if (!has(m, l))
          m.emplace_back(l, len);
        break;
      default:
        want = true;
        if (g.boolean(0.1)) {
          d.clear();
          m.clear();
        }
      }
      ok = true;
    } catch (const std::exception &) {
      m = before;
    }
    g.note([&] {
      return cat("op ", op, " ", l.name(), ":", len, ok ? " done" : " refused",
                 " -> ", show(m));
    });
    PBT_EQ("history-accepts", ok, want, "op ", op, " on ", show(before));
    compare_dims("history", d, m);
    ok ? ++done : ++refused;
  }
  PBT_CHECK("history-invalid-dim",
            throws([&] { d.addInner(Dim::Invalid, 1); }) &&
                throws([&] { d.add(Dim::Invalid, 1); }) &&
                throws([&] { d.set(Dim::Invalid, 1); }),
            "");
  compare_dims("history", d, m);
  g.nontrivial(done > 1 && refused > 0);
}

void equality(Gen &g) {
  const auto m = gen_model(g);
  auto m2 = m;
  const auto kind = g.draw(3);
  if (kind == 1)
    m2 = g.permutation(m2);
  else if (kind == 2 && !m2.empty())
    m2[g.draw(m2.size() - 1)].second += 1;
  else if (kind == 3)
    m2 = gen_model(g);
  g.note([&] { return cat(show(m), " vs ", show(m2)); });
  const bool same = m == m2;
  auto s1 = m, s2 = m2;
  std::sort(s1.begin(), s1.end());
  std::sort(s2.begin(), s2.end());
  const Dimensions a = make(m), b = make(m2);
  PBT_EQ("dims-equal", a == b, same, show(m), " vs ", show(m2));
  PBT_EQ("dims-equal", a != b, !same, show(m), " vs ", show(m2));
  const Sizes x = make_sizes(m), y = make_sizes(m2);
  PBT_EQ("sizes-equal", x == y, s1 == s2, show(m), " vs ", show(m2));
  PBT_EQ("sizes-equal", x != y, s1 != s2, show(m), " vs ", show(m2));
  bool includes = true;
  for (auto &[l, n] : m2)
    includes &= has(m, l) && get(m, l) == n;
  PBT_EQ("includes", x.includes(y), includes, show(m), " vs ", show(m2));
  compare("sizes", x, m);
  if (same)
    PBT_EQ("dims-string", to_string(a), to_string(b), "");
  g.nontrivial(m.size() > 1 && m2.size() > 1);
}

void merge_(Gen &g) {
  const auto ma = gen_model(g, 5, 3);
  Model mb;
  // b shares labels (mostly with matching lengths) and has others
  for (auto &[l, n] : ma)
    if (g.boolean(0.6))
      mb.emplace_back(l, g.boolean(0.05) ? n + 1 : n);
  for (size_t i = 0; i < 8; ++i)
    if (!has(ma, dim_label(i)) && g.boolean(0.2))
      mb.emplace_back(dim_label(i), g.length(0, 3));
  if (g.boolean(0.7))
    mb = g.permutation(mb);
  const auto a = make(ma), b = make(mb);
  g.note([&] { return cat(show(ma), " with ", show(mb)); });
  bool conflict = false;
  for (auto &[l, n] : ma)
    conflict |= has(mb, l) && get(mb, l) != n;
  const auto ctx = cat(show(ma), " with ", show(mb));
  if (conflict) {
    PBT_CHECK("merge-conflict", throws([&] { (void)merge(a, b); }), ctx);
    PBT_CHECK("merge-conflict", throws([&] { (void)merge(b, a); }), ctx);
    PBT_CHECK("merge-conflict",
              throws([&] { (void)merge(Sizes(a), Sizes(b)); }), ctx);
    PBT_CHECK("intersection-conflict",
              throws([&] { (void)intersection(a, b); }), ctx);
    PBT_CHECK("intersection-conflict",
              throws([&] { (void)intersection(b, a); }), ctx);
    g.nontrivial();
    g.label("conflict");
    return;
  }
  const auto m = merge(a, b);
  // union of labels with the common sizes
  idx n = ma.size();
  for (auto &[l, s] : mb)
    n += !has(ma, l);
  PBT_EQ("merge-union", m.ndim(), n, ctx);
  for (auto &[l, s] : ma)
    PBT_CHECK("merge-union", m.contains(l) && m[l] == s, ctx);
  for (auto &[l, s] : mb)
    PBT_CHECK("merge-union", m.contains(l) && m[l] == s, ctx);
  // a's order wins
  idx last = -1;
  for (auto &[l, s] : ma) {
    PBT_CHECK("merge-order", m.index(l) > last, ctx, " gives ", to_string(m));
    last = m.index(l);
  }
  // so does b's among the labels only b has
  last = -1;
  for (auto &[l, s] : mb)
    if (!has(ma, l)) {
      PBT_CHECK("merge-order", m.index(l) > last, ctx, " gives ",
                to_string(m));
      last = m.index(l);
    }
  if (a.includes(b))
    PBT_CHECK("merge-absorb", m == a, ctx);
  PBT_CHECK("merge-idempotent", merge(m, a) == m && merge(m, b) == m &&
                                    merge(a, a) == a && merge(a) == a,
            ctx);
  PBT_CHECK("merge-sizes", Sizes(merge(b, a)) == Sizes(m) &&
                               merge(Sizes(a), Sizes(b)) == Sizes(m),
            ctx);
  PBT_CHECK("merge-many", merge(a, b, a) == m, ctx);
  const auto i = intersection(a, b);
  Model want;
  for (auto &x : ma)
    if (has(mb, x.first))
      want.push_back(x);
  compare_dims("intersection", i, want);
  g.nontrivial(!want.empty() && n > idx(ma.size()));
  g.label("merged");
}

void reorder(Gen &g) {
  const auto m = gen_model(g, 5, 4);
  const auto d = make(m);
  auto p = g.permutation(m);
  std::vector<Dim> labels;
  for (auto &x : p)
    labels.push_back(x.first);
  g.note([&] { return cat(show(m), " -> ", show(p)); });
  if (!labels.empty())
    compare_dims("transpose", transpose(d, labels), p);
  auto rev = m;
  std::reverse(rev.begin(), rev.end());
  compare_dims("transpose-default", transpose(d), rev);
  // strides
  const Strides s(d);
  idx off = 1;
  PBT_EQ("strides", s.size(), d.ndim(), show(m));
  for (idx i = d.ndim(); i-- > 0;) {
    PBT_EQ("strides", s[i], off, show(m));
    off *= d.size(i);
  }
  if (!labels.empty()) {
    std::vector<idx> raw;
    for (idx i = 0; i < d.ndim(); ++i)
      raw.push_back(g.integer(0, 30));
    const Strides t = transpose(Strides(raw), d, labels);
    PBT_EQ("strides-transpose", t.size(), idx(labels.size()), show(m));
    for (size_t i = 0; i < labels.size(); ++i)
      PBT_EQ("strides-transpose", t[i], raw[d.index(labels[i])], "dim ",
             labels[i].name(), " of ", show(m), " to ", show(p));
    auto bad = labels;
    bad.pop_back();
    if (!bad.empty())
      PBT_CHECK("transpose-refused", throws([&] { (void)transpose(d, bad); }),
                show(m));
    bad = labels;
    bad.back() = dim_label(8);
    PBT_CHECK("transpose-refused", throws([&] { (void)transpose(d, bad); }),
              show(m));
    if (labels.size() > 1) {
      bad = labels;
      bad[0] = bad[1];
      PBT_CHECK("transpose-refused", throws([&] { (void)transpose(d, bad); }),
                show(m));
    }
  }
  // the container of strides
  std::vector<idx> sm;
  Strides st;
  for (int k = 0; k < 8; ++k)
    switch (g.draw(3)) {
    case 0:
    case 1: {
      const auto x = g.integer(0, 9);
      st.push_back(x);
      sm.push_back(x);
      break;
    }
    case 2:
      if (!sm.empty()) {
        const auto i = g.draw(sm.size() - 1);
        st.erase(i);
        sm.erase(sm.begin() + i);
      }
      break;
    default: {
      const auto x = g.length(0, 6);
      st.resize(x);
      sm.resize(x);
    }
    }
  PBT_CHECK("strides-container",
            st.size() == idx(sm.size()) &&
                std::equal(st.begin(), st.end(), sm.begin(), sm.end()) &&
                st == Strides(sm) && !(st != Strides(sm)),
            seq(sm));
  PBT_CHECK("strides-bounds", throws([&] { (void)st[idx(sm.size())]; }),
            seq(sm));
  g.nontrivial(m.size() > 1 && p != m);
}

void fold_(Gen &g) {
  auto m = gen_model(g, 4, 3);
  if (m.empty())
    m.emplace_back(dim_label(0), 4);
  const auto at = g.draw(m.size() - 1);
  Model to;
  idx vol = 1;
  const auto n = g.length(0, 3);
  for (int64_t i = 0; i < n; ++i) {
    Dim l = g.boolean(0.12) ? dim_label(g.draw(8)) : Dim(cat("f", i));
    if (has(to, l))
      l = Dim(cat("f", i));
    to.emplace_back(l, g.length(1, 4));
    vol *= to.back().second;
  }
  m[at].second = g.boolean(0.15) ? g.length(0, 6) : vol;
  const auto d = make(m);
  const auto from = m[at].first;
  Model want;
  for (auto &x : m)
    if (x.first == from)
      want.insert(want.end(), to.begin(), to.end());
    else
      want.push_back(x);
  bool dup = false;
  for (size_t i = 0; i < want.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      dup |= want[i].first == want[j].first;
  g.note([&] {
    return cat("fold ", from.name(), " of ", show(m), " into ", show(to));
  });
  const auto ctx = cat("fold ", from.name(), " of ", show(m), " into ",
                       show(to));
  if (dup || m[at].second != vol) {
    PBT_CHECK("fold-refused", throws([&] { (void)fold(d, from, make(to)); }),
              ctx);
    g.label("refused");
  } else {
    const auto f = fold(d, from, make(to));
    compare_dims("fold", f, want);
    PBT_EQ("fold-volume", f.volume(), d.volume(), ctx);
    g.nontrivial(to.size() > 1 && m.size() > 1);
  }
  PBT_CHECK("fold-missing",
            throws([&] { (void)fold(d, Dim("absent"), make(to)); }), ctx);
}

void slice_(Gen &g) {
  const auto m = gen_model(g, 4, 9);
  const Sizes s = make_sizes(m);
  const auto l = !m.empty() && g.boolean(0.9)
                     ? m[g.draw(m.size() - 1)].first
                     : dim_label(g.draw(8));
  // mostly within the length, sometimes up to one past it
  const idx len = has(m, l) ? get(m, l) : 3;
  const idx begin =
      g.boolean(0.05) ? -g.integer(1, 2) : idx(g.draw(len + g.boolean(0.05)));
  const bool range = g.boolean(0.75);
  const idx room = std::max<idx>(0, len - begin) + g.boolean(0.1);
  const idx end = range ? begin + (g.boolean(0.05) ? -g.integer(1, 2)
                                                   : idx(g.draw(room)))
                        : -1;
  const idx stride = g.boolean(0.4) ? g.integer(-1, 4) : 1;
  if (range && end == -1)
    throw Discard{};
  const auto ctx = cat("slice ", l.name(), " ", begin, ":", end, ":", stride,
                       " of ", show(m));
  g.note(ctx);
  const bool valid_ctor =
      begin >= 0 && (!range || (begin <= end && stride > 0));
  std::optional<Slice> sl;
  try {
    sl = range ? Slice(l, begin, end, stride) : Slice(l, begin);
  } catch (const except::SliceError &) {
  }
  PBT_EQ("slice-ctor", sl.has_value(), valid_ctor, ctx);
  if (!sl) {
    g.label("bad slice");
    return;
  }
  PBT_CHECK("slice-fields",
            sl->dim() == l && sl->begin() == begin && sl->isRange() == range &&
                (!range || (sl->end() == end && sl->stride() == stride)),
            ctx);
  PBT_CHECK("slice-equal",
            *sl == (range ? Slice(l, begin, end, stride) : Slice(l, begin)),
            ctx);
  PBT_CHECK("slice-equal", *sl != Slice(l, begin + 1, begin + 9, 7), ctx);
  PBT_CHECK("slice-none", s.slice(Slice{}) == s, ctx);
  // positions selected, by enumeration
  const bool inside =
      has(m, l) && (range ? end <= get(m, l) : begin < get(m, l));
  if (!inside) {
    PBT_CHECK("slice-out-of-range", throws([&] { (void)s.slice(*sl); }), ctx);
    g.label("out of range");
    return;
  }
  Model want;
  for (auto &x : m) {
    if (x.first != l) {
      want.push_back(x);
    } else if (range) {
      idx n = 0;
      for (idx i = begin; i < end; i += stride)
        ++n;
      want.emplace_back(l, n);
    }
  }
  compare("slice", s.slice(*sl), want);
  g.label(range ? "range" : "point");
  g.nontrivial(m.size() > 1);
}

void rename_law(Gen &g) {
  const auto m = gen_model(g, 5, 4);
  std::vector<std::pair<Dim, Dim>> names;
  std::vector<int> pool{0, 1, 2, 3, 4, 5, 6, 7, 8};
  const auto from = g.permutation(pool);
  const auto n = g.length(0, 4);
  std::set<Dim> targets;
  const auto shift = g.draw(5);
  bool unknown = false, collision = false, chain = false;
  for (int64_t i = 0; i < n; ++i) {
    const auto f = i < idx(m.size()) && g.boolean(0.95)
                       ? m[(i + shift) % m.size()].first
                       : dim_label(from[i]);
    if (std::any_of(names.begin(), names.end(),
                    [&](const auto &x) { return x.first == f; }))
      continue;
    const auto t = g.boolean(0.85) ? Dim(cat("r", i)) : dim_label(g.draw(8));
    names.emplace_back(f, t);
  }
  for (auto &[f, t] : names) {
    unknown |= !has(m, f);
    if (f == t)
      continue;
    collision |= (has(m, f) && has(m, t)) || !targets.insert(t).second;
    for (auto &[f2, t2] : names)
      chain |= f2 == t && f != t;
  }
  std::string ctx = cat("rename in ", show(m), ":");
  for (auto &[f, t] : names)
    ctx += cat(" ", f.name(), "->", t.name());
  g.note(ctx);
  const auto d = make(m);
  const Sizes s = make_sizes(m);
  if (chain)
    return; // the outcome of a -> b, b -> c is not specified
  if (unknown) {
    PBT_CHECK("rename-unknown",
              throws([&] { (void)d.rename_dims(names); }) &&
                  throws([&] { (void)s.rename_dims(names); }),
              ctx);
    g.label("unknown");
  }
  if (collision) {
    g.label("collision");
    // Two names for one dimension must never result.
    try {
      const auto r = d.rename_dims(names, false);
      std::set<Dim> seen;
      for (const auto &l : r)
        PBT_CHECK("rename-collision", seen.insert(l).second, ctx);
      PBT_EQ("rename-collision", r.volume(), d.volume(), ctx);
    } catch (const except::DimensionError &) {
    }
    return;
  }
  auto want = m;
  for (auto &x : want)
    for (auto &[f, t] : names)
      if (x.first == f) {
        x.first = t;
        break;
      }
  compare_dims("rename", d.rename_dims(names, false), want);
  compare("rename", s.rename_dims(names, false), want);
  if (!unknown) {
    compare_dims("rename", d.rename_dims(names), want);
    g.nontrivial(names.size() > 1);
  }
  compare_dims("rename-input", d, m);
}

// concat of sizes, and the rule for what is a bin edge
void concat_edges(Gen &g) {
  const auto m = gen_model(g, 3, 4);
  const auto l = dim_label(g.draw(4));
  std::vector<Sizes> parts;
  idx total = 0;
  const auto n = g.length(1, 4);
  for (int64_t i = 0; i < n; ++i) {
    Model p;
    bool with = i == 0 ? g.boolean(0.6) : g.boolean(0.5);
    for (auto &x : m)
      if (x.first != l)
        p.push_back(x);
    idx len = 1;
    if (with) {
      len = g.length(0, 4);
      p.insert(p.begin() + g.draw(p.size()), {l, len});
    }
    total += len;
    parts.push_back(make_sizes(p));
  }
  if (n > 1) {
    const auto c = concat(parts, l);
    PBT_EQ("concat", c[l], total, "dim ", l.name(), " of ", show(m));
    for (auto &x : m)
      if (x.first != l)
        PBT_EQ("concat", c[x.first], x.second, show(m));
    PBT_EQ("concat", c.size(), idx(1 + m.size() - has(m, l)), show(m));
  }
  // edges
  const auto dm = gen_model(g, 3, 4);
  auto sm = dm;
  for (size_t i = 0; i < sm.size();)
    if (g.boolean(0.2))
      sm.erase(sm.begin() + i);
    else
      ++i;
  auto e = dim_label(g.draw(7));
  if (!sm.empty() && g.boolean(0.8)) {
    auto &x = sm[g.draw(sm.size() - 1)];
    x.second += g.boolean(0.7) ? 1 : g.integer(-1, 1);
    if (g.boolean(0.8))
      e = x.first;
  }
  if (g.boolean(0.15) && !has(sm, e))
    sm.emplace_back(e, 2);
  for (auto &x : sm)
    x.second = std::max<idx>(0, x.second);
  // is_edges(data, coord, dim): coord is one longer than the data along dim
  // (or has length 2 where the data does not depend on dim), and matches the
  // data otherwise.
  bool want = has(sm, e);
  if (want) {
    if (!dm.empty())
      for (auto &[k, len] : sm)
        if (k != e)
          want &= has(dm, k) && get(dm, k) == len;
    want &= get(sm, e) == (has(dm, e) ? get(dm, e) + 1 : 2);
  }
  g.note([&] {
    return cat("edges ", show(sm), " along ", e.name(), " for data ", show(dm));
  });
  PBT_EQ("is-edges", is_edges(make_sizes(dm), make_sizes(sm), e), want,
         "coord ", show(sm), " along ", e.name(), " for data ", show(dm));
  PBT_CHECK("is-edges-invalid",
            !is_edges(make_sizes(dm), make_sizes(sm), Dim::Invalid), "");
  g.label(want ? "edges" : "not edges");
  g.nontrivial(n > 1 && !dm.empty());
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C03";
  p.rule =
      "Association lists label->length as the model: histories of "
      "modifications (valid and refused), merges, intersections, transposes, "
      "folds, slices, renames, concatenations. Non-trivial: at least two "
      "dimensions are involved and the operation does something (history: "
      "some steps accepted and some refused).";
  p.laws = {{"history", 100000, 2000000, history},
            {"equality", 100000, 2000000, equality},
            {"merge", 150000, 3000000, merge_},
            {"reorder", 100000, 2000000, reorder},
            {"fold", 100000, 2000000, fold_},
            {"slice", 150000, 3000000, slice_},
            {"rename", 100000, 2000000, rename_law},
            {"concat_edges", 100000, 2000000, concat_edges}};
  return run(argc, argv, p);
}
