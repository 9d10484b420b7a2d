// C09: dictionaries keep insertion order, map each key once and detect changes
// during iteration.
// sanitize: -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-omit-frame-pointer
#include "pbt.h"

#include <algorithm>
#include <memory>

#include "scipp/core/dict.h"
#include "scipp/units/dim.h"

using namespace pbt;
using scipp::core::Dict;

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1";
}

namespace {
template <class K> K make_key(size_t i);
template <> std::string make_key<std::string>(size_t i) {
  // Same prefix, lengths on both sides of the small string buffer.
  return i == 0 ? "" : std::string(i * 5 % 35, 'k') + char('A' + i);
}
template <> scipp::Dim make_key<scipp::Dim>(size_t i) {
  return scipp::Dim("dict" + std::to_string(i));
}

template <class V> struct val;
template <> struct val<int> {
  static int make(int i) { return i; }
  static int get(const int &v) { return v; }
};
template <> struct val<std::string> {
  static std::string make(int i) { return "long enough value " + std::to_string(i); }
  static int get(const std::string &v) { return std::stoi(v.substr(18)); }
};
template <> struct val<std::unique_ptr<int>> { // move only
  static std::unique_ptr<int> make(int i) { return std::make_unique<int>(i); }
  static int get(const std::unique_ptr<int> &v) { return v ? *v : -1; }
};

template <class K> std::string show(const K &k) {
  if constexpr (std::is_same_v<K, scipp::Dim>)
    return k.name();
  else
    return cat(k);
}

template <class K, class V> struct Model {
  std::vector<std::pair<K, int>> items;
  auto find(const K &k) {
    return std::find_if(items.begin(), items.end(),
                        [&](const auto &x) { return x.first == k; });
  }
  std::string show_() const {
    std::string s = "{";
    for (const auto &[k, v] : items)
      s += show(k) + ":" + std::to_string(v) + " ";
    return s + "}";
  }
};

template <class D, class M>
void agree(D &d, M &m, const std::string &ctx, size_t nkeys) {
  using K = typename std::decay_t<D>::key_type;
  using V = typename std::decay_t<D>::mapped_type;
  const auto &c = d;
  const auto n = m.items.size();
  PBT_EQ("size", size_t(c.size()), n, ctx);
  PBT_EQ("empty", c.empty(), n == 0, ctx);
  PBT_CHECK("capacity", size_t(c.capacity()) >= n, ctx);
  size_t i = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++i) {
    PBT_CHECK("iterate", i < n, "too many items ", ctx);
    PBT_CHECK("iterate", it->first == m.items[i].first &&
                             val<V>::get(it->second) == m.items[i].second,
              "position ", i, " has ", show(it->first), " ", ctx);
    const auto [k, v] = *it;
    PBT_CHECK("iterate", k == m.items[i].first &&
                             val<V>::get(v) == m.items[i].second,
              "position ", i, " ", ctx);
  }
  PBT_EQ("iterate", i, n, ctx);
  i = 0;
  for (auto it = d.begin(); it != d.end(); ++it, ++i)
    PBT_CHECK("iterate-mutable", it->first == m.items.at(i).first &&
                                     val<V>::get(it->second) == m.items[i].second,
              "position ", i, " ", ctx);
  PBT_EQ("iterate-mutable", i, n, ctx);
  i = 0;
  for (auto it = c.keys_begin(); it != c.keys_end(); ++it, ++i)
    PBT_CHECK("keys", *it == m.items.at(i).first, "position ", i, " ", ctx);
  PBT_EQ("keys", i, n, ctx);
  i = 0;
  for (auto it = c.values_begin(); it != c.values_end(); ++it, ++i)
    PBT_CHECK("values", val<V>::get(*it) == m.items.at(i).second, "position ", i,
              " ", ctx);
  PBT_EQ("values", i, n, ctx);
  i = 0;
  for (auto it = d.values_begin(); it != d.values_end(); ++it, ++i)
    PBT_CHECK("values-mutable", val<V>::get(*it) == m.items.at(i).second,
              "position ", i, " ", ctx);
  PBT_EQ("values-mutable", i, n, ctx);
  for (size_t k = 0; k < nkeys; ++k) {
    const auto key = make_key<K>(k);
    const auto it = m.find(key);
    const bool has = it != m.items.end();
    PBT_EQ("contains", c.contains(key), has, "key ", show(key), " ", ctx);
    PBT_EQ("find", c.find(key) != c.end(), has, "key ", show(key), " ", ctx);
    PBT_EQ("find", d.find(key) != d.end(), has, "key ", show(key), " ", ctx);
    if (has) {
      PBT_EQ("lookup", val<V>::get(c[key]), it->second, "key ", show(key), " ", ctx);
      PBT_EQ("lookup", val<V>::get(d[key]), it->second, "key ", show(key), " ", ctx);
      PBT_EQ("lookup", val<V>::get(c.at(key)), it->second, "key ", show(key), " ", ctx);
      PBT_EQ("lookup", val<V>::get(d.at(key)), it->second, "key ", show(key), " ", ctx);
      PBT_CHECK("find-item",
                c.find(key)->first == key &&
                    val<V>::get(c.find(key)->second) == it->second &&
                    val<V>::get(d.find(key)->second) == it->second,
                "key ", show(key), " ", ctx);
      PBT_EQ("find-position", size_t(std::distance(c.begin(), c.find(key))),
             size_t(it - m.items.begin()), "key ", show(key), " ", ctx);
    } else {
      const auto missing = [&](auto &&f) {
        try {
          f();
        } catch (const scipp::except::NotFoundError &) {
          return true;
        }
        return false;
      };
      PBT_CHECK("missing", missing([&] { (void)c[key]; }), show(key), " ", ctx);
      PBT_CHECK("missing", missing([&] { (void)d.at(key); }), show(key), " ", ctx);
    }
  }
}

template <class K, class V> void history_(Gen &g) {
  const bool large = g.boolean(0.06);
  const size_t nkeys = large ? 40 : 7;
  Dict<K, V> d;
  Model<K, V> m;
  if (large) // start with many items
    for (auto n = g.integer(0, 40); n > 0; --n) {
      const auto key = make_key<K>(g.draw(nkeys - 1));
      const auto it = m.find(key);
      const int v = 100 + static_cast<int>(n);
      d.insert_or_assign(key, val<V>::make(v));
      if (it == m.items.end())
        m.items.emplace_back(key, v);
      else
        it->second = v;
    }
  const auto steps = g.length(1, 4 + g.size() / 3);
  bool erased = false, overwritten = false;
  std::string log;
  for (int64_t s = 0; s < steps; ++s) {
    const auto k = g.draw(nkeys - 1);
    const auto key = make_key<K>(k);
    const int v = static_cast<int>(s) + 1;
    auto it = m.find(key);
    const bool has = it != m.items.end();
    const auto op = g.weighted({6, 3, 3, 1, 2, 1, 2, 2, 2});
    log = cat("after step ", s, " op ", op, " key ", show(key), " on ", m.show_());
    g.note(log);
    switch (op) {
    case 0:
      d.insert_or_assign(key, val<V>::make(v));
      if (has) {
        it->second = v;
        overwritten = true;
      } else {
        m.items.emplace_back(key, v);
      }
      break;
    case 1:
      PBT_EQ("erase-missing", throws([&] { d.erase(key); }), !has, log);
      if (has) {
        erased |= it + 1 != m.items.end();
        m.items.erase(it);
      }
      break;
    case 2:
      if (has) {
        PBT_EQ("extract", val<V>::get(d.extract(key)), it->second, log);
        erased |= it + 1 != m.items.end();
        m.items.erase(it);
      } else {
        PBT_CHECK("extract-missing", throws([&] { d.extract(key); }), log);
      }
      break;
    case 3:
      d.clear();
      m.items.clear();
      break;
    case 4: // write through a reference
      if (has) {
        it->second = v;
        switch (g.draw(3)) {
        case 0:
          d[key] = val<V>::make(v);
          break;
        case 1:
          d.at(key) = val<V>::make(v);
          break;
        case 2:
          d.find(key)->second = val<V>::make(v);
          break;
        default:
          *std::next(d.values_begin(), it - m.items.begin()) = val<V>::make(v);
        }
      }
      break;
    case 5:
      d.reserve(g.integer(0, 20));
      break;
    case 6: { // move or copy; the copy shares nothing
      if constexpr (std::is_copy_constructible_v<V>) {
        Dict<K, V> other(d);
        if (g.boolean()) {
          other.insert_or_assign(key, val<V>::make(-5));
          agree(d, m, log + " (copied)", nkeys);
        } else {
          d.clear();
          d = std::move(other);
        }
      } else {
        Dict<K, V> other(std::move(d));
        d = Dict<K, V>();
        d.insert_or_assign(key, val<V>::make(-5));
        d = std::move(other);
      }
      break;
    }
    case 7: { // the argument refers into the dictionary itself
      if (m.items.empty())
        break;
      const auto at = g.draw(m.items.size() - 1);
      const auto src = m.items[at];
      if constexpr (std::is_copy_constructible_v<V>) {
        d.insert_or_assign(key, std::as_const(d)[src.first]);
        if (has)
          it->second = src.second;
        else
          m.items.emplace_back(key, src.second);
      } else {
        d.erase(*std::next(d.keys_begin(), at));
        m.items.erase(m.items.begin() + at);
      }
      break;
    }
    default: { // a change of size while iterating is detected
      const auto n = m.items.size();
      const auto at = n == 0 ? 0 : g.draw(n - 1);
      auto a = std::next(d.begin(), at);
      auto b = std::next(std::as_const(d).begin(), at);
      auto c = std::next(d.values_begin(), at);
      auto e = std::next(d.keys_begin(), at);
      if (has) {
        d.insert_or_assign(key, val<V>::make(v)); // no change of size
        it->second = v;
        PBT_CHECK("assign-keeps-iterators",
                  !throws([&] { (void)*a, (void)*b, (void)*c, (void)*e; }), log);
        PBT_CHECK("assign-keeps-iterators", a->first == m.items[at].first, log);
        d.erase(key);
        m.items.erase(it);
      } else {
        d.insert_or_assign(key, val<V>::make(v));
        m.items.emplace_back(key, v);
      }
      const auto stale = [](auto &i) {
        auto j = i;
        return throws([&] { (void)*i; }) && throws([&] { ++j; }) &&
               throws([&] { (void)(i == i); }) && throws([&] { (void)(i != i); });
      };
      PBT_CHECK("stale-iterator", stale(a) && stale(b) && stale(c) && stale(e),
                log);
      PBT_CHECK("stale-iterator", throws([&] { (void)a->first; }), log);
    }
    }
    if (!large || s % 4 == 3 || s + 1 == steps)
      agree(d, m, log, nkeys);
  }
  g.nontrivial(m.items.size() > 1 && (erased || overwritten));
  if (erased)
    g.label("erased in the middle");
}
void history(Gen &g) {
  switch (g.draw(2)) {
  case 0:
    return history_<std::string, int>(g);
  case 1:
    return history_<scipp::Dim, std::string>(g);
  default:
    return history_<scipp::Dim, std::unique_ptr<int>>(g);
  }
}

// Iterators with functions applied, standard algorithms, initializer lists
void views(Gen &g) {
  const auto n = g.length(0, 8);
  std::vector<std::pair<std::string, int>> items;
  Dict<std::string, int> d;
  for (int64_t i = 0; i < n; ++i) {
    const auto k = g.ident(3);
    const int v = static_cast<int>(g.integer(-9, 9));
    d.insert_or_assign(k, v);
    const auto it = std::find_if(items.begin(), items.end(),
                                 [&](const auto &x) { return x.first == k; });
    if (it == items.end())
      items.emplace_back(k, v);
    else
      it->second = v;
  }
  g.note([&] {
    std::string s;
    for (const auto &[k, v] : items)
      s += k + ":" + std::to_string(v) + " ";
    return s;
  });
  const int c = static_cast<int>(g.integer(-5, 5));
  const auto add = [c](const auto &x) { return x + c; };
  const auto twice = [](const auto &x) { return 2 * x; };
  size_t i = 0;
  const auto end = d.values_end().transform(add);
  for (auto it = d.values_begin().transform(add); it != end; ++it, ++i)
    PBT_EQ("transform", *it, items.at(i).second + c, "position ", i);
  PBT_EQ("transform", i, items.size(), "");
  i = 0;
  const auto base = d.values_begin().transform(add);
  for (auto it = base.transform(twice);
       it != d.values_end().transform(add).transform(twice); ++it, ++i)
    PBT_EQ("transform-twice", *it, 2 * (items.at(i).second + c), "position ", i);
  PBT_EQ("transform-twice", i, items.size(), "");
  i = 0;
  const auto len = [](const auto &kv) {
    return int(kv.first.size()) + kv.second;
  };
  for (auto it = std::as_const(d).begin().transform(len);
       it != std::as_const(d).end().transform(len); ++it, ++i)
    PBT_EQ("transform-items", *it,
           int(items.at(i).first.size()) + items[i].second, "position ", i);
  PBT_EQ("count",
         std::count_if(d.values_begin(), d.values_end(),
                       [](int v) { return v > 0; }),
         std::count_if(items.begin(), items.end(),
                       [](const auto &x) { return x.second > 0; }),
         "");
  PBT_EQ("distance", size_t(std::distance(d.begin(), d.end())), items.size(), "");
  if (items.size() >= 2) {
    auto a = d.begin();
    auto b = std::next(d.begin());
    swap(a, b);
    PBT_CHECK("swap", a->first == items[1].first && b->first == items[0].first,
              "");
  }
  const auto text = dict_keys_to_string(d);
  size_t at = 0;
  for (const auto &[k, v] : items) {
    at = text.find(k, at);
    PBT_CHECK("keys-text", at != std::string::npos, k, " not in order in ", text);
    at += k.size();
  }
  // Initializer lists refuse a repeated key.
  const auto a = g.ident(2), b = g.ident(2), e = g.ident(2);
  const bool unique = a != b && a != e && b != e;
  PBT_EQ("initializer",
         throws([&] { (void)Dict<std::string, int>{{a, 1}, {b, 2}, {e, 3}}; }),
         !unique, a, ",", b, ",", e);
  g.nontrivial(items.size() > 1);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C09";
  p.rule = "histories of inserting, overwriting, erasing, extracting, copying and "
           "moving on dictionaries with string and dimension keys and "
           "copyable or move-only values, compared with a vector of pairs after "
           "every step. Non-trivial: more than one key and a key was overwritten "
           "or erased before the last position.";
  p.laws = {{"history", 15000, 400000, history},
            {"views", 30000, 600000, views}};
  return run(argc, argv, p);
}
