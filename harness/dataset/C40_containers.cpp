// sanitize: -D_GLIBCXX_ASSERTIONS
// C40: data arrays and datasets as containers of aligned variables.
#include "../gen_var.h"

#include "scipp/dataset/dataset.h"
#include "scipp/dataset/except.h"
#include "scipp/variable/creation.h"

using namespace gv;
using scipp::DataArray;
using scipp::Dataset;
using scipp::dataset::Coords;
using scipp::dataset::Masks;

namespace {
// ------------------------------------------------------------------ model
struct MVar {
  std::shared_ptr<std::vector<double>> buf;
  DType type = dtype<int64_t>;
  Shape shape;
  std::vector<idx> at; // positions in buf, row-major
  bool aligned = true, readonly = false;
  double get(const size_t i) const { return (*buf)[static_cast<size_t>(at[i])]; }
};
struct Cut {
  Dim dim;
  idx begin, end, step; // end -1: point
  bool point() const { return end == -1; }
  Slice slice() const { return point() ? Slice{dim, begin} : Slice{dim, begin, end, step}; }
};
std::string show(const Cut &c) { return cat(c.dim.name(), "[", c.begin, ":", c.end, ":", c.step, "]"); }
using gv::show;
idx count(const Cut &c) { return c.point() ? 1 : (c.end - c.begin + c.step - 1) / c.step; }

MVar cut(const MVar &v, const Cut &c) {
  MVar out = v;
  out.shape.clear();
  for (const auto &[d, n] : v.shape) {
    if (d != c.dim)
      out.shape.emplace_back(d, n);
    else if (!c.point())
      out.shape.emplace_back(d, count(c));
  }
  out.at.clear();
  for_each(out.shape, [&](const std::vector<idx> &i) {
    idx p = 0;
    for (const auto &[d, n] : v.shape)
      p = p * n + (d == c.dim ? c.begin + (c.point() ? 0 : i[size_t(find(out.shape, d))] * c.step)
                              : i[size_t(find(out.shape, d))]);
    out.at.push_back(v.at[size_t(p)]);
  });
  return out;
}
MVar deep(const MVar &v) {
  MVar out = v;
  out.readonly = false;
  out.buf = std::make_shared<std::vector<double>>();
  out.at.clear();
  for (size_t i = 0; i < v.at.size(); ++i) {
    out.buf->push_back(v.get(i));
    out.at.push_back(idx(i));
  }
  return out;
}
bool equal(const MVar &a, const MVar &b) {
  if (a.type != b.type || a.shape != b.shape)
    return false;
  for (size_t i = 0; i < a.at.size(); ++i)
    if (a.get(i) != b.get(i))
      return false;
  return true;
}
bool identical(const MVar &a, const MVar &b) {
  return a.buf == b.buf && a.shape == b.shape && a.at == b.at;
}
bool as_sets(const Shape &a, const Shape &b) {
  if (a.size() != b.size())
    return false;
  for (const auto &[d, n] : a)
    if (find(b, d) < 0 || length_of(b, d) != n)
      return false;
  return true;
}
/// Can a coordinate, mask or attribute of this shape belong to data of `sizes`?
bool fits(const Shape &item, const Shape &sizes) {
  bool edge = false;
  for (const auto &[d, n] : item) {
    const bool known = find(sizes, d) >= 0;
    if (known && n == length_of(sizes, d))
      continue;
    if (edge || n != (known ? length_of(sizes, d) + 1 : 2))
      return false;
    edge = true;
  }
  return true;
}

struct MDict {
  Shape sizes;
  std::vector<std::pair<std::string, MVar>> items;
  bool readonly = false;
  MVar *get(const std::string &k) {
    for (auto &[key, v] : items)
      if (key == k)
        return &v;
    return nullptr;
  }
  const MVar *get(const std::string &k) const { return const_cast<MDict *>(this)->get(k); }
  void set(const std::string &k, const MVar &v) {
    if (auto *x = get(k))
      *x = v;
    else
      items.emplace_back(k, v);
  }
  void erase(const std::string &k) {
    items.erase(std::find_if(items.begin(), items.end(), [&](auto &x) { return x.first == k; }));
  }
};
MDict deep(const MDict &d) {
  MDict out{d.sizes, {}, false};
  for (const auto &[k, v] : d.items)
    out.items.emplace_back(k, deep(v));
  return out;
}
Shape cut(const Shape &s, const Cut &c) {
  Shape out;
  for (const auto &[d, n] : s)
    if (d != c.dim)
      out.emplace_back(d, n);
    else if (!c.point())
      out.emplace_back(d, count(c));
  return out;
}
/// Dimension a coordinate belongs to, or -1 (see SizedDict::dim_of).
std::optional<Dim> dim_of(const MDict &d, const std::string &key) {
  const auto &s = d.get(key)->shape;
  if (s.empty())
    return {};
  if (s.size() == 1)
    return s[0].first;
  for (const auto &[x, n] : s)
    if (n == (find(d.sizes, x) >= 0 ? length_of(d.sizes, x) + 1 : 2) &&
        !(find(d.sizes, x) < 0 && d.sizes.empty() && s.size() > 1))
      if (find(d.sizes, x) < 0 || n != length_of(d.sizes, x))
        return x;
  for (const auto &[x, n] : s)
    if (x.name() == key)
      return x;
  return {};
}
/// Slice of a dict, nothing if the slice is refused.
std::optional<MDict> cut(const MDict &d, const Cut &c, const bool coords) {
  MDict out{cut(d.sizes, c), {}, true};
  for (const auto &[k, v] : d.items) {
    MVar x;
    if (find(v.shape, c.dim) < 0) {
      x = v;
      x.readonly = true;
    } else if (length_of(v.shape, c.dim) == length_of(d.sizes, c.dim)) {
      x = cut(v, c);
    } else {
      if (!c.point() && c.step != 1)
        return {};
      Cut edges{c.dim, c.begin, c.point() ? c.begin + 2 : c.begin == c.end ? c.end : c.end + 1, 1};
      x = cut(v, edges);
    }
    if (coords && c.point() && find(v.shape, c.dim) >= 0 && dim_of(d, k) == c.dim)
      x.aligned = false;
    out.items.emplace_back(k, x);
  }
  return out;
}
using Names = std::vector<std::pair<Dim, Dim>>;
/// Labels after renaming one dimension, nothing if a label would occur twice.
std::optional<Shape> rename(Shape s, const std::pair<Dim, Dim> &n) {
  if (find(s, n.first) < 0 || n.first == n.second)
    return s;
  if (find(s, n.second) >= 0)
    return {};
  s[size_t(find(s, n.first))].first = n.second;
  return s;
}
std::optional<MDict> rename(const MDict &d, const std::pair<Dim, Dim> &n) {
  const auto sizes = rename(d.sizes, n);
  if (!sizes)
    return {};
  MDict out{*sizes, {}, false};
  for (const auto &[k, v] : d.items) {
    auto x = v;
    if (find(d.sizes, n.second) < 0 && find(v.shape, n.second) >= 0)
      return {};
    const auto s = rename(v.shape, n);
    if (!s)
      return {};
    x.shape = *s;
    out.items.emplace_back(k, x);
  }
  return out;
}

struct MArray {
  std::string name;
  std::shared_ptr<MVar> data;
  std::shared_ptr<MDict> coords, masks, attrs;
  bool readonly = false;
  MDict &dict(const int i) const { return i == 0 ? *coords : i == 1 ? *masks : *attrs; }
};
MArray shallow(const MArray &a, const bool keep_attrs = true) {
  MArray out{a.name, std::make_shared<MVar>(*a.data), std::make_shared<MDict>(*a.coords),
             std::make_shared<MDict>(*a.masks), std::make_shared<MDict>(*a.attrs), false};
  out.coords->readonly = out.masks->readonly = out.attrs->readonly = false;
  if (!keep_attrs)
    out.attrs->items.clear();
  return out;
}
MArray deep(const MArray &a) {
  return {a.name, std::make_shared<MVar>(deep(*a.data)), std::make_shared<MDict>(deep(*a.coords)),
          std::make_shared<MDict>(deep(*a.masks)), std::make_shared<MDict>(deep(*a.attrs)), false};
}
bool has_dim(const Shape &s, const Dim d) { return find(s, d) >= 0; }
bool equal(const MDict &a, const MDict &b) {
  if (a.items.size() != b.items.size())
    return false;
  for (const auto &[k, v] : a.items) {
    const auto *o = b.get(k);
    if (!o || !equal(v, *o) || v.aligned != o->aligned)
      return false;
  }
  return true;
}
bool equal(const MArray &a, const MArray &b) {
  return equal(*a.data, *b.data) && equal(*a.coords, *b.coords) && equal(*a.masks, *b.masks) &&
         equal(*a.attrs, *b.attrs);
}
std::optional<MArray> cut(const MArray &a, const Cut &c) {
  auto coords = cut(*a.coords, c, true);
  auto masks = cut(*a.masks, c, false);
  auto attrs = cut(*a.attrs, c, false);
  if (!coords || !masks || !attrs)
    return {};
  return MArray{a.name,
                std::make_shared<MVar>(cut(*a.data, c)),
                std::make_shared<MDict>(*coords),
                std::make_shared<MDict>(*masks),
                std::make_shared<MDict>(*attrs),
                true};
}

struct MSet {
  MDict coords;
  std::vector<std::pair<std::string, MArray>> items; // coords of items unused
  bool readonly = false;
  MArray *get(const std::string &k) {
    for (auto &[key, v] : items)
      if (key == k)
        return &v;
    return nullptr;
  }
};
/// Item of a dataset with the coordinates that apply to it.
MArray item_of(MSet &s, const std::string &k) {
  MArray out = *s.get(k); // shares data, masks, attrs
  out.name = k;
  out.readonly = s.readonly;
  MDict coords{out.data->shape, {}, true};
  for (const auto &[key, v] : s.coords.items) {
    bool applies = true;
    for (const auto &[d, n] : v.shape)
      applies &= has_dim(out.data->shape, d);
    if (applies) {
      coords.items.emplace_back(key, v);
      coords.items.back().second.readonly = true;
    }
  }
  out.coords = std::make_shared<MDict>(coords);
  return out;
}

// ------------------------------------------------------------------ real
struct Slot {
  int kind = 0; // 0 array, 1 dataset
  std::unique_ptr<DataArray> da;
  std::unique_ptr<Dataset> ds;
  MArray ma;
  MSet ms;
};

template <class K> std::string key_name(const K &k) {
  if constexpr (std::is_same_v<K, Dim>)
    return k.name();
  else
    return k;
}
void compare(const std::string &what, const Variable &v, const MVar &m, const bool readonly) {
  PBT_CHECK("dims", shape_of(v.dims()) == m.shape, what, " has ", show(shape_of(v.dims())),
            " expected ", show(m.shape));
  PBT_CHECK("type", v.dtype() == m.type, what);
  const auto c = read(v);
  for (size_t i = 0; i < m.at.size(); ++i)
    PBT_EQ("content", c.val[i], m.get(i), what, " element ", i);
  PBT_EQ("alignment", v.is_aligned(), m.aligned, what);
  if (readonly)
    PBT_EQ("read-only variable", v.is_readonly(), m.readonly, what);
}
template <class D> void compare(const std::string &what, const D &d, const MDict &m) {
  PBT_CHECK("dict sizes", as_sets([&] {
              Shape s;
              for (const auto &x : d.sizes().labels())
                s.emplace_back(x, d.sizes()[x]);
              return s;
            }(), m.sizes),
            what, " has sizes ", to_string(d.sizes()), " expected ", show(m.sizes));
  PBT_EQ("read-only dict", d.is_readonly(), m.readonly, what);
  PBT_EQ("number of items", size_t(d.size()), m.items.size(), what);
  for (const auto &[k, v] : d) {
    const auto *x = m.get(key_name(k));
    PBT_CHECK("item", x != nullptr, what, " has ", key_name(k));
    compare(cat(what, " ", key_name(k)), v, *x, true);
    PBT_CHECK("item fits", fits(shape_of(v.dims()), m.sizes), what, " ", key_name(k));
  }
}
void compare(const std::string &what, const DataArray &a, const MArray &m) {
  PBT_EQ("name", a.name(), m.name, what);
  PBT_EQ("read-only array", a.is_readonly(), m.readonly, what);
  compare(what + " data", a.data(), *m.data, true);
  compare(what + " coords", a.coords(), *m.coords);
  compare(what + " masks", a.masks(), *m.masks);
  compare(what + " attrs", a.attrs(), *m.attrs);
}
void compare(const std::string &what, const Dataset &s, MSet &m) {
  PBT_EQ("read-only dataset", s.is_readonly(), m.readonly, what);
  PBT_EQ("number of arrays", size_t(s.size()), m.items.size(), what);
  compare(what + " coords", s.coords(), m.coords);
  for (const auto &[k, v] : m.items) {
    PBT_CHECK("contains", s.contains(k), what, " ", k);
    compare(what + " item " + k, s[k], item_of(m, k));
  }
  size_t n = 0;
  for (const auto &x : s) {
    PBT_CHECK("iteration", m.get(x.name()) != nullptr, what, " ", x.name());
    ++n;
  }
  PBT_EQ("iteration", n, m.items.size(), what);
}

struct World {
  Gen &g;
  std::vector<Slot> slots;
  int next_value = 1;

  explicit World(Gen &gen) : g(gen) {}

  Slot &add() {
    if (slots.size() < 6) {
      slots.emplace_back();
      return slots.back();
    }
    auto &s = slots[g.draw(slots.size() - 1)];
    s = Slot{};
    return s;
  }
  void put(DataArray &&real, MArray model) {
    auto &s = add();
    s.kind = 0;
    s.da = std::make_unique<DataArray>(std::move(real));
    s.ma = std::move(model);
  }
  void put(Dataset &&real, MSet model) {
    auto &s = add();
    s.kind = 1;
    s.ds = std::make_unique<Dataset>(std::move(real));
    s.ms = std::move(model);
  }
  Dim label(const size_t n = 3) { return dim_label(g.draw(n - 1)); }
  std::pair<Variable, MVar> new_var(const Shape &shape, const DType type = dtype<int64_t>) {
    MVar m;
    m.type = type;
    m.shape = shape;
    m.buf = std::make_shared<std::vector<double>>();
    Content c;
    c.shape = shape;
    c.type = type;
    const bool equal_values = g.boolean(0.3); // so that items can match
    for (idx i = 0; i < volume(shape); ++i) {
      const double x = type == dtype<bool> ? double(g.boolean())
                       : equal_values      ? 5
                                           : next_value++;
      m.buf->push_back(x);
      m.at.push_back(i);
      c.val.push_back(x);
    }
    return {make_plain(c), m};
  }
  Shape item_shape(const Shape &sizes) {
    Shape s;
    for (const auto &x : g.permutation(sizes))
      if (g.boolean(0.6))
        s.push_back(x);
    if (!s.empty() && g.boolean(0.25))
      s[g.draw(s.size() - 1)].second += 1;
    if (g.boolean(0.1)) {
      const auto d = label(5);
      if (find(s, d) < 0)
        s.insert(s.begin() + long(g.draw(s.size())), {d, g.boolean(0.8) ? 2 : g.integer(1, 3)});
    }
    if (!s.empty() && g.boolean(0.05))
      s[g.draw(s.size() - 1)].second += 1;
    return s;
  }
  /// Any existing variable, which is shared if used.
  std::optional<std::pair<Variable, MVar>> existing() {
    if (slots.empty())
      return {};
    auto &s = slots[g.draw(slots.size() - 1)];
    if (s.kind == 1) {
      if (s.ms.items.empty())
        return {};
      const auto k = g.pick(s.ms.items).first;
      auto m = item_of(s.ms, k);
      return from_array((*s.ds)[k], m);
    }
    return from_array(*s.da, s.ma);
  }
  std::pair<Variable, MVar> from_array(const DataArray &a, const MArray &m) {
    const auto which = g.draw(2);
    if (which == 0 && !m.coords->items.empty()) {
      const auto &[k, v] = g.pick(m.coords->items);
      return {a.coords()[Dim(k)], v};
    }
    if (which == 1 && !m.masks->items.empty()) {
      const auto &[k, v] = g.pick(m.masks->items);
      return {a.masks()[k], v};
    }
    return {a.data(), *m.data};
  }
  std::pair<Variable, MVar> item(const Shape &sizes, const bool mask) {
    if (g.boolean(0.25))
      if (auto e = existing())
        return *e;
    auto v = new_var(item_shape(sizes), mask ? dtype<bool> : dtype<int64_t>);
    if (g.boolean(0.2)) {
      v.first.set_aligned(false);
      v.second.aligned = false;
    }
    return v;
  }
  std::string coord_key() { return g.boolean(0.6) ? label(3).name() : g.one_of<std::string>({"lab", "lab2"}); }
  std::string mask_key() { return g.one_of<std::string>({"m", "n"}); }
  std::string array_key() { return g.one_of<std::string>({"a", "b", "c"}); }
  std::string key_for(const int dict) {
    return dict == 1 ? mask_key() : dict == 2 ? g.one_of<std::string>({"at1", "at2"}) : coord_key();
  }
  Cut gen_cut(const Shape &s) {
    const auto &[d, n] = g.pick(s);
    Cut c{d, 0, -1, 1};
    if (n > 0 && g.boolean(0.45)) {
      c.begin = g.integer(0, n - 1);
    } else {
      c.begin = g.integer(0, n);
      c.end = g.integer(c.begin, n);
      c.step = g.boolean(0.2) ? 2 : 1;
    }
    return c;
  }

  void new_array() {
    const auto shape = gen_shape_(g.length(0, 3));
    auto data = existing();
    if (!data || g.boolean(0.8))
      data = new_var(shape);
    scipp::core::Dict<Dim, Variable> coords, attrs;
    scipp::core::Dict<std::string, Variable> masks;
    const auto &sizes = data->second.shape;
    MDict mc{sizes}, mm{sizes}, mat{sizes};
    bool ok = true;
    for (int k = 0; k < 3; ++k)
      for (auto n = g.length(0, k == 0 ? 4 : 2); n > 0; --n) {
        const auto key = key_for(k);
        const auto [v, m] = item(sizes, k == 1);
        (k == 0 ? mc : k == 1 ? mm : mat).set(key, m);
        if (k == 1)
          masks.insert_or_assign(key, v);
        else
          (k == 0 ? coords : attrs).insert_or_assign(Dim(key), v);
      }
    for (const auto *d : {&mc, &mm, &mat})
      for (const auto &[k, v] : d->items)
        ok &= fits(v.shape, sizes);
    const auto name = array_key();
    g.note([&] { return cat("new array ", name, " ", show(sizes), ok ? "" : " with items that do not fit"); });
    std::optional<DataArray> a;
    const bool threw = throws([&] { a.emplace(data->first, coords, masks, attrs, name); });
    PBT_EQ("refuse items", threw, !ok, "sizes ", show(sizes));
    if (!threw)
      put(std::move(*a), {name, std::make_shared<MVar>(data->second), std::make_shared<MDict>(mc),
                          std::make_shared<MDict>(mm), std::make_shared<MDict>(mat), false});
  }
  Shape gen_shape_(const idx ndim) {
    Shape s;
    std::vector<size_t> l{0, 1, 2};
    l = g.permutation(l);
    for (idx i = 0; i < ndim; ++i)
      s.emplace_back(dim_label(l[size_t(i)]), g.boolean(0.05) ? 0 : g.length(1, 3));
    return s;
  }

  // ------------------------------------------------ data arrays
  template <class F> void expect(const char *sig, const bool ok, F &&f, const std::string &what) {
    std::string error;
    try {
      f();
    } catch (const std::exception &e) {
      error = cat("threw ", e.what());
    }
    PBT_EQ(sig, !error.empty(), !ok, what, " ", error);
  }
  /// Change a dict of an array (or the coords of a dataset).
  template <class D> void change(D &real, MDict &m, const int which, const std::string &what) {
    using K = typename D::key_type;
    const auto key = m.items.empty() || g.boolean(0.4) ? key_for(which) : g.pick(m.items).first;
    switch (g.draw(4)) {
    case 0: {
      g.note([&] { return cat(what, " erase ", key); });
      const bool ok = !m.readonly && m.get(key);
      expect("erase", ok, [&] { real.erase(K(key)); }, key);
      if (ok)
        m.erase(key);
      break;
    }
    case 1: {
      const bool value = g.boolean();
      g.note([&] { return cat(what, " align ", key, " ", value); });
      const bool ok = !m.readonly && m.get(key);
      expect("set aligned", ok, [&] { real.set_aligned(K(key), value); }, key);
      if (ok)
        m.get(key)->aligned = value;
      break;
    }
    case 2: {
      if (!m.get(key))
        return;
      g.note([&] { return cat(what, " write ", key); });
      write_var(real[K(key)], *m.get(key));
      break;
    }
    default: {
      const auto [v, mv] = item(m.sizes, which == 1);
      // Setting what is there already is allowed even for a read-only dict.
      if (m.get(key) && m.get(key)->buf == mv.buf)
        return;
      const bool ok = !m.readonly && fits(mv.shape, m.sizes);
      g.note([&] { return cat(what, " set ", key, " ", show(mv.shape), ok ? "" : " refused"); });
      expect("set item", ok, [&, &x = v] { real.set(K(key), x); }, cat(key, " ", show(mv.shape), " in ", show(m.sizes)));
      if (ok)
        m.set(key, mv);
    }
    }
  }
  void write_var(Variable v, MVar &m) {
    if (m.at.empty())
      return;
    Content c;
    c.shape = m.shape;
    c.type = m.type;
    for (size_t i = 0; i < m.at.size(); ++i)
      c.val.push_back(m.type == dtype<bool> ? double(g.boolean()) : double(next_value++));
    expect("write protection", !m.readonly, [&] { write(v, c); }, "write");
    if (!m.readonly)
      for (size_t i = 0; i < m.at.size(); ++i)
        (*m.buf)[size_t(m.at[i])] = c.val[i];
  }
  void array_op(Slot &s) {
    auto &a = *s.da;
    auto &m = s.ma;
    switch (g.draw(17)) {
    case 0:
      g.note("write data");
      return write_var(a.data(), *m.data);
    case 1:
    case 2:
      return change(a.coords(), *m.coords, 0, "coords");
    case 3:
      return change(a.masks(), *m.masks, 1, "masks");
    case 4:
      return change(a.attrs(), *m.attrs, 2, "attrs");
    case 5: {
      const bool keep = g.boolean(0.8);
      g.note("copy object");
      auto model = shallow(m, keep);
      return put(keep ? DataArray(a) : DataArray(a, scipp::dataset::AttrPolicy::Drop), model);
    }
    case 6: {
      g.note("view");
      auto model = m;
      model.readonly = false;
      return put(a.view(), model);
    }
    case 7: {
      g.note("deep copy");
      auto model = deep(m);
      return put(copy(a), model);
    }
    case 8:
    case 9: {
      if (m.data->shape.empty())
        return;
      const auto c = gen_cut(m.data->shape);
      g.note([&] { return "slice " + show(c); });
      auto model = cut(m, c);
      std::optional<DataArray> out;
      expect("slice", model.has_value(), [&] { out.emplace(a.slice(c.slice())); }, show(c));
      if (model)
        put(std::move(*out), std::move(*model));
      return;
    }
    case 10: {
      const std::pair<Dim, Dim> names{label(4), label(5)};
      g.note([&] { return cat("rename ", names.first.name(), " to ", names.second.name()); });
      const auto shape = rename(m.data->shape, names);
      auto coords = rename(*m.coords, names), masks = rename(*m.masks, names), attrs = rename(*m.attrs, names);
      const bool ok = has_dim(m.data->shape, names.first) && shape && coords && masks && attrs;
      std::optional<DataArray> out;
      expect("rename", ok, [&] { out.emplace(a.rename_dims({names})); }, cat(names.first.name(), names.second.name()));
      if (ok) {
        auto data = *m.data;
        data.shape = *shape;
        put(std::move(*out), MArray{m.name, std::make_shared<MVar>(data), std::make_shared<MDict>(*coords),
                                    std::make_shared<MDict>(*masks), std::make_shared<MDict>(*attrs), false});
      }
      return;
    }
    case 11: {
      auto v = existing();
      if (!v || g.boolean(0.4))
        v = new_var(g.boolean(0.8) ? m.data->shape : gen_shape_(g.length(0, 3)));
      if (v->second.buf == m.data->buf)
        return;
      const bool ok = !m.readonly && as_sets(v->second.shape, m.data->shape);
      g.note([&] { return cat("set data ", show(v->second.shape)); });
      expect("set data", ok, [&] { a.setData(v->first); }, show(v->second.shape));
      if (ok)
        *m.data = v->second;
      return;
    }
    case 12: {
      g.note("as_const");
      auto model = shallow(m);
      model.readonly = model.data->readonly = true;
      for (int i = 0; i < 3; ++i) {
        model.dict(i).readonly = true;
        for (auto &[k, v] : model.dict(i).items)
          v.readonly = true;
      }
      return put(a.as_const(), model);
    }
    case 13: {
      const auto which = int(g.draw(2));
      auto model = shallow(m);
      auto &d = model.dict(which);
      std::vector<std::string> keys;
      bool ok = true;
      for (auto n = g.length(0, 2); n > 0; --n) {
        keys.push_back(d.items.empty() || g.boolean(0.2) ? key_for(which) : g.pick(d.items).first);
        ok = ok && d.get(keys.back());
        if (ok)
          d.erase(keys.back());
      }
      g.note([&] { return cat("drop ", seq(keys)); });
      std::vector<Dim> dims;
      for (const auto &k : keys)
        dims.emplace_back(k);
      std::optional<DataArray> out;
      expect("drop", ok, [&] {
        out.emplace(which == 0 ? a.drop_coords(dims) : which == 1 ? a.drop_masks(keys) : a.drop_attrs(dims));
      }, seq(keys));
      if (ok)
        put(std::move(*out), std::move(model));
      return;
    }
    default:
      return set_slice(s);
    }
  }
  bool coords_agree(const MDict &a, const MDict &b) {
    for (const auto &[k, v] : b.items) {
      const auto *x = a.get(k);
      if (!x) {
        if (v.aligned)
          return false;
      } else if (x->aligned && v.aligned && !equal(*x, v))
        return false;
    }
    return true;
  }
  /// Can `from` be written to the slice `c` of `m`?  `target`: that slice.
  bool fits_slice(const MArray &m, const MArray &target, const MArray &from, const Cut &c) {
    bool ok = !m.data->readonly && from.data->type == m.data->type;
    for (const auto &[d, n] : from.data->shape)
      ok = ok && has_dim(target.data->shape, d) && length_of(target.data->shape, d) == n;
    for (const auto &[k, v] : from.masks->items) {
      const auto *mine = m.masks->get(k);
      const auto *t = target.masks->get(k);
      if (!mine)
        ok = false;
      else if (mine->readonly || !has_dim(mine->shape, c.dim))
        ok = ok && equal(*t, v);
      else {
        ok = ok && v.type == t->type;
        // The source is broadcast to the slice of the mask.
        for (const auto &[d, n] : v.shape)
          ok = ok && has_dim(t->shape, d) && length_of(t->shape, d) == n;
      }
    }
    return ok;
  }
  static bool has_edges(const MArray &m, const Cut &c) {
    for (const auto &[k, v] : m.masks->items)
      if (has_dim(v.shape, c.dim) && length_of(v.shape, c.dim) != length_of(m.masks->sizes, c.dim))
        return true;
    return false;
  }
  static void assign(const MVar &to, const MVar &from) {
    size_t i = 0;
    for_each(to.shape, [&](const std::vector<idx> &at) {
      (*to.buf)[size_t(to.at[i++])] = from.get(size_t(position(from.shape, to.shape, at)));
    });
  }
  static void assign(const MArray &m, const MArray &target, const MArray &from, const Cut &c) {
    assign(*target.data, *from.data);
    for (const auto &[k, v] : from.masks->items)
      if (const auto *mine = m.masks->get(k); !mine->readonly && has_dim(mine->shape, c.dim))
        assign(*target.masks->get(k), v);
  }
  /// Write a slice of one array to a slice of another.
  void set_slice(Slot &s) {
    auto &m = s.ma;
    if (m.data->shape.empty())
      return;
    const auto c = gen_cut(m.data->shape);
    const auto target = cut(m, c);
    if (!target)
      return;
    // Source: array cut out of a copy, with changed items.
    auto src = copy(s.da->slice(c.slice()));
    auto sm = deep(*target);
    for (int i = int(g.draw(4)); i > 0; --i)
      switch (g.draw(2)) {
      case 0:
        g.note("source data");
        write_var(src.data(), *sm.data);
        break;
      case 1:
        change(src.masks(), *sm.masks, 1, "source masks");
        break;
      default:
        change(src.coords(), *sm.coords, 0, "source coords");
      }
    const bool ok = coords_agree(*target->coords, *sm.coords) && fits_slice(m, *target, sm, c);
    g.note([&] { return cat("set slice ", show(c), ok ? "" : " refused"); });
    // No order is defined between writes to data and masks that share elements.
    for (const auto &[k, v] : m.masks->items)
      if (v.buf == m.data->buf)
        return;
    // Edges of slices overlap with those of neighbours, so are not set.
    if (has_edges(m, c))
      return;
    expect("set slice", ok, [&] { s.da->setSlice(c.slice(), src); }, show(c));
    if (ok)
      assign(m, *target, sm, c);
  }
  /// Write to a slice of all items of a dataset.
  void set_slice_of_set(Slot &s) {
    auto &m = s.ms;
    if (m.coords.sizes.empty() || m.items.empty())
      return;
    const auto c = gen_cut(m.coords.sizes);
    std::set<const void *> buffers;
    size_t n = 0;
    std::vector<MArray> arrays, targets, sources;
    for (auto &[k, a] : m.items) {
      arrays.push_back(item_of(m, k));
      const auto t = cut(arrays.back(), c);
      if (!t || has_edges(a, c))
        return;
      targets.push_back(*t);
      buffers.insert(a.data->buf.get());
      ++n;
      for (const auto &[key, v] : a.masks->items) {
        buffers.insert(v.buf.get());
        ++n;
      }
    }
    // No order is defined between writes to items that share elements.
    for (const auto &[k, v] : m.coords.items)
      n += buffers.count(v.buf.get());
    const auto coords = cut(m.coords, c, true);
    if (buffers.size() != n || !coords)
      return;
    bool ok = true;
    const auto kind = g.draw(2);
    if (kind == 0) {
      const auto [v, mv] = new_var(g.boolean(0.7) ? targets[0].data->shape : gen_shape_(g.length(0, 2)),
                                   g.boolean(0.8) ? m.items[0].second.data->type : dtype<bool>);
      MArray from{"", std::make_shared<MVar>(mv), {}, std::make_shared<MDict>(), {}, false};
      sources.assign(arrays.size(), from);
      for (size_t i = 0; i < arrays.size(); ++i)
        ok = ok && fits_slice(arrays[i], targets[i], from, c);
      g.note([&] { return cat("set slice of dataset ", show(c), " to variable", ok ? "" : " refused"); });
      expect("set slice of dataset", ok, [&, &x = v] { s.ds->setSlice(c.slice(), x); }, show(c));
    } else {
      // Copies of slices of this dataset or one of its items, with changes.
      const auto changed = g.draw(arrays.size() - 1);
      auto src = copy(s.ds->slice(c.slice()));
      for (const auto &t : targets)
        sources.push_back(deep(t));
      const auto key = m.items[changed].first;
      auto item = src[key];
      for (int i = int(g.draw(2)); i > 0; --i)
        if (g.boolean())
          write_var(item.data(), *sources[changed].data);
        else
          change(item.masks(), *sources[changed].masks, 1, "source masks");
      auto source_coords = deep(*coords);
      if (g.boolean(0.3))
        change(src.coords(), source_coords, 0, "source coords");
      if (kind == 1) {
        for (size_t i = 0; i < arrays.size(); ++i)
          ok = ok && fits_slice(arrays[i], targets[i], sources[i], c);
        ok = ok && coords_agree(*coords, source_coords);
        g.note([&] { return cat("set slice of dataset ", show(c), " to dataset", ok ? "" : " refused"); });
        expect("set slice of dataset", ok, [&] { s.ds->setSlice(c.slice(), src); }, show(c));
      } else {
        const auto from = sources[changed];
        sources.assign(arrays.size(), from);
        for (size_t i = 0; i < arrays.size(); ++i)
          ok = ok && fits_slice(arrays[i], targets[i], from, c);
        MSet tmp;
        tmp.coords = source_coords;
        tmp.items.emplace_back(key, from);
        const auto applied = *item_of(tmp, key).coords;
        ok = ok && coords_agree(*coords, applied);
        for (const auto &x : targets)
          ok = ok && coords_agree(*x.coords, applied);
        g.note([&] { return cat("set slice of dataset ", show(c), " to array", ok ? "" : " refused"); });
        expect("set slice of dataset", ok, [&] { s.ds->setSlice(c.slice(), src[key]); }, show(c));
      }
    }
    if (ok)
      for (size_t i = 0; i < arrays.size(); ++i)
        assign(arrays[i], targets[i], sources[i], c);
  }

  // ------------------------------------------------ datasets
  Slot *some_array() {
    std::vector<Slot *> a;
    for (auto &s : slots)
      if (s.kind == 0)
        a.push_back(&s);
    return a.empty() ? nullptr : g.pick(a);
  }
  /// Model of Dataset::setData with an array; false if refused.
  static bool insert(MSet &s, const std::string &key, const MArray &a) {
    if (s.readonly || !as_sets(s.coords.sizes, a.data->shape))
      return false;
    for (const auto &[k, v] : a.coords->items)
      if (const auto *x = s.coords.get(k); x && x->aligned == v.aligned && !equal(*x, v) && !identical(*x, v))
        return false;
    MArray item{"", std::make_shared<MVar>(*a.data), std::make_shared<MDict>(), std::make_shared<MDict>(*a.masks),
                std::make_shared<MDict>(*a.attrs), false};
    if (auto *x = s.get(key))
      *x = item;
    else
      s.items.emplace_back(key, item);
    for (const auto &[k, v] : a.coords->items)
      if (!s.coords.get(k))
        s.coords.set(k, v);
    return true;
  }
  void new_set() {
    if (g.boolean(0.3)) {
      auto *s = some_array();
      if (!s)
        return;
      g.note("dataset of an array");
      MSet m;
      m.coords.sizes = s->ma.data->shape;
      insert(m, s->ma.name, s->ma);
      return put(Dataset(*s->da), m);
    }
    const auto sizes = gen_shape_(g.length(0, 3));
    MSet m;
    m.coords.sizes = sizes;
    scipp::core::Dict<std::string, Variable> data;
    scipp::core::Dict<Dim, Variable> coords;
    bool ok = true;
    Shape first;
    for (auto n = g.length(1, 2); n > 0; --n) {
      const auto key = array_key();
      auto [v, mv] = new_var(g.boolean(0.9) ? g.permutation(sizes) : item_shape(sizes));
      data.insert_or_assign(key, v);
      if (auto *x = m.get(key))
        *x->data = mv;
      else
        m.items.emplace_back(key, MArray{"", std::make_shared<MVar>(mv), std::make_shared<MDict>(),
                                         std::make_shared<MDict>(MDict{mv.shape}),
                                         std::make_shared<MDict>(MDict{mv.shape}), false});
    }
    m.coords.sizes = m.items.front().second.data->shape;
    for (auto &[k, a] : m.items) {
      ok &= as_sets(a.data->shape, m.coords.sizes);
      a.masks->sizes = a.attrs->sizes = a.data->shape;
    }
    for (auto n = g.length(0, 3); n > 0; --n) {
      const auto key = coord_key();
      const auto [v, mv] = item(m.coords.sizes, false);
      coords.insert_or_assign(Dim(key), v);
      m.coords.set(key, mv);
    }
    for (const auto &[k, v] : m.coords.items)
      ok &= fits(v.shape, m.coords.sizes);
    std::optional<Dataset> out;
    g.note([&] { return cat("new dataset ", show(sizes), ok ? "" : " refused"); });
    expect("new dataset", ok, [&] { out.emplace(data, coords); }, show(sizes));
    if (ok)
      put(std::move(*out), m);
  }
  void set_op(Slot &s) {
    auto &d = *s.ds;
    auto &m = s.ms;
    const auto key = m.items.empty() || g.boolean(0.3) ? array_key() : g.pick(m.items).first;
    switch (g.draw(15)) {
    case 13:
    case 14:
      return set_slice_of_set(s);
    case 0:
    case 1: {
      auto *src = some_array();
      if (!src)
        return;
      // The same data again is no change.
      if (auto *x = m.get(key); x && identical(*x->data, *src->ma.data))
        return;
      auto model = m;
      // Masks and attrs are shared handles in the model, never changed here.
      const bool ok = insert(model, key, src->ma);
      g.note([&] { return cat("set item ", key, ok ? "" : " refused"); });
      expect("set array", ok, [&] { d.setData(key, *src->da); }, key);
      if (ok)
        m = model;
      return;
    }
    case 2: {
      const bool keep = g.boolean();
      auto v = existing();
      if (!v || g.boolean(0.6))
        v = new_var(g.permutation(m.coords.sizes));
      const bool ok = !m.readonly && as_sets(v->second.shape, m.coords.sizes);
      g.note([&] { return cat("set data ", key, keep ? " keep attrs" : ""); });
      expect("set item data", ok, [&] {
        d.setData(key, v->first,
                  keep ? scipp::dataset::AttrPolicy::Keep : scipp::dataset::AttrPolicy::Drop);
      }, key);
      if (!ok)
        return;
      MArray item{"", std::make_shared<MVar>(v->second), std::make_shared<MDict>(),
                  std::make_shared<MDict>(MDict{v->second.shape}), std::make_shared<MDict>(MDict{v->second.shape}), false};
      if (auto *x = m.get(key)) {
        if (keep) {
          *item.masks = *x->masks;
          *item.attrs = *x->attrs;
          item.masks->readonly = item.attrs->readonly = false;
        }
        *x = item;
      } else
        m.items.emplace_back(key, item);
      return;
    }
    case 3: {
      const auto ck = coord_key();
      const auto [v, mv] = item(m.coords.sizes, false);
      if (m.coords.get(ck) && m.coords.get(ck)->buf == mv.buf)
        return;
      const bool ok = !m.readonly && !m.coords.readonly && fits(mv.shape, m.coords.sizes);
      g.note([&] { return cat("set coord ", ck, " ", show(mv.shape), ok ? "" : " refused"); });
      expect("set coord", ok, [&, &x = v] { d.setCoord(Dim(ck), x); }, ck);
      if (ok)
        m.coords.set(ck, mv);
      return;
    }
    case 4:
      return change(d.coords(), m.coords, 0, "dataset coords");
    case 5: {
      g.note([&] { return "erase " + key; });
      const bool ok = !m.readonly && m.get(key);
      expect("erase item", ok, [&] { d.erase(key); }, key);
      if (ok)
        erase(m, key);
      return;
    }
    case 6: {
      g.note([&] { return "extract " + key; });
      const bool ok = !m.readonly && m.get(key);
      MArray model;
      if (ok)
        model = item_of(m, key);
      std::optional<DataArray> out;
      expect("extract item", ok, [&] { out.emplace(d.extract(key)); }, key);
      if (ok) {
        erase(m, key);
        put(std::move(*out), model);
      }
      return;
    }
    case 7: {
      if (!m.get(key))
        return expect("missing item", false, [&] { (void)d[key]; }, key);
      g.note([&] { return "item " + key; });
      auto model = item_of(m, key);
      return put(d[key], model);
    }
    case 8: {
      if (m.coords.sizes.empty())
        return;
      const auto c = gen_cut(m.coords.sizes);
      MSet model;
      auto coords = cut(m.coords, c, true);
      bool ok = coords.has_value();
      if (ok)
        model.coords = *coords;
      model.readonly = true;
      for (const auto &[k, a] : m.items) {
        auto masks = cut(*a.masks, c, false), attrs = cut(*a.attrs, c, false);
        ok = ok && masks && attrs;
        if (ok)
          model.items.emplace_back(k, MArray{"", std::make_shared<MVar>(cut(*a.data, c)), std::make_shared<MDict>(),
                                             std::make_shared<MDict>(*masks), std::make_shared<MDict>(*attrs), false});
      }
      g.note([&] { return "slice dataset " + show(c); });
      std::optional<Dataset> out;
      expect("slice dataset", ok, [&] { out.emplace(d.slice(c.slice())); }, show(c));
      if (ok)
        put(std::move(*out), std::move(model));
      return;
    }
    case 9: {
      const std::pair<Dim, Dim> names{label(4), label(5)};
      g.note([&] { return cat("rename ", names.first.name(), " to ", names.second.name()); });
      MSet model;
      auto coords = rename(m.coords, names);
      bool ok = has_dim(m.coords.sizes, names.first) && coords;
      if (ok)
        model.coords = *coords;
      for (const auto &[k, a] : m.items) {
        auto masks = rename(*a.masks, names), attrs = rename(*a.attrs, names);
        auto shape = rename(a.data->shape, names);
        ok = ok && masks && attrs && shape;
        if (ok) {
          model.items.emplace_back(k, MArray{"", std::make_shared<MVar>(*a.data), std::make_shared<MDict>(),
                                             std::make_shared<MDict>(*masks), std::make_shared<MDict>(*attrs), false});
          model.items.back().second.data->shape = *shape;
        }
      }
      std::optional<Dataset> out;
      expect("rename dataset", ok, [&] { out.emplace(d.rename_dims({names})); }, cat(names.first.name(), names.second.name()));
      if (ok)
        put(std::move(*out), std::move(model));
      return;
    }
    case 10: {
      g.note("copy dataset");
      auto model = m;
      model.readonly = model.coords.readonly = false;
      for (auto &[k, a] : model.items)
        a = shallow(a);
      if (g.boolean()) {
        model.coords = deep(model.coords);
        for (auto &[k, a] : model.items)
          a = deep(a);
        return put(copy(d), std::move(model));
      }
      return put(Dataset(d), std::move(model));
    }
    case 11: {
      g.note("clear");
      const bool ok = !m.readonly;
      expect("clear", ok, [&] { d.clear(); }, "");
      if (ok)
        m.items.clear();
      return;
    }
    default: {
      if (!m.get(key))
        return;
      // An item shares data, masks and attrs with its dataset.
      auto a = d[key];
      auto model = item_of(m, key);
      if (g.boolean()) {
        g.note([&] { return "masks of item " + key; });
        change(a.masks(), *model.masks, 1, "item masks");
      } else {
        g.note([&] { return "write item " + key; });
        write_var(a.data(), *model.data);
      }
    }
    }
  }
  static void erase(MSet &m, const std::string &key) {
    m.items.erase(std::find_if(m.items.begin(), m.items.end(), [&](auto &x) { return x.first == key; }));
  }

  void equality() {
    if (slots.size() < 2)
      return;
    auto &a = slots[g.draw(slots.size() - 1)];
    auto &b = slots[g.draw(slots.size() - 1)];
    if (a.kind != b.kind)
      return;
    if (a.kind == 0) {
      const bool e = equal(a.ma, b.ma);
      PBT_EQ("equality", *a.da == *b.da, e, "arrays");
      PBT_EQ("equality", *a.da != *b.da, !e, "arrays");
      PBT_EQ("equality", equals_nan(*a.da, *b.da), e, "arrays");
    } else {
      bool e = a.ms.items.size() == b.ms.items.size() && equal(a.ms.coords, b.ms.coords);
      for (const auto &[k, v] : a.ms.items)
        e = e && b.ms.get(k) && equal(item_of(a.ms, k), item_of(b.ms, k));
      PBT_EQ("equality", *a.ds == *b.ds, e, "datasets");
      PBT_EQ("equality", equals_nan(*a.ds, *b.ds), e, "datasets");
    }
  }
  void assign() {
    if (slots.size() < 2)
      return;
    const auto i = g.draw(slots.size() - 1), j = g.draw(slots.size() - 1);
    auto &a = slots[i];
    auto &b = slots[j];
    if (a.kind != b.kind || i == j)
      return;
    const bool move = g.boolean();
    g.note([&] { return cat("assign ", j, " to ", i, move ? " (move)" : ""); });
    if (a.kind == 0) {
      if (move) {
        *a.da = std::move(*b.da);
        a.ma = b.ma;
      } else {
        *a.da = *b.da;
        a.ma = shallow(b.ma);
      }
    } else {
      if (move) {
        *a.ds = std::move(*b.ds);
        a.ms = b.ms;
      } else {
        *a.ds = *b.ds;
        a.ms = b.ms;
        a.ms.readonly = a.ms.coords.readonly = false;
        for (auto &[k, x] : a.ms.items)
          x = shallow(x);
      }
    }
    if (move)
      slots.erase(slots.begin() + long(j));
  }
  void step() {
    const auto r = g.draw(19);
    if (slots.empty() || r == 0)
      return new_array();
    if (r == 1)
      return new_set();
    if (r == 2)
      return assign();
    const auto i = g.draw(slots.size() - 1);
    auto &s = slots[i];
    g.note([&] { return cat("slot ", i, ":"); });
    if (s.kind == 0)
      array_op(s);
    else
      set_op(s);
  }
  void check() {
    for (size_t i = 0; i < slots.size(); ++i) {
      auto &s = slots[i];
      if (s.kind == 0)
        compare(cat("array ", i), *s.da, s.ma);
      else
        compare(cat("dataset ", i), *s.ds, s.ms);
    }
    equality();
  }
};

void histories(Gen &g) {
  World w(g);
  const auto n = g.length(2, 25);
  g.nontrivial(n > 4);
  for (idx i = 0; i < n; ++i) {
    w.step();
    w.check();
  }
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C40";
  p.rule = "Histories of up to 25 operations on up to 6 data arrays and datasets, compared with a "
           "model of shared buffers after each; non-trivial: more than 4 operations.";
  p.laws = {{"histories", 150000, 3000000, histories}};
  return run(argc, argv, p);
}
