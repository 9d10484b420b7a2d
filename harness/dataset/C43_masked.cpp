// sanitize: -D_GLIBCXX_ASSERTIONS
// C43: reductions of data arrays leave out masked elements and keep the metadata that still applies.
#define VERIF_ALL_TYPES
#include "../gen_data.h"
#include "../reduce_model.h"

#include "scipp/dataset/generated_reduction.h"
#include "scipp/dataset/mean.h"
#include "scipp/dataset/nanmean.h"

using namespace gv;
namespace sd = scipp::dataset;

namespace {
template <class T, class... D> T apply_data(const Op op, const T &v, const D... dim) {
  switch (op) {
  case Op::Sum: return sd::sum(v, dim...);
  case Op::NanSum: return sd::nansum(v, dim...);
  case Op::Mean: return sd::mean(v, dim...);
  case Op::NanMean: return sd::nanmean(v, dim...);
  case Op::Min: return sd::min(v, dim...);
  case Op::Max: return sd::max(v, dim...);
  case Op::NanMin: return sd::nanmin(v, dim...);
  case Op::NanMax: return sd::nanmax(v, dim...);
  case Op::All: return sd::all(v, dim...);
  case Op::Any: return sd::any(v, dim...);
  }
  return {};
}
/// Logical or of the masks for each element; only those that depend on one of `dims`.
std::vector<bool> masked(const Array &a, const std::vector<Dim> &dims) {
  std::vector<bool> out;
  for_each(a.data.shape, [&](const std::vector<idx> &i) {
    bool m = false;
    for (const auto &[k, mask] : a.masks)
      if (std::any_of(dims.begin(), dims.end(), [&](const Dim d) { return find(mask.c.shape, d) >= 0; }))
        m |= at(mask.c, a.data.shape, i) != 0;
    out.push_back(m);
  });
  return out;
}
Content masked_reduced(const Op op, const Array &a, const std::vector<Dim> &dims) {
  const auto &c = a.data;
  Content r;
  for (const auto &x : c.shape)
    if (std::find(dims.begin(), dims.end(), x.first) == dims.end())
      r.shape.push_back(x);
  r.type = result_type(op, c.type);
  r.unit = c.unit;
  r.has_var = c.has_var;
  const auto skip = masked(a, dims);
  std::vector<std::vector<Elem>> lists(size_t(volume(r.shape)));
  size_t i = 0;
  for_each(c.shape, [&](const std::vector<idx> &at) {
    if (!skip[i])
      lists[size_t(position(r.shape, c.shape, at))].push_back({c.val[i], c.has_var ? c.var[i] : 0});
    ++i;
  });
  for (const auto &list : lists) {
    const auto e = reduce(op, c.type, list);
    r.val.push_back(e.val);
    if (c.has_var)
      r.var.push_back(e.var);
  }
  return r;
}
void expect_reduced(const std::string &sig, const Content &actual, const Content &expected, const bool tolerant,
                    const std::string &what) {
  const auto text = cat(what, " -> ", show(actual), " expected ", show(expected));
  PBT_CHECK(sig + " shape", actual.shape == expected.shape, text);
  PBT_CHECK(sig + " unit", actual.unit == expected.unit, text);
  PBT_CHECK(sig + " type", actual.type == expected.type && actual.has_var == expected.has_var, text);
  const double eps = !tolerant ? 0 : actual.type == dtype<float> ? 1e-5 : 1e-13;
  for (size_t i = 0; i < actual.val.size(); ++i) {
    PBT_CHECK(sig, close(actual.val[i], expected.val[i], eps, eps), text);
    if (actual.has_var)
      PBT_CHECK(sig + " variances",
                close(actual.var[i], expected.var[i], eps, eps) || (tolerant && !std::isfinite(expected.val[i])),
                text);
  }
}
Items without(const Items &items, const std::vector<Dim> &dims) {
  Items out;
  for (const auto &[k, v] : items)
    if (std::none_of(dims.begin(), dims.end(), [&](const Dim d) { return find(v.c.shape, d) >= 0; }))
      out[k] = v;
  return out;
}
std::vector<Dim> labels_of(const Shape &s) {
  std::vector<Dim> out;
  for (const auto &[d, n] : s)
    out.push_back(d);
  return out;
}

void arrays(Gen &g) {
  const auto [op, name] = g.pick(ops);
  ArrayOptions o;
  o.masks = 3;
  o.edge_masks = g.boolean(0.05);
  auto shape = gen_shape(g, 3, 4);
  if (shape.empty() && g.boolean(0.8))
    shape.emplace_back(dim_label(0), g.length(1, 4));
  auto a = gen_array(g, gen_content(g, op, shape), o);
  if (a.masks.empty() && g.boolean(0.8))
    a.masks["m"] = gen_item(g, shape, true, o);
  const auto da = make(g, a);
  a = read(da);
  const bool all = a.data.shape.empty() || g.boolean(0.3);
  std::vector<Dim> dims = labels_of(a.data.shape);
  if (!all)
    dims = {g.pick(a.data.shape).first};
  const auto what = cat(name, "(", show(a), ")", all ? std::string(" all") : cat(" ", dims[0].name()));
  bool refused = false; // masks on edges do not apply to elements
  for (const auto &[k, m] : a.masks)
    for (const auto &[d, n] : m.c.shape)
      refused |= std::find(dims.begin(), dims.end(), d) != dims.end() &&
                 std::any_of(m.c.shape.begin(), m.c.shape.end(), [&](const auto &x) {
                   return find(a.data.shape, x.first) < 0 || length_of(a.data.shape, x.first) != x.second;
                 });
  if (refused) {
    try {
      all ? apply_data(op, da) : apply_data(op, da, dims[0]);
    } catch (const std::exception &) {
      PBT_CHECK("failed reduction changes nothing", read(da).data == a.data, what);
      g.label("refused");
      return;
    }
    PBT_CHECK("mask of edges", false, what);
  }
  for (const auto &[k, m] : a.masks)
    for (const auto &x : m.c.shape)
      if (find(a.data.shape, x.first) < 0 || length_of(a.data.shape, x.first) != x.second)
        throw Discard{};
  auto expected = all ? masked_reduced(op, a, dims) : masked_reduced(op, a, dims);
  if (a.data.shape.empty() && !is_mean(op) && op != Op::NanSum) { // one element, unchanged
    expected = a.data;
  }
  const auto skip = masked(a, dims);
  const auto n_masked = std::count(skip.begin(), skip.end(), true);
  g.nontrivial(n_masked > 0 && a.data.val.size() > 2);
  DataArray out;
  try {
    out = all ? apply_data(op, da) : apply_data(op, da, dims[0]);
  } catch (const std::exception &e) {
    PBT_CHECK("reduction throws", false, what, " threw ", e.what());
  }
  if (all)
    g.label("all dimensions");
  for (const auto &[k, m] : a.masks)
    if (m.c.shape.size() > 1)
      g.label("mask of several dimensions");
  g.note([&] { return what; });
  const auto r = read(out);
  expect_reduced(all ? "all elements" : "elements", r.data, expected, is_mean(op) || is_sum(op), what);
  const bool whole_mean = is_mean(op) && all; // arithmetic with data arrays
  if (!whole_mean)
    PBT_EQ("name", r.name, a.name, what);
  expect_items("coords", r.coords, without(a.coords, dims), what);
  expect_items("masks", r.masks, without(a.masks, dims), what);
  if (!whole_mean)
    expect_items("attrs", r.attrs, without(a.attrs, dims), what);
  // The result does not share masks with the input.
  for (auto &&[k, m] : out.masks()) {
    const auto before = read(da.masks()[k]);
    auto copy = m;
    if (!copy.is_readonly() && before.val.size() > 0) {
      auto c = read(copy);
      for (auto &x : c.val)
        x = x == 0;
      write(copy, c);
    }
    PBT_CHECK("shared mask", read(da.masks()[k]) == before, what);
  }
  PBT_CHECK("input unchanged", read(da).data == a.data, what);
}

/// Every item by itself.
void datasets(Gen &g) {
  const auto [op, name] = g.pick(ops);
  const auto shape = gen_shape(g, 3, 3);
  Dataset ds;
  std::map<std::string, DataArray> items;
  const auto n = g.length(0, 3);
  ArrayOptions o;
  o.edges = 0;
  o.extra_dim = false;
  Array common = gen_array(g, gen_content(g, op, shape), o);
  for (idx i = 0; i < n; ++i) {
    Shape sub;
    for (const auto &x : shape)
      if (g.boolean(0.8))
        sub.push_back(x);
    auto a = gen_array(g, gen_content(g, op, sub), o);
    a.coords.clear();
    for (const auto &[k, v] : common.coords)
      if (g.boolean(0.6) && std::all_of(v.c.shape.begin(), v.c.shape.end(),
                                        [&](const auto &x) { return find(sub, x.first) >= 0; }))
        a.coords[k] = v;
    a.name = cat("item", i);
    const auto da = make(g, a, true, false);
    try {
      ds.setDataInit(a.name, da);
    } catch (const std::exception &) {
      throw Discard{};
    }
  }
  ds = std::move(ds).or_empty();
  const bool all = g.boolean(0.3);
  const Dim dim = shape.empty() || g.boolean(0.05) ? Dim("absent") : g.pick(shape).first;
  const auto what = cat(name, " of dataset ", all ? std::string("all") : dim.name());
  bool ok = true;
  for (const auto &item : ds) {
    try {
      items[item.name()] = all ? apply_data(op, item) : apply_data(op, item, dim);
    } catch (const std::exception &) {
      ok = false;
    }
  }
  Dataset out;
  try {
    out = all ? apply_data(op, ds) : apply_data(op, ds, dim);
  } catch (const std::exception &e) {
    PBT_CHECK("dataset throws", !ok, what, " threw ", e.what());
    return;
  }
  PBT_CHECK("dataset with unrelated items", ok, what);
  PBT_EQ("items", out.size(), idx(items.size()), what);
  g.nontrivial(items.size() > 1);
  for (const auto &[k, v] : items) {
    const auto r = read(out[k]);
    const auto e = read(v);
    PBT_CHECK("item data", r.data == e.data, what, show(r), " expected ", show(e));
    for (const auto &[c, m] : e.coords)
      PBT_CHECK("item coords", r.coords.count(c) == 1 && r.coords.at(c).c == m.c, what, show(r), " expected ",
                show(e));
    expect_items("item masks", r.masks, e.masks, what);
  }
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C43";
  p.rule = "Data arrays of up to 3 dimensions with up to 3 masks of any of their dimensions and memory "
           "layouts, all reductions along one or all dimensions, compared with a loop over unmasked "
           "elements; datasets compared with their items. Non-trivial: some elements are masked, or "
           "several items.";
  p.laws = {{"arrays", 400000, 6000000, arrays}, {"datasets", 40000, 600000, datasets}};
  return run(argc, argv, p);
}
