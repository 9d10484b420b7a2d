// C02: strided views visit exactly the elements their dimensions name, in order.
// sanitize: -D_GLIBCXX_ASSERTIONS
#include "pbt.h"
#include "core_gen.h"

#include "scipp/common/index_composition.h"
#include "scipp/common/ranges.h"
#include "scipp/core/bucket_array_view.h"
#include "scipp/core/element_array_view.h"
#include "scipp/core/string.h"
#include "scipp/core/view_index.h"

using namespace pbt;
using namespace scipp;
using namespace scipp::core;

namespace {
// Visit all indices of a shape, last dimension fastest.
struct View {
  std::vector<scipp::index> shape, strides;
  scipp::index offset = 0, extent = 1; // extent: elements of the buffer needed
  Dimensions dims;
  std::string show() const {
    return cat("shape ", seq(shape), " strides ", seq(strides), " offset ",
               offset);
  }
};

View gen_view(Gen &g, int maxdim, int maxlen, bool allow_zero_size = true) {
  View v;
  const auto layout = gen_layout(g, maxdim, maxlen, allow_zero_size);
  v.shape = layout.shape;
  v.strides = layout.strides;
  v.offset = layout.offset;
  v.extent = layout.extent;
  for (size_t i = 0; i < v.shape.size(); ++i)
    v.dims.addInner(dim_label(i), v.shape[i]);
  return v;
}

std::vector<scipp::index> naive(const View &v) {
  std::vector<scipp::index> out;
  for_each_index(v.shape, [&](const std::vector<scipp::index> &i) {
    scipp::index o = v.offset;
    for (size_t d = 0; d < i.size(); ++d)
      o += i[d] * v.strides[d];
    out.push_back(o);
  });
  return out;
}

void view_index(Gen &g) {
  auto v = gen_view(g, 6, 5);
  v.offset = 0;
  const auto want = naive(v);
  const auto n = static_cast<scipp::index>(want.size());
  g.note([&] { return v.show(); });
  ViewIndex it(v.dims, Strides(v.strides));
  ViewIndex other(v.dims, Strides(v.strides));
  PBT_EQ("begin-index", it.index(), 0, v.show());
  for (scipp::index i = 0; i < n; ++i) {
    PBT_EQ("increment", it.get(), want[i], "element ", i, " ", v.show());
    PBT_EQ("increment-index", it.index(), i, v.show());
    other.set_index(i);
    PBT_EQ("set-index", other.get(), want[i], "element ", i, " ", v.show());
    PBT_CHECK("equal", it == other && !(it != other), "element ", i, " ",
              v.show());
    it.increment();
    if (i + 1 < n)
      PBT_CHECK("equal", it != other, "element ", i, " ", v.show());
  }
  if (n > 0) {
    // jumps, each followed by single steps
    for (int k = 0; k < 6; ++k) {
      const auto j = static_cast<scipp::index>(g.draw(n - 1));
      it.set_index(j);
      for (auto i = j; i < std::min(n, j + 9); ++i) {
        PBT_EQ("jump-then-increment", it.get(), want[i], "from ", j,
               " element ", i, " ", v.show());
        it.increment();
      }
    }
    other.set_index(n);
    it.set_index(n - 1);
    it.increment();
    PBT_CHECK("end", it == other, v.show());
  }
  g.nontrivial(n > 1 && v.shape.size() > 1);
  g.label(cat("ndim ", v.shape.size()));
  g.label(n == 0 ? "empty" : "non-empty");
}

void element_view(Gen &g) {
  const auto v = gen_view(g, 4, 4);
  std::vector<double> buffer(v.extent);
  for (size_t i = 0; i < buffer.size(); ++i)
    buffer[i] = static_cast<double>(i);
  const auto want = naive(v);
  const auto n = static_cast<scipp::index>(want.size());
  g.note([&] { return v.show(); });
  ElementArrayView<double> view(buffer.data(), v.offset, v.dims,
                                Strides(v.strides));
  PBT_EQ("size", view.size(), n, v.show());
  std::vector<scipp::index> got;
  for (const auto &x : view)
    got.push_back(static_cast<scipp::index>(x));
  PBT_EQ("iterate", seq(got), seq(want), v.show());
  got.clear();
  for (auto it = view.end(); it != view.begin();) {
    --it;
    got.push_back(static_cast<scipp::index>(*it));
  }
  std::reverse(got.begin(), got.end());
  PBT_EQ("iterate-backwards", seq(got), seq(want), v.show());
  PBT_EQ("distance", view.end() - view.begin(), n, v.show());
  for (scipp::index i = 0; i < n; ++i)
    PBT_EQ("subscript", view[i], want[i], "element ", i, " ", v.show());
  if (n > 0) {
    PBT_EQ("front", view.front(), want.front(), v.show());
    PBT_EQ("back", view.back(), want.back(), v.show());
    // a walk of random jumps against the position in the model
    auto it = view.begin();
    scipp::index pos = 0;
    for (int k = 0; k < 12; ++k) {
      const auto to = static_cast<scipp::index>(g.draw(n)); // n is the end
      switch (g.draw(3)) {
      case 0:
        it += to - pos;
        break;
      case 1:
        it = it + (to - pos);
        break;
      case 2:
        it -= pos - to;
        break;
      default:
        while (it < view.begin() + to)
          ++it;
        while (it > view.begin() + to)
          --it;
      }
      pos = to;
      PBT_EQ("jump-distance", it - view.begin(), pos, v.show());
      PBT_CHECK("jump-end", (it == view.end()) == (pos == n), v.show());
      if (pos < n) {
        PBT_EQ("jump", *it, want[pos], "position ", pos, " ", v.show());
        const auto copy = it++;
        PBT_EQ("post-increment", *copy, want[pos], v.show());
        ++pos;
      }
    }
  }
  // contiguity is what decides whether a plain span is handed out
  bool contiguous = true;
  {
    scipp::index s = 1;
    for (size_t d = v.shape.size(); d-- > 0;) {
      contiguous &= v.strides[d] == s;
      s *= v.shape[d];
    }
  }
  if (contiguous) {
    const auto span = view.as_span();
    PBT_CHECK("span", static_cast<scipp::index>(span.size()) == n &&
                          std::equal(span.begin(), span.end(), view.begin()),
              v.show());
  } else if (n > 1) {
    bool linear = true; // order in memory happens to be the iteration order
    for (scipp::index i = 0; i < n; ++i)
      linear &= want[i] == want[0] + i;
    if (!linear)
      PBT_CHECK("span-refused", throws([&] { (void)view.as_span(); }),
                v.show());
  }
  // writing through the view changes those elements and no other
  auto expected = buffer;
  for (const auto i : want)
    expected[i] = -1.0 - i;
  for (auto &x : view)
    x = x < 0 ? x : -1.0 - x;
  PBT_CHECK("write", buffer == expected, v.show());
  g.nontrivial(n > 1 && v.shape.size() > 1);
  g.label(contiguous ? "contiguous" : "strided");
}

// A view re-targeted to other dimensions: transposed, broadcast, shortened.
void retarget(Gen &g) {
  const auto v = gen_view(g, 3, 4, false);
  std::vector<double> buffer(v.extent);
  for (size_t i = 0; i < buffer.size(); ++i)
    buffer[i] = static_cast<double>(i);
  ElementArrayView<double> view(buffer.data(), v.offset, v.dims,
                                Strides(v.strides));
  // target: subset of v's labels (others are fixed at index 0), plus new ones
  std::vector<int> which;
  for (size_t d = 0; d < v.shape.size(); ++d)
    which.push_back(static_cast<int>(d));
  const int extra = static_cast<int>(g.draw(1));
  for (int e = 0; e < extra; ++e)
    which.push_back(4 + e);
  which = g.permutation(which);
  if (!which.empty() && g.boolean(0.2))
    which.pop_back();
  Dimensions target;
  std::vector<scipp::index> shape;
  for (const auto d : which) {
    scipp::index len = d >= 4 ? static_cast<scipp::index>(g.integer(1, 3))
                              : v.shape[d];
    if (d < 4 && len > 1 && g.boolean(0.3))
      len -= 1; // shorter: leading part of that dimension
    target.addInner(dim_label(d), len);
    shape.push_back(len);
  }
  g.note([&] {
    return cat(v.show(), " to dims ", to_string(target));
  });
  std::vector<double> want;
  for_each_index(shape, [&](const std::vector<scipp::index> &i) {
    scipp::index o = v.offset;
    for (size_t k = 0; k < which.size(); ++k)
      if (which[k] < 4)
        o += i[k] * v.strides[which[k]];
    want.push_back(buffer[o]);
  });
  ElementArrayView<double> re(view, target);
  std::vector<double> got(re.begin(), re.end());
  PBT_EQ("retarget", seq(got), seq(want), v.show(), " to ", to_string(target));
  PBT_CHECK("retarget-equal", re == ElementArrayView<double>(view, target),
            v.show());
  if (re.dims() != view.dims())
    PBT_CHECK("retarget-dims", !(re == view), v.show());
  // a longer target is refused
  if (!v.shape.empty()) {
    Dimensions longer;
    const auto bad = g.draw(v.shape.size() - 1);
    for (size_t d = 0; d < v.shape.size(); ++d)
      longer.addInner(dim_label(d), v.shape[d] + (d == bad));
    PBT_CHECK("retarget-longer",
              throws([&] { ElementArrayView<double>(view, longer); }),
              v.show());
  }
  g.nontrivial(want.size() > 1 && which.size() > 1);
}

// Position arithmetic: flat index <-> index in every dimension.
void index_composition(Gen &g) {
  const auto ndim = g.length(0, 6);
  std::vector<scipp::index> shape(ndim), strides(ndim), idx(ndim);
  for (auto &s : shape)
    s = g.length(g.boolean(0.15) ? 0 : 1, 6);
  for (auto &s : strides)
    s = g.integer(-20, 20);
  g.note([&] { return cat("shape ", seq(shape), " strides ", seq(strides)); });
  scipp::index volume = 1;
  for (auto s : shape)
    volume *= s;
  // fastest-moving dimension first, as extract_indices counts
  std::vector<scipp::index> col_strides(ndim);
  scipp::index s = 1;
  for (int64_t d = 0; d < ndim; ++d) {
    col_strides[d] = s;
    s *= shape[d];
  }
  std::vector<scipp::index> out(std::max<int64_t>(1, ndim), -7);
  for (scipp::index i = 0; i < volume; ++i) {
    extract_indices(i, shape.begin(), shape.end(), out.begin());
    if (ndim == 0) {
      PBT_EQ("extract-scalar", out[0], i, "");
      continue;
    }
    for (int64_t d = 0; d < ndim; ++d)
      PBT_EQ("extract", out[d], (i / col_strides[d]) % shape[d],
             "dimension ", d, " of flat index ", i, " shape ", seq(shape));
    PBT_EQ("extract-inverse",
           flat_index_from_strides(col_strides.begin(), col_strides.end(),
                                   out.begin()),
           i, "shape ", seq(shape));
  }
  if (ndim > 0 && volume > 0) {
    extract_indices(volume, shape.begin(), shape.end(), out.begin());
    for (int64_t d = 0; d < ndim; ++d)
      PBT_EQ("extract-end", out[d], d == ndim - 1 ? shape[d] : 0, "dimension ",
             d, " shape ", seq(shape));
  }
  scipp::index flat = 0;
  for (int64_t d = 0; d < ndim; ++d) {
    idx[d] = g.integer(0, 50);
    flat += idx[d] * strides[d];
  }
  PBT_EQ("flat-index",
         flat_index_from_strides(strides.begin(), strides.end(), idx.begin()),
         flat, "strides ", seq(strides), " indices ", seq(idx));
  // Bounds of reachable memory: nothing reachable is outside.
  std::vector<scipp::index> view_strides(ndim);
  for (int64_t d = 0; d < ndim; ++d)
    view_strides[d] = g.boolean(0.2) ? strides[d] : std::abs(strides[d]);
  const auto [begin, end] =
      memory_bounds(shape.begin(), shape.end(), view_strides.begin());
  for_each_index(shape, [&, b = begin, e = end](const auto &i) {
    scipp::index o = 0;
    for (int64_t d = 0; d < ndim; ++d)
      o += i[d] * view_strides[d];
    PBT_CHECK("memory-bounds", b <= o && o < e, "offset ", o,
              " reachable but outside [", b, ",", e, ") shape ", seq(shape),
              " strides ", seq(view_strides));
  });
  if (ndim == 1 && view_strides[0] == 1 && shape[0] > 0)
    PBT_CHECK("memory-bounds-tight", begin == 0 && end == shape[0],
              "shape ", seq(shape));
  g.nontrivial(ndim > 1 && volume > 1);
}

// Two views of one buffer: if they share an element and are not the same view,
// they have to be reported as overlapping.
void overlap(Gen &g) {
  const auto extent = static_cast<scipp::index>(g.integer(1, 24));
  std::vector<double> buffer(extent);
  auto make = [&](View &v) {
    const auto ndim = g.length(0, 2);
    scipp::index room = extent - 1;
    v.offset = static_cast<scipp::index>(g.draw(room));
    room -= v.offset;
    for (int64_t d = 0; d < ndim; ++d) {
      const auto stride = static_cast<scipp::index>(g.integer(1, 4));
      const auto len = static_cast<scipp::index>(g.draw(room / stride)) + 1;
      room -= (len - 1) * stride;
      v.shape.push_back(len);
      v.strides.push_back(stride);
      v.dims.addInner(dim_label(d), len);
    }
  };
  View a, b;
  make(a);
  make(b);
  ElementArrayView<double> va(buffer.data(), a.offset, a.dims,
                              Strides(a.strides));
  ElementArrayView<double> vb(buffer.data(), b.offset, b.dims,
                              Strides(b.strides));
  std::set<scipp::index> sa, common;
  for (auto i : naive(a))
    sa.insert(i);
  for (auto i : naive(b))
    if (sa.count(i))
      common.insert(i);
  const bool same = a.offset == b.offset && a.shape == b.shape &&
                    a.strides == b.strides;
  g.note([&] { return cat(a.show(), " and ", b.show()); });
  if (!common.empty() && !same) {
    PBT_CHECK("overlap", va.overlaps(vb) && vb.overlaps(va), a.show(), " and ",
              b.show(), " share ", common.size(), " elements");
    g.nontrivial();
  }
  if (same)
    PBT_CHECK("overlap-same", !va.overlaps(vb), a.show());
  std::vector<double> elsewhere(extent);
  ElementArrayView<double> vc(elsewhere.data(), b.offset, b.dims,
                              Strides(b.strides));
  PBT_CHECK("overlap-other-buffer", !va.overlaps(vc), a.show());
}

// More dimensions than an operation supports: an error, or the right answer,
// never a silent overrun.
void many_dims(Gen &g) {
  const auto ndim = static_cast<size_t>(g.integer(6, 9));
  std::vector<scipp::index> shape(ndim), strides(ndim);
  std::vector<size_t> order(ndim);
  for (size_t d = 0; d < ndim; ++d)
    order[d] = d;
  if (g.boolean(0.8))
    order = g.permutation(order);
  scipp::index s = 1;
  Dimensions dims;
  for (auto &x : shape)
    x = g.boolean(0.5) ? 2 : 1 + static_cast<scipp::index>(g.draw(1));
  for (auto d : order) {
    strides[d] = s;
    s *= shape[d];
  }
  for (size_t d = 0; d < ndim; ++d)
    dims.addInner(dim_label(d), shape[d]);
  std::vector<int> buffer(s);
  for (size_t i = 0; i < buffer.size(); ++i)
    buffer[i] = static_cast<int>(i);
  View v;
  v.shape = shape;
  v.strides = strides;
  g.note([&] { return v.show(); });
  const auto want = naive(v);
  std::vector<scipp::index> got;
  try {
    ElementArrayView<int> view(buffer.data(), 0, dims, Strides(strides));
    for (auto it = view.begin(); it != view.end(); ++it)
      got.push_back(*it);
    g.label("iterated");
  } catch (const std::runtime_error &) {
    PBT_CHECK("many-dims-supported", ndim > 6, v.show());
    g.label("refused");
    g.nontrivial();
    return;
  }
  PBT_EQ("many-dims", seq(got), seq(want), v.show());
  g.nontrivial();
}

// Views of ranges of a buffer (bins): item i is the slice named by pair i.
struct Buf {
  std::vector<int> data;
  std::pair<scipp::index, scipp::index> slice(const Slice &s) const {
    return {s.begin(), s.end()};
  }
};
void bucket_view(Gen &g) {
  const auto v = gen_view(g, 3, 4);
  std::vector<index_pair> pairs(v.extent);
  scipp::index pos = 0;
  for (auto &p : pairs) {
    const auto n = g.length(0, 3);
    p = {pos, pos + n};
    pos += n;
  }
  Buf buf;
  const ElementArrayView<const index_pair> indices(
      pairs.data(), v.offset, v.dims, Strides(v.strides));
  const ElementArrayView<const bucket<Buf>> view(indices, Dim::Event, buf);
  const auto want = naive(v);
  g.note([&] { return v.show(); });
  PBT_EQ("bucket-size", view.size(), scipp::index(want.size()), v.show());
  size_t k = 0;
  for (auto it = view.begin(); it != view.end(); ++it, ++k) {
    PBT_CHECK("bucket-count", k < want.size(), v.show());
    PBT_CHECK("bucket-item", *it == pairs[want[k]], "item ", k, " ", v.show());
    PBT_CHECK("bucket-subscript", view[k] == pairs[want[k]], "item ", k, " ",
              v.show());
  }
  PBT_EQ("bucket-count", k, want.size(), v.show());
  if (k) {
    PBT_CHECK("bucket-ends",
              view.front() == pairs[want.front()] &&
                  view.back() == pairs[want.back()],
              v.show());
  }
  PBT_CHECK("bucket-equal", view == view, v.show());
  std::vector<int> fwd, back;
  for (const auto &x : want)
    fwd.push_back(static_cast<int>(x));
  for (const auto x : views::reverse(fwd))
    back.push_back(x);
  std::reverse(back.begin(), back.end());
  PBT_CHECK("reverse-view", back == fwd, v.show());
  g.nontrivial(want.size() > 1);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C02";
  p.rule = "Random layouts (up to 6 dimensions; permuted, strided, offset, "
           "broadcast and zero-length dimensions) compared with nested loops "
           "over the shape. Non-trivial: more than one dimension and more "
           "than one element (overlap: the two views share an element and "
           "differ; many_dims: 6 to 9 dimensions).";
  p.laws = {{"view_index", 1600000, 16000000, view_index},
            {"element_view", 1200000, 12000000, element_view},
            {"retarget", 1200000, 12000000, retarget},
            {"index_composition", 1200000, 12000000, index_composition},
            {"overlap", 1200000, 12000000, overlap},
            {"many_dims", 120000, 1200000, many_dims},
            {"bucket_view", 600000, 6000000, bucket_view}};
  return run(argc, argv, p);
}
