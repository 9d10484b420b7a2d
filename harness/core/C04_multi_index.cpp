// C04: joint iteration over several operands, dense or binned, pairs the
// elements that belong together and visits each exactly once.
// sanitize: -D_GLIBCXX_ASSERTIONS
#include "pbt.h"
#include "core_gen.h"

#include "scipp/core/multi_index.h"
#include "scipp/core/string.h"

using namespace pbt;
using namespace scipp;
using namespace scipp::core;
using idx = scipp::index;

namespace {
using Rows = std::vector<std::vector<idx>>; // per element: index per operand

template <size_t N, class F, size_t... I>
auto with_impl(const std::vector<Strides> &s, F &&f,
               std::index_sequence<I...>) {
  return f(s[I]...);
}

template <size_t N> void check_sequence(Gen &g, MultiIndex<N> begin,
                                        const Rows &want,
                                        const std::string &ctx, bool binned) {
  const auto end = begin.end();
  const auto n = static_cast<idx>(want.size());
  auto row = [](const auto &i) {
    const auto a = i.get();
    return std::vector<idx>(a.begin(), a.end());
  };
  auto it = begin.begin();
  for (idx i = 0; i < n; ++i) {
    PBT_CHECK("too-short", it != end && !(it == end), "after ", i, " of ", n,
              " elements, ", ctx);
    PBT_EQ("increment", seq(row(it)), seq(want[i]), "element ", i, ", ", ctx);
    it.increment();
  }
  PBT_CHECK("end", it == end, "not at the end after ", n, " elements, ", ctx);
  // As the inner loops of operations do it: whole inner ranges at a time,
  // with the inner strides, in chunks that start and end anywhere.
  if (n == 0)
    return;
  if (!binned) {
    auto stop = begin;
    std::vector<idx> cuts{0, n};
    for (int k = 0; k < 3; ++k)
      cuts.push_back(static_cast<idx>(g.draw(n)));
    std::sort(cuts.begin(), cuts.end());
    size_t done = 0;
    for (size_t c = 0; c + 1 < cuts.size(); ++c) {
      if (cuts[c] == cuts[c + 1])
        continue;
      it.set_index(cuts[c]);
      stop.set_index(cuts[c + 1]);
      PBT_EQ("set-index", seq(row(it)), seq(want[cuts[c]]), "at ", cuts[c],
             ", ", ctx);
      while (it != stop) {
        const auto len = it.in_same_chunk(stop, 1)
                             ? it.inner_distance_to(stop)
                             : it.inner_distance_to_end();
        PBT_CHECK("chunk-length", len > 0 && done + len <= size_t(n), len,
                  " at ", done, ", ", ctx);
        const auto from = row(it);
        const auto strides = it.inner_strides();
        for (idx k = 0; k < len; ++k, ++done)
          for (size_t o = 0; o < N; ++o)
            PBT_EQ("inner-loop", from[o] + k * strides[o], want[done][o],
                   "element ", done, " operand ", o, " cuts ", seq(cuts), ", ",
                   ctx);
        it.increment_by(len);
      }
    }
    PBT_EQ("chunks-cover", done, size_t(n), "cuts ", seq(cuts), ", ", ctx);
    for (int k = 0; k < 4; ++k) {
      const auto at = static_cast<idx>(g.draw(n));
      it.set_index(at);
      if (at == n)
        PBT_CHECK("set-index-end", it == end, ctx);
      else
        PBT_EQ("set-index", seq(row(it)), seq(want[at]), "at ", at, ", ", ctx);
    }
  }
}

template <size_t N> void dense_n(Gen &g, const std::vector<Layout> &ops,
                                 const std::string &ctx) {
  const auto &shape = ops[0].shape;
  Dimensions dims;
  for (size_t d = 0; d < shape.size(); ++d)
    dims.addInner(dim_label(d), shape[d]);
  std::vector<Strides> strides;
  for (auto &o : ops)
    strides.emplace_back(o.strides);
  Rows want;
  for_each_index(shape, [&](const auto &i) {
    std::vector<idx> row;
    for (auto &o : ops) {
      idx x = 0;
      for (size_t d = 0; d < i.size(); ++d)
        x += i[d] * o.strides[d];
      row.push_back(x);
    }
    want.push_back(row);
  });
  with_impl<N>(
      strides,
      [&](const auto &...s) {
        MultiIndex<N> m(dims, s...);
        PBT_CHECK("no-bins", !m.has_bins(), ctx);
        bool zero = false;
        for (size_t d = 0; d < shape.size(); ++d)
          zero |= ops[0].strides[d] == 0;
        if (m.has_stride_zero() && !shape.empty())
          PBT_CHECK("stride-zero", zero, ctx);
        if (zero && std::all_of(shape.begin(), shape.end(),
                                [](auto n) { return n > 1; }))
          PBT_CHECK("stride-zero", m.has_stride_zero(), ctx);
        check_sequence<N>(g, m, want, ctx, false);
      },
      std::make_index_sequence<N>{});
  g.nontrivial(want.size() > 1 && shape.size() > 1);
  g.label(cat("operands ", N, ", ndim ", shape.size()));
}

// Strides for the given shape: dense in some order, padded, or broadcast.
Layout layout_for(Gen &g, const std::vector<idx> &shape) {
  Layout l;
  l.shape = shape;
  l.strides.assign(shape.size(), 0);
  std::vector<size_t> order(shape.size());
  for (size_t d = 0; d < order.size(); ++d)
    order[d] = order.size() - 1 - d;
  if (g.boolean(0.5))
    order = g.permutation(order);
  const bool padded = g.boolean(0.4);
  const bool bcast = g.boolean(0.3);
  idx s = 1;
  for (auto d : order) {
    if (bcast && g.boolean(0.4))
      continue;
    const idx step = padded && g.boolean(0.2) ? 2 : 1;
    l.strides[d] = s * step;
    s *= step * std::max<idx>(1, shape[d]) + (padded ? g.length(0, 1) : 0);
  }
  l.extent = s;
  return l;
}

void dense(Gen &g) {
  const auto n = 1 + g.draw(4);
  const auto ndim = static_cast<size_t>(g.length(0, 6));
  std::vector<idx> shape(ndim);
  for (auto &s : shape)
    s = g.boolean(0.03) ? 0 : g.length(1, ndim > 4 ? 3 : 5);
  std::vector<Layout> ops;
  std::string ctx = cat("shape ", seq(shape));
  for (size_t o = 0; o < n; ++o) {
    ops.push_back(layout_for(g, shape));
    ctx += cat(" strides ", seq(ops.back().strides));
  }
  g.note(ctx);
  switch (n) {
  case 1:
    return dense_n<1>(g, ops, ctx);
  case 2:
    return dense_n<2>(g, ops, ctx);
  case 3:
    return dense_n<3>(g, ops, ctx);
  case 4:
    return dense_n<4>(g, ops, ctx);
  default:
    return dense_n<5>(g, ops, ctx);
  }
}

struct Operand {
  Layout outer;
  bool binned = false;
  std::vector<index_pair> indices;   // by outer memory position
  std::vector<idx> buf_shape, buf_strides;
};

void check_binned(Gen &g, const std::vector<idx> &shape,
                  const std::vector<Dim> &buf_labels, size_t slice_dim,
                  std::vector<Operand> &ops, bool mismatch,
                  const std::string &ctx) {
  Dimensions dims;
  for (size_t d = 0; d < shape.size(); ++d)
    dims.addInner(dim_label(d), shape[d]);
  std::vector<ElementArrayViewParams> params;
  const auto volume = dims.volume();
  for (auto &o : ops) {
    BucketParams b;
    if (o.binned) {
      Dimensions bd;
      for (size_t d = 0; d < o.buf_shape.size(); ++d)
        bd.addInner(buf_labels[d], o.buf_shape[d]);
      b = BucketParams{buf_labels[slice_dim], bd, Strides(o.buf_strides),
                       volume ? o.indices.data() : nullptr};
    }
    params.emplace_back(0, dims, Strides(o.outer.strides), b);
  }
  Rows want;
  const Operand *first = nullptr;
  for (auto &o : ops)
    if (o.binned && !first)
      first = &o;
  std::vector<idx> bin_start; // index of the first element of each bin
  for_each_index(shape, [&](const std::vector<idx> &i) {
    auto outer = [&](const Operand &o) {
      idx x = 0;
      for (size_t d = 0; d < i.size(); ++d)
        x += i[d] * o.outer.strides[d];
      return x;
    };
    auto inner_shape = first->buf_shape;
    const auto r = first->indices[outer(*first)];
    inner_shape[slice_dim] = r.second - r.first;
    bin_start.push_back(want.size());
    for_each_index(inner_shape, [&](const std::vector<idx> &j) {
      std::vector<idx> row;
      for (auto &o : ops) {
        if (!o.binned) {
          row.push_back(outer(o));
          continue;
        }
        const auto begin = o.indices[outer(o)].first;
        idx x = 0;
        for (size_t d = 0; d < j.size(); ++d)
          x += (j[d] + (d == slice_dim ? begin : 0)) * o.buf_strides[d];
        row.push_back(x);
      }
      want.push_back(row);
    });
  });
  auto run = [&](const auto &...p) {
    constexpr size_t N = sizeof...(p);
    if (mismatch) {
      PBT_CHECK("bin-size-mismatch", throws([&] { MultiIndex<N> m(p...); }),
                ctx);
      return;
    }
    MultiIndex<N> m(p...);
    PBT_CHECK("has-bins", m.has_bins(), ctx);
    check_sequence<N>(g, m, want, ctx, true);
    // start at a bin, as parallel chunks do
    const auto end = m.end();
    for (int k = 0; k < 3 && volume > 0; ++k) {
      const auto a = static_cast<idx>(g.draw(volume));
      const auto b = a + static_cast<idx>(g.draw(volume - a));
      auto it = m;
      auto stop = m;
      it.set_index(a);
      stop.set_index(b);
      const auto lo = a < volume ? bin_start[a] : idx(want.size());
      const auto hi = b < volume ? bin_start[b] : idx(want.size());
      idx pos = lo;
      for (; it != stop; it.increment(), ++pos) {
        PBT_CHECK("bin-chunk-length", pos < hi && it != end, "bins ", a, ":",
                  b, ", ", ctx);
        const auto got = it.get();
        PBT_EQ("bin-chunk", seq(got), seq(want[pos]), "bins ", a, ":", b, ", ",
               ctx);
      }
      PBT_EQ("bin-chunk-length", pos, hi, "bins ", a, ":", b, ", ", ctx);
    }
  };
  switch (params.size()) {
  case 1:
    return run(params[0]);
  case 2:
    return run(params[0], params[1]);
  case 3:
    return run(params[0], params[1], params[2]);
  case 4:
    return run(params[0], params[1], params[2], params[3]);
  default:
    return run(params[0], params[1], params[2], params[3], params[4]);
  }
}

void binned(Gen &g) {
  const auto n = 1 + g.weighted({3, 4, 3, 1, 1});
  const auto inner_ndim = static_cast<size_t>(1 + g.weighted({5, 3, 1}));
  const auto ndim = static_cast<size_t>(g.length(0, 6 - inner_ndim));
  std::vector<idx> shape(ndim);
  for (auto &s : shape)
    s = g.boolean(0.04) ? 0 : g.length(1, ndim > 2 ? 3 : 4);
  const auto slice_dim = static_cast<size_t>(g.draw(inner_ndim - 1));
  std::vector<Dim> buf_labels;
  std::vector<idx> inner(inner_ndim);
  for (size_t d = 0; d < inner_ndim; ++d) {
    buf_labels.push_back(dim_label(5 + d));
    inner[d] = g.boolean(0.05) ? 0 : g.length(1, 3);
  }
  // bin sizes per outer position, common to all binned operands
  idx volume = 1;
  for (auto s : shape)
    volume *= s;
  std::vector<idx> sizes(volume);
  const int empties = static_cast<int>(g.draw(3));
  for (auto &s : sizes)
    s = empties && g.boolean(0.25 * empties) ? 0 : g.length(0, 4);
  std::vector<Operand> ops(n);
  std::string ctx = cat("shape ", seq(shape), " bin sizes ", seq(sizes),
                        " slice dim ", slice_dim, " of ", inner_ndim);
  const auto must = g.draw(n - 1);
  int nbinned = 0;
  bool mismatch = false;
  for (size_t k = 0; k < n; ++k) {
    auto &o = ops[k];
    o.binned = k == must || g.boolean(0.4);
    o.outer = layout_for(g, shape);
    if (!o.binned) {
      ctx += cat(" | dense ", seq(o.outer.strides));
      continue;
    }
    // A broadcast outer dimension would need equal bin sizes along it.
    for (size_t d = 0; d < ndim; ++d)
      if (o.outer.strides[d] == 0) {
        o.outer.strides[d] = o.outer.extent;
        o.outer.extent *= std::max<idx>(1, shape[d]);
      }
    o.indices.assign(o.outer.extent, {-1000, -1000});
    const bool gaps = g.boolean(0.4);
    // place the bins in the buffer in any order
    std::vector<idx> order(volume);
    for (idx i = 0; i < volume; ++i)
      order[i] = i;
    if (g.boolean(0.3))
      order = g.permutation(order);
    std::vector<idx> outer_pos;
    for_each_index(shape, [&](const auto &i) {
      idx x = 0;
      for (size_t d = 0; d < i.size(); ++d)
        x += i[d] * o.outer.strides[d];
      outer_pos.push_back(x);
    });
    idx pos = 0;
    for (auto b : order) {
      if (gaps)
        pos += g.length(0, 2);
      o.indices[outer_pos[b]] = {pos, pos + sizes[b]};
      pos += sizes[b];
    }
    if (gaps)
      pos += g.length(0, 2);
    if (++nbinned > 1 && volume > 0 && g.boolean(0.04)) {
      o.indices[outer_pos[g.draw(volume - 1)]].second += 1;
      ++pos;
      mismatch = true;
    }
    o.buf_shape = inner;
    o.buf_shape[slice_dim] = pos;
    const auto l = layout_for(g, o.buf_shape);
    o.buf_strides = l.strides;
    ctx += cat(" | binned outer ", seq(o.outer.strides), " buffer ",
               seq(o.buf_shape), "/", seq(o.buf_strides), " bins");
    for (auto b : outer_pos)
      ctx += cat(" ", o.indices[b].first, "-", o.indices[b].second);
  }
  g.note(ctx);
  check_binned(g, shape, buf_labels, slice_dim, ops, mismatch, ctx);
  idx events = 0;
  for (auto s : sizes)
    events += s;
  g.nontrivial(events > 1 && volume > 1);
  g.label(cat("binned operands ", nbinned, " of ", n));
  g.label(mismatch ? "mismatch" : "match");
  g.label(cat("inner ndim ", inner_ndim));
}

void too_many_dims(Gen &g) {
  const auto ndim = static_cast<size_t>(g.integer(7, 9));
  std::vector<idx> shape(ndim, 2);
  auto l = layout_for(g, shape);
  if (g.boolean(0.3)) // order of memory: flattens to one dimension
    for (size_t d = 0; d < ndim; ++d)
      l.strides[d] = idx(1) << (ndim - 1 - d);
  const auto ctx = cat("strides ", seq(l.strides));
  g.note(ctx);
  Dimensions dims;
  for (size_t d = 0; d < ndim; ++d)
    dims.addInner(dim_label(d), shape[d]);
  Rows want;
  for_each_index(shape, [&](const auto &i) {
    idx x = 0;
    for (size_t d = 0; d < ndim; ++d)
      x += i[d] * l.strides[d];
    want.push_back({x});
  });
  g.nontrivial();
  try {
    MultiIndex<1> m(dims, Strides(l.strides));
    check_sequence<1>(g, m, want, ctx, false);
    g.label("iterated");
  } catch (const std::runtime_error &) {
    g.label("refused");
  }
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C04";
  p.rule =
      "1 to 5 operands over a common shape (0 to 6 dimensions), each with its "
      "own layout (transposed, padded, broadcast); for binned operands also "
      "bin ranges into 1-3 dimensional buffers sliced along any dimension, "
      "with gaps, shuffled and empty bins. Compared with nested loops, by "
      "single steps, by inner-loop chunks and from arbitrary start points. "
      "Non-trivial: more than one element over more than one dimension "
      "(dense), more than one event over more than one bin (binned).";
  p.laws = {{"dense", 1000000, 10000000, dense},
            {"binned", 1000000, 10000000, binned},
            {"too_many_dims", 20000, 200000, too_many_dims}};
  return run(argc, argv, p);
}
