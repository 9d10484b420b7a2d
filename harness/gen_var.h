// Variables in arbitrary memory layouts together with their contents.
#pragma once
#include <map>

#include "core_gen.h"
#include "pbt.h"

#include <Eigen/Dense>

#include "scipp/core/dtype.h"
#include "scipp/core/eigen.h"
#include "scipp/core/spatial_transforms.h"
#include "scipp/core/time_point.h"
#include "scipp/units/unit.h"
#include "scipp/variable/shape.h"
#include "scipp/variable/variable.h"

namespace gv {
using namespace pbt;
using scipp::Dim;
using scipp::Variable;
using scipp::core::Dimensions;
using scipp::core::DType;
using scipp::core::dtype;
using scipp::core::Slice;
using scipp::core::time_point;
using scipp::units::Unit;
namespace units = scipp::units;
using idx = scipp::index;

template <class T> struct tag {
  using type = T;
};
/// Call f with the C++ type of a dtype.
template <class F> auto with_type(const DType t, F &&f) {
  if (t == dtype<double>)
    return f(tag<double>{});
  if (t == dtype<float>)
    return f(tag<float>{});
  if (t == dtype<int64_t>)
    return f(tag<int64_t>{});
  if (t == dtype<int32_t>)
    return f(tag<int32_t>{});
  if (t == dtype<bool>)
    return f(tag<bool>{});
  if (t == dtype<time_point>)
    return f(tag<time_point>{});
#ifdef VERIF_ALL_TYPES
  if (t == dtype<std::string>)
    return f(tag<std::string>{});
  if (t == dtype<scipp::index_pair>)
    return f(tag<scipp::index_pair>{});
  if (t == dtype<Eigen::Vector3d>)
    return f(tag<Eigen::Vector3d>{});
  if (t == dtype<Eigen::Matrix3d>)
    return f(tag<Eigen::Matrix3d>{});
  if (t == dtype<Eigen::Affine3d>)
    return f(tag<Eigen::Affine3d>{});
  if (t == dtype<scipp::core::Quaternion>)
    return f(tag<scipp::core::Quaternion>{});
  if (t == dtype<scipp::core::Translation>)
    return f(tag<scipp::core::Translation>{});
#endif
  fail("harness", "unexpected dtype " + to_string(t));
}
/// Element of type T that stands for the number x, and back.  Elements made of
/// several numbers differ in all of them.
template <class T> T from_double(const double x) {
  if constexpr (std::is_same_v<T, time_point>)
    return time_point{static_cast<int64_t>(x)};
  else if constexpr (std::is_same_v<T, std::string>)
    return std::to_string(static_cast<int64_t>(x)) +
           (static_cast<int64_t>(x) % 3 == 0 ? " and a string that is not short" : "");
  else if constexpr (std::is_same_v<T, scipp::index_pair>)
    return {static_cast<idx>(x), static_cast<idx>(x) + 1};
  else if constexpr (std::is_same_v<T, Eigen::Vector3d>)
    return {x, x + 100, x + 200};
  else if constexpr (std::is_same_v<T, Eigen::Matrix3d>) {
    Eigen::Matrix3d m;
    for (int i = 0; i < 9; ++i)
      m(i / 3, i % 3) = x + 100 * i;
    return m;
  } else if constexpr (std::is_same_v<T, Eigen::Affine3d>) {
    Eigen::Affine3d t(Eigen::Affine3d::Identity());
    for (int i = 0; i < 12; ++i)
      t.matrix()(i / 4, i % 4) = x + 100 * i;
    return t;
  } else if constexpr (std::is_same_v<T, scipp::core::Quaternion>)
    return scipp::core::Quaternion(Eigen::Quaterniond(x, x + 100, x + 200, x + 300));
  else if constexpr (std::is_same_v<T, scipp::core::Translation>)
    return scipp::core::Translation(Eigen::Vector3d{x, x + 100, x + 200});
  else
    return static_cast<T>(x);
}
template <class T> double to_double(const T &x) {
  if constexpr (std::is_same_v<T, time_point>)
    return static_cast<double>(x.time_since_epoch());
  else if constexpr (std::is_same_v<T, std::string>) {
    const auto v = x.empty() ? 0.0 : std::atof(x.c_str());
    return x.empty() || from_double<std::string>(v) == x ? v : 1e300;
  } else if constexpr (std::is_same_v<T, scipp::index_pair>)
    return x.second == x.first + 1 || (x.first == 0 && x.second == 0)
               ? static_cast<double>(x.first)
               : 1e300;
  else if constexpr (std::is_same_v<T, Eigen::Vector3d> || std::is_same_v<T, Eigen::Matrix3d>)
    return x == from_double<T>(x(0, 0)) ? x(0, 0) : 1e300;
  else if constexpr (std::is_same_v<T, Eigen::Affine3d>)
    return x.matrix() == from_double<T>(x.matrix()(0, 0)).matrix() ? x.matrix()(0, 0) : 1e300;
  else if constexpr (std::is_same_v<T, scipp::core::Quaternion>)
    return x == from_double<T>(x.quat().w()) ? x.quat().w() : 1e300;
  else if constexpr (std::is_same_v<T, scipp::core::Translation>)
    return x == from_double<T>(x.vector()(0)) ? x.vector()(0) : 1e300;
  else
    return static_cast<double>(x);
}

using Shape = std::vector<std::pair<Dim, idx>>;
inline idx volume(const Shape &s) {
  idx v = 1;
  for (const auto &[d, n] : s)
    v *= n;
  return v;
}
inline Dimensions dimensions(const Shape &s) {
  Dimensions out;
  for (const auto &[d, n] : s)
    out.addInner(d, n);
  return out;
}
inline Shape shape_of(const Dimensions &d) {
  Shape s;
  for (const auto &label : d.labels())
    s.emplace_back(label, d[label]);
  return s;
}
inline idx find(const Shape &s, const Dim d) {
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i].first == d)
      return static_cast<idx>(i);
  return -1;
}
inline idx length_of(const Shape &s, const Dim d) {
  return s.at(static_cast<size_t>(find(s, d))).second;
}
inline std::string show(const Shape &s) {
  std::string out = "(";
  for (const auto &[d, n] : s)
    out += d.name() + ":" + std::to_string(n) + " ";
  return out + ")";
}
/// Position in row-major order of `s` of the element at index `at` of `outer`,
/// which has all dimensions of s.
inline idx position(const Shape &s, const Shape &outer, const std::vector<idx> &at) {
  idx p = 0;
  for (const auto &[d, n] : s)
    p = p * n + at[static_cast<size_t>(find(outer, d))];
  return p;
}
template <class F> void for_each(const Shape &s, F &&f) {
  std::vector<idx> lengths;
  for (const auto &x : s)
    lengths.push_back(x.second);
  for_each_index(lengths, f);
}

/// Contents of a variable: elements in row-major order.
struct Content {
  Shape shape;
  Unit unit = units::none;
  DType type = dtype<double>;
  bool has_var = false;
  std::vector<double> val, var;
};

inline bool same(const double a, const double b) {
  return a == b || (std::isnan(a) && std::isnan(b));
}
inline bool close(const double a, const double b, const double rel, const double abs = 0) {
  return same(a, b) || std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
}

inline std::string show(const Content &c) {
  return cat(show(c.shape), " ", to_string(c.type), " [", c.unit.name(), "] ", seq(c.val),
             c.has_var ? " var " + seq(c.var) : std::string());
}

/// Read a variable element by element.
inline Content read(const Variable &v) {
  Content c;
  c.shape = shape_of(v.dims());
  c.unit = v.unit();
  c.type = v.dtype();
  c.has_var = v.has_variances();
  with_type(v.dtype(), [&](auto t) {
    using T = typename decltype(t)::type;
    for (const auto &x : v.values<T>())
      c.val.push_back(to_double<T>(x));
    if constexpr (scipp::core::canHaveVariances<T>())
      if (c.has_var)
        for (const auto &x : v.variances<T>())
          c.var.push_back(to_double<T>(x));
  });
  return c;
}

inline bool same_elements(const std::vector<double> &a, const std::vector<double> &b) {
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!same(a[i], b[i]))
      return false;
  return true;
}
inline bool operator==(const Content &a, const Content &b) {
  return a.shape == b.shape && a.unit == b.unit && a.type == b.type &&
         a.has_var == b.has_var && same_elements(a.val, b.val) && same_elements(a.var, b.var);
}
inline bool operator!=(const Content &a, const Content &b) { return !(a == b); }

/// Write elements, in row-major order of v.
inline void write(Variable v, const Content &c) {
  with_type(v.dtype(), [&](auto t) {
    using T = typename decltype(t)::type;
    size_t i = 0;
    for (auto &x : v.values<T>())
      x = from_double<T>(c.val.at(i++));
    if constexpr (scipp::core::canHaveVariances<T>()) {
      i = 0;
      if (c.has_var)
        for (auto &x : v.variances<T>())
          x = from_double<T>(c.var.at(i++));
    }
  });
}

/// New contiguous variable.
inline Variable make_plain(const Content &c) {
  return with_type(c.type, [&](auto t) {
    using T = typename decltype(t)::type;
    scipp::core::element_array<T> val(static_cast<idx>(c.val.size()));
    for (size_t i = 0; i < c.val.size(); ++i)
      val.data()[i] = from_double<T>(c.val[i]);
    if constexpr (scipp::core::canHaveVariances<T>())
      if (c.has_var) {
        scipp::core::element_array<T> var(static_cast<idx>(c.var.size()));
        for (size_t i = 0; i < c.var.size(); ++i)
          var.data()[i] = from_double<T>(c.var[i]);
        return Variable(std::optional<Unit>(c.unit), dimensions(c.shape), std::move(val),
                        std::optional<scipp::core::element_array<T>>(std::move(var)));
      }
    return Variable(std::optional<Unit>(c.unit), dimensions(c.shape), std::move(val),
                    std::optional<scipp::core::element_array<T>>{});
  });
}

inline double gen_value(Gen &g, const DType t, const bool special = false) {
  if (t == dtype<bool>)
    return g.boolean();
  if (t == dtype<double> || t == dtype<float>) {
    if (special && g.boolean(0.15))
      return g.one_of<double>({NAN, HUGE_VAL, -HUGE_VAL, -0.0});
    return static_cast<double>(g.integer(-20, 20)) / (g.boolean(0.3) ? 4 : 1);
  }
  return static_cast<double>(g.integer(-20, 20));
}
inline void gen_elements(Gen &g, Content &c, const bool special = false) {
  const auto n = volume(c.shape);
  c.val.clear();
  c.var.clear();
  for (idx i = 0; i < n; ++i)
    c.val.push_back(gen_value(g, c.type, special));
  if (c.has_var)
    for (idx i = 0; i < n; ++i)
      c.var.push_back(static_cast<double>(g.integer(0, 12)) / 4);
}

struct LayoutOptions {
  bool broadcast = true; // result may be a broadcast (read-only) view
  bool padded = true;
};

/// A variable with contents c whose memory is laid out as slicing (also with
/// steps), transposing and broadcasting can.  `base` receives the variable it
/// is a view of, whose other elements are -7 (variance 3, bool true).
/// `view_out` receives the function from the base to the view.
inline Variable make_view(Gen &g, Content &c, LayoutOptions o = {}, Variable *base_out = nullptr,
                          std::function<Variable(const Variable &)> *view_out = nullptr) {
  Shape order = c.shape;
  if (g.boolean(0.5))
    order = g.permutation(order);
  struct Axis {
    Dim dim;
    idx before = 0, step = 1, length = 1, after = 0;
    bool extra = false;
  };
  std::vector<Axis> axes;
  std::vector<Dim> broadcasted;
  const bool padded = o.padded && g.boolean(0.5);
  const bool may_broadcast = o.broadcast && !c.has_var && g.boolean(0.3);
  for (const auto &[d, n] : order) {
    if (may_broadcast && g.boolean(0.4)) {
      broadcasted.push_back(d);
      continue;
    }
    Axis a;
    a.dim = d;
    a.length = n;
    if (padded) {
      a.step = g.boolean(0.2) ? g.integer(2, 3) : 1;
      a.before = g.boolean(0.3) ? g.integer(1, 2) : 0;
      a.after = g.boolean(0.3) ? g.integer(1, 2) : 0;
    }
    axes.push_back(a);
  }
  if (padded && g.boolean(0.3)) {
    Axis a;
    a.dim = Dim("extra");
    a.extra = true;
    a.before = g.integer(0, 1);
    a.after = g.integer(0, 1);
    axes.insert(axes.begin() + static_cast<long>(g.draw(axes.size())), a);
  }
  // Broadcast elements are equal.
  if (!broadcasted.empty()) {
    const auto val = c.val;
    idx i = 0;
    for_each(c.shape, [&](const std::vector<idx> &at) {
      auto src = at;
      for (const auto d : broadcasted)
        src[static_cast<size_t>(find(c.shape, d))] = 0;
      c.val[static_cast<size_t>(i++)] =
          val[static_cast<size_t>(position(c.shape, c.shape, src))];
    });
  }
  Content b = c;
  b.shape.clear();
  for (const auto &a : axes)
    b.shape.emplace_back(a.dim, a.before + a.length * a.step + a.after);
  const auto n = static_cast<size_t>(volume(b.shape));
  b.val.assign(n, c.type == dtype<bool> ? 1 : -7);
  b.var.assign(c.has_var ? n : 0, 3);
  if (volume(c.shape) > 0) {
    idx i = 0;
    for_each(c.shape, [&](const std::vector<idx> &at) {
      idx p = 0;
      for (const auto &a : axes)
        p = p * (a.before + a.length * a.step + a.after) + a.before +
            (a.extra ? 0 : at[static_cast<size_t>(find(c.shape, a.dim))] * a.step);
      b.val[static_cast<size_t>(p)] = c.val[static_cast<size_t>(i)];
      if (c.has_var)
        b.var[static_cast<size_t>(p)] = c.var[static_cast<size_t>(i)];
      ++i;
    });
  }
  const auto base = make_plain(b);
  if (base_out)
    *base_out = base;
  std::vector<Dim> labels;
  for (const auto &[d, x] : c.shape)
    labels.push_back(d);
  const auto view = [axes, broadcasted, labels, dims = dimensions(c.shape)](Variable v) {
    for (const auto &a : axes)
      if (a.extra)
        v = v.slice({a.dim, a.before});
      else if (a.before || a.after || a.step != 1)
        v = v.slice({a.dim, a.before, a.before + a.length * a.step, a.step});
    if (!broadcasted.empty())
      v = v.broadcast(dims);
    bool sorted = true;
    for (size_t i = 0; i < labels.size(); ++i)
      sorted &= v.dims().labels()[i] == labels[i];
    if (!sorted)
      v = v.transpose(labels);
    return v;
  };
  if (view_out)
    *view_out = view;
  return view(base);
}

inline Shape gen_shape(Gen &g, int maxdim, int maxlen, double p_zero = 0.04) {
  Shape s;
  const auto n = g.length(0, maxdim);
  std::vector<size_t> labels{0, 1, 2, 3, 4};
  labels = g.permutation(labels);
  for (int64_t i = 0; i < n; ++i)
    s.emplace_back(dim_label(labels[static_cast<size_t>(i)]),
                   g.boolean(p_zero) ? 0 : g.length(1, maxlen));
  return s;
}

inline Variable scalar(const Content &c, const idx i) {
  Content s = c;
  s.shape.clear();
  s.val = {c.val.at(static_cast<size_t>(i))};
  if (c.has_var)
    s.var = {c.var.at(static_cast<size_t>(i))};
  return make_plain(s);
}
inline std::string layout(const Variable &v) {
  return cat("strides ", seq(v.strides()), " offset ", v.offset());
}
} // namespace gv
