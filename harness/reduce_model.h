// Model of reductions.
#pragma once
#include "gen_var.h"

#include "scipp/variable/reduction.h"

namespace gv {
namespace sv = scipp::variable;
enum class Op { Sum, NanSum, Mean, NanMean, Min, Max, NanMin, NanMax, All, Any };
const std::vector<std::pair<Op, const char *>> ops{
    {Op::Sum, "sum"}, {Op::NanSum, "nansum"}, {Op::Mean, "mean"},     {Op::NanMean, "nanmean"},
    {Op::Min, "min"}, {Op::Max, "max"},       {Op::NanMin, "nanmin"}, {Op::NanMax, "nanmax"},
    {Op::All, "all"}, {Op::Any, "any"}};

template <class... D> Variable apply(const Op op, const Variable &v, const D... dim) {
  switch (op) {
  case Op::Sum: return sv::sum(v, dim...);
  case Op::NanSum: return sv::nansum(v, dim...);
  case Op::Mean: return sv::mean(v, dim...);
  case Op::NanMean: return sv::nanmean(v, dim...);
  case Op::Min: return sv::min(v, dim...);
  case Op::Max: return sv::max(v, dim...);
  case Op::NanMin: return sv::nanmin(v, dim...);
  case Op::NanMax: return sv::nanmax(v, dim...);
  case Op::All: return sv::all(v, dim...);
  case Op::Any: return sv::any(v, dim...);
  }
  return {};
}
inline void apply_into(const Op op, Variable &out, const Variable &v) {
  switch (op) {
  case Op::Sum: return sv::sum_into(out, v);
  case Op::NanSum: return sv::nansum_into(out, v);
  case Op::Min: return sv::min_into(out, v);
  case Op::Max: return sv::max_into(out, v);
  case Op::NanMin: return sv::nanmin_into(out, v);
  case Op::NanMax: return sv::nanmax_into(out, v);
  case Op::All: return sv::all_into(out, v);
  case Op::Any: return sv::any_into(out, v);
  default: throw Discard{};
  }
}
inline bool logical(const Op op) { return op == Op::All || op == Op::Any; }
inline bool is_sum(const Op op) { return op == Op::Sum || op == Op::NanSum; }
inline bool is_mean(const Op op) { return op == Op::Mean || op == Op::NanMean; }
inline bool skips_nan(const Op op) {
  return op == Op::NanSum || op == Op::NanMean || op == Op::NanMin || op == Op::NanMax;
}
inline bool is_flt(const DType t) { return t == dtype<double> || t == dtype<float>; }

inline double lowest(const DType t) {
  return with_type(t, [](auto tg) -> double {
    using T = typename decltype(tg)::type;
    if constexpr (std::is_arithmetic_v<T>)
      return static_cast<double>(std::numeric_limits<T>::lowest());
    else
      return static_cast<double>(std::numeric_limits<int64_t>::lowest());
  });
}
inline double highest(const DType t) {
  return with_type(t, [](auto tg) -> double {
    using T = typename decltype(tg)::type;
    if constexpr (std::is_arithmetic_v<T>)
      return static_cast<double>(std::numeric_limits<T>::max());
    else
      return static_cast<double>(std::numeric_limits<int64_t>::max());
  });
}

/// Reduce list of (value, variance).
struct Elem {
  double val = 0, var = 0;
};
inline Elem reduce(const Op op, const DType t, const std::vector<Elem> &in,
            const std::optional<Elem> &init = {}) {
  Elem out = init.value_or(Elem{op == Op::All ? 1.0
                                : op == Op::Min || op == Op::NanMin ? highest(t)
                                : op == Op::Max || op == Op::NanMax ? lowest(t)
                                                                    : 0.0,
                                0});
  int64_t n = 0;
  bool nan = std::isnan(out.val) && !skips_nan(op);
  if (std::isnan(out.val) && op == Op::NanSum)
    out = {};
  for (const auto &x : in) {
    switch (op) {
    case Op::All: out.val = out.val != 0 && x.val != 0; break;
    case Op::Any: out.val = out.val != 0 || x.val != 0; break;
    case Op::NanSum:
    case Op::NanMean:
      if (std::isnan(x.val))
        continue;
      n += std::isfinite(x.val);
      out = {out.val + x.val, out.var + x.var};
      break;
    case Op::Sum:
    case Op::Mean: out = {out.val + x.val, out.var + x.var}; ++n; break;
    default:
      if (std::isnan(x.val)) {
        if (!skips_nan(op) && !nan) {
          nan = true;
          out = x;
        } else if (std::isnan(out.val))
          out = x;
        continue;
      }
      if (nan)
        continue;
      const bool is_min = op == Op::Min || op == Op::NanMin;
      if (std::isnan(out.val) || (is_min ? x.val < out.val : x.val > out.val))
        out = x;
    }
  }
  if (is_mean(op)) {
    const auto m = static_cast<double>(n);
    if (n == 0) // 0 / 0; the variance is NaN or inf
      return {std::isinf(out.val) ? out.val : NAN, NAN};
    out = {out.val / m, out.var / (m * m)};
  }
  return out;
}

inline DType result_type(const Op op, const DType t) {
  if (is_sum(op))
    return t == dtype<bool> ? dtype<int64_t> : t;
  if (is_mean(op))
    return t == dtype<float> ? dtype<float> : dtype<double>;
  return t;
}
/// The values for which an operation is defined.
inline bool supported(const Op op, const DType t) {
  if (logical(op))
    return t == dtype<bool>;
  if (is_mean(op)) // bool has no unit, and then there is no mean
    return t != dtype<time_point> && t != dtype<bool>;
  return t != dtype<time_point> || !is_sum(op);
}

inline Content gen_content(Gen &g, const Op op, const Shape &shape) {
  Content c;
  c.shape = shape;
  std::vector<DType> types{dtype<double>, dtype<float>,      dtype<int64_t>,
                           dtype<int32_t>, dtype<time_point>, dtype<bool>};
  c.type = logical(op) ? dtype<bool> : g.pick(types);
  if (!supported(op, c.type))
    c.type = dtype<double>;
  c.has_var = is_flt(c.type) && g.boolean(0.3);
  c.unit = c.type == dtype<bool>         ? units::none
           : c.type == dtype<time_point> ? units::ns
                                         : g.one_of<Unit>({units::one, units::m, units::counts});
  gen_elements(g, c);
  if (is_flt(c.type) && g.boolean(0.3))
    for (auto &x : c.val)
      if (g.boolean(0.15))
        x = NAN;
  if (is_flt(c.type) && g.boolean(0.1))
    for (auto &x : c.val)
      if (g.boolean(0.1))
        x = HUGE_VAL;
  // Which of two equal elements counts is not defined.
  if (c.has_var)
    for (size_t i = 0; i < c.var.size(); ++i)
      if (!is_sum(op) && !is_mean(op))
        c.var[i] = std::isnan(c.val[i]) ? 2 : std::abs(std::fmod(c.val[i], 1e3)) / 4;
  if (c.has_var)
    for (size_t i = 0; i < c.var.size(); ++i)
      if (!std::isfinite(c.var[i]))
        c.var[i] = 7;
  return c;
}
inline Content reduced(const Op op, const Content &c, const Shape &out,
                const std::optional<Content> &init = {}) {
  Content r;
  r.shape = out;
  r.type = init ? init->type : result_type(op, c.type);
  r.unit = init ? init->unit : c.unit;
  r.has_var = c.has_var;
  std::vector<std::vector<Elem>> lists(static_cast<size_t>(volume(out)));
  size_t i = 0;
  for_each(c.shape, [&](const std::vector<idx> &at) {
    lists[static_cast<size_t>(position(out, c.shape, at))].push_back(
        {c.val[i], c.has_var ? c.var[i] : 0});
    ++i;
  });
  for (size_t k = 0; k < lists.size(); ++k) {
    std::optional<Elem> start;
    if (init)
      start = Elem{init->val[k], c.has_var ? init->var[k] : 0};
    const auto e = reduce(op, c.type, lists[k], start);
    r.val.push_back(e.val);
    if (c.has_var)
      r.var.push_back(e.var);
  }
  return r;
}
} // namespace gv
