// C14: text of times, dimensions and arrays says what they hold; result types.
// sanitize: -D_GLIBCXX_ASSERTIONS
#include "pbt.h"
#include "core_gen.h"

#include <memory>

#include "scipp/common/span.h"
#include "scipp/core/array_to_string.h"
#include "scipp/core/dimensions.h"
#include "scipp/core/dtype.h"
#include "scipp/core/eigen.h"
#include "scipp/core/except.h"
#include "scipp/core/string.h"
#include "scipp/core/time_point.h"

using namespace pbt;
using namespace scipp;
using namespace scipp::core;
using i128 = __int128;

namespace {
std::string pad(int64_t x, int width) {
  auto s = std::to_string(x);
  while (static_cast<int>(s.size()) < width)
    s = "0" + s;
  return s;
}
// Proleptic Gregorian calendar, independent of the C library.
bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
std::string calendar(int64_t days) {
  // 400 years have 146097 days.
  int64_t cycles = days >= 0 ? days / 146097 : -((-days + 146096) / 146097);
  days -= cycles * 146097;
  int64_t y = 1970 + 400 * cycles;
  while (days >= (leap(y) ? 366 : 365)) {
    days -= leap(y) ? 366 : 365;
    ++y;
  }
  const int len[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int m = 0;
  while (days >= len[m])
    days -= len[m++];
  return pad(y, 4) + "-" + pad(m + 1, 2) + "-" + pad(days + 1, 2);
}

struct TimeUnit {
  units::Unit unit;
  int64_t per_second; // or negative: seconds per unit
  int digits;
};
void iso_date(Gen &g) {
  static const std::vector<TimeUnit> us{
      {units::ns, 1000000000, 9},
      {units::us, 1000000, 6},
      {units::Unit(llnl::units::precise::ms), 1000, 3},
      {units::s, 1, 0},
      {units::Unit(llnl::units::precise::min), -60, 0},
      {units::Unit(llnl::units::precise::hr), -3600, 0}};
  const auto &u = g.pick(us);
  // Year 1000 to 9999 as far as the unit can hold it.
  constexpr int64_t lo = -30610224000, hi = 253402300799;
  int64_t sec = g.boolean(0.3)   ? g.integer(-5, 5)
                : g.boolean(0.5) ? g.integer(-100000, 100000) * 86400 + g.integer(-2, 2)
                                 : g.integer(lo, hi);
  int64_t sub = 0, count;
  if (u.per_second < 0) {
    count = sec / -u.per_second;
    sec = count * -u.per_second;
  } else {
    if (u.per_second > 1)
      sub = g.boolean(0.3) ? g.one_of<int64_t>({0, 1, u.per_second - 1})
                           : g.integer(0, u.per_second - 1);
    const i128 c = static_cast<i128>(sec) * u.per_second + sub;
    if (c > std::numeric_limits<int64_t>::max() ||
        c < std::numeric_limits<int64_t>::min()) {
      sec %= 9000000000;
      count = sec * u.per_second + sub;
    } else {
      count = static_cast<int64_t>(c);
    }
  }
  if (sec < lo || sec > hi)
    throw Discard{};
  const int64_t days = sec >= 0 ? sec / 86400 : -((-sec + 86399) / 86400);
  const int64_t in_day = sec - days * 86400;
  auto expected = calendar(days) + "T" + pad(in_day / 3600, 2) + ":" +
                  pad(in_day / 60 % 60, 2) + ":" + pad(in_day % 60, 2);
  if (u.digits > 0)
    expected += "." + pad(sub, u.digits);
  g.note(cat(count, " -> ", expected));
  PBT_EQ("iso-date", to_iso_date(time_point(count), u.unit), expected, "count ",
         count);
  PBT_EQ("element-text", element_to_string(time_point(count), u.unit),
         expected + ", ", "count ", count);
  for (const auto &bad : {units::m, units::one, units::counts,
                          units::Unit(llnl::units::precise::day)})
    PBT_CHECK("not-a-time-unit", throws([&] { (void)to_iso_date(time_point(count), bad); }),
              "");
  g.nontrivial(count != 0);
  g.label(sec < 0 ? "before 1970" : "after 1970");
}
void out_of_range(Gen &g) { // never crashes
  const int64_t c = g.boolean() ? std::numeric_limits<int64_t>::min()
                                : g.integer(std::numeric_limits<int64_t>::min(),
                                            std::numeric_limits<int64_t>::max());
  g.note(cat(c));
  for (const auto &u : {units::ns, units::us, units::s})
    PBT_CHECK("some-text", !to_iso_date(time_point(c), u).empty(), c);
  g.nontrivial();
}

void time_arithmetic(Gen &g) {
  const int64_t a = g.integer(-1000000, 1000000), b = g.integer(-1000000, 1000000);
  const time_point t(a), u(b);
  PBT_EQ("add", (t + b).time_since_epoch(), a + b, a, " ", b);
  PBT_EQ("add", (b + t).time_since_epoch(), a + b, a, " ", b);
  PBT_EQ("subtract", (t - b).time_since_epoch(), a - b, a, " ", b);
  PBT_EQ("difference", t - u, a - b, a, " ", b);
  auto v = t;
  v += b;
  PBT_EQ("add-equals", v.time_since_epoch(), a + b, a, " ", b);
  v -= b;
  v -= b;
  PBT_EQ("subtract-equals", v.time_since_epoch(), a - b, a, " ", b);
  PBT_CHECK("order", (t < u) == (a < b) && (t > u) == (a > b) && (t <= u) == (a <= b) &&
                         (t >= u) == (a >= b) && (t == u) == (a == b) &&
                         (t != u) == (a != b),
            a, " ", b);
  PBT_CHECK("hash", std::hash<time_point>{}(t) == std::hash<time_point>{}(time_point(a)),
            a);
  g.nontrivial(a != b);
}

// Text of arrays: all elements if at most four, else the first and last two.
template <class T> std::string item(const T &x) {
  if constexpr (std::is_same_v<T, std::string>)
    return '"' + (x.size() > 80 ? x.substr(0, 77) + "..." : x) + '"';
  else if constexpr (std::is_same_v<T, bool>)
    return x ? "True" : "False";
  else {
    std::ostringstream s;
    s << x;
    return s.str();
  }
}
template <class T> void array_text_(Gen &g) {
  const auto n = g.length(0, 9);
  const auto data = std::make_unique<T[]>(n + 1);
  for (int64_t i = 0; i < n; ++i)
    if constexpr (std::is_same_v<T, std::string>)
      data[i] = std::string(g.boolean(0.2) ? g.integer(76, 84) : g.integer(0, 3), 'x') +
                g.ident(2);
    else if constexpr (std::is_same_v<T, bool>)
      data[i] = g.boolean();
    else
      data[i] = static_cast<T>(g.integer(-1000, 1000));
  std::string expected = "[";
  for (int64_t i = 0; i < n; ++i) {
    if (n > 4 && i >= 2 && i < n - 2) {
      if (i == 2)
        expected += "..., ";
      continue;
    }
    expected += item(data[i]);
    if (i + 1 < n)
      expected += ", ";
  }
  expected += "]";
  g.note(expected);
  PBT_EQ("array-text", array_to_string(scipp::span<const T>(data.get(), n)), expected,
         "n ", n);
  if (n > 0)
    PBT_EQ("scalar-text",
           scalar_array_to_string(scipp::span<const T>(data.get(), 1), std::nullopt),
           item(data[0]), "");
  g.nontrivial(n > 2);
}
void array_text(Gen &g) {
  switch (g.draw(4)) {
  case 0:
    return array_text_<double>(g);
  case 1:
    return array_text_<int64_t>(g);
  case 2:
    return array_text_<int32_t>(g);
  case 3:
    return array_text_<std::string>(g);
  default:
    return array_text_<bool>(g);
  }
}

/// Numbers in a text, in order.
std::vector<double> numbers(const std::string &text) {
  std::string s;
  for (const auto c : text) {
    const bool sign = c == '-' || c == '+';
    s += sign ? " " : "";
    s += std::isdigit(static_cast<unsigned char>(c)) || sign || c == '.' ? c : ' ';
  }
  std::istringstream in(s);
  std::vector<double> out;
  for (std::string word; in >> word;)
    if (word.find_first_of("0123456789") != std::string::npos)
      out.push_back(std::strtod(word.c_str(), nullptr));
  return out;
}
// Text of structures has all their components in order.
template <class T, class F>
void structure_text_(Gen &g, const size_t components, const F &make, const bool affine = false) {
  const auto n = g.length(1, 4);
  const auto data = std::make_unique<T[]>(n);
  std::vector<double> want;
  for (int64_t i = 0; i < n; ++i) {
    std::vector<double> c;
    for (size_t k = 0; k < components; ++k)
      c.push_back(static_cast<double>(g.integer(-99, 99)) / (g.boolean() ? 1 : 4));
    data[i] = make(c);
    want.insert(want.end(), c.begin(), c.end());
    if (affine)
      for (const double x : {0, 0, 0, 1})
        want.push_back(x);
  }
  const auto text = array_to_string(scipp::span<const T>(data.get(), n));
  g.note(text);
  g.nontrivial(n > 1);
  PBT_CHECK("structure-text", numbers(text) == want, text, " components ", seq(want));
  const auto scalar =
      scalar_array_to_string(scipp::span<const T>(data.get() + n - 1, 1), std::nullopt);
  PBT_CHECK("structure-scalar-text",
            numbers(scalar) == std::vector<double>(want.end() - static_cast<long>(want.size()) / n,
                                                   want.end()),
            scalar);
}
void structure_text(Gen &g) {
  switch (g.draw(5)) {
  case 0:
    return structure_text_<Eigen::Vector3d>(g, 3, [](const auto &c) {
      return Eigen::Vector3d(c[0], c[1], c[2]);
    });
  case 1:
    return structure_text_<Eigen::Matrix3d>(g, 9, [](const auto &c) {
      Eigen::Matrix3d m;
      for (int i = 0; i < 9; ++i)
        m(i / 3, i % 3) = c[i];
      return m;
    });
  case 2:
    return structure_text_<Eigen::Affine3d>(
        g, 12,
        [](const auto &c) {
          Eigen::Affine3d m = Eigen::Affine3d::Identity();
          for (int i = 0; i < 12; ++i)
            m.matrix()(i / 4, i % 4) = c[i];
          return m;
        },
        true);
  case 3:
    return structure_text_<Quaternion>(g, 4, [](const auto &c) {
      return Quaternion(Eigen::Quaterniond(c[0], c[1], c[2], c[3]));
    });
  case 4:
    return structure_text_<Translation>(g, 3, [](const auto &c) {
      return Translation(Eigen::Vector3d(c[0], c[1], c[2]));
    });
  default: {
    // Times are shown in their unit.
    const auto n = g.length(1, 4);
    std::vector<time_point> t;
    const auto unit = g.one_of<units::Unit>({units::s, units::ns, units::us});
    std::string want = "[";
    for (int64_t i = 0; i < n; ++i) {
      t.emplace_back(g.integer(-2000000000, 2000000000));
      want += (i ? ", " : "") + to_iso_date(t.back(), unit);
    }
    g.nontrivial(n > 1);
    PBT_EQ("times-text", array_to_string(scipp::span<const time_point>(t.data(), t.size()), unit),
           want + "]", "");
  }
  }
}

void dims_text(Gen &g) {
  Dimensions d;
  std::string full = "(", labels = "(";
  const auto n = g.length(0, 5);
  for (int64_t i = 0; i < n; ++i) {
    const auto len = g.integer(0, 20);
    d.addInner(dim_label(i), len);
    full += cat(i ? ", " : "", dim_label(i).name(), ": ", len);
    labels += cat(i ? ", " : "", dim_label(i).name());
  }
  g.note(full);
  PBT_EQ("dims-text", to_string(d), full + ")", "");
  PBT_EQ("labels-text", labels_to_string(d), labels + ")", "");
  const auto b = g.integer(0, 9), e = b + g.integer(0, 9);
  PBT_EQ("slice-text", to_string(Slice(Dim::X, b, e)), cat("Slice(x, ", b, ", ", e, ")"),
         "");
  PBT_EQ("slice-text", to_string(Slice(Dim::X, b)), cat("Slice(x, ", b, ")"), "");
  PBT_EQ("pair-text", to_string(scipp::index_pair{b, e}), cat("(", b, ", ", e, ")"), "");
  g.nontrivial(n > 1);
}

// Type of the result for operands of different types
template <class A, class B> void common_() {
  PBT_CHECK("common-type",
            common_type(dtype<A>, dtype<B>) == (dtype<std::common_type_t<A, B>>) &&
                common_type(dtype<B>, dtype<A>) == (dtype<std::common_type_t<A, B>>),
            typeid(A).name(), " ", typeid(B).name());
}
template <class... B> void common_all() {
  (common_<double, B>(), ...);
  (common_<float, B>(), ...);
  (common_<int64_t, B>(), ...);
  (common_<int32_t, B>(), ...);
}
void types(Gen &g) {
  common_all<double, float, int64_t, int32_t>();
  static const std::vector<DType> all{
      dtype<double>,        dtype<float>,      dtype<int64_t>,
      dtype<int32_t>,       dtype<bool>,       dtype<std::string>,
      dtype<time_point>,    dtype<Eigen::Vector3d>, dtype<Eigen::Matrix3d>,
      dtype<Eigen::Affine3d>, dtype<Quaternion>, dtype<Translation>};
  const auto i = g.draw(all.size() - 1), j = g.draw(all.size() - 1);
  const auto a = all[i], b = all[j];
  g.note(cat("types ", i, " ", j));
  const bool numeric = i < 4 && j < 4;
  PBT_EQ("common-refused", throws([&] { (void)common_type(a, b); }),
         !(numeric || i == j), "types ", i, " ", j);
  PBT_EQ("is-int", is_int(a), i == 2 || i == 3, i);
  PBT_EQ("is-float", is_float(a), i < 2, i);
  PBT_EQ("fundamental", is_fundamental(a), i < 5, i);
  PBT_EQ("orderable", is_total_orderable(a), i < 5 || i == 6, i);
  PBT_EQ("same", a == b, i == j, i, " ", j);
  PBT_CHECK("not-span", !is_span(a), i);
  PBT_CHECK("span", is_span(dtype<scipp::span<const double>>) &&
                        is_span(dtype<scipp::span<float>>) &&
                        is_span(dtype<scipp::span<const time_point>>),
            "");
  PBT_CHECK("variances", canHaveVariances<double>() && canHaveVariances<float>() &&
                             !canHaveVariances<int64_t>() && !canHaveVariances<bool>() &&
                             !canHaveVariances<std::string>(),
            "");
  g.nontrivial(i != j);
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C14";
  p.rule = "times in six units from year 1000 to 9999, around second and day limits and "
           "before 1970, compared with an own calendar; arrays of up to nine "
           "elements, dimensions, slices, pairs of types. Non-trivial: time other "
           "than the epoch; more than one dimension or two elements; types differ.";
  p.laws = {{"iso_date", 240000, 2400000, iso_date},
            {"out_of_range", 20000, 200000, out_of_range},
            {"time_arithmetic", 200000, 2000000, time_arithmetic},
            {"array_text", 200000, 2000000, array_text},
            {"structure_text", 100000, 1000000, structure_text},
            {"dims_text", 200000, 2000000, dims_text},
            {"types", 120000, 1200000, types}};
  return run(argc, argv, p);
}
