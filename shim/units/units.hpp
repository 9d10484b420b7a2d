// Stand-in for the subset of LLNL-Units 0.9.1 (64-bit base type, namespace
// llnl::units) that scipp uses.  LLNL-Units itself is not available offline
// (see /verif/DESIGN.md, "The units stand-in").  Only the harness build uses it.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <string>

namespace llnl::units {

namespace detail {
class unit_data {
public:
  constexpr unit_data() : unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) {}
  constexpr unit_data(int meter, int kilogram, int second, int ampere,
                      int kelvin, int mole, int candela, int currency,
                      int count, int radians, unsigned int per_unit,
                      unsigned int flag, unsigned int flag2,
                      unsigned int equation)
      : meter_(meter), second_(second), kilogram_(kilogram), ampere_(ampere),
        candela_(candela), kelvin_(kelvin), mole_(mole), radians_(radians),
        currency_(currency), count_(count), per_unit_(per_unit), i_flag_(flag),
        e_flag_(flag2), equation_(equation) {}
  constexpr int meter() const { return meter_; }
  constexpr int kg() const { return kilogram_; }
  constexpr int second() const { return second_; }
  constexpr int ampere() const { return ampere_; }
  constexpr int kelvin() const { return kelvin_; }
  constexpr int mole() const { return mole_; }
  constexpr int candela() const { return candela_; }
  constexpr int currency() const { return currency_; }
  constexpr int count() const { return count_; }
  constexpr int radian() const { return radians_; }
  constexpr bool is_per_unit() const { return per_unit_ != 0U; }
  constexpr bool has_i_flag() const { return i_flag_ != 0U; }
  constexpr bool has_e_flag() const { return e_flag_ != 0U; }
  constexpr bool is_equation() const { return equation_ != 0U; }
  constexpr bool empty() const {
    return meter_ == 0 && second_ == 0 && kilogram_ == 0 && ampere_ == 0 &&
           candela_ == 0 && kelvin_ == 0 && mole_ == 0 && radians_ == 0 &&
           currency_ == 0 && count_ == 0 && !equation_;
  }
  constexpr unit_data operator*(const unit_data &o) const {
    return {meter_ + o.meter_,       kilogram_ + o.kilogram_,
            second_ + o.second_,     ampere_ + o.ampere_,
            kelvin_ + o.kelvin_,     mole_ + o.mole_,
            candela_ + o.candela_,   currency_ + o.currency_,
            count_ + o.count_,       radians_ + o.radians_,
            or_(per_unit_, o.per_unit_), xor_(i_flag_, o.i_flag_),
            xor_(e_flag_, o.e_flag_),     or_(equation_, o.equation_)};
  }
  constexpr unit_data operator/(const unit_data &o) const {
    return {meter_ - o.meter_,       kilogram_ - o.kilogram_,
            second_ - o.second_,     ampere_ - o.ampere_,
            kelvin_ - o.kelvin_,     mole_ - o.mole_,
            candela_ - o.candela_,   currency_ - o.currency_,
            count_ - o.count_,       radians_ - o.radians_,
            or_(per_unit_, o.per_unit_), xor_(i_flag_, o.i_flag_),
            xor_(e_flag_, o.e_flag_),     or_(equation_, o.equation_)};
  }
  constexpr unit_data inv() const { return unit_data{} / *this; }
  constexpr unit_data pow(int p) const {
    return {meter_ * p,
            kilogram_ * p,
            second_ * p,
            ampere_ * p,
            kelvin_ * p,
            mole_ * p,
            candela_ * p,
            currency_ * p,
            count_ * p,
            radians_ * p,
            per_unit_,
            p % 2 == 0 ? 0U : i_flag_,
            p % 2 == 0 ? 0U : e_flag_,
            equation_};
  }
  constexpr bool has_valid_root(int p) const {
    return meter_ % p == 0 && second_ % p == 0 && kilogram_ % p == 0 &&
           ampere_ % p == 0 && candela_ % p == 0 && kelvin_ % p == 0 &&
           mole_ % p == 0 && radians_ % p == 0 && currency_ % p == 0 &&
           count_ % p == 0 && !equation_;
  }
  constexpr unit_data root(int p) const {
    return {meter_ / p,   kilogram_ / p, second_ / p,  ampere_ / p,
            kelvin_ / p,  mole_ / p,     candela_ / p, currency_ / p,
            count_ / p,   radians_ / p,  per_unit_,    0U,
            0U,           equation_};
  }
  constexpr bool operator==(const unit_data &o) const {
    return equivalent_non_counting(o) && mole_ == o.mole_ &&
           count_ == o.count_ && radians_ == o.radians_ &&
           per_unit_ == o.per_unit_ && i_flag_ == o.i_flag_ &&
           e_flag_ == o.e_flag_ && equation_ == o.equation_;
  }
  constexpr bool operator!=(const unit_data &o) const { return !(*this == o); }
  constexpr bool equivalent_non_counting(const unit_data &o) const {
    return meter_ == o.meter_ && second_ == o.second_ &&
           kilogram_ == o.kilogram_ && ampere_ == o.ampere_ &&
           candela_ == o.candela_ && kelvin_ == o.kelvin_ &&
           currency_ == o.currency_;
  }
  constexpr bool has_same_base(const unit_data &o) const {
    return equivalent_non_counting(o) && mole_ == o.mole_ &&
           count_ == o.count_ && radians_ == o.radians_;
  }
  std::uint64_t bits() const {
    std::uint64_t h = 1469598103934665603ULL;
    for (const int x : {int{meter_}, int{second_}, int{kilogram_},
                        int{ampere_}, int{candela_}, int{kelvin_}, int{mole_},
                        int{radians_}, int{currency_}, int{count_},
                        int(per_unit_), int(i_flag_), int(e_flag_),
                        int(equation_)})
      h = (h ^ static_cast<std::uint64_t>(x + 1000)) * 1099511628211ULL;
    return h;
  }

  // Widths used by LLNL-Units with a 64-bit base type.
  static constexpr int w_meter = 8, w_second = 8, w_kg = 6, w_ampere = 6,
                       w_candela = 4, w_kelvin = 6, w_mole = 4, w_radian = 6,
                       w_currency = 4, w_count = 4;
  static constexpr bool fits(int v, int width) {
    return v >= -(1 << (width - 1)) && v <= (1 << (width - 1)) - 1;
  }

private:
  static constexpr unsigned or_(unsigned a, unsigned b) { return a | b; }
  static constexpr unsigned xor_(unsigned a, unsigned b) { return a ^ b; }
  signed int meter_ : 8;
  signed int second_ : 8;
  signed int kilogram_ : 6;
  signed int ampere_ : 6;
  signed int candela_ : 4;
  signed int kelvin_ : 6;
  signed int mole_ : 4;
  signed int radians_ : 6;
  signed int currency_ : 4;
  signed int count_ : 4;
  unsigned int per_unit_ : 1;
  unsigned int i_flag_ : 1;
  unsigned int e_flag_ : 1;
  unsigned int equation_ : 1;
};

inline double cround_precise(double val) {
  std::uint64_t bits;
  std::memcpy(&bits, &val, sizeof(bits));
  bits += 0x800ULL;
  bits &= 0xFFFFFFFFFFFFF000ULL;
  std::memcpy(&val, &bits, sizeof(bits));
  return val;
}
inline bool compare_round_equals_precise(double a, double b) {
  constexpr double half = 5e-13;
  const double d = a - b;
  if (d == 0.0 || std::fpclassify(d) == FP_SUBNORMAL)
    return true;
  const auto c1 = cround_precise(a);
  const auto c2 = cround_precise(b);
  return c1 == c2 || cround_precise(b * (1.0 + half)) == c1 ||
         cround_precise(b * (1.0 - half)) == c1 ||
         cround_precise(a * (1.0 + half)) == c2 ||
         cround_precise(a * (1.0 - half)) == c2;
}
} // namespace detail

class precise_unit {
public:
  constexpr precise_unit() noexcept = default;
  constexpr explicit precise_unit(const detail::unit_data &base) noexcept
      : base_(base) {}
  constexpr precise_unit(const detail::unit_data &base, double mult) noexcept
      : base_(base), multiplier_(mult) {}
  constexpr precise_unit(double mult, const detail::unit_data &base) noexcept
      : base_(base), multiplier_(mult) {}
  constexpr explicit precise_unit(double mult) noexcept : multiplier_(mult) {}
  constexpr precise_unit(const precise_unit &u, double mult) noexcept
      : base_(u.base_), commodity_(u.commodity_),
        multiplier_(mult * u.multiplier_) {}
  constexpr precise_unit(double mult, const precise_unit &u) noexcept
      : precise_unit(u, mult) {}
  constexpr precise_unit(const detail::unit_data &base, std::uint32_t commodity,
                         double mult) noexcept
      : base_(base), commodity_(commodity), multiplier_(mult) {}

  constexpr double multiplier() const { return multiplier_; }
  constexpr std::uint32_t commodity() const { return commodity_; }
  constexpr detail::unit_data base_units() const { return base_; }
  constexpr bool is_equation() const { return base_.is_equation(); }
  constexpr bool has_same_base(const precise_unit &o) const {
    return base_ == o.base_;
  }
  bool is_exactly_the_same(const precise_unit &o) const {
    return base_ == o.base_ && commodity_ == o.commodity_ &&
           multiplier_ == o.multiplier_;
  }
  constexpr precise_unit operator*(const precise_unit &o) const {
    return {base_ * o.base_, commodity_ ? commodity_ : o.commodity_,
            multiplier_ * o.multiplier_};
  }
  constexpr precise_unit operator/(const precise_unit &o) const {
    return {base_ / o.base_, commodity_, multiplier_ / o.multiplier_};
  }
  constexpr precise_unit inv() const {
    return {base_.inv(), commodity_, 1.0 / multiplier_};
  }
  constexpr precise_unit pow(int p) const {
    return {base_.pow(p), commodity_, power_const(multiplier_, p)};
  }
  bool operator==(const precise_unit &o) const {
    if (base_ != o.base_ || commodity_ != o.commodity_)
      return false;
    return multiplier_ == o.multiplier_ ||
           detail::compare_round_equals_precise(multiplier_, o.multiplier_);
  }
  bool operator!=(const precise_unit &o) const { return !(*this == o); }

private:
  static constexpr double power_const(double v, int p) {
    double r = 1.0;
    const bool neg = p < 0;
    for (int n = neg ? -p : p; n > 0; n >>= 1) {
      if (n & 1)
        r *= v;
      v *= v;
    }
    return neg ? 1.0 / r : r;
  }
  detail::unit_data base_{};
  std::uint32_t commodity_{0};
  double multiplier_{1.0};
};


inline precise_unit error_precise() {
  return precise_unit(
      detail::unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1),
      std::numeric_limits<double>::quiet_NaN());
}
inline bool is_valid(const precise_unit &u) {
  return !std::isnan(u.multiplier());
}
inline bool is_error(const precise_unit &u) {
  return std::isnan(u.multiplier());
}

inline precise_unit root(const precise_unit &u, int p) {
  if (p == 0)
    return precise_unit{};
  if (u.multiplier() < 0.0 && p % 2 == 0)
    return error_precise();
  if (!u.base_units().has_valid_root(p))
    return error_precise();
  const double m = u.multiplier();
  return {u.base_units().root(p), u.commodity(),
          p == 2 ? std::sqrt(m) : std::pow(m, 1.0 / p)};
}
inline precise_unit sqrt(const precise_unit &u) { return root(u, 2); }
inline precise_unit pow(const precise_unit &u, int p) { return u.pow(p); }

namespace detail {
template <class F>
bool any_overflow(const unit_data &a, const unit_data &b, F f) {
  using D = unit_data;
  return !(D::fits(f(a.meter(), b.meter()), D::w_meter) &&
           D::fits(f(a.second(), b.second()), D::w_second) &&
           D::fits(f(a.kg(), b.kg()), D::w_kg) &&
           D::fits(f(a.ampere(), b.ampere()), D::w_ampere) &&
           D::fits(f(a.candela(), b.candela()), D::w_candela) &&
           D::fits(f(a.kelvin(), b.kelvin()), D::w_kelvin) &&
           D::fits(f(a.mole(), b.mole()), D::w_mole) &&
           D::fits(f(a.radian(), b.radian()), D::w_radian) &&
           D::fits(f(a.currency(), b.currency()), D::w_currency) &&
           D::fits(f(a.count(), b.count()), D::w_count));
}
} // namespace detail
inline bool times_overflows(const precise_unit &a, const precise_unit &b) {
  return detail::any_overflow(a.base_units(), b.base_units(),
                              [](int x, int y) { return x + y; });
}
inline bool divides_overflows(const precise_unit &a, const precise_unit &b) {
  return detail::any_overflow(a.base_units(), b.base_units(),
                              [](int x, int y) { return x - y; });
}
inline bool pow_overflows(const precise_unit &a, int p) {
  if (p < -255 || p > 255)
    return !a.base_units().empty();
  return detail::any_overflow(a.base_units(), a.base_units(),
                              [p](int x, int) { return x * p; });
}

inline double quick_convert(double val, const precise_unit &start,
                            const precise_unit &result) {
  return (start.base_units() == result.base_units() && !start.is_equation() &&
          !result.is_equation())
             ? val * start.multiplier() / result.multiplier()
             : std::numeric_limits<double>::quiet_NaN();
}
inline double quick_convert(const precise_unit &start,
                            const precise_unit &result) {
  return quick_convert(1.0, start, result);
}

class precise_measurement {
public:
  constexpr precise_measurement(double v, const precise_unit &u)
      : value_(v), unit_(u) {}
  constexpr double value() const { return value_; }
  constexpr precise_unit units() const { return unit_; }

private:
  double value_;
  precise_unit unit_;
};

namespace precise {
constexpr precise_unit one{};
constexpr precise_unit
    meter(detail::unit_data(1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0));
constexpr precise_unit m = meter;
constexpr precise_unit
    kg(detail::unit_data(0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0));
constexpr precise_unit
    second(detail::unit_data(0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0));
constexpr precise_unit s = second;
constexpr precise_unit
    ampere(detail::unit_data(0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0));
constexpr precise_unit A = ampere;
constexpr precise_unit
    Kelvin(detail::unit_data(0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0));
constexpr precise_unit K = Kelvin;
constexpr precise_unit
    mol(detail::unit_data(0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0));
constexpr precise_unit
    cd(detail::unit_data(0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0));
constexpr precise_unit
    currency(detail::unit_data(0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0));
constexpr precise_unit
    count(detail::unit_data(0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0));
constexpr precise_unit
    radian(detail::unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0));
constexpr precise_unit rad = radian;
constexpr precise_unit deg(radian, 3.14159265358979323846 / 180.0);
constexpr precise_unit milli(1e-3);
constexpr precise_unit micro(1e-6);
constexpr precise_unit nano(1e-9);
constexpr precise_unit kilo(1e3);
constexpr precise_unit ns(second, 1e-9);
constexpr precise_unit us(second, 1e-6);
constexpr precise_unit ms(second, 1e-3);
constexpr precise_unit mm(meter, 1e-3);
constexpr precise_unit min(second, 60.0);
constexpr precise_unit hr(second, 3600.0);
constexpr precise_unit day(second, 86400.0);
namespace time {
constexpr precise_unit year_g(second, 365.2425 * 86400.0);
constexpr precise_unit month_g(second, 365.2425 * 86400.0 / 12.0);
} // namespace time
namespace distance {
constexpr precise_unit angstrom(meter, 1e-10);
}
namespace energy {
constexpr precise_unit
    joule(detail::unit_data(2, 1, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0));
constexpr precise_unit eV(joule, 1.602176634e-19);
} // namespace energy
namespace custom {
// The stand-in has no custom, equation or commodity units.
inline bool is_custom_unit(const detail::unit_data &) { return false; }
inline bool is_custom_count_unit(const detail::unit_data &) { return false; }
inline int custom_count_unit_number(const detail::unit_data &) { return 0; }
} // namespace custom
} // namespace precise

constexpr precise_measurement operator*(double v, const precise_unit &u) {
  return {v, u};
}

constexpr std::uint64_t strict_si = 1;
precise_unit unit_from_string(std::string text, std::uint64_t flags = 0);
std::string to_string(const precise_unit &u, std::uint64_t flags = 0);
void addUserDefinedUnit(const std::string &name, const precise_unit &u);
void clearUserDefinedUnits();
} // namespace llnl::units

namespace std {
template <> struct hash<llnl::units::precise_unit> {
  size_t operator()(const llnl::units::precise_unit &u) const noexcept {
    return u.base_units().bits() ^
           (hash<std::uint32_t>()(u.commodity()) << 1) ^
           hash<double>()(
               llnl::units::detail::cround_precise(u.multiplier()));
  }
};
} // namespace std
