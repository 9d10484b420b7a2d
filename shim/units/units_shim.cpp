// See units.hpp: stand-in for LLNL-Units, harness build only.
#include "units.hpp"
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <vector>

namespace llnl::units {
namespace {
std::mutex user_mutex;
std::map<std::string, precise_unit> &user_units() {
  static std::map<std::string, precise_unit> u;
  return u;
}

constexpr detail::unit_data bd(int m, int kg, int s, int A = 0, int K = 0,
                               int mol = 0, int cd = 0, int cur = 0,
                               int count = 0, int rad = 0) {
  return {m, kg, s, A, K, mol, cd, cur, count, rad, 0, 0, 0, 0};
}

// name -> (unit, may carry an SI prefix)
struct Entry {
  precise_unit unit;
  bool prefixable;
};
const std::map<std::string, Entry> &table() {
  using P = precise_unit;
  static const std::map<std::string, Entry> t{
      {"one", {precise::one, false}},
      {"sr", {precise::one, false}},
      {"F", {P(bd(-2, -1, 4, 2)), true}},
      {"m", {precise::m, true}},
      {"meter", {precise::m, true}},
      {"metre", {precise::m, true}},
      {"g", {P(precise::kg, 1e-3), true}},
      {"s", {precise::s, true}},
      {"second", {precise::s, true}},
      {"A", {precise::A, true}},
      {"K", {precise::K, true}},
      {"mol", {precise::mol, true}},
      {"cd", {precise::cd, true}},
      {"$", {precise::currency, false}},
      {"rad", {precise::rad, true}},
      {"deg", {precise::deg, false}},
      {"°", {precise::deg, false}},
      {"count", {precise::count, false}},
      {"counts", {precise::count, false}},
      {"item", {precise::count, false}},
      {"angstrom", {precise::distance::angstrom, false}},
      {"Angstrom", {precise::distance::angstrom, false}},
      {"Å", {precise::distance::angstrom, false}},
      {"\xe2\x84\xab", {precise::distance::angstrom, false}},
      {"eV", {precise::energy::eV, true}},
      {"J", {P(bd(2, 1, -2)), true}},
      {"N", {P(bd(1, 1, -2)), true}},
      {"W", {P(bd(2, 1, -3)), true}},
      {"Pa", {P(bd(-1, 1, -2)), true}},
      {"Hz", {P(bd(0, 0, -1)), true}},
      {"C", {P(bd(0, 0, 1, 1)), true}},
      {"V", {P(bd(2, 1, -3, -1)), true}},
      {"T", {P(bd(0, 1, -2, -1)), true}},
      {"Ah", {P(bd(0, 0, 1, 1), 3600.0), true}},
      {"Sv", {P(bd(2, 0, -2), 1.0), true}},
      {"L", {P(bd(3, 0, 0), 1e-3), true}},
      {"bar", {P(bd(-1, 1, -2), 1e5), true}},
      {"min", {precise::min, false}},
      {"h", {precise::hr, false}},
      {"hr", {precise::hr, false}},
      {"hour", {precise::hr, false}},
      {"D", {precise::day, false}},
      {"day", {precise::day, false}},
      {"a_g", {precise::time::year_g, false}},
      {"mog", {precise::time::month_g, false}},
      {"percent", {P(0.01), false}},
      {"%", {P(0.01), false}},
      {"degC",
       {P(detail::unit_data(0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0)), false}},
      {"°C",
       {P(detail::unit_data(0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0)), false}},
  };
  return t;
}
const std::vector<std::pair<std::string, double>> &prefixes() {
  static const std::vector<std::pair<std::string, double>> p{
      {"da", 1e1}, {"µ", 1e-6}, {"μ", 1e-6}, {"d", 1e-1},  {"c", 1e-2},
      {"m", 1e-3}, {"u", 1e-6}, {"n", 1e-9}, {"p", 1e-12}, {"f", 1e-15},
      {"a", 1e-18}, {"h", 1e2}, {"k", 1e3},  {"M", 1e6},   {"G", 1e9},
      {"T", 1e12}, {"P", 1e15}, {"E", 1e18}};
  return p;
}

bool lookup(const std::string &name, precise_unit &out) {
  {
    std::lock_guard g(user_mutex);
    if (const auto it = user_units().find(name); it != user_units().end()) {
      out = it->second;
      return true;
    }
  }
  const auto &t = table();
  if (const auto it = t.find(name); it != t.end()) {
    out = it->second.unit;
    return true;
  }
  for (const auto &[p, f] : prefixes())
    if (name.size() > p.size() && name.compare(0, p.size(), p) == 0)
      if (const auto it = t.find(name.substr(p.size()));
          it != t.end() && it->second.prefixable) {
        out = precise_unit(it->second.unit, f);
        return true;
      }
  if (name == "kg") {
    out = precise::kg;
    return true;
  }
  return false;
}

struct Parser {
  const std::string &s;
  size_t i = 0;
  bool ok = true;
  void ws() {
    while (i < s.size() && s[i] == ' ')
      ++i;
  }
  int integer() {
    const bool paren = i < s.size() && s[i] == '(';
    if (paren)
      ++i;
    const char *b = s.c_str() + i;
    char *e;
    const long v = std::strtol(b, &e, 10);
    if (e == b)
      ok = false;
    i += static_cast<size_t>(e - b);
    if (paren) {
      if (i < s.size() && s[i] == ')')
        ++i;
      else
        ok = false;
    }
    return static_cast<int>(v);
  }
  precise_unit factor() {
    ws();
    precise_unit u;
    if (i >= s.size()) {
      ok = false;
      return u;
    }
    if (s[i] == '(') {
      ++i;
      u = expr();
      ws();
      if (i < s.size() && s[i] == ')')
        ++i;
      else
        ok = false;
    } else if (std::isdigit(static_cast<unsigned char>(s[i])) || s[i] == '.' ||
               s[i] == '-') {
      const char *b = s.c_str() + i;
      char *e;
      const double v = std::strtod(b, &e);
      if (e == b)
        ok = false;
      i += static_cast<size_t>(e - b);
      u = precise_unit(v);
      // number directly followed by a unit: implicit product
      if (i < s.size() && s[i] != '*' && s[i] != '/' && s[i] != '^' &&
          s[i] != ')' && s[i] != ' ')
        u = u * factor();
      return u;
    } else {
      const size_t b = i;
      while (i < s.size() && s[i] != '*' && s[i] != '/' && s[i] != '^' &&
             s[i] != '(' && s[i] != ')' && s[i] != ' ' &&
             !(std::isdigit(static_cast<unsigned char>(s[i])) || s[i] == '-'))
        ++i;
      if (!lookup(s.substr(b, i - b), u))
        ok = false;
      if (ok && i < s.size() &&
          (std::isdigit(static_cast<unsigned char>(s[i])) || s[i] == '-'))
        u = u.pow(integer());
    }
    ws();
    if (ok && i < s.size() && s[i] == '^') {
      ++i;
      u = u.pow(integer());
    } else if (ok && i + 1 < s.size() && s[i] == '*' && s[i + 1] == '*') {
      i += 2;
      u = u.pow(integer());
    }
    return u;
  }
  precise_unit expr() {
    auto u = factor();
    for (ws(); ok && i < s.size(); ws()) {
      if (s[i] == '*') {
        ++i;
        u = u * factor();
      } else if (s[i] == '/') {
        ++i;
        u = u / factor();
      } else if (i > 0 && s[i - 1] == ' ' && s[i] != ')' && s[i] != '^')
        u = u * factor(); // a space is a product
      else
        break;
    }
    return u;
  }
};

std::string num(double v) {
  char buf[40];
  for (int p = 1; p <= 17; ++p) {
    std::snprintf(buf, sizeof buf, "%.*g", p, v);
    if (std::strtod(buf, nullptr) == v)
      break;
  }
  return buf;
}
} // namespace

precise_unit unit_from_string(std::string text, std::uint64_t) {
  size_t b = 0, e = text.size();
  while (b < e && text[b] == ' ')
    ++b;
  while (e > b && text[e - 1] == ' ')
    --e;
  text = text.substr(b, e - b);
  if (text.empty())
    return precise_unit{};
  precise_unit u;
  if (lookup(text, u))
    return u;
  Parser p{text};
  u = p.expr();
  if (!p.ok || p.i != text.size())
    return error_precise();
  return u;
}

std::string to_string(const precise_unit &u, std::uint64_t) {
  {
    std::lock_guard g(user_mutex);
    for (const auto &[n, x] : user_units())
      if (x == u)
        return n;
  }
  if (is_error(u))
    return "ERROR";
  static const std::vector<std::string> preferred{
      "kg", "m",  "s",  "A",        "K",   "mol", "cd",  "$",  "rad",
      "deg", "item", "J", "N",  "W",  "Pa",  "Hz",  "C",   "V", "T",
      "mm", "cm", "um", "nm", "km", "angstrom", "ms", "us", "ns", "ps",
      "min", "h", "day", "a_g", "eV", "meV", "keV", "MeV", "mog", "g", "mg", "degC", "%",
      "Ah", "mAh", "pAh"};
  for (const auto &n : preferred) {
    precise_unit x;
    if (lookup(n, x) && x == u)
      return n == "degC" ? "°C" : n;
  }
  const auto b = u.base_units();
  double mult = u.multiplier();
  std::string top, bottom;
  int nbottom = 0;
  auto add = [&](const char *n, int p) {
    if (p == 0)
      return;
    std::string item = n;
    const int a = p < 0 ? -p : p;
    if (a != 1)
      item += "^" + std::to_string(a);
    auto &t = p > 0 ? top : bottom;
    if (p < 0)
      ++nbottom;
    if (!t.empty())
      t += "*";
    t += item;
  };
  // Prefer a count-carrying or eV denominator only through base units; the
  // stand-in prints base units otherwise.
  static const std::vector<std::string> denominators{"meV", "us", "ns", "ms",
                                                     "eV", "angstrom", "mm",
                                                     "h", "min"};
  if (mult != 1.0)
    for (const auto &n : denominators) {
      precise_unit d;
      lookup(n, d);
      const auto t = u * d;
      if (!times_overflows(u, d) && detail::compare_round_equals_precise(t.multiplier(), 1.0) &&
          (t == precise::count || t == precise::one || t == precise::m))
        return (t == precise::one ? std::string("1") : to_string(t)) + "/" + n;
    }
  add("m", b.meter());
  add("kg", b.kg());
  add("s", b.second());
  add("A", b.ampere());
  add("K", b.kelvin());
  add("mol", b.mole());
  add("cd", b.candela());
  add("$", b.currency());
  add("item", b.count());
  add("rad", b.radian());
  std::string out;
  if (mult != 1.0)
    out = num(mult);
  if (!top.empty())
    out += (out.empty() ? "" : "*") + top;
  if (!bottom.empty()) {
    if (out.empty())
      out = "1";
    out += nbottom > 1 ? "/(" + bottom + ")" : "/" + bottom;
  }
  return out;
}

void addUserDefinedUnit(const std::string &name, const precise_unit &u) {
  std::lock_guard g(user_mutex);
  user_units().insert_or_assign(name, u);
}
void clearUserDefinedUnits() {
  std::lock_guard g(user_mutex);
  user_units().clear();
}
} // namespace llnl::units
