// C02: comparison rules.
#include <cstdint>
#include <iomanip>
#include <string>
#include <openscenario_interpreter/expression.hpp>
#include <openscenario_interpreter/object.hpp>
#include <openscenario_interpreter/error.hpp>
#include <openscenario_interpreter/syntax/rule.hpp>
#include <openscenario_interpreter/syntax/double.hpp>
#include <openscenario_interpreter/syntax/integer.hpp>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <cmath>
#include "vh.hpp"
using namespace openscenario_interpreter;
using R = Rule;
static const R::value_type rules[] = {R::equalTo, R::greaterThan, R::lessThan, R::greaterOrEqual, R::lessOrEqual, R::notEqualTo};
static const char * names[] = {"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};

// 1 yes, 0 no, -1 within rounding: either
static int truth(int r, double a, double b)
{
  const double eps = std::numeric_limits<double>::epsilon();
  switch (r) {
    case 1: return a > b;
    case 2: return a < b;
    case 3: return a > b ? 1 : a == b ? 1 : -2;   // -2: decided below
    case 4: return a < b ? 1 : a == b ? 1 : -2;
    default: {
      int eq = a == b ? 1 : std::isinf(a) || std::isinf(b) ? 0 : std::fabs(a - b) < eps ? 1 : std::fabs(a - b) > eps ? 0 : -1;
      return r == 0 ? eq : eq < 0 ? -1 : !eq;
    }
  }
}
static void pair(double a, double b)
{
  vh::current(vh::cat("compare ", a, " and ", b));
  bool v[6];
  const double eps = std::numeric_limits<double>::epsilon();
  for (int r = 0; r < 6; ++r) {
    v[r] = Rule(rules[r])(a, b);
    int t = truth(r, a, b);
    // an or-equal rule may treat operands within one rounding unit as equal or not
    if (t == -2) t = std::fabs(a - b) <= eps ? -1 : 0;
    if (t >= 0 && v[r] != bool(t)) vh::fail(vh::cat("scalar:", names[r], std::isinf(a) || std::isinf(b) ? ":infinite" : ""), vh::cat(a, " ", names[r], " ", b, " = ", v[r]));
  }
  const bool inf = std::isinf(a) || std::isinf(b);
  if (v[5] == v[0]) vh::fail(inf ? "negation:infinite" : "negation", vh::cat("equalTo and notEqualTo both ", v[0], " for ", a, ", ", b, " (difference ", a - b, ")"));
  if (v[1] && v[2]) vh::fail("exclusive", vh::cat(a, " ", b));
  bool w[6];
  for (int r = 0; r < 6; ++r) w[r] = Rule(rules[r])(b, a);
  if (v[0] != w[0] || v[5] != w[5] || v[1] != w[2] || v[2] != w[1] || v[3] != w[4] || v[4] != w[3]) vh::fail("mirror", vh::cat(a, " ", b));
  if (v[3] != (v[1] || a == b) && std::fabs(a - b) > eps) vh::fail("union:greaterOrEqual", vh::cat(a, " ", b));
  if (v[4] != (v[2] || a == b) && std::fabs(a - b) > eps) vh::fail("union:lessOrEqual", vh::cat(a, " ", b));
  vh::observed(vh::cat(a, "|", b));
  vh::count(a == b ? "pairs.equal" : std::fabs(a - b) < eps ? "pairs.within-rounding" : std::fabs(a - b) < 4 * eps ? "pairs.just-outside-rounding" : "pairs.distinct");
}

int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng g(vh::st().seed + 2);
  const double e = std::numeric_limits<double>::epsilon();
  std::vector<double> pool{0.0, -0.0, 1, -1, 0.1, 0.2, 0.3, 0.1 + 0.2, 1 + e, 1 - e / 2, 1 - e, 1 + 2 * e, 2, 1e308, -1e308, INFINITY, -INFINITY, 5e-324, e, e / 2, -e / 2, 2 * e, 1e-300, 3.6, 1 / 3.0, 1e17, 1e17 + 16};
  for (double a : pool) for (double b : pool) pair(a, b);
  std::uint64_t n = vh::n(200000, 6000000);
  for (std::uint64_t k = 0; k < n; ++k) {
    double a, b;
    std::uint64_t x = g.u();
    switch (g.i(0, 4)) {
      case 0: std::memcpy(&a, &x, 8); x = g.u(); std::memcpy(&b, &x, 8); break;
      case 1: a = g.r(-4, 4); b = a + double(g.i(-6, 6)) * e / 2; break;
      case 2: a = g.r(-100, 100); b = std::nextafter(a, g.chance(.5) ? 1e9 : -1e9); break;
      case 3: a = g.i(-5, 5) / 10.0; b = g.i(-5, 5) / 10.0 + g.i(-1, 1) * 0.1; break;
      default: a = g.pick(pool); b = g.chance(.5) ? g.r(-3, 3) : a; break;
    }
    if (std::isnan(a) || std::isnan(b)) continue;
    if (k < 5) vh::sample(vh::cat(a, " vs ", b));
    pair(a, b);
  }
  // lists, element by element
  for (std::uint64_t k = 0; k < n / 10; ++k) {
    std::size_t m = std::size_t(g.i(1, 6));
    std::valarray<double> a(m), b(m);
    for (std::size_t i = 0; i < m; ++i) { a[i] = g.chance(.2) ? g.pick(pool) : g.r(-2, 2); b[i] = g.chance(.3) ? a[i] : g.chance(.3) ? a[i] + double(g.i(-3, 3)) * e / 2 : g.pick(pool); }
    double s = g.chance(.5) ? a[0] : g.r(-2, 2);
    vh::current(vh::cat("list of ", m, " starting ", a[0], " vs ", b[0], " and ", s));
    for (int r = 0; r < 6; ++r) {
      std::valarray<bool> l = Rule(rules[r])(a, b), c = Rule(rules[r])(a, s);
      if (l.size() != m || c.size() != m) { vh::fail("list:size", names[r]); continue; }
      for (std::size_t i = 0; i < m; ++i) {
        if (l[i] != Rule(rules[r])(a[i], b[i])) vh::fail(vh::cat("list:", names[r]), vh::cat("element ", a[i], " ", names[r], " ", b[i], " gives ", bool(l[i]), " in a list"));
        if (c[i] != Rule(rules[r])(a[i], s)) vh::fail(vh::cat("list-scalar:", names[r]), vh::cat(a[i], " ", names[r], " ", s, " gives ", bool(c[i]), " in a list"));
      }
    }
    vh::observed(vh::cat("list", a[0], ",", b[0], ",", m, s));
    vh::count("lists");
  }
  // other comparable types compare exactly
  for (std::uint64_t k = 0; k < n / 20; ++k) {
    std::int64_t a = g.i(-3, 3), b = g.i(-3, 3);
    if (g.chance(.2)) { a = std::int64_t(g.u()); b = a + g.i(-1, 1); }
    bool w[] = {a == b, a > b, a < b, a >= b, a <= b, a != b};
    for (int r = 0; r < 6; ++r) if (Rule(rules[r])(a, b) != w[r]) vh::fail("integers", vh::cat(a, names[r], b));
    std::string s = std::to_string(a), t = std::to_string(b);
    bool ws[] = {s == t, s > t, s < t, s >= t, s <= t, s != t};
    for (int r = 0; r < 6; ++r) if (Rule(rules[r])(s, t) != ws[r]) vh::fail("strings", s + names[r] + t);
    vh::count("other-types");
  }
  for (int r = 0; r < 6; ++r) {
    std::istringstream i(names[r]); Rule q; i >> q;
    std::ostringstream o; o << q;
    if (q.value != rules[r] || o.str() != names[r] || R::value_type(Rule(rules[r])) != rules[r]) vh::fail("names", names[r]);
  }
  vh::finish();
}
