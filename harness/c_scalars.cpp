// C01: scalar literals.  Oracle: independent recognisers of the literal languages and
// exact conversions by strtod / 128-bit accumulation.
#include <cstdint>
#include <iomanip>
#include <string>
#include <openscenario_interpreter/expression.hpp>
#include <openscenario_interpreter/object.hpp>
#include <boost/lexical_cast.hpp>
#include <openscenario_interpreter/error.hpp>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <openscenario_interpreter/syntax/double.hpp>
#include <openscenario_interpreter/syntax/integer.hpp>
#include <openscenario_interpreter/syntax/unsigned_integer.hpp>
#include <openscenario_interpreter/syntax/unsigned_short.hpp>
#include <cmath>
#include <optional>
#include <regex>
#include "vh.hpp"
using namespace openscenario_interpreter;

static bool accepted_by_grammar_int(const std::string & s, bool sign, __int128 lo, __int128 hi, __int128 & v)
{
  std::size_t i = 0;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || (s[i] == '-' && sign))) neg = s[i++] == '-';
  if (i == s.size()) return false;
  v = 0;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') return false;
    if (v < ((__int128)1 << 100)) v = v * 10 + (s[i] - '0');
  }
  if (neg) v = -v;
  return lo <= v && v <= hi;
}

template <typename T> struct Outcome { bool threw = false, syntax = false; std::string what; std::optional<T> v; };

template <typename T, typename F> Outcome<T> attempt(F f)
{
  Outcome<T> o;
  try { o.v = f(); }
  catch (const common::SyntaxError & e) { o.threw = o.syntax = true; o.what = e.what(); }
  catch (const std::exception & e) { o.threw = true; o.what = e.what(); }
  return o;
}
static std::string quoted(const std::string & s) { std::ostringstream o; o << std::quoted(s); return o.str(); }

// Both ways the interpreter reads a literal: the string constructor (declarations, expressions)
// and lexical_cast through operator>> (attributes).
template <typename T, typename Eq>
void check(const std::string & type, const std::string & s, int expect /*1 yes 0 no -1 free*/, Eq eq)
{
  vh::current(type + " literal " + s);
  auto a = attempt<T>([&] { return T(s); });
  auto b = attempt<T>([&] { return boost::lexical_cast<T>(s); });
  vh::observed(type + "|" + s);
  vh::count(type + (expect == 1 ? ".valid" : expect == 0 ? ".invalid" : ".grey"));
  if (expect == 1) {
    bool inf = s.find("INF") != std::string::npos;
    if (a.threw) vh::fail(type + ":constructor-refuses-valid", vh::cat("'", s, "': ", a.what));
    else if (!eq(*a.v)) vh::fail(type + ":constructor-wrong-value", vh::cat("'", s, "' read as ", *a.v));
    if (b.threw) vh::fail(type + ":attribute-refuses-valid", vh::cat("'", s, "': ", b.what));
    else if (!eq(*b.v)) vh::fail(type + ":attribute-wrong-value", vh::cat("'", s, "' read as ", *b.v));
    (void)inf;
  } else if (expect == 0) {
    if (!a.threw) vh::fail(type + ":constructor-accepts-invalid", vh::cat("'", s, "' read as ", *a.v));
    else {
      if (!a.syntax) vh::fail(type + ":constructor-not-syntax-error", vh::cat("'", s, "': ", a.what));
      if (a.what.find(quoted(s)) == std::string::npos) vh::fail(type + ":error-does-not-name-text", vh::cat("'", s, "': ", a.what));
      if (a.what.find(type) == std::string::npos) vh::fail(type + ":error-does-not-name-type", vh::cat("'", s, "': ", a.what));
    }
    if (!b.threw) vh::fail(type + ":attribute-accepts-invalid", vh::cat("'", s, "' read as ", *b.v));
  } else if (!a.threw && !b.threw && !(std::memcmp(&*a.v, &*b.v, sizeof(T)) == 0)) {
    vh::fail(type + ":two-readers-disagree", vh::cat("'", s, "' read as ", *a.v, " and ", *b.v));
  }
}

static const std::regex re_double{R"([+-]?([0-9]+(\.[0-9]+)?|\.[0-9]+)([eE][+-]?[0-9]+)?)"};
static const std::regex re_double_grey{R"(\s*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\s*|[+-]?(inf|nan|infinity|INFINITY|NAN|NaN|nan\(.*\)|NAN\(.*\)|Inf|Infinity))", std::regex::icase};

static void dbl(const std::string & s)
{
  if (s == "INF" || s == "+INF" || s == "-INF") {
    double w = s[0] == '-' ? -INFINITY : INFINITY;
    check<Double>("Double", s, 1, [&](const Double & d) { return d.data == w; });
    return;
  }
  if (std::regex_match(s, re_double)) {
    double w = std::strtod(s.c_str(), nullptr);
    bool zero_lit = true;
    for (char c : s) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') zero_lit = false; }
    if (std::isinf(w)) { check<Double>("Double", s, 0, [](const Double &) { return true; }); return; }
    if (!zero_lit && std::fabs(w) < 2.3e-308) { check<Double>("Double", s, -1, [](const Double &) { return true; }); return; }
    check<Double>("Double", s, 1, [&](const Double & d) { return d.data == w; });
    return;
  }
  check<Double>("Double", s, std::regex_match(s, re_double_grey) ? -1 : 0, [](const Double &) { return true; });
}
static void integers(const std::string & s)
{
  __int128 v = 0;
  bool ok = accepted_by_grammar_int(s, true, INT64_MIN, INT64_MAX, v);
  check<Integer>("Integer", s, ok, [&](const Integer & x) { return (__int128)x.data == v; });
  ok = accepted_by_grammar_int(s, false, 0, UINT64_MAX, v);
  int e = ok ? 1 : 0;
  // "-0" spells the value 0: both answers are defensible
  if (std::regex_match(s, std::regex("-0+"))) e = -1;
  using U = UnsignedInteger::value_type;
  if (e == 1 && v > (__int128)std::numeric_limits<U>::max()) e = 0;
  check<UnsignedInteger>("UnsignedInteger", s, e, [&](const UnsignedInteger & x) { return (__int128)x.data == v; });
  ok = accepted_by_grammar_int(s, false, 0, UINT16_MAX, v);
  e = ok ? 1 : 0;
  if (std::regex_match(s, std::regex("-0+"))) e = -1;
  check<UnsignedShort>("UnsignedShort", s, e, [&](const UnsignedShort & x) { return (__int128)x.data == v; });
}
static void boolean(const std::string & s)
{
  int e = s == "true" || s == "false";
  if (s == "1" || s == "0" || std::regex_match(s, std::regex(R"(\s*(true|false)\s*)"))) e = e ? 1 : -1;
  check<Boolean>("Boolean", s, e, [&](const Boolean & b) { return b.data == (s == "true"); });
}
static void all(const std::string & s) { dbl(s); integers(s); boolean(s); }

template <typename T> std::string text(const T & x) { std::ostringstream o; o << x; return o.str(); }

int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng g(vh::st().seed);
  for (const char * s : {"0", "-0", "+0", "1", "-1", "+1", "00", "007", "INF", "+INF", "-INF", "--INF", "INF ", "INFx", "+-INF", "iNF",
         "1e5", "1E5", "1e+5", "1e-5", "1e", "e5", "1e5.5", "1.5", ".5", "-.5", "+.5", ".", "-", "+", "", " ", "1 ", " 1", "1 2", "1,5",
         "1_000", "0x10", "0x1p3", "0b1", "1f", "1.0f", "1.5.5", "1e400", "-1e400", "1e308", "1.7976931348623157e308", "1.7976931348623159e308",
         "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
         "18446744073709551616", "-18446744073709551615", "4294967295", "4294967296", "-4294967295", "65535", "65536", "-65535", "65537", "99999999999999999999999999",
         "true", "false", "True", "TRUE", "truex", "true false", "falsey", "tru", "fals", "true1", "yes", "on", "t", "1true", "true.",
         "2", "--1", "++1", "+-1", "1-", "1+", "0.1", "0.2", "0.3", "3.0", "-3.0", "1e2", "12a", "a12", "\"1\"", "1;", "1\t", "\n1", "$x", "NaNa", "infinityx"})
    all(s);
  const std::string alphabet = "0123456789+-.eE INFinfaxtrueflsb,_";
  const std::uint64_t n = vh::n(12000, 250000);
  for (std::uint64_t k = 0; k < n; ++k) {
    std::string s;
    switch (g.i(0, 8)) {
      case 0: { auto len = g.i(0, 8); for (int i = 0; i < len; ++i) s += g.pick(alphabet); break; }
      case 1: {  // numbers near the limits
        static const std::vector<__int128> lim{0, 65535, 65536, INT32_MAX, UINT32_MAX, INT64_MAX, INT64_MIN, (__int128)UINT64_MAX, -(__int128)UINT64_MAX, -65536};
        __int128 v = g.pick(lim) + g.i(-3, 3);
        bool neg = v < 0;
        if (neg) v = -v;
        do { s += char('0' + int(v % 10)); v /= 10; } while (v);
        if (neg) s += '-';
        std::reverse(s.begin(), s.end());
        break;
      }
      case 2: { std::uint64_t bits = g.u(); double d; std::memcpy(&d, &bits, 8); s = vh::cat(std::setprecision(int(g.i(1, 18))), d); break; }
      case 3: s = vh::cat(g.r(-1e6, 1e6)); break;
      case 4: s = std::to_string(std::int64_t(g.u() >> g.i(0, 63)) * (g.chance(.5) ? 1 : -1)); break;
      case 5: s = std::to_string(g.u() >> g.i(0, 63)); break;
      case 6: {  // mutate a valid literal
        static const std::vector<std::string> base{"true", "false", "INF", "-INF", "12", "-7", "65535", "3.25", "1e10", "0.125"};
        s = g.pick(base);
        auto p = g.i(0, s.size());
        if (g.chance(.4)) s.insert(p, 1, g.pick(alphabet)); else if (g.chance(.5) && !s.empty()) s.erase(std::min<std::size_t>(p, s.size() - 1), 1); else s += g.pick(alphabet);
        break;
      }
      case 7: s = std::string(g.i(0, 3), '0') + std::to_string(g.i(0, 70000)); break;
      default: s = vh::cat(g.chance(.5) ? "-" : "", g.i(0, 99999), ".", g.i(0, 99999), g.chance(.3) ? vh::cat("e", g.i(-330, 330)) : ""); break;
    }
    if (k < 6) vh::sample(s);
    all(s);
  }
  // values -> text -> values, and arithmetic
  for (std::uint64_t k = 0; k < n / 2; ++k) {
    std::uint64_t bits = g.u();
    double d;
    if (g.chance(.3)) std::memcpy(&d, &bits, 8); else d = g.r(-1, 1) * std::pow(10, g.i(-12, 18));
    if (std::isnan(d)) continue;
    vh::current(vh::cat("round trip of ", d));
    auto back = attempt<Double>([&] { return Double(text(Double(d))); });
    vh::observed(vh::cat("rt", d));
    if (back.threw) vh::fail("Double:written-value-unreadable", vh::cat(d, ": ", back.what));
    else if (!(back.v->data == d || std::fabs(back.v->data - d) < 1e-30)) vh::fail("Double:round-trip", vh::cat(d, " came back as ", back.v->data, " through ", text(Double(d))));
    std::int64_t i = std::int64_t(bits) >> g.i(0, 63);
    if (auto o = attempt<Integer>([&] { return Integer(text(Integer(i))); }); o.threw || o.v->data != i) vh::fail("Integer:round-trip", vh::cat(i, " via ", text(Integer(i))));
    using U = UnsignedInteger::value_type;
    U u = U(bits >> g.i(0, 63));
    if (auto o = attempt<UnsignedInteger>([&] { return UnsignedInteger(text(UnsignedInteger(u))); }); o.threw || o.v->data != u) vh::fail("UnsignedInteger:round-trip", vh::cat(u));
    std::uint16_t h = std::uint16_t(bits);
    if (auto o = attempt<UnsignedShort>([&] { return UnsignedShort(text(UnsignedShort(h))); }); o.threw || o.v->data != h) vh::fail("UnsignedShort:round-trip", vh::cat(h));
    bool b = bits & 1;
    if (auto o = attempt<Boolean>([&] { return Boolean(text(Boolean(b))); }); o.threw || o.v->data != b) vh::fail("Boolean:round-trip", vh::cat(b));
    if (text(Boolean(b)) != (b ? "true" : "false")) vh::fail("Boolean:text", text(Boolean(b)));
    // arithmetic
    double x = g.r(-1e9, 1e9), y = g.r(-1e4, 1e4);
    Double a(x), c(x);
    a += y; c *= y;
    if (a.data != x + y) vh::fail("Double:add", vh::cat(x, "+", y, " = ", a.data));
    if (c.data != x * y) vh::fail("Double:multiply", vh::cat(x, "*", y, " = ", c.data));
    std::int64_t p = g.i(-1000000, 1000000), q = g.i(-1000000, 1000000);
    {  // sums and products as long as single and double precision allow exact ones
      std::int64_t bp = g.i(-(1ll << 51), 1ll << 51) >> g.i(0, 40), bq = g.i(-(1ll << 51), 1ll << 51) >> g.i(0, 40);
      Integer big(bp);
      big += double(bq);
      if (big.data != bp + bq) vh::fail("Integer:add", vh::cat(bp, "+", bq, " = ", big.data));
    }
    Integer ia(p), ic(p);
    ia += double(q); ic *= double(q);
    if (ia.data != p + q) vh::fail("Integer:add", vh::cat(p, "+", q, " = ", ia.data));
    if (ic.data != p * q) vh::fail("Integer:multiply", vh::cat(p, "*", q, " = ", ic.data));
    U up = U(g.i(0, 40000)), uq = U(g.i(0, 40000));
    UnsignedInteger ua(up), uc(up), ui(up);
    ua += uq; uc *= uq; ++ui;
    if (ua.data != up + uq) vh::fail("UnsignedInteger:add", vh::cat(up, "+", uq));
    if (uc.data != up * uq) vh::fail("UnsignedInteger:multiply", vh::cat(up, "*", uq));
    if (ui.data != up + 1) vh::fail("UnsignedInteger:increment", vh::cat(up));
    std::uint16_t sp = std::uint16_t(g.i(0, 255)), sq = std::uint16_t(g.i(0, 255));
    UnsignedShort sa(sp), sc(sp), si(sp);
    sa += sq; sc *= sq; ++si;
    if (sa.data != sp + sq) vh::fail("UnsignedShort:add", vh::cat(sp, "+", sq));
    if (sc.data != sp * sq) vh::fail("UnsignedShort:multiply", vh::cat(sp, "*", sq));
    if (si.data != sp + 1) vh::fail("UnsignedShort:increment", vh::cat(sp));
    // conversions
    if (double(Double(x)) != x || std::int64_t(Integer(p)) != p || bool(Boolean(b)) != b || asBoolean(b).as<Boolean>().data != b) vh::fail("conversion", vh::cat(x, " ", p));
    Double asg(0.0); asg = x;
    if (asg.data != x) vh::fail("Double:assign", vh::cat(x));
    Boolean asb(false); asb = b;
    if (asb.data != b) vh::fail("Boolean:assign", vh::cat(b));
  }
  if (!(Double::infinity().data > Double::max().data) || !(Double::max().data == std::numeric_limits<double>::max()) || Double::lowest().data != std::numeric_limits<double>::lowest() || Double::nan().data == Double::nan().data)
    vh::fail("Double:limits", "infinity/max/lowest/nan");
  if (Integer::max().data != INT64_MAX || Integer::min().data != INT64_MIN) vh::fail("Integer:limits", "max/min");
  vh::finish();
  return 0;
}
