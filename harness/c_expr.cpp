// C04: attribute expressions, parameter references and substitutions.
#include "interp.hpp"
#include "vh.hpp"
#include <cmath>
#include <filesystem>
#include <limits>
#include <memory>
#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/reader/evaluate.hpp>
#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <openscenario_interpreter/syntax/double.hpp>
#include <openscenario_interpreter/syntax/integer.hpp>
#include <openscenario_interpreter/syntax/string.hpp>
#include <openscenario_interpreter/syntax/unsigned_integer.hpp>
#include <openscenario_interpreter/syntax/unsigned_short.hpp>
#include <pugixml.hpp>
using namespace openscenario_interpreter;
namespace
{
// ---- an evaluator of its own -------------------------------------------------------------
enum Type { INT, UINT, DOUBLE, BOOL };
struct Val { Type t = INT; long long i = 0; double d = 0; bool b = false; bool either = false; };   // either: an error is as good
struct Bad { std::string why; };
bool integral(const Val & v) { return v.t == INT or v.t == UINT; }
double real(const Val & v) { if (v.t == BOOL) throw Bad{"boolean as a number"}; return v.t == DOUBLE ? v.d : double(v.i); }
Val number(double d) { Val v; v.t = DOUBLE, v.d = d; return v; }
Val boolean(bool b) { Val v; v.t = BOOL, v.b = b; return v; }
Val whole(__int128 i, Type t)
{
  Val v;
  v.t = t;
  if (t == INT ? (i < -2147483648ll or i > 2147483647ll) : (i < 0 or i > 4294967295ll)) {
    // a result that fits the other type would be right as well
    if (t == UINT and i >= -2147483648ll and i < 0) { v.t = INT, v.i = (long long)i, v.either = true; return v; }
    throw Bad{"integer overflow"};
  }
  v.i = (long long)i;
  return v;
}
Val finite(double r, std::initializer_list<double> from)
{
  bool all = true;
  for (auto x : from) all = all and std::isfinite(x);
  if (std::isnan(r) or (all and not std::isfinite(r))) throw Bad{"no finite value"};
  return number(r);
}
Val binary(char o, const Val & l, const Val & r)
{
  Val v;
  if (o == '|' or o == '&') {
    if (l.t != BOOL or r.t != BOOL) throw Bad{"number as a boolean"};
    v = boolean(o == '|' ? l.b or r.b : l.b and r.b);
  } else if (o == '/') v = finite(real(l) / real(r), {real(l), real(r)});
  else if (o == '%') v = finite(std::fmod(real(l), real(r)), {real(l), real(r)});
  else if (o == '^') v = finite(std::pow(real(l), real(r)), {real(l), real(r)});
  else {
    const double a = real(l), b = real(r);
    if (integral(l) and integral(r)) {
      const __int128 x = l.i, y = r.i;
      v = whole(o == '+' ? x + y : o == '-' ? x - y : x * y, l.t == UINT or r.t == UINT ? UINT : INT);
    } else v = finite(o == '+' ? a + b : o == '-' ? a - b : a * b, {a, b});
  }
  v.either = v.either or l.either or r.either;
  return v;
}
Val unary(char o, const Val & x)
{
  Val v;
  switch (o) {
    case '!': if (x.t != BOOL) throw Bad{"number as a boolean"}; v = boolean(not x.b); break;
    case '-': real(x); v = x.t == DOUBLE ? number(-x.d) : whole(-__int128(x.i), x.t); break;
    case 's': v = finite(std::sqrt(real(x)), {real(x)}); break;
    default: {
      const double d = o == 'r' ? std::round(real(x)) : o == 'f' ? std::floor(real(x)) : std::ceil(real(x));
      if (not (d >= -2147483648. and d <= 2147483647.)) throw Bad{"does not fit an integer"};
      v = whole((long long)d, INT);
    }
  }
  v.either = v.either or x.either;
  return v;
}
struct Node { char o; Val v; std::string text; std::vector<std::unique_ptr<Node>> in; };
using P = std::unique_ptr<Node>;
double nudge = 0;   // written real numbers are read to within rounding: moves them all a little
Val value(const Node & n)
{
  if (n.in.empty()) {
    if (n.o == '?') throw Bad{"no such parameter"};
    if (n.v.t == DOUBLE and n.text[0] != '$') return number(n.v.d * (1 + nudge));
    return n.v;
  }
  // every part is evaluated, so any bad part makes the whole bad
  if (n.in.size() == 1) return unary(n.o, value(*n.in[0]));
  auto l = value(*n.in[0]);
  return binary(n.o, l, value(*n.in[1]));
}
int level(const Node & n)
{
  if (n.in.empty() or n.o == '^' or n.o == 's' or n.o == 'r' or n.o == 'f' or n.o == 'c') return 5;
  switch (n.o) { case '|': return 0; case '&': return 1; case '+': case '-': return n.in.size() == 1 ? 4 : 2; case '!': return 4; default: return 3; }
}
vh::Rng * g;
std::string space() { return g->chance(.25) ? (g->chance(.9) ? " " : "\t ") : ""; }
std::string print(const Node & n, int at_least, bool redundant)
{
  auto inner = [&](int i, int l) { return print(*n.in[size_t(i)], l, redundant); };
  std::string s;
  const int l = level(n);
  if (n.in.empty()) s = n.text;
  else switch (n.o) {
    case '|': s = inner(0, 0) + " or " + inner(1, 1); break;
    case '&': s = inner(0, 1) + " and " + inner(1, 2); break;
    case '!': s = "not " + inner(0, 5); break;
    case '^': s = "pow" + space() + "(" + inner(0, 0) + space() + "," + space() + inner(1, 0) + ")"; break;
    case 's': s = "sqrt(" + inner(0, 0) + space() + ")"; break;
    case 'r': s = "round" + space() + "(" + inner(0, 0) + ")"; break;
    case 'f': s = "floor(" + space() + inner(0, 0) + ")"; break;
    case 'c': s = "ceil(" + inner(0, 0) + ")"; break;
    case '-': if (n.in.size() == 1) { s = "-" + space() + inner(0, 5); break; } [[fallthrough]];
    default: s = inner(0, l) + space() + n.o + space() + inner(1, l + 1);
  }
  if (l < at_least or (redundant and g->chance(.3))) s = "(" + space() + s + space() + ")";
  return s;
}
// ---- parameters of the scopes ------------------------------------------------------------
struct Parameter { std::string name; Val v; Object o; bool numeric = true; bool wide() const { return numeric and ((v.t == INT and v.i != int(v.i)) or (v.t == UINT and v.i != (long long)unsigned(v.i))); } };   // wide: no number of the expressions
struct World
{
  std::vector<std::unique_ptr<Scope>> scopes;
  std::vector<Parameter> visible;   // as seen from the innermost scope
};
Parameter parameter(const std::string & name)
{
  Parameter p;
  p.name = name;
  switch (g->i(0, 5)) {
    case 0: { std::int64_t i = g->pick(std::vector<std::int64_t>{0, 1, -1, 7, 100, 2147483647, -2147483648ll, 2147483648ll, -2147483649ll, 4294967297ll, INT64_MAX, g->i(-1000, 1000), g->i(-1000, 1000)}); p.v.t = INT, p.v.i = i, p.o = make<Integer>(i); break; }
    case 1: { auto u = std::uint64_t(g->pick(std::vector<std::int64_t>{0, 1, 5, 4294967295ll, 4294967296ll, 4294967299ll, INT64_MAX, g->i(0, 1000), g->i(0, 1000)})); p.v.t = UINT, p.v.i = u, p.o = make<UnsignedInt>(u); break; }
    case 2: { auto u = std::uint16_t(g->pick(std::vector<std::int64_t>{0, 1, 65535, g->i(0, 1000)})); p.v.t = INT, p.v.i = u, p.o = make<UnsignedShort>(u); break; }
    case 3: { double d = g->pick(std::vector<double>{0, .1, -2.5, 1e9, 1e300, 1e-9, g->r(-100, 100)}); p.v = number(d), p.o = make<Double>(d); break; }
    case 4: { bool b = g->chance(.5); p.v = boolean(b), p.o = make<Boolean>(b); break; }
    default: p.numeric = false, p.o = make<String>(g->pick(std::vector<std::string>{"3", "true", "text", "a b", "", "1.5", "$x"}));
  }
  return p;
}
World world()
{
  World w;
  w.scopes.emplace_back(new Scope(static_cast<const OpenScenario *>(nullptr)));
  const std::vector<std::string> names{"x", "y", "z", "speed", "n_1", "flag", "_", "9"};
  for (int depth = int(g->i(1, 4)); depth > 0; --depth) {
    std::vector<std::string> mine;
    for (auto & n : names) if (g->chance(.4)) mine.push_back(n);
    for (auto & n : mine) {
      auto p = parameter(n);
      w.scopes.back()->insert(n, p.o);
      bool found = false;
      for (auto & v : w.visible) if (v.name == n) v = p, found = true;
      if (not found) w.visible.push_back(p);
    }
    if (depth > 1) w.scopes.emplace_back(new Scope(vh::cat("S", depth), *w.scopes.back()));
  }
  return w;
}
P leaf(const World & w, bool logical)
{
  auto n = std::make_unique<Node>();
  n->o = 'v';
  if (g->chance(.35)) {
    std::vector<const Parameter *> fit;
    for (auto & p : w.visible) if ((p.v.t == BOOL) == logical and p.numeric) fit.push_back(&p);
    if (g->chance(.04)) { n->o = '?', n->text = "$nosuch"; return n; }
    if (g->chance(.04)) for (auto & p : w.visible) if (not p.numeric) { n->o = '?', n->text = "$" + p.name; return n; }
    if (not fit.empty()) { auto p = g->pick(fit); if (p->wide()) n->o = '?'; n->v = p->v, n->text = "$" + p->name; return n; }
  }
  if (logical) { n->v = boolean(g->chance(.5)), n->text = n->v.b ? "true" : "false"; return n; }
  if (g->chance(.5)) {
    const std::int64_t i = g->chance(.1) ? g->pick(std::vector<std::int64_t>{2147483647, 65536, 46341, 0}) : g->i(0, 12);
    n->v.t = INT, n->v.i = i, n->text = vh::cat(i);
  } else {
    n->text = g->pick(std::vector<std::string>{"0.5", "1.0", "2.25", "0.0", ".5", "3.", "1.5e3", "0.1", "1.0e-7", "123456.789", "1.0e300", vh::cat(g->r(0, 50))});
    if (n->text.find_first_of(".e") == std::string::npos) n->text += ".0";
    if (n->text.find('.') == std::string::npos) n->text = "0.25";
    n->v = number(std::strtod(n->text.c_str(), nullptr));
  }
  return n;
}
P tree(const World & w, int depth, bool logical)
{
  if (depth == 0 or g->chance(.2)) return leaf(w, g->chance(.02) ? not logical : logical);
  auto n = std::make_unique<Node>();
  n->o = logical ? "||&&!"[g->i(0, 4)] : "+-*/%^srfc-+-*"[g->i(0, 13)];
  const bool one = n->o == '!' or n->o == 's' or n->o == 'r' or n->o == 'f' or n->o == 'c' or (n->o == '-' and g->chance(.4));
  n->in.push_back(tree(w, depth - 1, logical));
  if (not one) n->in.push_back(tree(w, depth - 1, logical));
  return n;
}
std::string show(const Val & v) { return v.t == BOOL ? (v.b ? "true" : "false") : v.t == DOUBLE ? vh::cat(v.d) : vh::cat(v.i); }
bool close(double a, double b) { return (std::isnan(a) and std::isnan(b)) or a == b or std::fabs(a - b) <= 1e-11 * std::max(std::fabs(a), std::fabs(b)); }
std::string tail(const std::string & s) { return s.size() > 300 ? s.substr(0, 300) : s; }

template <typename T> struct Read { bool ok = false, syntax = false; T value{}; std::string error; };
template <typename T> Read<T> read(const std::string & text, const Scope & scope)
{
  pugi::xml_document d;
  auto node = d.append_child("Element");
  node.append_attribute("attribute") = text.c_str();
  Read<T> r;
  try { r.value = readAttribute<T>("attribute", node, scope), r.ok = true; }
  catch (const SyntaxError & e) { r.error = e.what(), r.syntax = true; }
  catch (const std::exception & e) { r.error = e.what(); }
  return r;
}

void expressions(std::uint64_t rounds)
{
  for (std::uint64_t k = 0; k < rounds; ++k) {
    auto w = world();
    const Scope & scope = *w.scopes.back();
    std::string env;
    for (auto & p : w.visible) env += p.name + "=" + (p.numeric ? show(p.v) : "text") + " ";
    for (int q = 0; q < 6; ++q) {
      const bool logical = g->chance(.3);
      auto t = tree(w, int(g->i(0, 5)), logical);
      const std::string text = space() + print(*t, 0, g->chance(.5)) + space();
      vh::current(vh::cat("expression ", text, " with ", env));
      Val v;
      std::string bad;
      try { v = value(*t); } catch (const Bad & b) { bad = b.why; }
      bool steady = true;
      for (double by : {9e-16, -9e-16}) {
        nudge = by;
        try {
          auto u = value(*t);
          steady = steady and bad.empty() and u.t == v.t and u.i == v.i and u.b == v.b and close(u.d, v.d);
        } catch (const Bad & b) { steady = steady and b.why == bad; }
      }
      nudge = 0;
      if (not steady) { vh::count("expressions that depend on rounding"); continue; }
      std::string got, error;
      try { got = evaluate(text, scope); } catch (const std::exception & e) { error = e.what(); if (error.empty()) error = "?"; }
      if (bad.empty() and not v.either) {
        if (not error.empty()) vh::fail("refused", vh::cat("\"", text, "\" should be ", show(v), " but: ", tail(error), " (", env, ")"));
        else {
          bool same = v.t == BOOL ? got == (v.b ? "true" : "false") : v.t == DOUBLE ? close(std::strtod(got.c_str(), nullptr), v.d) : got == vh::cat(v.i);
          if (not same) vh::fail(vh::cat("value-", t->in.empty() ? std::string("literal") : std::string(1, t->o)), vh::cat("\"", text, "\" should be ", show(v), " but is ", got, " (", env, ")"));
          // and as an attribute of its type
          if (v.t == DOUBLE) { auto r = read<Double>("${" + text + "}", scope); if (not r.ok or not close(r.value, v.d)) vh::fail("attribute-double", vh::cat("${", text, "} is ", r.ok ? vh::cat(double(r.value)) : tail(r.error), " not ", v.d)); }
          if (v.t == INT) { auto r = read<Integer>("${" + text + "}", scope); if (not r.ok or r.value != v.i) vh::fail("attribute-integer", vh::cat("${", text, "} is ", r.ok ? vh::cat(int(r.value)) : tail(r.error), " not ", v.i)); }
          if (v.t == UINT) { auto r = read<UnsignedInt>("${" + text + "}", scope); if (not r.ok or r.value != v.i) vh::fail("attribute-unsigned", text); }
          if (v.t == BOOL) { auto r = read<Boolean>("${" + text + "}", scope); if (not r.ok or r.value != v.b) vh::fail("attribute-boolean", text); }
        }
      } else if (error.empty()) {
        if (not v.either) vh::fail("accepted-" + bad, vh::cat("\"", text, "\" gives ", got, " although ", bad, " (", env, ")"));
        else if (got != vh::cat(v.i) and v.t != DOUBLE) vh::fail("unsigned-wraps", vh::cat("\"", text, "\" gives ", got, " (", env, ")"));
      }
      vh::observed(text + "|" + env);
      vh::count(bad.empty() ? vh::cat("expressions of type ", v.t == INT ? "int" : v.t == UINT ? "unsigned" : v.t == DOUBLE ? "double" : "bool") : "expressions in error: " + bad);
      if (k < 4) vh::sample(text);
    }
  }
}
// text that is no expression
void malformed(std::uint64_t rounds)
{
  const std::vector<std::string> fixed{"", " ", "(", ")", "()", "+", "1 +", "* 2", "1 2", "1 + + ", "(1", "1)", "pow(1)", "pow(1,2,3)", "round()", "$", "$ x", "true false", "not", "and", "1 or", "1..2", "1 e5",
    "0x10", "abc", "1,2", "sqrt 4", "${1}", "\n", "\t", "99999999999", "4294967296", "-99999999999", "1 & 2", "1 == 1", "!true", "2 ** 3", "\xff", "true and", "1.5.2", "- ", "'a'", "pow(", "pow(1,"};
  World w;
  w.scopes.emplace_back(new Scope(static_cast<const OpenScenario *>(nullptr)));
  w.scopes.back()->insert("x", make<Integer>(3));
  const Scope & scope = *w.scopes.back();
  auto refused = [&](const std::string & text, const char * kind) {
    vh::current("malformed " + text);
    std::string got, error;
    try { got = evaluate(text, scope); } catch (const std::exception & e) { error = vh::cat("!", e.what()); }
    if (error.empty()) vh::fail(vh::cat("malformed-", kind), vh::cat("\"", text, "\" gives ", got));
    vh::observed("malformed" + text);
    vh::count("malformed expressions");
  };
  for (auto & f : fixed) {
    refused(f, f.find_first_not_of(" \t\n") == f.npos ? "empty" : "text");
    auto d = read<Double>("${" + f + "}", scope);
    if (d.ok) vh::fail("malformed-attribute", vh::cat("${", f, "} gives ", double(d.value)));
  }
  // valid tokens in an order no grammar allows: two operands with nothing between them, or a missing one
  for (std::uint64_t k = 0; k < rounds; ++k) {
    World w2 = world();
    auto t = tree(w2, 3, g->chance(.3));
    auto s = print(*t, 0, false);
    switch (g->i(0, 3)) {
      case 0: s += " 1"; break;
      case 1: s += g->pick(std::vector<std::string>{" +", " *", " or", " and", ")", " $", "$", ","}); break;
      case 2: s = g->pick(std::vector<std::string>{"* ", "/ ", "or ", "and ", ")", ", ", "% "}) + s; break;
      default: s = "(" + s; break;
    }
    vh::current("malformed " + s);
    std::string got, error;
    try { got = evaluate(s, *w2.scopes.back()); } catch (const std::exception & e) { error = vh::cat("!", e.what()); }
    if (error.empty()) vh::fail("malformed-random", vh::cat("\"", s, "\" gives ", got));
    vh::observed("malformed" + s);
    vh::count("malformed expressions");
  }
  // arbitrary bytes end in a value or an error
  for (std::uint64_t k = 0; k < rounds; ++k) {
    std::string s;
    for (int n = int(g->i(0, 20)); n > 0; --n) s += g->chance(.7) ? "0123456789.+-*/%()$, xeporandtruefalsenotqw"[g->i(0, 42)] : char(g->i(1, 255));
    vh::current("bytes " + vh::esc(s));
    try { evaluate(s, scope); vh::count("random texts accepted"); } catch (const std::exception &) { vh::count("random texts refused"); }
    vh::observed("bytes" + s);
  }
}
// $name, literals, substitutions
void references(std::uint64_t rounds)
{
  for (std::uint64_t k = 0; k < rounds; ++k) {
    auto w = world();
    const Scope & scope = *w.scopes.back();
    for (auto & p : w.visible) {
      const auto printed = boost::lexical_cast<std::string>(p.o);
      vh::current(vh::cat("$", p.name, " = ", printed));
      auto s = read<String>("$" + p.name, scope);
      if (not s.ok or s.value != printed) vh::fail("reference-text", vh::cat("$", p.name, " is \"", s.ok ? s.value : s.error, "\" not \"", printed, "\""));
      auto d = read<Double>("$" + p.name, scope);
      if (p.numeric and p.v.t != BOOL and (not d.ok or not close(d.value, p.v.t == DOUBLE ? p.v.d : double(p.v.i)))) vh::fail("reference-double", vh::cat("$", p.name, " = ", printed, " is ", d.ok ? vh::cat(double(d.value)) : d.error));
      if (p.numeric and p.v.t == BOOL and d.ok and std::fabs(double(d.value) - p.v.b) > 0) vh::fail("reference-double-of-boolean", printed);
      if (p.numeric and p.v.t == INT) { auto r = read<Integer>("$" + p.name, scope); if (not r.ok or r.value != p.v.i) vh::fail("reference-integer", printed); }
      if (p.numeric and p.v.t == UINT) { auto r = read<UnsignedInt>("$" + p.name, scope); if (not r.ok or r.value != p.v.i) vh::fail("reference-unsigned", printed); }
      if (p.numeric and p.v.t == BOOL) { auto r = read<Boolean>("$" + p.name, scope); if (not r.ok or r.value != p.v.b) vh::fail("reference-boolean", printed); }
      if (p.numeric and p.v.t == DOUBLE and p.v.d != std::floor(p.v.d)) { auto r = read<Integer>("$" + p.name, scope); if (r.ok) vh::fail("reference-fraction-as-integer", vh::cat(printed, " is ", int(r.value))); }
      vh::observed(vh::cat("ref", p.name, printed));
      vh::count("references");
    }
    auto none = read<Double>(g->chance(.5) ? "$nosuch" : "$", scope);
    if (none.ok) vh::fail("reference-unresolved", "a reference to nothing gives a value");
    // text substitutions
    std::string text, want;
    bool unknown = false;
    for (int n = int(g->i(0, 4)); n > 0; --n) {
      std::string lit = g->pick(std::vector<std::string>{"", "a", " b ", "1", "/", "-", "a$b", "(c)", ")", "x.y"});
      if (text.empty() and g->chance(.5)) lit = "t" + lit;
      text += lit, want += lit;
      std::vector<const Parameter *> plain;
      for (auto & p : w.visible) if (boost::lexical_cast<std::string>(p.o).find('$') == std::string::npos) plain.push_back(&p);
      if (g->chance(.03)) text += "$(nothing x)", unknown = true;
      else if (g->chance(.1)) text += "$(find-pkg-share some_package)", want += ament_index_cpp::get_package_share_directory("some_package");
      else if (not plain.empty()) { auto p = g->pick(plain); text += "$(var " + p->name + ")", want += boost::lexical_cast<std::string>(p->o); }
    }
    if (text.empty() or want.substr(0, 1) == "$") continue;
    vh::current("substitution " + text);
    auto r = read<String>(text, scope);
    if (unknown ? r.ok : not r.ok or r.value != want) vh::fail(unknown ? "substitution-unknown" : "substitution", vh::cat("\"", text, "\" is \"", r.ok ? r.value : r.error, "\" not \"", want, "\""));
    if (unknown and not r.ok and r.error.find("nothing") == std::string::npos) vh::fail("substitution-diagnosis", r.error);
    vh::observed("sub" + text + want);
    vh::count("substitutions");
  }
}
// $(ros2 ...): the output of the command without its trailing newlines; more than one line is refused
void commands()
{
  Scope scope(static_cast<const OpenScenario *>(nullptr));
  const auto bin = interp::scratch() + "/bin";
  interp::write(bin + "/ros2", "#!/bin/sh\nprintf \"$1\"\n");
  std::filesystem::permissions(bin + "/ros2", std::filesystem::perms::owner_all);
  ::setenv("PATH", (bin + ":" + ::getenv("PATH")).c_str(), 1);
  struct { const char * format, * want; } cases[] = {{"", ""}, {"a", "a"}, {"a\\n", "a"}, {"a\\n\\n\\n", "a"}, {"\\n", ""}, {"\\n\\n", ""}, {"a\\nb", nullptr}, {"a\\nb\\n", nullptr}, {"12.5\\n", "12.5"}};
  for (auto & c : cases)
    for (std::string around : {"", "x"}) {
      const auto text = around + "$(ros2 '" + c.format + "')" + around;
      vh::current("substitution " + text);
      auto r = read<String>(text, scope);
      if (c.want ? not r.ok or r.value != around + c.want + around : r.ok) vh::fail("command-substitution", vh::cat(text, " is ", r.ok ? r.value : r.error));
      vh::observed(text);
      vh::count("command substitutions");
    }
}
void attributes()
{
  Scope scope(static_cast<const OpenScenario *>(nullptr));
  pugi::xml_document d;
  auto node = d.append_child("Vehicle");
  for (auto name : {"width", "no such"}) {
    try { readAttribute<Double>(name, node, scope); vh::fail("missing-accepted", name); }
    catch (const SyntaxError & e) {
      const std::string s = e.what();
      if (s.find(name) == s.npos or s.find("Vehicle") == s.npos) vh::fail("missing-diagnosis", s);
    }
    if (double(readAttribute<Double>(name, node, scope, Double(2.5))) != 2.5) vh::fail("default", name);
    if (readAttribute<Double>(name, node, scope, std::nullopt)) vh::fail("optional", name);
  }
  node.append_attribute("width") = "7.5";
  if (double(readAttribute<Double>("width", node, scope, Double(2.5))) != 7.5) vh::fail("default-overrides", "a written attribute gives way to its default");
  if (auto o = readAttribute<Double>("width", node, scope, std::nullopt); not o or double(*o) != 7.5) vh::fail("optional-lost", "a written attribute is not read");
  for (std::string t : {"abc", "1 2", "1e", "--1", "0x1", "$", "${", "${1", "$(var", "$()", "$( )", "$(var)", "}", "${}", "${ }", "$$", "$::", "$:x", "$x::"}) {
    vh::current("attribute " + t);
    if (auto r = read<Double>(t, scope); r.ok) vh::fail("bad-literal", vh::cat("\"", t, "\" is ", double(r.value)));
    if (auto r = read<Integer>(t, scope); r.ok) vh::fail("bad-literal", vh::cat("\"", t, "\" is ", int(r.value)));
    vh::observed("attribute" + t);
    vh::count("bad attributes");
  }
}
}  // namespace
int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng rng(vh::st().seed * 13 + 3);
  g = &rng;
  interp::write(interp::scratch() + "/share/some_package/x", "");
  ::setenv("VERIF_SHARE", (interp::scratch() + "/share").c_str(), 1);
  attributes();
  commands();
  malformed(vh::n(3000, 60000));
  references(vh::n(1500, 30000));
  expressions(vh::n(2500, 60000));
  vh::finish();
}
