// C10: parameters hold what was declared, constrained and last assigned.
#include "interp.hpp"
#include "vh.hpp"
#include <cmath>
#include <map>
#include <memory>
#include <optional>
#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <openscenario_interpreter/syntax/double.hpp>
#include <openscenario_interpreter/syntax/integer.hpp>
#include <openscenario_interpreter/syntax/parameter_action.hpp>
#include <openscenario_interpreter/syntax/parameter_condition.hpp>
#include <openscenario_interpreter/syntax/parameter_declarations.hpp>
#include <openscenario_interpreter/syntax/string.hpp>
#include <openscenario_interpreter/syntax/unsigned_integer.hpp>
#include <openscenario_interpreter/syntax/unsigned_short.hpp>
#include <pugixml.hpp>
using namespace openscenario_interpreter;
namespace
{
vh::Rng * g;
enum Type { BOOLEAN, INTEGER, UNSIGNED, SHORT, DOUBLE, TEXT, DATE, TYPES };
const char * type_label[] = {"boolean", "integer", "unsignedInt", "unsignedShort", "double", "string", "dateTime"};
struct Val { Type t = TEXT; bool b = false; __int128 i = 0; double d = 0; std::string s; };
std::string whole(__int128 i)
{
  std::string s;
  const bool negative = i < 0;
  do s.insert(s.begin(), char('0' + int(negative ? -(i % 10) : i % 10))), i /= 10; while (i != 0);
  return negative ? "-" + s : s;
}
std::string show(const Val & v) { return v.t == BOOLEAN ? (v.b ? "true" : "false") : v.t == DOUBLE ? vh::cat(v.d) : v.t >= TEXT ? v.s : whole(v.i); }
using Wide = __int128;
Wide low(Type t) { return t == INTEGER ? std::numeric_limits<Integer::value_type>::min() : 0; }
Wide high(Type t) { return t == INTEGER ? Wide(std::numeric_limits<Integer::value_type>::max()) : t == UNSIGNED ? Wide(std::numeric_limits<UnsignedInteger::value_type>::max()) : Wide(std::numeric_limits<UnsignedShort::value_type>::max()); }
// The value a text spells in a type, if it spells one; only texts from the generator's language.
std::optional<Val> spell(Type t, const std::string & s)
{
  Val v;
  v.t = t;
  if (t >= TEXT) { v.s = s; return v; }
  if (t == BOOLEAN) { if (s != "true" and s != "false") return {}; v.b = s == "true"; return v; }
  char * end = nullptr;
  if (s.empty()) return {};
  if (t == DOUBLE) { if (s.find('x') != s.npos) return {}; v.d = std::strtod(s.c_str(), &end); if (*end) return {}; return v; }
  if (s.find_first_not_of("0123456789-") != s.npos) return {};
  const bool negative = s[0] == '-';
  if (s.find('-', 1) != s.npos or s.size() == negative) return {};
  for (char c : s) if (c != '-') { v.i = v.i * 10 + (c - '0'); if (v.i > Wide(1) << 70) return {}; }
  if (negative) v.i = -v.i;
  if ( v.i < low(t) or v.i > high(t) or (t != INTEGER and s[0] == '-')) return {};
  return v;
}
const char * rule_label[] = {"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};
template <typename T> bool holds(int r, const T & a, const T & b)
{
  switch (r) { case 0: return a == b; case 1: return a > b; case 2: return a < b; case 3: return a >= b; case 4: return a <= b; default: return not(a == b); }
}
// true, false, or nothing: the text is no value of the type
std::optional<bool> compare(const Val & v, int rule, const std::string & text)
{
  auto o = spell(v.t, text);
  if (not o) return {};
  switch (v.t) {
    case BOOLEAN: return holds(rule, v.b, o->b);
    case DOUBLE: return holds(rule, v.d, o->d);
    case TEXT: case DATE: return holds(rule, v.s, o->s);
    default: return holds(rule, v.i, o->i);
  }
}
std::string text_for(Type t, bool wrong)
{
  static const std::vector<std::string> junk{"abc", "1x", "-", "TRUE", "1 2", "--1", "99999999999999999999", "0x1f", "truth", "1,5"};
  if (wrong) {
    switch (g->i(0, 3)) {
      case 0: if (t == INTEGER or t == UNSIGNED or t == SHORT) return whole(high(t) + g->i(1, 3));
              return g->pick(junk);
      case 1: if (t == INTEGER) return whole(low(t) - 1); if (t == UNSIGNED or t == SHORT) return "-1"; return g->pick(junk);
      case 2: if (t == INTEGER or t == UNSIGNED or t == SHORT) return "2.5"; return g->pick(junk);
      default: return g->pick(junk);
    }
  }
  switch (t) {
    case BOOLEAN: return g->chance(.5) ? "true" : "false";
    case INTEGER: return vh::cat(g->chance(.15) ? g->pick(std::vector<std::int64_t>{INT64_MIN, INT64_MAX, -2147483648ll, 2147483648ll, 0}) : g->i(-9, 9));
    case UNSIGNED: return g->chance(.15) ? whole(g->pick(std::vector<Wide>{high(t), 4294967296ll, 4294967295ll, 0})) : vh::cat(g->i(0, 9));
    case SHORT: return vh::cat(g->chance(.15) ? g->pick(std::vector<std::int64_t>{65535, 0}) : g->i(0, 9));
    case DOUBLE: return g->pick(std::vector<std::string>{"0", "-0.5", "0.1", "1e300", "2.25", "3", vh::cat(g->r(-9, 9)), vh::cat(g->i(-3, 3))});
    case DATE: return "2026-01-01T00:00:0" + vh::cat(g->i(0, 9));
    default: return g->pick(std::vector<std::string>{"a", "b", "true", "1", "1.5", "A b", "\xc3\xa9", "x<y&z", "abc"});
  }
}
pugi::xml_node element(pugi::xml_document & d, const std::string & name, std::initializer_list<std::pair<const char *, std::string>> attributes)
{
  auto n = d.append_child(name.c_str());
  for (auto & [k, v] : attributes) n.append_attribute(k) = v.c_str();
  return n;
}
struct Frame { std::unique_ptr<Scope> scope; std::map<std::string, Val> own; };
std::optional<Val> current(const Object & o)
{
  Val v;
  if (o.is<Boolean>()) v.t = BOOLEAN, v.b = o.as<Boolean>();
  else if (o.is<Integer>()) v.t = INTEGER, v.i = o.as<Integer>();
  else if (o.is<UnsignedInteger>()) v.t = UNSIGNED, v.i = o.as<UnsignedInteger>();
  else if (o.is<UnsignedShort>()) v.t = SHORT, v.i = o.as<UnsignedShort>();
  else if (o.is<Double>()) v.t = DOUBLE, v.d = o.as<Double>();
  else if (o.is<String>()) v.t = TEXT, v.s = o.as<String>();
  else return {};
  return v;
}
bool same(const Val & a, const Val & b)
{
  if (a.t != b.t and not(a.t >= TEXT and b.t >= TEXT)) return false;
  switch (a.t) { case BOOLEAN: return a.b == b.b; case DOUBLE: return a.d == b.d or (std::isnan(a.d) and std::isnan(b.d)); case TEXT: case DATE: return a.s == b.s; default: return a.i == b.i; }
}
}  // namespace
int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng rng(vh::st().seed * 11 + 1);
  g = &rng;
  const std::uint64_t rounds = vh::n(5000, 100000);
  const std::vector<std::string> names{"x", "y", "z", "speed", "n", "flag", "with space", "\xc3\xa9t\xc3\xa9", "EGO", "OS", "oSC", "lane_1"};
  for (std::uint64_t round = 0; round < rounds; ++round) {
    std::vector<Frame> frames;
    std::string history;
    frames.push_back({std::make_unique<Scope>(static_cast<const OpenScenario *>(nullptr)), {}});
    auto holder = [&](const std::string & name) -> Val * {
      for (auto f = frames.rbegin(); f != frames.rend(); ++f) if (auto i = f->own.find(name); i != f->own.end()) return &i->second;
      return nullptr;
    };
    auto inspect = [&](const char * after) {
      for (auto & f : frames)
        for (auto & [name, v] : f.own) {
          auto now = current(f.scope->ref(name));
          // seen from its own frame this is the declaration of that frame
          if (not now or not same(*now, v)) {
            vh::fail(vh::cat("value-after-", after), vh::cat(name, " (", type_label[v.t], ") should be ", show(v), " but is ", now ? show(*now) : "something else", " after: ", history));
            if (now) v = *now;
          }
        }
    };
    for (int depth = int(g->i(1, 3)); depth > 0; --depth) {
      for (int k = int(g->i(1, 5)); k > 0; --k) {
        const Type t = Type(g->i(0, TYPES - 1));
        const bool osc = g->chance(.03), wrong = g->chance(.1);
        const std::string name = osc ? g->pick(std::vector<std::string>{"OSC", "OSCx", "OSC_1"}) : g->pick(names);
        if (frames.back().own.count(name)) continue;
        const std::string text = text_for(t, wrong);
        auto v = spell(t, text);
        pugi::xml_document d;
        auto n = element(d, "ParameterDeclaration", {{"name", name}, {"parameterType", type_label[t]}, {"value", text}});
        bool met = true, unreadable = false;
        std::string constraints;
        if (g->chance(.4) and v) {
          met = false;
          for (int j = int(g->i(1, 3)); j > 0; --j) {
            auto group = n.append_child("ConstraintGroup");
            bool all = true;
            constraints += "(";
            for (int c = int(g->i(1, 3)); c > 0; --c) {
              const int rule = t == BOOLEAN ? (g->chance(.5) ? 0 : 5) : int(g->i(0, 5));
              const std::string bound = g->chance(.3) ? text : text_for(t, t < TEXT and g->chance(.02));
              auto e = group.append_child("ValueConstraint");
              e.append_attribute("rule") = rule_label[rule];
              e.append_attribute("value") = bound.c_str();
              constraints += vh::cat(rule_label[rule], " ", bound, ", ");
              auto r = compare(*v, rule, bound);
              if (not r) { if (all and not met) unreadable = true; all = false; }
              else all = all and *r;
              if (unreadable) break;
            }
            constraints += ") ";
            if (unreadable) break;
            met = met or all;
          }
        }
        const std::string what = vh::cat(name, " ", type_label[t], " = \"", text, "\" ", constraints);
        vh::current("declaration " + what);
        std::string error;
        try { ParameterDeclaration(n, *frames.back().scope); } catch (const std::exception & e) { error = vh::cat("!", e.what()); }
        const bool good = v and met and not unreadable and not osc;
        const char * kind = not v ? "unreadable value" : osc ? "reserved name" : unreadable ? "unreadable constraint" : not met ? "broken constraint" : "good";
        if (good != error.empty()) vh::fail(vh::cat("declaration-", good ? "refused" : "accepted", "-", kind), vh::cat(what, " ", error));
        else if (good) frames.back().own[name] = *v, history += what + "; ";
        // what was refused must not be there
        if (not good and not holder(name)) {
          bool there = true;
          try { frames.back().scope->ref(name); } catch (const std::exception &) { there = false; }
          if (there) vh::fail("refused-but-declared", what);
        }
        vh::observed(what);
        vh::count(vh::cat("declarations: ", kind));
        if (error.size() > 200) error.resize(200);
        if (round < 3) vh::sample(what);
      }
      if (depth > 1) { Scope & outer = *frames.back().scope; frames.push_back({std::make_unique<Scope>(vh::cat("S", depth), outer), {}}); history += "| "; }
    }
    inspect("declaration");
    Scope & scope = *frames.back().scope;
    for (int k = 0; k < 12; ++k) {
      const std::string name = g->pick(names);
      Val * v = holder(name);
      if (not v) {
        if (not g->chance(.2)) continue;
        pugi::xml_document d;
        auto n = element(d, "ParameterAction", {{"parameterRef", name}});
        n.append_child("SetAction").append_attribute("value") = "1";
        bool refused = false;
        try { ParameterAction(n, scope).start(); } catch (const std::exception &) { refused = true; }
        if (not refused) vh::fail("set-undeclared", name);
        vh::count("actions on undeclared parameters");
        continue;
      }
      std::string what, error;
      const char * kind = "";
      bool good = true;
      pugi::xml_document d;
      const int act = int(g->i(0, 3));
      if (act == 3) {
        const int rule = v->t == BOOLEAN ? (g->chance(.5) ? 0 : 5) : int(g->i(0, 5));
        const std::string bound = g->chance(.35) ? (v->t == DOUBLE ? vh::cat(v->d) : show(*v)) : text_for(v->t, v->t < TEXT and g->chance(.1));
        const auto want = compare(*v, rule, bound);
        what = vh::cat(name, " = ", show(*v), " ", rule_label[rule], " ", bound);
        vh::current("condition " + what + " after " + history);
        // numbers closer than a rounding unit may compare as equal
        if (v->t == DOUBLE and want and std::fabs(v->d - spell(DOUBLE, bound)->d) < 1e-15 and v->d != spell(DOUBLE, bound)->d) continue;
        if (bound.empty()) continue;
        auto n = element(d, "ParameterCondition", {{"parameterRef", name}, {"rule", rule_label[rule]}, {"value", bound}});
        bool got = false;
        try { got = ParameterCondition(n, scope).evaluate().as<Boolean>(); } catch (const std::exception & e) { error = vh::cat("!", e.what()); }
        if (want.has_value() != error.empty() or (want and *want != got)) vh::fail(vh::cat("condition-", type_label[v->t]), vh::cat(what, " is ", error.empty() ? vh::cat(got) : error, " (", history, ")"));
        vh::count(vh::cat("conditions ", want ? (*want ? "true" : "false") : "unreadable"));
        vh::observed(what);
        continue;
      }
      auto n = element(d, "ParameterAction", {{"parameterRef", name}});
      Val before = *v, after = *v;
      if (act == 0) {
        const bool wrong = v->t < TEXT and g->chance(.15);
        const std::string text = text_for(v->t, wrong);
        auto now = spell(v->t, text);
        kind = "set", what = vh::cat("set ", name, " (", type_label[v->t], ") ", text);
        if (now) after = *now; else good = false;
        n.append_child("SetAction").append_attribute("value") = text.c_str();
      } else {
        const double by = g->chance(.5) ? double(g->i(-3, 5)) : g->pick(std::vector<double>{.5, .75, -1.25, 1e10, 0, 1.5, -1e300, g->r(-5, 5)});
        kind = act == 1 ? "add" : "multiply", what = vh::cat(kind, " ", name, " (", type_label[v->t], " ", show(*v), ") by ", by);
        if (v->t == BOOLEAN or v->t >= TEXT) good = false;
        else if (v->t == DOUBLE) after.d = act == 1 ? v->d + by : v->d * by;
        else {
          // the real sum or product, its fraction dropped; binary fractions are exact in long double
          const long double r = std::trunc(act == 1 ? (long double)(v->i) + by : (long double)(v->i) * by);
          if (r < (long double)(low(v->t)) or r > (long double)(high(v->t))) good = false; else after.i = Wide(r);
        }
        auto rule = n.append_child("ModifyAction").append_child("Rule").append_child(act == 1 ? "AddValue" : "MultiplyByValue");
        rule.append_attribute("value") = vh::cat(by).c_str();
      }
      vh::current(what + " after " + history);
      history += what + "; ";
      try { ParameterAction a(n, scope); a.start(); a.run(); } catch (const std::exception & e) { error = vh::cat("!", e.what()); }
      if (good != error.empty()) vh::fail(vh::cat(kind, good ? "-refused-" : "-accepted-", type_label[v->t]), vh::cat(what, " ", error, " (", history, ")"));
      *v = good ? after : before;
      inspect(kind);
      vh::observed(what);
      vh::count(vh::cat(kind, good ? "" : " refused", " ", type_label[v->t]));
    }
  }
  vh::finish();
}
