// C05: names resolve to the declaration the scenario author can see.
#include "interp.hpp"
#include "vh.hpp"
#include <openscenario_interpreter/scope.hpp>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <openscenario_interpreter/syntax/double.hpp>
#include <openscenario_interpreter/syntax/integer.hpp>
#include <memory>
#include <set>
using namespace openscenario_interpreter;
namespace
{
struct Node
{
  std::string name;
  Node * outer = nullptr;
  std::vector<Node *> inner;
  std::vector<std::tuple<std::string, char, Object>> declared;   // name, kind
  std::unique_ptr<Scope> scope;
  int index = 0;
};
enum Outcome { FOUND, NOTHING, AMBIGUOUS, MALFORMED };
struct Answer { Outcome outcome; Object object; };
bool fits(char kind, char wanted) { return wanted == 'o' or kind == wanted; }
// One scope: its own declarations, then those of its unnamed inner scopes, nearest first.
Answer here(const Node * f, const std::string & x, char wanted)
{
  for (std::vector<const Node *> level{f}; not level.empty();) {
    std::vector<Object> hits;
    std::vector<const Node *> next;
    for (auto n : level) {
      for (auto & [name, kind, o] : n->declared) if (name == x and fits(kind, wanted)) hits.push_back(o);
      for (auto i : n->inner) if (i->name.empty()) next.push_back(i);
    }
    if (hits.size() == 1) return {FOUND, hits[0]};
    if (hits.size() > 1) return {AMBIGUOUS, Object()};
    level = next;
  }
  return {NOTHING, Object()};
}
// Scopes of a name inside one scope, unnamed scopes being transparent, nearest first.
std::vector<const Node *> scopes(const Node * f, const std::string & p)
{
  for (std::vector<const Node *> level{f}; not level.empty();) {
    std::vector<const Node *> hits, next;
    for (auto n : level)
      for (auto i : n->inner) {
        if (i->name.empty()) next.push_back(i);
        else if (i->name == p) hits.push_back(i);
      }
    if (not hits.empty()) return hits;
    level = next;
  }
  return {};
}
Answer resolve(const Node * from, const std::string & text, char wanted)
{
  std::vector<std::string> parts;
  size_t at = 0;
  for (size_t p; (p = text.find("::", at)) != text.npos; at = p + 2) parts.push_back(text.substr(at, p - at));
  parts.push_back(text.substr(at));
  const bool absolute = parts.size() > 1 and parts[0].empty();
  if (absolute) parts.erase(parts.begin());
  if (parts.back().find(':') != std::string::npos or parts.back().find('\0') != std::string::npos) return {MALFORMED, Object()};
  const Node * f = from;
  if (absolute) while (f->outer) f = f->outer;
  for (size_t i = 0; i + 1 < parts.size(); ++i) {
    auto hits = scopes(f, parts[i]);
    if (i == 0 and not absolute) while (hits.empty() and f->outer) hits = scopes(f = f->outer, parts[i]);
    if (hits.empty()) return {NOTHING, Object()};
    if (hits.size() > 1) return {AMBIGUOUS, Object()};
    f = hits[0];
  }
  if (parts.size() > 1) return here(f, parts.back(), wanted);
  for (;; f = f->outer) {
    auto a = here(f, parts.back(), wanted);
    if (a.outcome != NOTHING or absolute or not f->outer) return a;
  }
}
const char * label[] = {"found", "nothing", "ambiguous", "malformed"};
}  // namespace
int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng g(vh::st().seed * 7 + 5);
  const std::vector<std::string> scope_names{"A", "B", "C", "A", "B", "", "", "x", "Story 1"}, names{"x", "y", "z", "A", "x"};
  const std::uint64_t rounds = vh::n(700, 20000);
  for (std::uint64_t round = 0; round < rounds; ++round) {
    std::vector<std::unique_ptr<Node>> nodes;
    auto describe = [&]() {
      std::string s;
      for (auto & n : nodes) {
        s += vh::cat(n->index, n->outer ? vh::cat("<", n->outer->index) : "", "'", n->name, "'{");
        for (auto & [x, k, o] : n->declared) s += vh::cat(x, ":", k, " ");
        s += "} ";
      }
      return s;
    };
    const int count = int(g.i(1, 14));
    const double unnamed = g.chance(.3) ? .6 : 0, deep = g.r(0, 1);
    int value = 0;
    for (int i = 0; i < count; ++i) {
      auto n = std::make_unique<Node>();
      n->index = i;
      if (i == 0) n->scope.reset(new Scope(static_cast<const OpenScenario *>(nullptr)));
      else {
        n->outer = (g.chance(deep) ? nodes.back() : nodes[size_t(g.i(0, i - 1))]).get();
        n->name = g.chance(unnamed) ? "" : g.pick(scope_names);
        n->scope.reset(new Scope(n->name, *n->outer->scope));
        n->outer->inner.push_back(n.get());
      }
      for (int k = int(g.i(0, g.chance(.2) ? 4 : 1)); k > 0; --k) {
        const char kind = "idb"[g.i(0, 2)];
        ++value;
        Object o = kind == 'i' ? make<Integer>(value) : kind == 'd' ? make<Double>(double(value)) : make<Boolean>(value % 2 == 0);
        auto & x = g.pick(names);
        n->scope->insert(x, o);
        n->declared.emplace_back(x, kind, o);
      }
      nodes.push_back(std::move(n));
    }
    const std::string tree = describe();
    auto ask = [&](const Node * from, const std::string & text, char wanted) {
      const auto expected = resolve(from, text, wanted);
      vh::current(vh::cat("reference \"", text, "\" (", wanted, ") from scope ", from->index, " of ", tree));
      Outcome outcome = FOUND;
      Object object;
      std::string what;
      try {
        if (wanted == 'o') object = from->scope->ref(text);
        else if (wanted == 'i') from->scope->ref<Integer>(text), object = [&] { Object r; for (auto & n : nodes) for (auto & [x, k, o] : n->declared) if (k == 'i' and &o.as<Integer>() == &from->scope->ref<Integer>(text)) r = o; return r; }();
        else if (wanted == 'd') object = [&] { Object r; auto & d = from->scope->ref<Double>(text); for (auto & n : nodes) for (auto & [x, k, o] : n->declared) if (k == 'd' and &o.as<Double>() == &d) r = o; return r; }();
        else object = [&] { Object r; auto & d = from->scope->ref<Boolean>(text); for (auto & n : nodes) for (auto & [x, k, o] : n->declared) if (k == 'b' and &o.as<Boolean>() == &d) r = o; return r; }();
      } catch (const std::exception & e) {
        what = e.what();
        outcome = NOTHING;
        if (what.find("mbiguous") != what.npos or what.find("multiple") != what.npos) outcome = AMBIGUOUS;
        else if (what.find("nvalid name") != what.npos) outcome = MALFORMED;
      }
      const bool qualified = text.find("::") != text.npos;
      const std::string kind = text.empty() ? "empty" : text.substr(0, 2) == "::" ? "absolute" : qualified ? "qualified" : "plain";
      const bool same = expected.outcome == FOUND ? outcome == FOUND and object.get() == expected.object.get() : outcome != FOUND;
      if (not same)
        vh::fail(kind + "-" + label[expected.outcome],
          vh::cat("\"", text, "\" (", wanted, ") from scope ", from->index, " should be ", label[expected.outcome], expected.outcome == FOUND ? vh::cat(" ", expected.object) : "",
            " but is ", label[outcome], outcome == FOUND and object ? vh::cat(" ", object) : "", " ", what, " in ", tree));
      else if (expected.outcome != FOUND and what.empty()) vh::fail(kind + "-silent", text);
      else if (expected.outcome == AMBIGUOUS and outcome != AMBIGUOUS) vh::fail(kind + "-diagnosis", vh::cat("\"", text, "\" is ambiguous but reported as \"", what, "\" in ", tree));
      vh::observed(vh::cat(tree, "|", from->index, "|", text, wanted));
      vh::count(vh::cat("references ", kind, " ", label[expected.outcome]));
      if (round < 3) vh::sample(vh::cat("\"", text, "\" from ", from->index, " ", label[expected.outcome], " in ", tree));
    };
    for (int q = 0; q < 40; ++q) {
      auto from = g.pick(nodes).get();
      std::string text;
      if (g.chance(.12)) {
        static const std::vector<std::string> odd{"", "::", "::::", "x::", "A::", ":x", "x:", "A:x", "A:::x", ":::x", "A::::x", "::A::", "A::::", " x", "x ", "A :: x", "$x", "{root}::x", "Story 1::x", "::Story 1::y", "x::x", "\xff\xfe", "no such"};
        text = g.pick(odd);
      } else {
        if (g.chance(.15)) text = "::";
        if (g.chance(.7)) {
          // a path that exists, from somewhere on the way, or a random one
          std::vector<std::string> path;
          if (g.chance(.7)) {
            for (auto n = g.pick(nodes).get(); n->outer; n = n->outer) if (not n->name.empty()) path.insert(path.begin(), n->name);
            if (text.empty() and not path.empty()) path.erase(path.begin(), path.begin() + g.i(0, int(path.size()) - 1));
          } else for (int k = int(g.i(1, 3)); k > 0; --k) path.push_back(g.pick(scope_names));
          for (auto & p : path) text += p + "::";
        }
        text += g.pick(names);
      }
      ask(from, text, "oidb"[g.i(0, 3)]);
    }
  }
  vh::finish();
}
