// C06: documents.  Fresh documents are drawn from the standard's schema (data/OpenSCENARIO-1.3.xsd),
// read by the project's reader, and read again after single changes that the schema allows or
// forbids; the reader functions are judged directly on random nodes; and hostile bytes and
// trees must end in a scenario or a diagnosis.
#include <algorithm>
#include <cmath>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <boost/json.hpp>
#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/reader/element.hpp>
#include <openscenario_interpreter/syntax/open_scenario.hpp>
#include <openscenario_interpreter/syntax/scenario_definition.hpp>
#include <pugixml.hpp>
#include "interp.hpp"
#include "vh.hpp"
using vh::cat;
using vh::Rng;
namespace
{
namespace fs = std::filesystem;
// ---- the schema ----------------------------------------------------------------------------
constexpr long many = 1000000;
struct Particle { char kind = 'e'; std::string name, type; long min = 1, max = 1; std::vector<Particle> kids; };   // e(lement) s(equence) c(hoice) a(ll)
struct Attribute { std::string name, type; bool required; };
struct Type { std::string name; std::vector<Attribute> attributes; std::vector<Particle> content; bool text = false; long depth = many; };
struct Schema
{
  std::map<std::string, Type> types;
  std::map<std::string, std::vector<std::string>> enums;
  std::map<std::string, std::string> base;
  std::map<std::string, pugi::xml_node> groups;
  pugi::xml_document d;
  static long occurs(pugi::xml_node n, const char * a) { const std::string s = n.attribute(a).value(); return s.empty() ? 1 : s == "unbounded" ? many : std::stol(s); }
  Particle particle(pugi::xml_node n)
  {
    Particle p;
    const std::string k = n.name();
    if (k == "xsd:group") {
      auto g = groups.at(n.attribute("ref").value());
      p = particle(*std::find_if(g.children().begin(), g.children().end(), [](auto c) { return c.type() == pugi::node_element and std::string(c.name()) != "xsd:annotation"; }));
    } else if (k == "xsd:element") p.kind = 'e', p.name = n.attribute("name").value(), p.type = n.attribute("type").value();
    else {
      p.kind = k == "xsd:all" ? 'a' : k == "xsd:choice" ? 'c' : 's';
      for (auto c : n.children()) if (c.type() == pugi::node_element and std::string(c.name()) != "xsd:annotation") p.kids.push_back(particle(c));
    }
    p.min = occurs(n, "minOccurs"), p.max = occurs(n, "maxOccurs");
    return p;
  }
  void attributes(Type & t, pugi::xml_node n) { for (auto a : n.children("xsd:attribute")) t.attributes.push_back({a.attribute("name").value(), a.attribute("type").value(), std::string(a.attribute("use").value()) == "required"}); }
  explicit Schema(const std::string & path)
  {
    if (not d.load_file(path.c_str())) throw std::runtime_error("no schema at " + path);
    auto root = d.child("xsd:schema");
    for (auto g : root.children("xsd:group")) groups[g.attribute("name").value()] = g;
    for (auto s : root.children("xsd:simpleType")) {
      const std::string n = s.attribute("name").value();
      for (auto x : s.select_nodes(".//xsd:enumeration")) enums[n].push_back(x.node().attribute("value").value());
    }
    for (auto c : root.children("xsd:complexType")) {
      Type t;
      t.name = c.attribute("name").value();
      attributes(t, c);
      for (auto k : c.children()) {
        const std::string n = k.name();
        if (n == "xsd:simpleContent") t.text = true, attributes(t, k.child("xsd:extension"));
        else if (n == "xsd:sequence" or n == "xsd:choice" or n == "xsd:all" or n == "xsd:group") t.content.push_back(particle(k));
      }
      types[t.name] = t;
    }
    Type top;   // the document element is anonymous in the schema or named OpenScenario
    for (bool again = true; again;) {
      again = false;
      for (auto & [n, t] : types) {
        long need = 0;
        for (auto & p : t.content) need = std::max(need, depth(p));
        if (need + 1 < t.depth) t.depth = need + 1, again = true;
      }
    }
  }
  long depth(const Particle & p) const
  {
    if (p.min == 0) return 0;
    if (p.kind == 'e') { auto i = types.find(p.type); return i == types.end() ? 1 : i->second.depth; }
    long d = p.kind == 'c' ? many : 0;
    for (auto & k : p.kids) d = p.kind == 'c' ? std::min(d, depth(k)) : std::max(d, depth(k));
    return d;
  }
};
Schema & schema() { static Schema s(std::string(VERIF_DIR) + "/data/OpenSCENARIO-1.3.xsd"); return s; }
#include "c_doc_support.inc"

const Particle * element(const Particle & p, const std::string & name)
{
  if (p.kind == 'e') return p.name == name ? &p : nullptr;
  for (auto & k : p.kids) if (auto * e = element(k, name)) return e;
  return nullptr;
}

// ---- fresh documents -----------------------------------------------------------------------
struct Maker
{
  Rng & r;
  long budget = 60;
  int names = 0;
  std::vector<std::string> in;          // types being written
  bool within(const std::string & t) const { return std::find(in.begin(), in.end(), t) != in.end(); }
  std::string value(const std::string & owner, const std::string & name, const std::string & type)
  {
    auto e = schema().enums.find(type);
    if (e != schema().enums.end()) {
      std::vector<std::string> ok;
      for (auto & v : e->second) if (not unsupported_values().count(type + "/" + v)) ok.push_back(v);
      return ok.empty() ? e->second[0] : r.pick(ok);
    }
    if (auto v = special(owner, name)) return *v;
    if (type == "Boolean") return r.chance(.5) ? "true" : "false";
    if (type == "Double") return r.chance(.5) ? std::to_string(r.i(1, 20)) : cat(double(r.i(1, 400)) / 16);
    if (type == "DateTime") return "2026-01-02T03:04:05";
    if (type == "Int" or type == "UnsignedInt" or type == "UnsignedShort") return std::to_string(r.i(1, 9));
    return cat("n", ++names);
  }
  std::optional<std::string> special(const std::string & owner, const std::string & name)
  {
    if (owner == "ScenarioObject" and name == "name") return cat("entity", entities++);
    if (name == "storyboardElementRef") return element_name;
    if (owner == "Story" and name == "name" and ++stories == 1) return element_name;
    if (owner == "ParameterDeclaration" and name == "name") return cat("parameter_", ++names);
    if (owner == "VariableDeclaration" and name == "name") return cat("variable_", ++names);
    if (name == "value" and (owner == "ParameterDeclaration" or owner == "VariableDeclaration")) return "1";
    if (name == "entityRef" or name == "entity" or name == "masterObject" or name == "centralSwarmObject" or name == "centralObject") return "entity0";
    if (owner == "UserDefinedValueCondition" and name == "name") return r.pick(std::vector<std::string>{"entity0.currentState", "entity0.currentTurnIndicatorsState", "RelativeHeadingCondition(entity0)", "RelativeHeadingCondition(entity0, 1, 2.5)", "entity0.currentMinimumRiskManeuverState.state"});
    if (name == "direction" or name == "azimuthOffset") return "1.25";
    if (name == "intensity") return "0.5";
    if (name == "atmosphericPressure") return "100000";
    if (name == "temperature") return "290";
    if (owner == "Phase" and name == "duration") return r.chance(.5) ? "4" : "0.5";
    if (owner == "Sun" and name == "azimuth") return "1.5";
    if (owner == "Sun" and name == "elevation") return "0.75";
    if (owner == "Dimensions" or owner == "Performance") return std::to_string(r.i(1, 9));
    if (name == "revMajor") return "1";
    if (name == "revMinor") return "3";
    if (owner == "Directory" and name == "path") return interp::scratch() + "/empty";
    if (name == "filepath") return interp::map_dir();
    if (owner == "CustomCommandAction" and name == "type") return ":";
    if (owner == "LanePosition" and name == "laneId") return "1";
    if (owner == "TrafficSignalState" and name == "trafficSignalId") return std::to_string(r.i(1, 9));
    if (owner == "TrafficSignalState" and name == "state") return "green";
    if (owner == "TrafficSignalController" and name == "name") return cat("controller", controllers++);
    if (owner == "Phase" and name == "name") return cat("phase", phases++);
    if (name == "trafficSignalControllerRef") return "controller0";
    if (name == "phase" or name == "phaseRef") return "phase0";
    if (owner == "TrafficSignalStateAction" and name == "name") return "11";
    if (owner == "TrafficSignalStateAction" and name == "state") return "red";
    return std::nullopt;
  }
  std::string element_name = "the_first_story";
  int stories = 0, entities = 0, controllers = 0, phases = 0;
  void fill(pugi::xml_node n, const Type & t)
  {
    in.push_back(t.name);
    --budget;
    for (auto & a : t.attributes)
      if (a.required or strict().count(t.name + "@" + a.name) or r.chance(.35)) n.append_attribute(a.name.c_str()) = value(t.name, a.name, a.type).c_str();
    for (auto & p : t.content) put(n, t, p);
    if (t.name == "TrafficSignalController") {
      // a delay is counted from another controller
      n.remove_attribute("delay"), n.remove_attribute("reference");
      if (controllers > 1 and r.chance(.4)) {
        auto sum = [](pugi::xml_node c) { double s = 0; for (auto p : c.children("Phase")) s += p.attribute("duration").as_double(); return s; };
        auto first = n.parent().child("TrafficSignalController");
        if (sum(first) == sum(n)) n.append_attribute("delay") = "1", n.append_attribute("reference") = "controller0";
      }
    }
    if (t.name == "ParameterDeclaration") {
      const std::string k = n.attribute("parameterType").value();
      n.attribute("value") = k == "boolean" ? "true" : k == "dateTime" ? "2026-01-02T03:04:05" : k == "string" ? "text" : k == "double" ? "1.5" : "7";
    }
    if (t.text and r.chance(.5)) n.append_child(pugi::node_pcdata).set_value("some text");
    in.pop_back();
  }
  bool allowed(const std::string & owner, const Particle & p) const
  {
    if (p.kind == 'e') return not unsupported_elements().count(owner + "/" + p.name) and not unsupported_elements().count("*/" + p.name) and not unsupported_types().count(p.type);
    for (auto & k : p.kids) { const bool a = allowed(owner, k); if (p.kind == 'c' ? a : not a and k.min) return p.kind == 'c'; }
    return p.kind != 'c';
  }
  void put(pugi::xml_node n, const Type & t, const Particle & p)
  {
    long count = p.min;
    if (p.kind == 'e' and strict().count(t.name + "/" + p.name)) count = std::max(1l, count);
    else if (p.kind == 'e' and without().count(t.name + "/" + p.name)) { if (p.min == 0) return; }
    if (not allowed(t.name, p)) { if (p.min == 0) return; }
    else if (count < p.max and (budget > 0 or schema().depth(p) + 1 < 3)) {
      const double more = p.max > 1 ? .6 : .5;
      while (count < std::min(p.max, p.min + 3) and r.chance(in.size() > 12 ? more / 4 : more * .8)) ++count;
    }
    if ((t.name == "Entities" and p.name == "ScenarioObject") or (t.name == "RoadNetwork" and p.name == "TrafficSignals") or (t.name == "TrafficSignals" and p.name == "TrafficSignalController") or (t.name == "TrafficSignalController" and p.name == "Phase") or (t.name == "Storyboard" and p.name == "Story")) count = std::max(1l, count);
    if (single().count(t.name + "/" + p.name)) count = std::min(1l, count);
    for (long i = 0; i < count; ++i) {
      if (p.kind == 'e') {
        auto c = n.append_child(p.name.c_str());
        auto ty = schema().types.find(p.type);
        if (ty != schema().types.end()) fill(c, ty->second);
        else c.append_child(pugi::node_pcdata).set_value("text");
      } else if (p.kind == 'c') {
        std::vector<const Particle *> ok;
        for (auto & k : p.kids) if (allowed(t.name, k)) ok.push_back(&k);
        if (ok.empty()) for (auto & k : p.kids) ok.push_back(&k);
        if (budget <= 0 or in.size() > 18) {
          long best = many;
          for (auto * k : ok) best = std::min(best, schema().depth(*k));
          ok.erase(std::remove_if(ok.begin(), ok.end(), [&](auto * k) { return schema().depth(*k) > best; }), ok.end());
        }
        if (t.name == "ScenarioObject" and entities == 1)   // the entity every reference names can act
          ok.erase(std::remove_if(ok.begin(), ok.end(), [&](auto * k) { return element(*k, "MiscObject") and not element(*k, "Vehicle"); }), ok.end());
        put(n, t, *r.pick(ok));
      } else for (auto & k : p.kids) put(n, t, k);
    }
  }
};

// ---- reading -------------------------------------------------------------------------------
struct Outcome { bool accepted = false, diagnosed = true; std::string kind, message, json; };
Outcome attempt(const std::string & path)
{
  Outcome o;
  alarm(30);
  try {
    openscenario_interpreter::OpenScenario s{std::filesystem::path(path)};
    boost::json::object j;
    j << s;
    o.json = boost::json::serialize(j);
    o.accepted = true;
  } catch (const openscenario_interpreter::Error & e) { o.kind = vh::type_name(typeid(e)), o.message = e.what(); }
  catch (const std::exception & e) { o.kind = vh::type_name(typeid(e)), o.message = e.what(), o.diagnosed = false; }
  alarm(0);
  return o;
}
std::string text_of(const pugi::xml_node & n) { std::ostringstream o; n.print(o, "", pugi::format_raw); return o.str(); }
Outcome attempt(const pugi::xml_document & d)
{
  const std::string path = interp::scratch() + "/doc/a.xosc";
  interp::write(path, text_of(d));
  return attempt(path);
}
// The schema type of every node of a document drawn from the schema.
void types_of(pugi::xml_node n, const Type * t, std::vector<std::pair<pugi::xml_node, const Type *>> & out)
{
  if (not t) return;
  out.push_back({n, t});
  std::map<std::string, std::string> kids;
  std::function<void(const Particle &)> walk = [&](const Particle & p) { if (p.kind == 'e') kids[p.name] = p.type; for (auto & k : p.kids) walk(k); };
  for (auto & p : t->content) walk(p);
  for (auto c : n.children()) {
    auto k = kids.find(c.name());
    if (k == kids.end()) continue;
    auto ty = schema().types.find(k->second);
    if (ty != schema().types.end()) types_of(c, &ty->second, out);
  }
}
std::string make_document(Rng & r, pugi::xml_document & d)
{
  d.reset();
  Maker m{r};
  m.budget = r.i(30, 120);
  auto root = d.append_child("OpenSCENARIO");
  auto type = [](const char * n) -> const Type & { return schema().types.at(n); };
  m.fill(root.append_child("FileHeader"), type("FileHeader"));
  if (r.chance(.5)) m.fill(root.append_child("ParameterDeclarations"), type("ParameterDeclarations"));
  m.fill(root.append_child("CatalogLocations"), type("CatalogLocations"));
  m.fill(root.append_child("RoadNetwork"), type("RoadNetwork"));
  m.fill(root.append_child("Entities"), type("Entities"));
  m.budget = r.i(30, 160);
  m.fill(root.append_child("Storyboard"), type("Storyboard"));
  return text_of(d);
}
void names_in_order(pugi::xml_node n, const boost::json::value & j, std::string & difference)
{
  // the published storyboard lists the named elements in document order
  static const std::map<std::string, std::string> kids{{"Storyboard", "Story"}, {"Story", "Act"}, {"Act", "ManeuverGroup"}, {"ManeuverGroup", "Maneuver"}, {"Maneuver", "Event"}, {"Event", "Action"}};
  auto k = kids.find(n.name());
  if (k == kids.end() or not difference.empty()) return;
  std::vector<pugi::xml_node> want;
  for (auto c : n.children(k->second.c_str())) want.push_back(c);
  auto * list = j.is_object() and j.as_object().contains(k->second) and j.at(k->second).is_array() ? &j.at(k->second).as_array() : nullptr;
  if (not list or list->size() != want.size()) { difference = cat(n.name(), " ", n.attribute("name").value(), " has ", want.size(), " ", k->second, " and publishes ", list ? cat(list->size()) : "none"); return; }
  for (size_t i = 0; i < want.size(); ++i) {
    if (auto * o = list->at(i).if_object(); o and o->contains("name") and o->at("name").is_string() and std::string(o->at("name").as_string()) != want[i].attribute("name").value()) { difference = cat(n.name(), "'s ", i, "th ", k->second, " is ", want[i].attribute("name").value(), " and published as ", std::string(o->at("name").as_string())); return; }
    names_in_order(want[i], list->at(i), difference);
  }
}

bool allowed_alternative(const std::string & owner, const Particle & p) { return not unsupported_types().count(p.type) and not unsupported_elements().count(owner + "/" + p.name); }
void schema_round(Rng & r, long number)
{
  pugi::xml_document d;
  const std::string text = make_document(r, d);
  vh::current(cat("round ", number, " ", text));
  auto first = attempt(d);
  vh::count("documents");
  if (not first.accepted) {
    if (first.message.find("not supported yet") != std::string::npos) { vh::count("documents with unsupported parts"); vh::count(cat("unsupported: ", first.message.substr(0, first.message.find(" not supported yet")))); return; }
    if (first.kind.find("SyntaxError") == std::string::npos) vh::count(cat("refused: ", first.kind));
    vh::fail(cat("valid-document-refused ", first.message.substr(0, 160)), cat("round ", number, ": ", first.kind, ": ", first.message.substr(0, 300), "\n", text));
    return;
  }
  vh::count("documents accepted");
  vh::observed(text);
  {
    std::string difference;
    auto j = boost::json::parse(first.json);
    auto & root = j.at("OpenSCENARIO");
    names_in_order(d.child("OpenSCENARIO").child("Storyboard"), root.is_object() and root.as_object().contains("Storyboard") ? root.at("Storyboard") : boost::json::value(), difference);
    if (not difference.empty()) vh::fail("children-not-in-order", cat("round ", number, ": ", difference, "\n", text));
  }
  std::vector<std::pair<pugi::xml_node, const Type *>> nodes;
  const int changes = int(vh::n(12, 24));
  for (int i = 0; i < changes; ++i) {
    pugi::xml_document e;
    e.reset(d);
    auto root = e.child("OpenSCENARIO");
    nodes.clear();
    for (auto c : root.children()) { auto t = schema().types.find(c.name()); if (t != schema().types.end()) types_of(c, &t->second, nodes); }
    auto [n, t] = r.pick(nodes);
    std::string change, what, must_name;
    enum { accept, refuse, either } verdict = either;
    const int k = int(r.i(0, 5));
    if (k <= 1 and not t->attributes.empty()) {
      auto & a = r.pick(t->attributes);
      if (not n.attribute(a.name.c_str())) continue;
      what = cat(t->name, "@", a.name);
      if (k == 0) {
        n.remove_attribute(a.name.c_str());
        change = cat("without ", what), must_name = a.name;
        verdict = a.required ? refuse : accept;
      } else {
        std::string bad;
        if (schema().enums.count(a.type)) bad = r.chance(.5) ? "noSuchValue" : std::string(n.attribute(a.name.c_str()).value()) + "x";
        else if (a.type == "Double" or a.type == "Int" or a.type == "UnsignedInt" or a.type == "UnsignedShort" or a.type == "Boolean") bad = r.chance(.5) ? "seven" : r.chance(.5) ? "1..5" : "$no_such_parameter";
        else continue;
        if (special_value(t->name, a.name)) continue;
        n.attribute(a.name.c_str()) = bad.c_str();
        change = cat(what, " of '", bad, "'"), what += "=", must_name = bad[0] == '$' ? bad.substr(1) : bad, verdict = refuse;
      }
    } else if (k <= 3) {
      std::vector<pugi::xml_node> kids;
      for (auto c : n.children()) if (c.type() == pugi::node_element) kids.push_back(c);
      if (kids.empty()) continue;
      auto c = r.pick(kids);
      const std::string name = c.name();
      const Particle * p = nullptr;
      for (auto & q : t->content) if (not p) p = element(q, name);
      if (not p) continue;
      long same = 0;
      for (auto & x : kids) same += name == x.name();
      // is the element an alternative of a choice?
      const Particle * choice = nullptr;
      std::function<void(const Particle &)> find = [&](const Particle & q) { if (q.kind == 'c' and element(q, name)) choice = &q; for (auto & z : q.kids) find(z); };
      for (auto & q : t->content) find(q);
      what = cat(t->name, "/", name);
      if (k == 2) {
        n.remove_child(c);
        change = cat("without ", what);
        if (choice) { if (choice->max > 1 or same > 1) continue; verdict = choice->min ? refuse : accept, must_name = name; }
        else verdict = same - 1 < p->min ? refuse : accept, must_name = name;
        if (not choice and same > 1 and same - 1 < p->min) verdict = refuse;
      } else {
        if (choice and choice->max == 1) {
          // another alternative beside it
          std::vector<const Particle *> others;
          for (auto & z : choice->kids) if (z.kind == 'e' and z.name != name and allowed_alternative(t->name, z)) others.push_back(&z);
          if (others.empty()) continue;
          auto * o = r.pick(others);
          auto x = r.chance(.5) ? n.insert_child_before(o->name.c_str(), c) : n.insert_child_after(o->name.c_str(), c);
          Maker m{r};
          m.budget = 0, m.names = 900, m.entities = 900;
          auto ty = schema().types.find(o->type);
          if (ty != schema().types.end()) m.fill(x, ty->second);
          what = cat(t->name, "/", name, "|", o->name), change = cat("two alternatives ", what), must_name = name, verdict = refuse;
        } else if (not choice and p->max > 1) {
          n.insert_copy_after(c, c);
          std::string s;
          what += " twice", change = what;
          if (c.attribute("name")) c.attribute("name") = cat("copy_of_", c.attribute("name").value(), number).c_str();
          verdict = accept;
          if (p->max < same + 1) verdict = refuse, must_name = name;
        } else continue;
      }
    } else if (k == 4) {
      // order is free among the children of an `all` group
      if (t->content.size() != 1 or t->content[0].kind != 'a') continue;
      std::vector<pugi::xml_node> kids;
      for (auto c : n.children()) kids.push_back(c);
      if (kids.size() < 2) continue;
      n.prepend_move(kids.back());
      what = cat(t->name, " reordered"), change = what, verdict = accept;
    } else {
      n.append_child(pugi::node_comment).set_value(" a remark ");
      what = cat(t->name, " with a comment"), change = what, verdict = accept;
    }
    if (verdict == either) continue;
    const std::string key = what.substr(0, what.find(' '));
    if (strict().count(what) or tolerated().count(what) or tolerated().count("*" + what.substr(std::min(what.size(), what.find_first_of("@/"))))) { vh::count("changes not judged"); continue; }
    vh::current(cat("round ", number, " ", change, " ", text_of(e)));
    auto o = attempt(e);
    vh::count(verdict == accept ? "changes to accept" : "changes to refuse");
    vh::observed(cat(verdict, what));
    if (not o.diagnosed) { vh::fail(cat("no-diagnosis ", what), cat("round ", number, ": ", change, " ends in ", o.kind, ": ", o.message, "\n", text_of(n))); continue; }
    if (o.accepted != (verdict == accept)) {
      if (verdict == accept and o.message.find("not supported yet") != std::string::npos) continue;
      vh::fail(cat(o.accepted ? "accepted " : "refused ", what), cat("round ", number, ": ", change, o.accepted ? " is accepted" : cat(" is refused: ", o.message.substr(0, 300)), " in ", n.path(), "\n", text_of(n)));
    } else if (verdict == refuse and o.message.find(must_name) == std::string::npos)
      vh::fail(cat("unnamed ", what), cat("round ", number, ": ", change, " is refused without naming ", must_name, ": ", o.message.substr(0, 300)));
  }
  if (number < 4) vh::sample(text.substr(0, 380));
}

// ---- the reader functions ------------------------------------------------------------------
namespace osi = openscenario_interpreter;
struct Probe { std::string id; template <typename S> Probe(const pugi::xml_node & n, S &&) : id(n.attribute("id").value()) {} };
struct Optional : Probe { using Probe::Probe; Optional() : Probe(pugi::xml_node(), 0) { id = "default"; } };
template <long Min, long Max>
void counts(const pugi::xml_node & n, const std::string & name, const std::vector<std::string> & ids, const std::string & text, osi::Scope & scope)
{
  const bool ok = long(ids.size()) >= Min and long(ids.size()) <= Max;
  std::vector<std::string> got;
  std::string why;
  bool refused = false;
  try { for (auto & p : osi::readElements<Probe, Min, Max>(name, n, scope)) got.push_back(p.id); }
  catch (const osi::SyntaxError & e) { refused = true, why = e.what(); }
  vh::count("readElements calls"), vh::observed(cat(Min, Max, ids.size()));
  if (refused == ok) vh::fail(ok ? "readElements-refuses" : "readElements-accepts", cat(ids.size(), " of ", Min, "..", Max, " ", text, why));
  else if (ok and got != ids) vh::fail("readElements-order", text);
  else if (refused and (why.find(name) == std::string::npos or why.find(n.name()) == std::string::npos)) vh::fail("readElements-unnamed", why);
}
void reader_round(Rng & r)
{
  static osi::Scope scope(static_cast<const osi::OpenScenario *>(nullptr));
  pugi::xml_document d;
  auto n = d.append_child("Parent");
  const std::vector<std::string> names{"A", "B", "Aa", "C", "a"};
  std::map<std::string, std::vector<std::string>> ids;
  const int k = int(r.i(0, 6));
  for (int i = 0; i < k; ++i) {
    if (r.chance(.15)) { n.append_child(r.chance(.5) ? pugi::node_comment : pugi::node_pcdata).set_value("A"); }
    const auto name = r.pick(names);
    auto c = n.append_child(name.c_str());
    const auto id = cat("i", i);
    c.append_attribute("id") = id.c_str();
    if (r.chance(.2)) c.append_child("A").append_attribute("id") = "inner";
    ids[name].push_back(id);
  }
  const auto text = text_of(d);
  vh::current(text);
  for (auto & name : names) {
    auto & l = ids[name];
    counts<0, 1>(n, name, l, text, scope), counts<0, 2>(n, name, l, text, scope), counts<0, osi::unbounded>(n, name, l, text, scope), counts<1, 1>(n, name, l, text, scope), counts<1, osi::unbounded>(n, name, l, text, scope);
    counts<2, 3>(n, name, l, text, scope), counts<2, osi::unbounded>(n, name, l, text, scope), counts<3, 3>(n, name, l, text, scope), counts<1, 2>(n, name, l, text, scope);
    try {
      auto p = osi::readElement<Probe>(name, n, scope);
      if (l.empty()) vh::fail("readElement-accepts", cat(name, " of ", text)); else if (p.id != l[0]) vh::fail("readElement-other", text);
    } catch (const osi::SyntaxError & e) { if (not l.empty()) vh::fail("readElement-refuses", text); else if (std::string(e.what()).find(name) == std::string::npos) vh::fail("readElement-unnamed", e.what()); }
    try { if (auto p = osi::readElement<Optional>(name, n, scope); p.id != (l.empty() ? "default" : l[0])) vh::fail("readElement-optional", text); } catch (const std::exception & e) { vh::fail("readElement-optional", e.what()); }
  }
  // exactly one of the alternatives
  std::unordered_map<std::string, std::function<osi::Object(const pugi::xml_node &)>> table;
  std::string chosen;
  long present = 0;
  std::vector<std::string> offered;
  for (auto & name : names) if (r.chance(.5)) { offered.push_back(name), present += not ids[name].empty(); table[name] = [&chosen, name](const pugi::xml_node & c) { chosen = cat(name, c.attribute("id").value()); return osi::Object(); }; }
  if (offered.empty()) return;
  std::string why;
  bool refused = false;
  try { osi::choice(n, table); } catch (const osi::SyntaxError & e) { refused = true, why = e.what(); }
  vh::count("choices"), vh::observed(cat("choice ", offered.size(), present));
  std::string list;
  for (auto & o : offered) list += o + " ";
  if (refused != (present != 1)) vh::fail(refused ? "choice-refuses" : "choice-accepts", cat(list, "of ", text, why));
  else if (refused and not chosen.empty()) vh::fail("choice-reads-refused", text);
  else if (not refused) { for (auto & o : offered) if (not ids[o].empty() and chosen != o + ids[o][0]) vh::fail("choice-other", cat(chosen, " of ", text)); }
  else { for (auto & o : offered) if ((present == 0 or not ids[o].empty()) and why.find(o) == std::string::npos) vh::fail("choice-unnamed", why); }
}

// ---- hostile documents ---------------------------------------------------------------------
void hostile_round(Rng & r, long number, const std::vector<std::string> & seeds)
{
  std::string text;
  pugi::xml_document d;
  if (seeds.empty() or r.chance(.6)) text = make_document(r, d); else text = r.pick(seeds);
  const std::vector<std::string> values{"", " ", "$", "${", "${}", "$nothing", "${1/0}", "${$a + }", "-", "nan", "inf", "-1", "0", "1e999", "99999999999999999999", "true", "\xff\xfe", "a b", "@v2", "entity0", "n1", "::", ".", "..", "/", "%s%n", "FaultInjectionAction@v2(x)", "FaultInjectionAction@v2()", "V2ITrafficSignalStateAction(1)", "PseudoTrafficSignalDetectorConfidenceSetAction@v1(a, b)", "RequestToCooperateCommandAction@v1", "WalkStraightAction(", "dummyLongRunningAction", "printParameter(a", std::string(2000, 'x'), "RelativeHeadingCondition(entity0, 1)", "entity0.currentState == x", "currentMinimumRiskManeuverState.behavior", "()", "((((", "a(b)(c)"};
  if (r.chance(.75)) {   // changes to the tree
    if (not d.child("OpenSCENARIO") and not d.load_string(text.c_str())) return;
    const int k = int(r.i(1, 4));
    for (int i = 0; i < k; ++i) {
      std::vector<pugi::xml_node> all;
      std::function<void(pugi::xml_node)> walk = [&](pugi::xml_node n) { for (auto c : n.children()) if (c.type() == pugi::node_element) all.push_back(c), walk(c); };
      walk(d);
      if (all.empty()) break;
      auto n = r.pick(all);
      std::vector<pugi::xml_attribute> as;
      for (auto a : n.attributes()) as.push_back(a);
      switch (r.i(0, 8)) {
        case 0: n.parent().remove_child(n); break;
        case 1: n.parent().insert_copy_after(n, n); break;
        case 2: n.set_name(r.pick(all).name()); break;
        case 3: if (not as.empty()) n.remove_attribute(r.pick(as)); break;
        case 4: case 5: case 6: if (not as.empty()) { auto a = r.pick(as); if (std::string(a.name()) != "filepath" and std::string(a.name()) != "path") a = r.pick(values).c_str(); } break;
        case 7: { auto m = r.pick(all); bool inside = false; for (auto x = m; x; x = x.parent()) inside |= x == n; if (not inside) m.append_copy(n); break; }
        default: if (not as.empty()) { auto x = n.append_child(r.pick(all).name()); x.append_attribute(r.pick(as).name()) = r.pick(values).c_str(); }
      }
    }
    text = text_of(d);
  } else {   // changes to the bytes
    const int k = int(r.i(1, 6));
    for (int i = 0; i < k and not text.empty(); ++i) {
      const size_t at = size_t(r.i(0, long(text.size()) - 1)), len = size_t(r.i(1, 40));
      switch (r.i(0, 4)) {
        case 0: text.resize(at); break;
        case 1: text.erase(at, len); break;
        case 2: text.insert(at, text.substr(size_t(r.i(0, long(text.size()) - 1)), len)); break;
        case 3: text[at] = char(r.i(0, 255)); break;
        default: { const std::string s{"<>\"'&;$={}()/ \0"}; text[at] = s[size_t(r.i(0, long(s.size()) - 1))]; }
      }
    }
  }
  // nothing outside the scratch directory is read through a document
  vh::current(cat("hostile ", number, " ", text));
  const std::string path = interp::scratch() + "/doc/h.xosc";
  interp::write(path, text);
  const auto o = attempt(path);
  vh::count(o.accepted ? "hostile documents accepted" : "hostile documents refused");
  vh::observed(cat("h", o.kind, o.message.substr(0, 40)));
  if (not o.diagnosed or (not o.accepted and o.message.empty())) vh::fail(cat("no-diagnosis ", o.kind, " ", o.message.substr(0, 50)), cat("hostile ", number, ": ", o.kind, ": ", o.message.substr(0, 200), "\n", text.substr(0, 6000)));
}
}  // namespace
int main(int c, char ** v)
{
  vh::init(c, v);
  interp::prepare();
  interp::reset_world();
  fs::create_directories(interp::scratch() + "/empty");
  const std::string & only = vh::st().only;
  const std::string part = vh::st().part;
  if (part == "all" or part == "reader") { Rng r(vh::st().seed * 77 + 1); for (long i = 0; i < long(vh::n(8000, 100000)); ++i) reader_round(r); }
  if (part == "all" or part == "schema")
    for (long i = 0; i < long(vh::n(700, 15000)); ++i) {
      if (not only.empty() and std::atol(only.c_str()) != i) continue;
      Rng r(vh::st().seed * 1000003 + i * 31);
      schema_round(r, i);
    }
  if (part == "all" or part == "hostile")
    for (long i = 0; i < long(vh::n(5000, 100000)); ++i) {
      if (not only.empty() and std::atol(only.c_str()) != i) continue;
      Rng r(vh::st().seed * 1000033 + i * 37);
      hostile_round(r, i, {});
    }
  vh::finish();
}
