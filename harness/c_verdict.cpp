// C31: the verdict of a run.  A node goes through random life-cycle orders with random
// scenarios (calls for success and failure, faults of every kind at every step, malformed
// documents); after every operation its result file is compared with the verdicts due.
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <openscenario_interpreter/openscenario_interpreter.hpp>
#include <pugixml.hpp>
#include <rclcpp/rclcpp.hpp>
#include "interp.hpp"
#include "vh.hpp"
using vh::cat;
using vh::Rng;
namespace
{
namespace fs = std::filesystem;
struct Verdict { std::string what, kind, text; };   // pass | failure | error, its type, what its message contains
std::string show(const Verdict & v) { return v.what == "pass" ? "pass" : cat(v.what, "(", v.kind, ": ", v.text.substr(0, 160), ")"); }

// ---- faults --------------------------------------------------------------------------------
const std::vector<std::string> faults{"AutowareError", "SemanticError", "SimulationError", "SyntaxError", "Error", "SpecificationViolation", "runtime_error", "out_of_range", "bad_alloc", "int", "text"};
[[noreturn]] void raise_fault(const std::string & f, const std::string & m)
{
  if (f == "AutowareError") throw common::AutowareError(m);
  if (f == "SemanticError") throw common::SemanticError(m);
  if (f == "SimulationError") throw common::SimulationError(m);
  if (f == "SyntaxError") throw common::SyntaxError(m);
  if (f == "Error") throw openscenario_interpreter::Error(m);
  if (f == "SpecificationViolation") throw common::SpecificationViolation(m);
  if (f == "runtime_error") throw std::runtime_error(m);
  if (f == "out_of_range") throw std::out_of_range(m);
  if (f == "bad_alloc") throw std::bad_alloc();
  if (f == "int") throw 42;
  throw m;
}
Verdict verdict_of_fault(const std::string & f, const std::string & m)
{
  if (f == "AutowareError" or f == "SemanticError" or f == "SimulationError" or f == "SyntaxError") return {"error", f, m};
  if (f == "int" or f == "text") return {"error", "UnknownError", ""};
  return {"error", "InternalError", f == "bad_alloc" ? "bad_alloc" : m};
}

// ---- scenarios -----------------------------------------------------------------------------
struct Call { double after; std::string what, name, fault; bool named = true; };   // what: success | failure | debug | fault | bad-fault-level | nothing
struct Plan
{
  std::string shape;                      // story | init | not-xml | missing-attribute | unknown-element | missing-file | distribution | no-name
  std::vector<Call> calls;
  std::optional<std::pair<long, std::string>> update_fault;   // at which update, which kind
  bool construct_fault = false, close_fault = false, stop = false;
  double stop_after = 0;
  std::string kind_of_construct;
};
std::string action(const Call & c)
{
  if (c.what == "unknown") return "<Happening/>";
  if (c.what == "fault") return "<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsDimension=\"time\" dynamicsShape=\"step\" value=\"0\"/><SpeedActionTarget><AbsoluteTargetSpeed value=\"3\"/></SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>";
  const std::string t = c.what == "success" ? "exitSuccess" : c.what == "failure" ? "exitFailure" : c.what == "debug" ? "debugError" : c.what == "bad-fault-level" ? "FaultInjectionAction@v2(LOUD, x)" : ":";
  return cat("<UserDefinedAction><CustomCommandAction type=\"", t, "\"/></UserDefinedAction>");
}
std::string document(const Plan & p)
{
  if (p.shape == "not-xml") return "<?xml version=\"1.0\"?><OpenSCENARIO><FileHeader";
  std::string o = cat("<?xml version=\"1.0\"?><OpenSCENARIO><FileHeader revMajor=\"1\" revMinor=\"1\" date=\"2026-01-01T00:00:00\" description=\"x\" author=\"v\"/>");
  if (p.shape == "distribution")
    return o + "<ParameterValueDistribution><ScenarioFile filepath=\"a.xosc\"/><Deterministic><DeterministicSingleParameterDistribution parameterName=\"p\"><DistributionSet><Element value=\"1\"/></DistributionSet></DeterministicSingleParameterDistribution></Deterministic></ParameterValueDistribution></OpenSCENARIO>";
  o += cat("<ParameterDeclarations/><CatalogLocations/><RoadNetwork><LogicFile filepath=\"", interp::map_dir(), "\"/></RoadNetwork><Entities>");
  o += cat("<ScenarioObject ", p.shape == "no-name" ? "" : "name=\"car0\"", "><Vehicle name=\"c\" vehicleCategory=\"car\"><Performance maxSpeed=\"50\" maxAcceleration=\"10\" maxDeceleration=\"10\"/><BoundingBox><Center x=\"1\" y=\"0\" z=\"1\"/><Dimensions width=\"2\" length=\"4\" height=\"1.5\"/></BoundingBox><Axles><FrontAxle maxSteering=\"0.5\" wheelDiameter=\"0.6\" trackWidth=\"1.7\" positionX=\"3\" positionZ=\"0.3\"/><RearAxle maxSteering=\"0.5\" wheelDiameter=\"0.6\" trackWidth=\"1.7\" positionX=\"0\" positionZ=\"0.3\"/></Axles><Properties/></Vehicle></ScenarioObject></Entities>");
  o += "<Storyboard><Init><Actions>";
  if (p.shape == "init") for (auto & c : p.calls) if (c.what != "fault") o += action(c);
  o += "<Private entityRef=\"car0\"><PrivateAction><TeleportAction><Position><LanePosition laneId=\"1\" s=\"5\" offset=\"0\"/></Position></TeleportAction></PrivateAction></Private></Actions></Init>";
  auto trigger = [](const std::string & name, double t) { return cat("<ConditionGroup><Condition name=\"", name, "\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><SimulationTimeCondition value=\"", t, "\" rule=\"greaterThan\"/></ByValueCondition></Condition></ConditionGroup>"); };
  o += cat("<Story name=\"the_story\"><Act name=\"the_act\"><ManeuverGroup name=\"the_group\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"car0\"/></Actors><Maneuver name=\"the_maneuver\">");
  
  if (p.shape == "story")
    for (auto & c : p.calls)
      o += cat("<Event name=\"", c.name, "\" priority=\"parallel\" maximumExecutionCount=\"1\"><Action name=\"a\">", action(c), "</Action><StartTrigger>", c.what == "undeclared" ? std::string("<ConditionGroup><Condition name=\"u\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><ParameterCondition parameterRef=\"no_such_parameter\" value=\"1\" rule=\"equalTo\"/></ByValueCondition></Condition></ConditionGroup>") : trigger(c.named ? "because_" + c.name : "", c.after), "</StartTrigger></Event>");
  else
    o += cat("<Event name=\"e\" priority=\"parallel\" maximumExecutionCount=\"1\"><Action name=\"a\">", action(p.shape == "unknown-element" ? Call{0, "unknown", "", ""} : Call{0, "nothing", "", ""}), "</Action><StartTrigger>", trigger("c", 1e6), "</StartTrigger></Event>");
  o += cat("</Maneuver></ManeuverGroup><StartTrigger>", trigger("go", -1), "</StartTrigger></Act></Story>");
  o += p.shape == "missing-attribute" ? "<StopTrigger><ConditionGroup><Condition name=\"x\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><SimulationTimeCondition rule=\"greaterThan\"/></ByValueCondition></Condition></ConditionGroup></StopTrigger>"
       : p.stop ? cat("<StopTrigger>", trigger("halt", p.stop_after), "</StopTrigger>") : std::string("<StopTrigger/>");
  return o + "</Storyboard></OpenSCENARIO>";
}
Plan make(Rng & r)
{
  Plan p;
  const int k = int(r.i(0, 99));
  p.shape = k < 62 ? "story" : k < 78 ? "init" : k < 81 ? "not-xml" : k < 84 ? "missing-attribute" : k < 87 ? "unknown-element" : k < 90 ? "missing-file" : k < 94 ? "distribution" : "no-name";
  const std::vector<std::string> whats{"success", "success", "failure", "failure", "debug", "fault", "bad-fault-level", "nothing", "undeclared"};
  const int n = int(r.i(1, 3));
  double together = .05 * double(r.i(1, 20)) + .025;
  for (int i = 0; i < n; ++i) {
    Call c;
    c.what = r.pick(whats);
    if (p.shape == "init" and c.what == "fault") c.what = "nothing";
    c.after = r.chance(.3) ? together : .05 * double(r.i(1, 20)) + .025;
    if (c.what == "undeclared") { if (p.shape == "init" or r.chance(.7)) c.what = "nothing"; else c.after = -1; }
    c.name = cat("event_", i), c.named = r.chance(.7);
    c.fault = r.pick(faults);
    p.calls.push_back(c);
  }
  if (r.chance(.25)) p.update_fault = {r.i(1, 24), r.pick(faults)};
  if (r.chance(.05)) p.construct_fault = true, p.kind_of_construct = r.pick(faults);
  if (r.chance(.1)) p.close_fault = true;
  if (r.chance(.1)) p.stop = true, p.stop_after = .05 * double(r.i(1, 20)) + .025;
  return p;
}

// ---- the result file -----------------------------------------------------------------------
struct Case { long cases = 0; std::vector<Verdict> verdicts; };
struct File { bool present = false, wellformed = false; std::map<std::string, Case> cases; std::map<std::string, long> tests, failures, errors; };
File read(const std::string & path)
{
  File f;
  const auto t = interp::slurp(path);
  f.present = not t.empty();
  pugi::xml_document d;
  f.wellformed = f.present and d.load_buffer(t.data(), t.size());
  if (not f.wellformed) return f;
  for (auto s : d.child("testsuites").children("testsuite")) {
    const std::string suite = s.attribute("name").value();
    f.tests[suite] = s.attribute("tests").as_llong(-1), f.failures[suite] = s.attribute("failures").as_llong(-1), f.errors[suite] = s.attribute("errors").as_llong(-1);
    for (auto c : s.children("testcase")) {
      auto & x = f.cases[cat(suite, "/", c.attribute("name").value())];
      ++x.cases;
      for (auto e : c.children()) if (e.type() == pugi::node_element) x.verdicts.push_back({e.name(), e.attribute("type").value(), e.attribute("message").value()});
    }
  }
  return f;
}

struct Driver
{
  Rng & r;
  long number;
  std::string text;            // what was done
  std::shared_ptr<openscenario_interpreter::Interpreter> node;
  std::string out, kind_now, message_now;
  std::map<std::string, std::vector<Verdict>> due;    // by suite/case
  std::string state = "unconfigured";
  long runs = 0, updates = 0, spins = 0;
  bool over = false;

  void bad(const std::string & key, const std::string & why) { if (not over) vh::fail(key, cat("round ", number, ": ", why, "\n", text)); over = true; }
  void expect_state(const std::string & s, const std::string & where)
  {
    state = s;
    const auto is = node->get_current_state().label();
    if (is != s) bad("life-cycle", cat("after ", where, " the node is ", is, " and not ", s));
  }
  void check_file(const std::string & where)
  {
    if (over) return;
    vh::count("result files compared");
    const auto f = read(out + "/result.junit.xml");
    if (due.empty()) { if (f.present) bad("verdict-from-nowhere", cat("after ", where, " there is a result although no run has a verdict: ", interp::slurp(out + "/result.junit.xml"))); return; }
    if (not f.wellformed) return bad("no-result", cat("after ", where, " there is no readable result"));
    std::map<std::string, std::array<long, 3>> sums;
    for (auto & [name, vs] : due) {
      auto & s = sums[name.substr(0, name.find('/'))];
      s[0] += long(vs.size());
      auto it = f.cases.find(name);
      if (it == f.cases.end()) return bad("no-verdict", cat("after ", where, " nothing is reported for ", name, ", due: ", show(vs.back())));
      if (it->second.cases != 1) return bad("repeated-case", name);
      // the file lists a case's errors before its failures, each in the order of the runs
      std::vector<Verdict> want;
      for (auto & v : vs) if (v.what == "error") want.push_back(v), ++s[2];
      for (auto & v : vs) if (v.what == "failure") want.push_back(v), ++s[1];
      auto & have = it->second.verdicts;
      auto list = [](const std::vector<Verdict> & l) { std::string o; for (auto & v : l) o += show(v) + "; "; return o; };
      bool same = want.size() == have.size();
      for (size_t i = 0; same and i < want.size(); ++i)
        same = want[i].what == have[i].what and want[i].kind == have[i].kind and have[i].text.find(want[i].text) != std::string::npos and not have[i].text.empty();
      if (not same) return bad("other-verdict", cat("after ", where, " ", name, " is reported as [", list(have), "], due: [", list(want), "]"));
    }
    for (auto & [name, c] : f.cases) if (not due.count(name)) return bad("verdict-from-nowhere", cat("after ", where, " there is a verdict for ", name));
    for (auto & [suite, s] : sums) {
      auto t = f.tests, fl = f.failures, e = f.errors;
      if (t[suite] != s[0] or fl[suite] != s[1] or e[suite] != s[2])
        return bad("other-count", cat("after ", where, " suite ", suite, " counts ", t[suite], " runs, ", fl[suite], " failures, ", e[suite], " errors; due ", s[0], ", ", s[1], ", ", s[2]));
    }
  }
  // Operations the present state does not offer: nothing may change.
  void disturb()
  {
    if (not r.chance(.15)) return;
    const int k = int(r.i(0, 3));
    const auto s = state;
    if (k == 0 and s != "unconfigured") node->configure(), text += " (configure)";
    else if (k == 1 and s != "inactive") node->activate(), text += " (activate)";
    else if (k == 2 and s != "inactive") node->cleanup(), text += " (cleanup)";
    else if (k == 3 and s != "active") node->deactivate(), text += " (deactivate)";
    else return;
    vh::count("requests out of turn");
    expect_state(s, "a request out of turn");
    check_file("a request out of turn");
  }

  void run(const std::string & suite, const std::string & name)
  {
    const Plan p = make(r);
    const std::string path = cat(interp::scratch(), "/group/", suite, "/", name, ".xosc"), key = cat(suite, "/", name);
    fs::remove(path);
    if (p.shape != "missing-file") interp::write(path, document(p));
    text += cat("\n", key, ": ", p.shape);
    for (auto & c : p.calls) text += cat(" ", c.what, c.what == "fault" ? cat("(", c.fault, ")") : "", p.shape == "story" ? cat("@", c.after) : "");
    if (p.update_fault) text += cat(" update ", p.update_fault->first, " ", p.update_fault->second);
    if (p.construct_fault) text += cat(" construct ", p.kind_of_construct);
    if (p.close_fault) text += " close";
    vh::current(cat("round ", number, text));
    interp::reset_world();
    const std::string token = cat("fault-of-run-", runs++);
    updates = 0;
    bool close_armed = p.close_fault, closing_failed = false;
    std::string fired;
    vworld::on_construct() = [&] { if (p.construct_fault) raise_fault(p.kind_of_construct, token); };
    vworld::on_frame() = [&] { if (++updates; p.update_fault and updates == p.update_fault->first) raise_fault(p.update_fault->second, token); };
    vworld::on_request() = [&](const vworld::Request & q) {
      if (q.what == "despawn_all" and close_armed) { close_armed = false, closing_failed = true; throw std::runtime_error("closing fails"); }
      if (q.what == "speed") { fired += "s"; raise_fault(kind_now, token); }
    };
    vworld::on_close() = nullptr;
    struct Off { ~Off() { vworld::on_frame() = nullptr, vworld::on_request() = nullptr, vworld::on_construct() = nullptr; } } off;
    node->set_parameter(rclcpp::Parameter("osc_path", path));
    node->set_parameter(rclcpp::Parameter("output_directory", out));
    node->set_parameter(rclcpp::Parameter("local_frame_rate", 20.0));
    node->set_parameter(rclcpp::Parameter("publish_empty_context", r.chance(.2)));
    auto give = [&](const Verdict & v) { due[key].push_back(v); vh::count(cat("verdict ", v.what, " ", v.kind)); };
    auto stopped = [&](const std::string & where) { expect_state(closing_failed ? "unconfigured" : "inactive", where); if (closing_failed) vh::count("closing failed"); closing_failed = false; };
    auto after_end = [&](const std::string & where) {
      check_file(where);
      disturb();
      if (over) return;
      if (state == "inactive" and r.chance(.5)) {   // the test runner asks for another activation
        text += " again";
        node->activate();
        expect_state("inactive", "activating a finished run");
        check_file("activating a finished run");
      }
      if (not over and state == "inactive") { node->cleanup(); expect_state("unconfigured", "cleanup"); check_file("cleanup"); }
    };
    disturb();
    if (over) return;
    node->configure();
    if (p.shape != "story" and p.shape != "init") {
      const bool syntax = p.shape != "distribution" and p.shape != "missing-file" and p.shape != "not-xml";
      give({"error", syntax ? "SyntaxError" : p.shape == "distribution" ? "InternalError" : "", ""});
      if (not syntax and p.shape != "distribution") {   // any kind of error
        const auto f = read(out + "/result.junit.xml");
        auto it = f.cases.find(key);
        for (auto & v : it == f.cases.end() ? std::vector<Verdict>() : it->second.verdicts) if (v.what == "error") due[key].back().kind = v.kind;
        if (due[key].back().kind.empty()) due[key].back().kind = "SyntaxError";
      }
      if (p.shape == "distribution") due[key].back().text = "ParameterValueDistribution";
      if (p.shape == "no-name") due[key].back().text = "name";
      if (p.shape == "missing-attribute") due[key].back().text = "value";
      expect_state("unconfigured", "configuring from a malformed document");
      check_file("configuring from a malformed document");
      vh::observed(cat(p.shape)), vh::count(cat("shape ", p.shape));
      return;
    }
    expect_state("inactive", "configure");
    check_file("configure");
    disturb();
    if (over) return;
    if (r.chance(.06)) {   // never started
      text += " never-started";
      if (r.chance(.5)) { node->cleanup(); expect_state("unconfigured", "cleanup"); }
      else { node->shutdown(); expect_state("finalized", "shutdown"); }
      check_file("a run never started");
      return;
    }
    node->activate();
    // What ends the run in the activation, in the order of what happens in it.
    std::optional<Verdict> end;
    if (p.construct_fault) end = verdict_of_fault(p.kind_of_construct, token), vh::count("fault at construction");
    else if (p.update_fault and p.update_fault->first == 1) end = verdict_of_fault(p.update_fault->second, token), vh::count("fault at the first update");
    else if (p.shape == "init")
      for (auto & c : p.calls) {
        if (c.what == "success") end = Verdict{"pass", "", ""};
        if (c.what == "failure") end = Verdict{"failure", "SimulationFailure", "exitFailure\" was triggered by the"};
        if (c.what == "debug") end = Verdict{"error", "InternalError", "custom_command_action"};
        if (c.what == "bad-fault-level") end = Verdict{"error", "InternalError", "LOUD"};
        if (end) break;
      }
    if (end) {
      give(*end);
      if (end->what == "failure") due[key].back().text = "Init";
      // Closing an API that was never constructed does nothing.
      stopped("an activation that ended the run");
      after_end("an activation that ended the run");
      vh::observed(cat("activation ", end->what, end->kind)), vh::count("ended in the activation");
      return;
    }
    expect_state("active", "activate");
    check_file("activate");
    const long patience = r.i(1, 30);
    const bool leave = r.chance(.08);
    rclcpp::executors::SingleThreadedExecutor x;
    x.add_node(node->get_node_base_interface());
    bool halted = false;
    long story_steps = 0;
    for (long step = 1; not over; ++step) {
      if (step > patience) {
        if (leave) {   // the process is told to go while the scenario runs
          text += " shutdown";
          node->shutdown();
          expect_state(closing_failed ? "unconfigured" : "finalized", "shutdown");
          check_file("shutdown of a running scenario");
          vh::count("shut down while running");
          return;
        }
        text += cat(" deactivated@", step);
        node->deactivate();
        give({"failure", "Timeout", "exceeded"});
        stopped("deactivating");
        after_end("deactivating");
        vh::observed(cat("timeout ", step)), vh::count("ended from outside");
        return;
      }
      if (r.chance(.02)) { disturb(); if (over) return; }
      const double t = vworld::state().time;
      // what is due in this step: the evaluation, then the update
      if (not std::isnan(t) and not halted) {
        ++story_steps;
        for (auto & c : p.calls) {
          if (c.what == "nothing" or not (t > c.after) or (p.stop and t > p.stop_after)) continue;
          kind_now = c.fault;
          if (c.what == "success") end = Verdict{"pass", "", ""};
          if (c.what == "failure") end = Verdict{"failure", "SimulationFailure", c.named ? "because_" + c.name : cat("the_story\"].Act[\"the_act\"].ManeuverGroup[\"the_group\"].Maneuver[\"the_maneuver\"].Event[\"", c.name)};
          if (c.what == "debug") end = Verdict{"error", "InternalError", "custom_command_action"};
          if (c.what == "bad-fault-level") end = Verdict{"error", "InternalError", "LOUD"};
          if (c.what == "undeclared") end = Verdict{"error", "SyntaxError", "no_such_parameter"}, vh::count("undeclared parameters");
          if (c.what == "fault") end = verdict_of_fault(c.fault, token);
          break;
        }
        if (p.stop and t > p.stop_after) halted = true;
      }
      if (not end and p.update_fault and updates + 1 == p.update_fault->first) end = verdict_of_fault(p.update_fault->second, token);
      vshim::clock_ns() += 50000000;
      x.spin_some();
      ++spins;
      vh::count("steps");
      if (not end) { expect_state("active", cat("step ", step, " (t=", t, ")")); check_file(cat("step ", step)); continue; }
      give(*end);
      stopped(cat("step ", step, " (t=", t, "), which ended the run"));
      check_file(cat("step ", step, " (t=", t, ")"));
      // nothing goes on afterwards
      const long before = updates;
      for (int i = 0; i < 3 and not over; ++i) { vshim::clock_ns() += 50000000; x.spin_some(); }
      if (updates != before) bad("goes-on", "the world is updated after the end of the run");
      after_end("the run");
      vh::observed(cat("story ", end->what, end->kind, p.calls.size(), " ", step)), vh::count("ended by itself");
      return;
    }
  }
  void round()
  {
    out = cat(interp::scratch(), "/out", number);
    fs::create_directories(out);
    if (vshim::clock_ns() < 0) vshim::clock_ns() = 1000000000;
    node = std::make_shared<openscenario_interpreter::Interpreter>(rclcpp::NodeOptions());
    const int n = int(r.i(1, 4));
    for (int i = 0; i < n and not over and state != "finalized"; ++i) run(cat("suite", r.i(0, 1)), cat("case", r.i(0, 2)));
    if (not over and state != "finalized") { node->shutdown(); expect_state("finalized", "shutdown"); check_file("shutdown"); }
    disturb();
    node.reset();
    if (not over) check_file("the node is gone");
    fs::remove_all(out);
    vh::count("nodes");
    if (number < 4) vh::sample(text.substr(0, 380));
  }
};
}  // namespace
int main(int c, char ** v)
{
  vh::init(c, v);
  interp::prepare();
  const long n = long(vh::n(1500, 20000));
  for (long i = 0; i < n; ++i) {
    if (not vh::st().only.empty() and std::atol(vh::st().only.c_str()) != i) continue;
    Rng r(vh::st().seed * 1000003 + i * 31);
    Driver d{r, i, {}, {}, {}, {}, {}, {}};
    d.round();
  }
  vh::finish();
}
