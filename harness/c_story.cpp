// Random storyboards, run frame by frame in the project's interpreter, judged against a model of
// the life cycle of storyboard elements (part c07), of event priorities (c08) and of triggers
// (c09). The model sees the frame times and the signals the stand-in world gave, nothing else.
#include "interp.hpp"
#include "vh.hpp"
#include <deque>
#include <memory>
#include <nlohmann/json.hpp>
#include <optional>
#include <sstream>
using vh::cat;
using vh::Rng;
namespace
{
enum State { Standby, Start, Running, End, Complete, Skip, Stop };
const char * const label[] = {"standbyState", "startTransition", "runningState", "endTransition", "completeState", "skipTransition", "stopTransition"};
enum Edge { None, Rising, Falling, Either, Sticky };
const char * const edge_label[] = {"none", "rising", "falling", "risingOrFalling", "sticky"};
enum Rule { Greater, GreaterEqual, Less, LessEqual, Equal, NotEqual };
const char * const rule_label[] = {"greaterThan", "greaterOrEqual", "lessThan", "lessOrEqual", "equalTo", "notEqualTo"};
bool holds(Rule r, double a, double b)
{
  switch (r) {
    case Greater: return a > b;
    case GreaterEqual: return a >= b;
    case Less: return a < b;
    case LessEqual: return a <= b;
    case Equal: return a == b;
    default: return a != b;
  }
}
const double step = .05;
struct Element;
struct World;
struct Condition
{
  enum Kind { Signal, Time, Elem, Param } kind;
  Edge edge = None;
  int delay_frames = -1;             // k: the delay is k and a half frames; -1: none
  double delay() const { return delay_frames < 0 ? 0 : (delay_frames + .5) * step; }
  std::vector<int> cars; bool all = false, moving = true;   // Signal
  Rule rule = Greater; double value = 0;                    // Time, Param
  std::string name;                                         // Elem, Param
  State wanted = Standby;
  Element * target = nullptr;
  // model state
  State seen = Standby;
  bool latched = false;
  std::vector<std::pair<double, bool>> history;
  bool now = false;
  bool raw(World &);
  bool evaluate(World &);
};
struct Trigger
{
  bool present = true, truthy = false;
  std::vector<std::vector<Condition>> groups;
  std::vector<bool> group_now;
  bool now = false;
  bool evaluate(World & w)
  {
    group_now.assign(groups.size(), false);
    now = truthy;
    for (size_t i = 0; i < groups.size(); ++i) {
      bool g = true;
      for (auto & c : groups[i]) { const bool v = c.evaluate(w); g = g and v; }
      group_now[i] = g;
      now = now or g;
    }
    return now;
  }
};
struct Work   // what an action does
{
  enum Kind { Nothing, Long, Set, Add } kind = Nothing;
  double length = 0, end = 1e300;
  std::string param; double value = 0;
};
struct Element
{
  enum Kind { Root, InitPart, Story, Act, Group, Maneuver, Event, Action } kind;
  std::string name;
  Element * parent = nullptr;
  std::vector<std::unique_ptr<Element>> kids;
  State s = Standby;
  size_t max = 1, count = 0;
  int priority = 0;                  // 0 parallel, 1 skip, 2 overwrite
  Trigger start, stop;
  Work work;
  std::vector<Condition *> watchers;
  std::map<State, long> reached;
  bool has_max = true;
};
struct World
{
  std::vector<std::vector<bool>> signals;   // [car][frame]
  std::map<std::string, double> params;
  double time = 0;
  long frame = 0;                    // number of the world's update whose signals are visible
  long transitions = 0, overwritten = 0, skipped = 0, stopped = 0, restarts = 0;
};
bool Condition::raw(World & w)
{
  switch (kind) {
    case Signal: {
      bool any = false, every = true;
      for (int c : cars) { const bool v = w.signals[c][w.frame] == moving; any = any or v; every = every and v; }
      return all ? every : any;
    }
    case Time: return holds(rule, w.time, value);
    case Param: return holds(rule, w.params[name], value);
    default: {
      // once the state was noticed, the condition stays true (recorded as a known finding below)
      if (seen == wanted) { if (target->s != wanted) latched = true; return true; }
      seen = target->s;
      return seen == wanted;
    }
  }
}
bool Condition::evaluate(World & w)
{
  history.push_back({w.time, raw(w)});
  // the value it had the delay ago, and at the evaluation before that one
  int i = int(history.size()) - 1;
  while (i >= 0 and history[i].first > w.time - delay()) --i;
  const int needed = edge == None or edge == Sticky ? 1 : 2;
  if (i + 1 < needed) return now = false;
  const bool a = history[i].second;
  const bool b = needed == 2 ? history[i - 1].second : false;
  switch (edge) {
    case None: now = a; break;
    case Sticky: now = now or a; break;
    case Rising: now = a and not b; break;
    case Falling: now = b and not a; break;
    case Either: now = a != b; break;
  }
  return now;
}
struct Machine
{
  World & w;
  bool to(Element & e, State s)
  {
    e.s = s;
    ++e.reached[s];
    ++w.transitions;
    if (e.kind == Element::Event and e.priority == 1 and s == Start) {
      size_t n = 0;
      for (auto & k : e.parent->kids) n += k->s == Running;
      if (n) { ++w.skipped; to(e, Standby); }
    }
    for (auto * c : e.watchers) if (c->wanted == s) c->seen = e.s;
    return e.s == s;
  }
  bool accomplished(Element & e)
  {
    if (e.kind == Element::InitPart or e.kind == Element::Action) return e.work.kind == Work::Long ? e.work.end < w.time : true;
    for (auto & k : e.kids) if (k->s != Complete) return false;
    return true;
  }
  void begin(Element & e)
  {
    switch (e.kind) {
      case Element::Group: for (auto & k : e.kids) to(*k, Start); break;
      case Element::Event:
        if (e.priority == 2)
          for (auto & k : e.parent->kids)
            if (k->s == Running) { ++w.overwritten; to(*k, Stop); }
        for (auto & k : e.kids) to(*k, Start);
        break;
      case Element::InitPart:
      case Element::Action:
        switch (e.work.kind) {
          case Work::Long: e.work.end = w.time + e.work.length; break;
          case Work::Set: w.params[e.work.param] = e.work.value; break;
          case Work::Add: w.params[e.work.param] += e.work.value; break;
          default: break;
        }
        break;
      default: break;
    }
  }
  void evaluate(Element & e)
  {
    if (e.stop.evaluate(w) and e.s == Running) to(e, Stop);
    for (;;) switch (e.s) {
        case Standby:
          if (e.start.evaluate(w) and to(e, Start)) break;
          return;
        case Start:
          begin(e);
          to(e, Running);
          if (++e.count > 1) ++w.restarts;
          break;
        case Running:
          for (auto & k : e.kids) evaluate(*k);
          if (not accomplished(e)) return;
          to(e, End);
          break;
        case End: to(e, e.count < e.max ? Standby : Complete); break;
        case Complete: return;
        default:
          ++w.stopped;
          if (not accomplished(e))
            for (auto & k : e.kids) {
              if (k->s != Complete and k->s != Stop) to(*k, Stop);
              evaluate(*k);
            }
          to(e, Complete);
          break;
      }
  }
};
// ---- generation ----------------------------------------------------------------------------
struct Maker
{
  Rng & r;
  World & w;
  char mode;
  std::vector<Element *> all;
  std::map<std::string, double> params;
  int conditions = 0, longs = 0;
  int number[8] = {};
  std::string fresh(Element::Kind k) { return cat("_isagMEA"[k], number[k]++); }
  Condition condition(double when)
  {
    Condition c;
    const double p = r.unit();
    ++conditions;
    if (p < (mode == '8' ? .6 : .45)) {
      c.kind = Condition::Signal;
      const int n = int(r.i(1, 3));
      for (int i = 0; i < n; ++i) c.cars.push_back(int(r.i(0, int(w.signals.size()) - 1)));
      c.all = r.chance(.5), c.moving = r.chance(.7);
    } else if (p < (mode == '8' ? .93 : .75)) {
      c.kind = Condition::Time;
      c.rule = Rule(r.pick(std::vector<int>{Greater, Greater, GreaterEqual, Less, NotEqual}));
      c.value = (int(r.i(0, int(when / step))) + .5) * step;
    } else if (p < (mode == '8' ? .97 : .87)) {
      c.kind = Condition::Elem;
      c.wanted = State(r.pick(std::vector<int>{Standby, Start, Running, End, Complete, Complete, Stop}));
    } else {
      c.kind = Condition::Param;
      c.name = cat("p", r.i(0, 2));
      c.rule = Rule(r.i(0, 5)), c.value = double(r.i(-1, 4));
    }
    const bool edges = mode == '9';
    c.edge = r.chance(edges ? .4 : .75) ? None : Edge(r.i(1, 4));
    if (r.chance(edges ? .35 : .1)) c.delay_frames = int(r.chance(.2) ? r.i(13, 120) : r.i(0, 12));
    return c;
  }
  Trigger trigger(double when, double absent, bool stop)
  {
    Trigger t;
    if (r.chance(absent)) { t.present = false; t.truthy = not stop; return t; }
    const int n = int(r.i(r.chance(.04) ? 0 : 1, mode == '9' ? 4 : 2));
    for (int i = 0; i < n; ++i) {
      t.groups.emplace_back();
      const int m = int(r.i(1, r.chance(mode == '9' ? .6 : .3) ? 3 : 1));
      for (int j = 0; j < m; ++j) t.groups.back().push_back(condition(when));
    }
    return t;
  }
  std::unique_ptr<Element> make(Element::Kind k, Element * parent)
  {
    auto e = std::make_unique<Element>();
    e->kind = k, e->name = fresh(k), e->parent = parent;
    e->start.truthy = true, e->stop.present = false;
    all.push_back(e.get());
    auto kids = [&](Element::Kind kind, int n) { for (int i = 0; i < n; ++i) e->kids.push_back(make(kind, e.get())); };
    const bool narrow = mode != '7';
    switch (k) {
      case Element::Story: kids(Element::Act, int(r.i(1, narrow ? 1 : 2))); break;
      case Element::Act:
        e->start = trigger(1, .65, false);
        if (mode != '8' and r.chance(.35)) e->stop = trigger(4, .2, true);
        kids(Element::Group, int(r.i(1, narrow ? 1 : 2)));
        break;
      case Element::Group:
        e->max = size_t(r.i(0, r.chance(.3) ? 3 : 1));
        if (r.chance(.1)) { e->has_max = false; e->max = 0; }
        kids(Element::Maneuver, int(r.chance(.05) ? 0 : r.i(1, narrow ? 1 : 2)));
        break;
      case Element::Maneuver: kids(Element::Event, int(mode == '8' ? r.i(2, 6) : r.i(1, 4))); break;
      case Element::Event:
        e->priority = int(mode == '8' ? r.i(0, 2) : r.pick(std::vector<int>{0, 0, 0, 1, 2}));
        e->max = size_t(r.i(1, r.chance(.4) ? 4 : 1));
        e->has_max = e->max != 1 or r.chance(.5);
        e->start = trigger(4, .12, false);
        kids(Element::Action, int(r.i(1, 3)));
        break;
      case Element::Action: {
        const double p = r.unit();
        if (p < .55) { e->work.kind = Work::Long; e->work.length = (int(r.i(0, 25)) + .5) * step; }
        else if (p < .7) { e->work.kind = Work::Set; e->work.param = cat("p", r.i(0, 2)); e->work.value = double(r.i(-1, 4)); }
        else if (p < .85) { e->work.kind = Work::Add; e->work.param = cat("p", r.i(0, 2)); e->work.value = double(r.i(-2, 2)); }
        break;
      }
      default: break;
    }
    return e;
  }
};
void each_trigger(Element & e, const std::function<void(Trigger &)> & f) { f(e.stop); f(e.start); for (auto & k : e.kids) each_trigger(*k, f); }
std::string num(double v) { std::ostringstream o; o.precision(12); o << v; return o.str(); }
std::string full_name(const Element & e) { return e.kind == Element::Story ? "Storyboard::" + e.name : full_name(*e.parent) + "::" + e.name; }
std::string kind_name(Element::Kind k)
{
  switch (k) {
    case Element::Story: return "story"; case Element::Act: return "act"; case Element::Group: return "maneuverGroup";
    case Element::Maneuver: return "maneuver"; case Element::Event: return "event"; default: return "action";
  }
}
void xml(std::string & o, const Condition & c)
{
  o += cat("<Condition name=\"c\" delay=\"", num(c.delay()), "\" conditionEdge=\"", edge_label[c.edge], "\">");
  switch (c.kind) {
    case Condition::Signal:
      o += cat("<ByEntityCondition><TriggeringEntities triggeringEntitiesRule=\"", c.all ? "all" : "any", "\">");
      for (int i : c.cars) o += cat("<EntityRef entityRef=\"car", i, "\"/>");
      o += cat("</TriggeringEntities><EntityCondition><SpeedCondition value=\"5\" rule=\"", c.moving ? "greaterThan" : "lessThan", "\"/></EntityCondition></ByEntityCondition>");
      break;
    case Condition::Time:
      o += cat("<ByValueCondition><SimulationTimeCondition value=\"", num(c.value), "\" rule=\"", rule_label[c.rule], "\"/></ByValueCondition>");
      break;
    case Condition::Param:
      o += cat("<ByValueCondition><ParameterCondition parameterRef=\"", c.name, "\" value=\"", num(c.value), "\" rule=\"", rule_label[c.rule], "\"/></ByValueCondition>");
      break;
    case Condition::Elem:
      o += cat("<ByValueCondition><StoryboardElementStateCondition storyboardElementRef=\"", full_name(*c.target), "\" storyboardElementType=\"", kind_name(c.target->kind), "\" state=\"", label[c.wanted], "\"/></ByValueCondition>");
      break;
  }
  o += "</Condition>";
}
void xml(std::string & o, const Trigger & t, const char * tag)
{
  if (not t.present) return;
  o += cat("<", tag, ">");
  for (auto & g : t.groups) { o += "<ConditionGroup>"; for (auto & c : g) xml(o, c); o += "</ConditionGroup>"; }
  o += cat("</", tag, ">");
}
void xml_work(std::string & o, const Work & w)
{
  switch (w.kind) {
    case Work::Nothing: o += "<UserDefinedAction><CustomCommandAction type=\":\"/></UserDefinedAction>"; break;
    case Work::Long: o += cat("<UserDefinedAction><CustomCommandAction type=\"dummyLongRunningAction(", num(w.length), ")\"/></UserDefinedAction>"); break;
    case Work::Set: o += cat("<GlobalAction><ParameterAction parameterRef=\"", w.param, "\"><SetAction value=\"", num(w.value), "\"/></ParameterAction></GlobalAction>"); break;
    case Work::Add: o += cat("<GlobalAction><ParameterAction parameterRef=\"", w.param, "\"><ModifyAction><Rule><AddValue value=\"", num(w.value), "\"/></Rule></ModifyAction></ParameterAction></GlobalAction>"); break;
  }
}
void xml(std::string & o, const Element & e)
{
  auto kids = [&] { for (auto & k : e.kids) xml(o, *k); };
  switch (e.kind) {
    case Element::Story: o += cat("<Story name=\"", e.name, "\">"); kids(); o += "</Story>"; break;
    case Element::Act:
      o += cat("<Act name=\"", e.name, "\">"); kids();
      xml(o, e.start, "StartTrigger"); xml(o, e.stop, "StopTrigger"); o += "</Act>"; break;
    case Element::Group:
      o += cat("<ManeuverGroup name=\"", e.name, "\"");
      if (e.has_max) o += cat(" maximumExecutionCount=\"", e.max, "\"");
      o += "><Actors selectTriggeringEntities=\"false\"/>"; kids(); o += "</ManeuverGroup>"; break;
    case Element::Maneuver: o += cat("<Maneuver name=\"", e.name, "\">"); kids(); o += "</Maneuver>"; break;
    case Element::Event: {
      static const char * const priority[] = {"parallel", "skip", "override"};
      o += cat("<Event name=\"", e.name, "\" priority=\"", e.priority == 2 and e.max == 2 ? "overwrite" : priority[e.priority], "\"");
      if (e.has_max) o += cat(" maximumExecutionCount=\"", e.max, "\"");
      o += ">"; kids(); xml(o, e.start, "StartTrigger"); o += "</Event>"; break;
    }
    case Element::Action: o += cat("<Action name=\"", e.name, "\">"); xml_work(o, e.work); o += "</Action>"; break;
    default: break;
  }
}
// ---- comparison ----------------------------------------------------------------------------
struct Difference { std::string key, text; };
std::optional<Difference> difference;
std::string where;
void differ(const std::string & key, const std::string & text) { if (not difference) difference = Difference{key, cat(where, text)}; }
using nlohmann::json;
void compare(const json & j, const Trigger & t, const std::string & path)
{
  if (not t.present) return;
  if (j.at("ConditionGroup").size() != t.groups.size()) return differ("trigger-groups-lost", path);
  for (size_t g = 0; g < t.groups.size(); ++g) {
    auto & jg = j.at("ConditionGroup")[g];
    if (jg.at("Condition").size() != t.groups[g].size()) return differ("conditions-lost", path);
    for (size_t c = 0; c < t.groups[g].size(); ++c) {
      const bool v = jg.at("Condition")[c].at("currentValue") == "true";
      auto & m = t.groups[g][c];
      if (v != m.now) {
        std::string h;
        for (size_t i = m.history.size() > 6 ? m.history.size() - 6 : 0; i < m.history.size(); ++i) h += cat(" ", m.history[i].first, ":", m.history[i].second);
        static const char * const kinds[] = {"signal", "time", "element-state", "parameter"};
        differ(cat("condition-", kinds[m.kind], "-", edge_label[m.edge], m.delay_frames >= 0 ? "-delayed" : ""), cat(path, " group ", g, " condition ", c, " is ", v, ", delay ", m.delay(), ", values seen:", h));
      }
    }
    if (not t.group_now.empty() and (jg.at("currentValue") == "true") != t.group_now[g]) differ("condition-group-value", cat(path, " group ", g, " is ", jg.at("currentValue")));
  }
  if ((j.at("currentValue") == "true") != t.now) differ("trigger-value", cat(path, " is ", j.at("currentValue"), " but should be ", t.now));
}
void compare(const json & j, const Element & e, const std::string & path)
{
  static const char * const list[] = {"Story", "", "Act", "ManeuverGroup", "Maneuver", "Event", "Action", ""};
  static const char * const kinds[] = {"storyboard", "init", "story", "act", "maneuver-group", "maneuver", "event", "action"};
  if (j.contains("name") and j.at("name") != e.name) return differ("element-order", cat(path, ": ", j.at("name"), " where ", e.name, " is due"));
  // events first: their states explain those of the others
  if (const std::string l = list[e.kind]; not l.empty()) {
    size_t n = 0;
    for (auto & k : e.kids) n += k->kind != Element::InitPart;
    if (j.at(l).size() != n) return differ("elements-lost", path);
    size_t i = 0;
    for (auto & k : e.kids) if (k->kind != Element::InitPart) compare(j.at(l)[i++], *k, cat(path, "/", k->name));
  }
  if (j.contains("StopTrigger")) compare(j.at("StopTrigger"), e.stop, path + " stop trigger");
  if (j.contains("StartTrigger")) compare(j.at("StartTrigger"), e.start, path + " start trigger");
  if (j.at("currentState") != label[e.s]) differ(cat("state-of-", kinds[e.kind]), cat(path, " is ", j.at("currentState"), " but should be ", label[e.s]));
  if (j.contains("currentExecutionCount")) {
    if (j.at("currentExecutionCount") != e.count) differ(cat("executions-of-", kinds[e.kind]), cat(path, " was executed ", j.at("currentExecutionCount"), " times, not ", e.count));
    if (j.at("maximumExecutionCount") != e.max) differ(cat("maximum-of-", kinds[e.kind]), path);
  }
}
// Rules that hold whatever the model says.
struct Rules
{
  std::map<std::string, std::string> last;
  std::map<std::string, long> counts;
  void children(const json & j, const std::string & path, const std::string & parent)
  {
    static const char * const list[] = {"Story", "Act", "ManeuverGroup", "Maneuver", "Event", "Action"};
    const std::string s = j.at("currentState");
    static const std::set<std::string> states(std::begin(label), std::end(label));
    if (not states.count(s)) differ("unknown-state", cat(path, " is ", s));
    if (parent == "completeState" and s != "completeState") differ("complete-parent-of-incomplete-child", cat(path, " is ", s));
    if (parent == "standbyState" and s != "standbyState" and s != "completeState") differ("active-child-of-waiting-parent", cat(path, " is ", s));
    if (j.contains("currentExecutionCount")) {
      const long n = j.at("currentExecutionCount"), m = std::max(1l, long(j.at("maximumExecutionCount")));
      if (n > m) differ("executed-too-often", cat(path, " ran ", n, " of ", m));
      if (n < counts[path]) differ("execution-count-fell", path);
      counts[path] = n;
    }
    auto & l = last[path];
    const std::string kind = path.substr(path.rfind('/') + 1, 1);
    if (l == "completeState" and s != l and (kind == "s" or kind == "a" or kind == "g" or kind == "E" or kind == "S")) differ("left-complete", cat(path, " went to ", s));
    l = s;
    for (auto * k : list)
      if (j.contains(k))
        for (auto & c : j.at(k)) children(c, cat(path, "/", std::string(c.at("name"))), s);
  }
};
long latched = 0;
void round(Rng & r, char mode, long number)
{
  World w;
  const int cars = int(r.i(2, 5)), frames = int(r.i(60, 160));
  for (int c = 0; c < cars; ++c) {
    std::vector<bool> v;
    bool x = r.chance(.3);
    const double flip = r.pick(std::vector<double>{.02, .1, .4});
    const bool busy = r.chance(.5);
    if (busy) x = r.chance(.6);
    for (int i = 0; i < frames + 5; ++i) { if (r.chance(flip)) x = not x; v.push_back(x); }
    w.signals.push_back(v);
  }
  Maker m{r, w, mode};
  Element root;
  root.kind = Element::Root, root.name = "Storyboard";
  root.start.truthy = true, root.stop.present = false;
  std::map<std::string, double> params;
  for (int i = 0; i < 3; ++i) params[cat("p", i)] = double(r.i(-1, 4));
  w.params = params;
  root.kids.push_back(std::make_unique<Element>());
  auto & init = *root.kids.back();
  init.kind = Element::InitPart, init.start.truthy = true, init.stop.present = false;
  
  const int stories = int(r.i(1, mode == '7' ? 2 : 1));
  for (int i = 0; i < stories; ++i) root.kids.push_back(m.make(Element::Story, &root));
  if (r.chance(mode == '8' ? .05 : .2)) { root.stop = m.trigger(6, 0, true); root.stop.present = true; }
  // element-state conditions watch some element
  each_trigger(root, [&](Trigger & t) {
    for (auto & g : t.groups) for (auto & c : g) if (c.kind == Condition::Elem) { c.target = r.pick(m.all); c.target->watchers.push_back(&c); }
  });
  std::string head = cat("<?xml version=\"1.0\"?><OpenSCENARIO><FileHeader revMajor=\"1\" revMinor=\"1\" date=\"2026-01-01T00:00:00\" description=\"x\" author=\"v\"/><ParameterDeclarations>"), o;
  for (auto & [n, v] : params) head += cat("<ParameterDeclaration name=\"", n, "\" parameterType=\"", n == "p0" ? "integer" : "double", "\" value=\"", num(v), "\"/>");
  head += cat("</ParameterDeclarations><CatalogLocations/><RoadNetwork><LogicFile filepath=\"", interp::map_dir(), "\"/></RoadNetwork><Entities>");
  for (int c = 0; c < cars; ++c)
    head += cat("<ScenarioObject name=\"car", c, "\"><Vehicle name=\"c\" vehicleCategory=\"car\"><Performance maxSpeed=\"50\" maxAcceleration=\"10\" maxDeceleration=\"10\"/><BoundingBox><Center x=\"1\" y=\"0\" z=\"1\"/><Dimensions width=\"2\" length=\"4\" height=\"1.5\"/></BoundingBox><Axles><FrontAxle maxSteering=\"0.5\" wheelDiameter=\"0.6\" trackWidth=\"1.7\" positionX=\"3\" positionZ=\"0.3\"/><RearAxle maxSteering=\"0.5\" wheelDiameter=\"0.6\" trackWidth=\"1.7\" positionX=\"0\" positionZ=\"0.3\"/></Axles><Properties/></Vehicle></ScenarioObject>");
  head += "</Entities>";
  o += "<Storyboard><Init><Actions>";
  if (init.work.kind == Work::Long) xml_work(o, init.work);
  for (int c = 0; c < cars; ++c)
    o += cat("<Private entityRef=\"car", c, "\"><PrivateAction><TeleportAction><Position><LanePosition laneId=\"1\" s=\"", 5 + 10 * c, "\" offset=\"0\"/></Position></TeleportAction></PrivateAction></Private>");
  o += "</Actions></Init>";
  for (auto & k : root.kids) xml(o, *k);
  if (root.stop.present) xml(o, root.stop, "StopTrigger"); else o += "<StopTrigger/>";
  o += "</Storyboard>";
  vh::current(cat("round ", number, " ", o));
  const std::string osc = interp::scratch() + "/s/a.xosc";
  interp::write(osc, head + o + "</OpenSCENARIO>");
  interp::reset_world();
  auto set = [&](long f) {
    for (int c = 0; c < cars; ++c)
      if (auto i = vworld::state().entities.find(cat("car", c)); i != vworld::state().entities.end()) i->second->twist.linear.x = w.signals[c][f] ? 10 : 0;
  };
  long updates = 0;
  vworld::on_frame() = [&] { set(std::min<long>(updates++, frames + 4)); };
  interp::Options opt;
  opt.osc = osc, opt.out = interp::scratch() + "/out", opt.max_frames = frames, opt.frame_rate = 20;
  Machine machine{w};
  Rules rules;
  double before = std::nan("");
  long visible = 0, evaluated = 0;
  difference.reset();
  opt.after_activate = [&] { before = vworld::state().time; visible = updates; };
  std::string events;
  opt.on_frame = [&](const interp::Frame & f) {
    where = cat("frame ", f.index, " (t=", before, ") ");
    if (not std::isnan(before)) {
      w.time = before;
      w.frame = visible - 1;
      machine.evaluate(root);
      const json whole = json::parse(f.context, nullptr, false);
      if (whole.is_object() and (not whole.contains("OpenSCENARIO") or not whole.at("OpenSCENARIO").contains("Storyboard"))) return true;   // the run has ended
      ++evaluated;
      const json j = whole.is_object() ? whole.at("OpenSCENARIO") : whole;
      if (not j.is_object()) differ("context-not-json", f.context.substr(0, 200));
      else {
        rules.children(j.at("Storyboard"), "/S", "");
        compare(j.at("Storyboard"), root, "");
      }
    }
    before = vworld::state().time, visible = updates;
    return not difference;
  };
  auto res = interp::run(opt);
  if (res.configured != "inactive" or res.activated != "active") differ("not-started", cat(res.kind, ": ", res.message));
  else if (not evaluated) differ("nothing-published", cat("no context in ", res.frames, " frames"));
  else if (res.by_itself) differ("ended-by-itself", cat(res.kind, ": ", res.message, " after frame ", res.frames));
  if (difference) vh::fail(cat(difference->key), cat("round ", number, ": ", difference->text, "\n", o));
  // The finding recorded for conditions on element states.
  each_trigger(root, [&](Trigger & t) { for (auto & g : t.groups) for (auto & c : g) latched += c.latched; });
  long reached = 0;
  std::string shape;
  for (auto * e : m.all) { for (auto & [s, n] : e->reached) { reached += n; vh::count(cat("reached ", kind_name(e->kind), " ", label[s]), n); shape += cat(e->name, s, "x", n, ","); } }
  vh::count("storyboards"), vh::count("frames compared", evaluated), vh::count("conditions", m.conditions), vh::count("transitions", w.transitions);
  vh::count("events overwritten", w.overwritten), vh::count("events skipped", w.skipped), vh::count("elements stopped", w.stopped), vh::count("restarts", w.restarts);
  vh::observed(cat(shape, w.transitions));
  if (number < 4) vh::sample(o.substr(0, 380));
}
}  // namespace
int main(int c, char ** v)
{
  vh::init(c, v);
  interp::prepare();
  const std::string part = vh::st().part;
  const char mode = part == "all" ? '7' : part[2];
  const long n = long((mode == '7' ? vh::n(200, 3000) : vh::n(300, 4000)));
  for (long i = 0; i < n; ++i) {
    if (not vh::st().only.empty() and std::atol(vh::st().only.c_str()) != i) continue;
    Rng r(vh::st().seed * 1000003 + i * 31 + mode);
    round(r, mode, i);
    if (vh::st().violations.size() > 5) break;
  }
  vh::count("element-state conditions latched", latched);
  if (latched and mode == '7') vh::fail("element-state-condition-latched", "a condition on the state of a storyboard element that noticed the state once stays true after the element left that state");
  vh::finish();
  vworld::state() = vworld::State();
}
