// C03: enumerated attribute values.  The accepted names come from the OpenSCENARIO XML 1.3
// schema (and its deprecated aliases), not from the code.
#include <cstdint>
#include <iomanip>
#include <string>
#include <openscenario_interpreter/expression.hpp>
#include <openscenario_interpreter/object.hpp>
#include <openscenario_interpreter/compatibility.hpp>
#include <openscenario_interpreter/error.hpp>
#include <boost/lexical_cast.hpp>
#include <openscenario_interpreter/syntax/command.hpp>
#include <openscenario_interpreter/syntax/condition_edge.hpp>
#include <openscenario_interpreter/syntax/coordinate_system.hpp>
#include <openscenario_interpreter/syntax/directional_dimension.hpp>
#include <openscenario_interpreter/syntax/dynamics_dimension.hpp>
#include <openscenario_interpreter/syntax/dynamics_shape.hpp>
#include <openscenario_interpreter/syntax/following_mode.hpp>
#include <openscenario_interpreter/syntax/fractional_cloud_cover.hpp>
#include <openscenario_interpreter/syntax/misc_object_category.hpp>
#include <openscenario_interpreter/syntax/parameter_type.hpp>
#include <openscenario_interpreter/syntax/pedestrian_category.hpp>
#include <openscenario_interpreter/syntax/precipitation_type.hpp>
#include <openscenario_interpreter/syntax/priority.hpp>
#include <openscenario_interpreter/syntax/reference_context.hpp>
#include <openscenario_interpreter/syntax/relative_distance_type.hpp>
#include <openscenario_interpreter/syntax/route_strategy.hpp>
#include <openscenario_interpreter/syntax/routing_algorithm.hpp>
#include <openscenario_interpreter/syntax/rule.hpp>
#include <openscenario_interpreter/syntax/speed_target_value_type.hpp>
#include <openscenario_interpreter/syntax/storyboard_element_state.hpp>
#include <openscenario_interpreter/syntax/storyboard_element_type.hpp>
#include <openscenario_interpreter/syntax/triggering_entities_rule.hpp>
#include <openscenario_interpreter/syntax/vehicle_category.hpp>
#include <openscenario_interpreter/syntax/wetness.hpp>
#include <algorithm>
#include <set>
#include "vh.hpp"
using namespace openscenario_interpreter;

static std::vector<std::string> every_name;
static std::vector<std::string> junk(vh::Rng & g, const std::vector<std::string> & names, std::uint64_t n)
{
  std::vector<std::string> out{"x", "0", "1", "-1", "true", "$", "unknown", "undefinedd"};
  const std::string al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-$.:";
  for (auto & s : every_name) out.push_back(s);
  for (auto s : names) {
    auto t = s;
    t[0] = std::toupper(t[0]); out.push_back(t);
    std::transform(t.begin(), t.end(), t.begin(), ::toupper); out.push_back(t);
    std::transform(t.begin(), t.end(), t.begin(), ::tolower); out.push_back(t);
    out.push_back(s + s); out.push_back(s + "s"); out.push_back("_" + s); out.push_back(s.substr(1)); out.push_back(s.substr(0, s.size() - 1));
    for (std::size_t k = 1; k < s.size(); ++k) out.push_back(s.substr(0, k));
  }
  for (std::uint64_t i = 0; i < n; ++i) {
    std::string s = names.empty() || g.chance(.3) ? std::string() : g.pick(names);
    auto edits = g.i(1, 3);
    for (int e = 0; e < edits; ++e) {
      auto p = std::size_t(g.i(0, s.size()));
      switch (g.i(0, 3)) {
        case 0: s.insert(p, 1, g.pick(al)); break;
        case 1: if (p < s.size()) s.erase(p, 1); break;
        case 2: if (p < s.size()) s[p] = g.pick(al); break;
        default: if (p + 1 < s.size()) std::swap(s[p], s[p + 1]); break;
      }
    }
    if (!s.empty()) out.push_back(s);
  }
  return out;
}

struct Name { const char * text; int value; };  // value < 0: standard, not implemented

template <typename T> struct EnumErr { using type = common::SyntaxError; };

template <typename T>
void family(vh::Rng & g, const std::string & type, const std::vector<Name> & names, const std::vector<Name> & aliases = {})
{
  std::set<std::string> known;
  std::vector<std::string> valid;
  for (auto & n : names) { known.insert(n.text); valid.push_back(n.text); }
  for (auto & n : aliases) { known.insert(n.text); valid.push_back(n.text); }
  auto parse = [&](const std::string & s) { std::istringstream i(s); T t; i >> t; return t; };
  auto good = [&](const Name & n, bool canonical) {
    vh::current(type + " " + n.text);
    try {
      T t = parse(n.text);
      if (int(t.value) != n.value) vh::fail(type + ":wrong-value:" + n.text, vh::cat(n.text, " read as ", int(t.value), " expected ", n.value));
      T u = boost::lexical_cast<T>(std::string(n.text));
      if (int(u.value) != n.value) vh::fail(type + ":wrong-value:" + n.text, "lexical_cast");
      std::ostringstream o; o << t;
      if (canonical && o.str() != n.text) vh::fail(type + ":printed-name:" + n.text, vh::cat(n.text, " printed as ", o.str()));
      if (int(parse(o.str()).value) != n.value) vh::fail(type + ":round-trip:" + n.text, o.str());
      // reading stops after the name and leaves the stream usable
      std::istringstream two(std::string(n.text) + " " + n.text); T x, y; two >> x >> y;
      if (!two || int(y.value) != n.value) vh::fail(type + ":stream-state:" + n.text, n.text);
      vh::count(type + ".accepted");
    } catch (const std::exception & e) { vh::fail(type + ":refuses:" + n.text, e.what()); }
    vh::observed(type + "+" + n.text);
  };
  auto refused = [&](const std::string & s, bool unsupported) {
    vh::current(type + " refuse " + s);
    vh::observed(type + "-" + s);
    try {
      T t = parse(s);
      vh::fail(type + (unsupported ? ":accepts-unsupported:" + s : ":accepts-unknown"), vh::cat("'", s, "' read as ", int(t.value)));
    } catch (const common::SyntaxError & e) {
      std::string w = e.what();
      if (w.find("\"" + s + "\"") == std::string::npos) vh::fail(type + ":message-does-not-quote", vh::cat(s, ": ", w));
      if (w.find(type) == std::string::npos) vh::fail(type + ":message-does-not-name-type", vh::cat(s, ": ", w));
      if ((w.find("not supported yet") != std::string::npos) != unsupported) vh::fail(type + ":wrong-kind-of-refusal", vh::cat(s, ": ", w));
      vh::count(type + (unsupported ? ".unsupported" : ".unknown"));
    } catch (const std::exception & e) { vh::fail(type + ":not-a-syntax-error", vh::cat(s, ": ", e.what())); }
    try { (void)boost::lexical_cast<T>(s); vh::fail(type + ":attribute-accepts-unknown", s); } catch (const std::exception &) {}
  };
  for (auto & n : names) if (n.value >= 0) good(n, true); else refused(n.text, true);
  for (auto & n : aliases) good(n, false);
  for (auto & s : junk(g, valid, vh::n(400, 40000))) if (!known.count(s)) refused(s, false);
  for (auto & n : names) if (n.value >= 0)
    for (auto s : {vh::cat(n.text, " ", n.text), vh::cat(n.text, " x"), vh::cat(" ", n.text), vh::cat(n.text, "\n")})
      try { (void)boost::lexical_cast<T>(s); vh::fail(type + ":attribute-accepts-trailing", s); } catch (const std::exception &) { vh::count(type + ".whitespace-refused"); }
  // values outside the enumeration are never printed as a name
  try { T t; t.value = static_cast<typename T::value_type>(3); (void)t; } catch (...) {}
}

int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng g(vh::st().seed + 3);
  every_name = {"all", "any", "act", "dry", "rain", "none", "follow", "position", "override", "overwrite", "parallel", "skip", "absolute", "relative", "shortest", "integer", "double", "car", "vehicle", "lane", "entity", "step", "time", "rate", "rising", "delta", "factor", "equalTo", "print", "longitudinal", "lateral"};
#define N(T, X) Name{#X, T::X}
#define U(X) Name{#X, -1}
  family<Command>(g, "Command", {N(Command, exitFailure), N(Command, exitSuccess), N(Command, nop), N(Command, print)});
  using CE = ConditionEdge;
  family<CE>(g, "ConditionEdge", {N(CE, none), N(CE, rising), N(CE, falling), N(CE, risingOrFalling), N(CE, sticky)});
  using CS = CoordinateSystem;
  family<CS>(g, "CoordinateSystem", {N(CS, entity), N(CS, lane), U(road), U(trajectory)});
  using DM = DirectionalDimension;
  family<DM>(g, "DirectionalDimension", {N(DM, longitudinal), N(DM, lateral), N(DM, vertical)});
  using DD = DynamicsDimension;
  family<DD>(g, "DynamicsDimension", {N(DD, rate), N(DD, time), N(DD, distance)});
  using DS = DynamicsShape;
  family<DS>(g, "DynamicsShape", {N(DS, linear), N(DS, cubic), N(DS, step), U(sinusoidal)});
  using FM = FollowingMode;
  family<FM>(g, "FollowingMode", {N(FM, follow), N(FM, position)});
  using FC = FractionalCloudCover;
  family<FC>(g, "FractionalCloudCover", {N(FC, zeroOktas), N(FC, oneOktas), N(FC, twoOktas), N(FC, threeOktas), N(FC, fourOktas), N(FC, fiveOktas), N(FC, sixOktas), N(FC, sevenOktas), N(FC, eightOktas), N(FC, nineOktas)});
  using MO = MiscObjectCategory;
  family<MO>(g, "MiscObjectCategory", {N(MO, obstacle), U(barrier), U(building), U(crosswalk), U(gantry), U(none), U(parkingSpace), U(patch), U(pole), U(railing), U(roadMark), U(soundBarrier), U(streetLamp), U(trafficIsland), U(tree), U(vegetation), U(wind)});
  using PT = ParameterType;
  family<PT>(g, "ParameterType", {{"integer", PT::INTEGER}, {"double", PT::DOUBLE}, {"string", PT::STRING}, {"unsignedInt", PT::UNSIGNED_INT}, {"unsignedShort", PT::UNSIGNED_SHORT}, {"boolean", PT::BOOLEAN}, {"dateTime", PT::DATE_TIME}});
  using PC = PedestrianCategory;
  family<PC>(g, "PedestrianCategory", {N(PC, pedestrian), U(wheelchair), U(animal)});
  using PR = PrecipitationType;
  family<PR>(g, "PrecipitationType", {N(PR, dry), N(PR, rain), N(PR, snow)});
  using P = Priority;
  family<P>(g, "Priority", {N(P, parallel), N(P, skip), {"override", P::override}}, {{"overwrite", P::override}});
  using RC = ReferenceContext;
  family<RC>(g, "ReferenceContext", {N(RC, relative), U(absolute)});
  using RD = RelativeDistanceType;
  family<RD>(g, "RelativeDistanceType", {N(RD, longitudinal), N(RD, lateral), N(RD, euclidianDistance)}, {{"cartesianDistance", RD::euclidianDistance}});
  using RS = RouteStrategy;
  family<RS>(g, "RouteStrategy", {N(RS, shortest), U(fastest), U(leastIntersections), U(random)});
  using RA = RoutingAlgorithm;
  family<RA>(g, "RoutingAlgorithm", {{"assignedRoute", RA::assigned_route}, {"fastest", RA::fastest}, {"leastIntersections", RA::least_intersections}, {"shortest", RA::shortest}, {"undefined", RA::undefined}});
  using RL = Rule;
  family<RL>(g, "Rule", {N(RL, equalTo), N(RL, greaterThan), N(RL, lessThan), N(RL, greaterOrEqual), N(RL, lessOrEqual), N(RL, notEqualTo)});
  using ST = SpeedTargetValueType;
  family<ST>(g, "SpeedTargetValueType", {N(ST, delta), N(ST, factor)});
  using SS = StoryboardElementState;
  family<SS>(g, "StoryboardElementState", {N(SS, startTransition), N(SS, endTransition), N(SS, stopTransition), N(SS, skipTransition), N(SS, completeState), N(SS, runningState), N(SS, standbyState)});
  using SE = StoryboardElementType;
  family<SE>(g, "StoryboardElementType", {N(SE, act), N(SE, action), N(SE, event), N(SE, maneuver), N(SE, maneuverGroup), N(SE, story)});
  using TR = TriggeringEntitiesRule;
  family<TR>(g, "TriggeringEntitiesRule", {N(TR, all), N(TR, any)});
  using VC = VehicleCategory;
  family<VC>(g, "VehicleCategory", {N(VC, bicycle), N(VC, bus), N(VC, car), N(VC, motorbike), N(VC, truck), N(VC, semitrailer), N(VC, trailer), N(VC, train), N(VC, tram), N(VC, van)});
  using W = Wetness;
  family<W>(g, "Wetness", {N(W, dry), N(W, moist), N(W, wetWithPuddles), N(W, lowFlooded), N(W, highFlooded)});

  // the attribute that selects legacy or standard reading
  for (auto & s : junk(g, {"legacy", "standard"}, vh::n(300, 20000))) {
    std::istringstream i(s);
    Compatibility c{};
    try { i >> c; if (!(s == "legacy" && c == Compatibility::legacy) && !(s == "standard" && c == Compatibility::standard)) vh::fail("Compatibility:accepts-unknown", s); }
    catch (const common::Error & e) { if (s == "legacy" || s == "standard") vh::fail("Compatibility:refuses", s); else if (std::string(e.what()).find(s) == std::string::npos) vh::fail("Compatibility:message", e.what()); }
    vh::observed("compat" + s);
  }
  for (auto s : {"legacy", "standard"}) {
    std::istringstream i(s); Compatibility c{}; i >> c;
    if (c != (std::string(s) == "legacy" ? Compatibility::legacy : Compatibility::standard)) vh::fail("Compatibility:wrong-value", s);
  }
  // All/any semantics of the triggering entities rule
  for (int bits = 0; bits < 1024; ++bits)
    for (int m = 0; m <= 10; ++m) {
      std::vector<int> v;
      int set = 0;
      for (int k = 0; k < m; ++k) { v.push_back((bits >> k) & 1); set += v.back(); }
      for (auto r : {TR::all, TR::any, TR::none}) {
        TR t; t.value = r;
        bool got = t.apply(std::begin(v), std::end(v), [](int x) { return x != 0; });
        bool want = r == TR::all ? set == m : r == TR::any ? set > 0 : set == 0;
        if (got != want) vh::fail("TriggeringEntitiesRule:apply", vh::cat("rule ", int(r), " on ", m, " entities with ", set, " true gives ", got));
        vh::observed();
      }
    }
  vh::finish();
}
