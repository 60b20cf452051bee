// C25: traffic lights from description texts to every published form, against a model of the lights.
#include "vh.hpp"
#include <algorithm>
#include <cmath>
#include <boost/lexical_cast.hpp>
#include <rclcpp/rclcpp.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <simple_sensor_simulator/sensor_simulation/traffic_lights/traffic_lights_detector.hpp>
#include <traffic_simulator/traffic_lights/traffic_lights.hpp>
#include <traffic_simulator/utils/distance.hpp>
using traffic_simulator::TrafficLight;
namespace
{
vh::Rng * g;
// ---- the map ---------------------------------------------------------------------------------
struct Map
{
  std::vector<lanelet::Id> ways;
  std::map<lanelet::Id, std::vector<lanelet::Id>> groups;
  std::map<std::pair<lanelet::Id, std::string>, geometry_msgs::msg::Point> bulbs;
  std::map<lanelet::Id, double> lines;
  bool way(lanelet::Id i) const { return std::count(ways.begin(), ways.end(), i); }
  bool group(lanelet::Id i) const { return groups.count(i); }
  std::vector<lanelet::Id> of(lanelet::Id i) const { return way(i) ? std::vector<lanelet::Id>{i} : groups.at(i); }
  std::vector<lanelet::Id> relations(lanelet::Id w) const
  {
    std::vector<lanelet::Id> r;
    for (auto & [id, v] : groups) if (std::count(v.begin(), v.end(), w)) r.push_back(id);
    return r;
  }
} map_;
}  // namespace
namespace traffic_simulator
{
namespace lanelet_wrapper::traffic_lights
{
auto isTrafficLight(const lanelet::Id i) -> bool { return map_.way(i); }
auto isTrafficLightRegulatoryElement(const lanelet::Id i) -> bool { return map_.group(i); }
auto toTrafficLightRegulatoryElement(const lanelet::Id i) -> lanelet::TrafficLight::Ptr
{
  if (not map_.group(i)) throw std::invalid_argument("no such regulatory element");
  auto p = std::make_shared<lanelet::TrafficLight>();
  p->n = i;
  for (auto w : map_.groups.at(i)) p->refers.push_back({w});
  return p;
}
auto trafficLightIds() -> lanelet::Ids { return map_.ways; }
auto trafficLightBulbPosition(const lanelet::Id i, const std::string & c, const bool) -> std::optional<Point>
{
  auto it = map_.bulbs.find({i, c});
  return it == map_.bulbs.end() ? std::nullopt : std::optional<Point>(it->second);
}
auto trafficLightRegulatoryElementIDsFromTrafficLight(const lanelet::Id i) -> lanelet::Ids { return map_.relations(i); }
auto trafficLightIdsOnPath(const lanelet::Ids & r) -> lanelet::Ids
{
  lanelet::Ids o;
  for (auto w : map_.ways) for (auto l : r) if (w % 10 == l % 10) o.push_back(w);
  return o;
}
}  // namespace lanelet_wrapper::traffic_lights
namespace distance
{
auto distanceToTrafficLightStopLine(const math::geometry::CatmullRomSplineInterface &, const lanelet::Id i) -> std::optional<double>
{
  auto it = map_.lines.find(i);
  return it == map_.lines.end() ? std::nullopt : std::optional<double>(it->second);
}
}  // namespace distance
}  // namespace traffic_simulator
namespace
{
// ---- names -----------------------------------------------------------------------------------
using Names = std::vector<std::pair<std::string, std::string>>;  // text, canonical
const Names colors{{"green", "green"}, {"yellow", "yellow"}, {"amber", "yellow"}, {"red", "red"}, {"white", "white"}, {"unknown", "unknown"}, {"Green", "green"}, {"Red", "red"}, {"Yellow", "yellow"}};
const Names statuses{{"solidOn", "solidOn"}, {"solidOff", "solidOff"}, {"flashing", "flashing"}, {"unknown", "unknown"}, {"Blank", "solidOff"}, {"none", "solidOff"}};
const Names shapes{{"circle", "circle"}, {"cross", "cross"}, {"left", "left"}, {"down", "down"}, {"up", "up"}, {"straight", "up"}, {"right", "right"}, {"lowerLeft", "lowerLeft"}, {"upperLeft", "upperLeft"}, {"lowerRight", "lowerRight"}, {"upperRight", "upperRight"}, {"unknown", "unknown"}};
struct B
{
  std::string c = "green", s = "solidOn", h = "circle";
  bool operator<(const B & o) const { return std::tie(c, s, h) < std::tie(o.c, o.s, o.h); }
  bool operator==(const B & o) const { return std::tie(c, s, h) == std::tie(o.c, o.s, o.h); }
  std::string str() const { return c + " " + s + " " + h; }
};
using Bs = std::set<B>;
std::string str(const Bs & b) { std::string r; for (auto & x : b) r += (r.empty() ? "" : ", ") + x.str(); return "{" + r + "}"; }
const std::string * find(const Names & n, const std::string & w) { for (auto & [t, c] : n) if (t == w) return &c; return nullptr; }
std::vector<std::string> words(const std::string & s)
{
  std::istringstream i(s);
  std::vector<std::string> r;
  for (std::string w; i >> w;) r.push_back(w);
  return r;
}
// The meaning of words read from left to right: an optional colour, an optional status, an optional shape.
std::optional<B> meaning(const std::vector<std::string> & w)
{
  B b;
  std::size_t k = 0;
  if (k < w.size()) if (auto p = find(colors, w[k])) b.c = *p, ++k;
  if (k < w.size()) if (auto p = find(statuses, w[k])) b.s = *p, ++k;
  if (k < w.size()) if (auto p = find(shapes, w[k])) b.h = *p, ++k;
  return k == w.size() and k ? std::optional<B>(b) : std::nullopt;
}
std::vector<std::string> random_words()
{
  std::vector<std::string> w;
  do {
    w.clear();
    if (g->chance(.8)) w.push_back(g->pick(colors).first);
    if (g->chance(.6)) w.push_back(g->pick(statuses).first);
    if (g->chance(.6)) w.push_back(g->pick(shapes).first);
  } while (w.empty());
  return w;
}
std::string join(const std::vector<std::string> & w, const char * sep) { std::string r; for (auto & x : w) r += (r.empty() ? "" : sep) + x; return r; }
std::pair<std::string, Bs> random_state(int most = 4)
{
  std::vector<std::string> l;
  Bs b;
  for (int i = g->i(1, most); i > 0; --i) {
    auto w = random_words();
    b.insert(*meaning(w));
    l.push_back(join(w, g->chance(.1) ? "  " : " "));
  }
  return {join(l, g->chance(.7) ? ", " : g->chance(.5) ? "," : ",  "), b};
}
// A text no reading of which describes bulbs.
std::string bad_state()
{
  auto w = random_words();
  switch (g->i(0, 7)) {
    case 0: w.insert(w.begin() + g->i(0, w.size()), std::string(g->pick(std::vector<std::string>{"blue", "purple", "solid", "On", "triangle", "GREEN", "RED", "solidon", "upleft", "Circle", "redd", "0", "Up"}))); break;
    case 1: { const std::string c = g->pick(colors).first; w = {"circle", c == "unknown" ? "red" : c}; break; }
    case 2: { const std::string c = g->pick(shapes).first; w = {"cross", c}; break; }
    case 3: { const std::string c = g->pick(colors).first; w = {"red", c == "unknown" ? "red" : c}; break; }
    case 4: return "," + join(w, " ");
    case 5: return join(w, " ") + ",, " + join(random_words(), " ");
    case 6: { std::string t = join(w, " "); t += g->pick(std::vector<char>{';', '.', '-', '/', '|', ':', '!'}); return t + "red"; }
    default: w = {"left", "flashing"}; if (g->chance(.5)) w.insert(w.begin(), "red"); break;
  }
  std::string r;
  if (g->chance(.3)) r += join(random_words(), " ") + ", ";
  r += join(w, " ");
  if (g->chance(.3)) r += ", " + join(random_words(), " ");
  return r;
}
// ---- reading the light and its messages back ---------------------------------------------------
Bs read(const std::string & text, const std::string & what)
{
  Bs b;
  std::size_t n = 0;
  if (not text.empty()) for (std::size_t i = 0; i <= text.size();) {
    auto e = std::min(text.find(", ", i), text.size());
    auto w = words(text.substr(i, e - i));
    const std::string *c = w.size() == 3 ? find(colors, w[0]) : nullptr, *s = w.size() == 3 ? find(statuses, w[1]) : nullptr, *h = w.size() == 3 ? find(shapes, w[2]) : nullptr;
    if (c and s and h) b.insert({*c, *s, *h}), ++n;
    else vh::fail("description-unreadable", what + ": '" + text + "'");
    i = e + 2;
  }
  if (n != b.size()) vh::fail("description-repeats", what + ": '" + text + "'");
  return b;
}
B of(const TrafficLight::Bulb & b)
{
  return {boost::lexical_cast<std::string>(std::get<0>(b.value)), boost::lexical_cast<std::string>(std::get<1>(b.value)), boost::lexical_cast<std::string>(std::get<2>(b.value))};
}
Bs of(const TrafficLight & l) { Bs b; for (auto & x : l.bulbs) b.insert(of(x)); return b; }
struct Seen { Bs bulbs; std::vector<double> confidence; };
B of(const simulation_api_schema::TrafficLight & p)
{
  using T = simulation_api_schema::TrafficLight;
  static const std::map<int, std::string> c{{T::GREEN, "green"}, {T::AMBER, "yellow"}, {T::RED, "red"}, {T::WHITE, "white"}, {T::UNKNOWN_COLOR, "unknown"}},
    s{{T::SOLID_ON, "solidOn"}, {T::SOLID_OFF, "solidOff"}, {T::FLASHING, "flashing"}, {T::UNKNOWN_STATUS, "unknown"}},
    h{{T::CIRCLE, "circle"}, {T::CROSS, "cross"}, {T::LEFT_ARROW, "left"}, {T::DOWN_ARROW, "down"}, {T::UP_ARROW, "up"}, {T::RIGHT_ARROW, "right"}, {T::DOWN_LEFT_ARROW, "lowerLeft"}, {T::UP_LEFT_ARROW, "upperLeft"}, {T::DOWN_RIGHT_ARROW, "lowerRight"}, {T::UP_RIGHT_ARROW, "upperRight"}, {T::UNKNOWN_SHAPE, "unknown"}};
  auto at = [](auto & m, int k) { auto i = m.find(k); return i == m.end() ? "?" + std::to_string(k) : i->second; };
  return {at(c, p.color()), at(s, p.status()), at(h, p.shape())};
}
template <typename M> B of_message(const M & m)
{
  static const std::map<int, std::string> c{{M::GREEN, "green"}, {M::AMBER, "yellow"}, {M::RED, "red"}, {M::WHITE, "white"}, {0, "unknown"}},
    s{{M::SOLID_ON, "solidOn"}, {M::SOLID_OFF, "solidOff"}, {M::FLASHING, "flashing"}, {0, "unknown"}},
    h{{M::CIRCLE, "circle"}, {M::CROSS, "cross"}, {M::LEFT_ARROW, "left"}, {M::DOWN_ARROW, "down"}, {M::UP_ARROW, "up"}, {M::RIGHT_ARROW, "right"}, {M::DOWN_LEFT_ARROW, "lowerLeft"}, {M::UP_LEFT_ARROW, "upperLeft"}, {M::DOWN_RIGHT_ARROW, "lowerRight"}, {M::UP_RIGHT_ARROW, "upperRight"}, {0, "unknown"}};
  auto at = [](auto & m, int k) { auto i = m.find(k); return i == m.end() ? "?" + std::to_string(k) : i->second; };
  return {at(c, m.color), at(s, m.status), at(h, m.shape)};
}
template <typename C> Seen seen(const C & elements)
{
  Seen r;
  for (auto & e : elements) { r.bulbs.insert(of_message(e)); r.confidence.push_back(e.confidence); }
  return r;
}
// Equal, or equal but for diagonal arrows pointing up shown as unknown shapes (a recorded finding).
void same_bulbs(const Bs & got, const Bs & want, bool published, const std::string & what)
{
  if (got == want) return;
  if (published) {
    Bs w;
    for (auto x : want) { if (x.h == "upperLeft" or x.h == "upperRight") x.h = "unknown"; w.insert(x); }
    if (got == w) { vh::fail("diagonal-up-arrows-published-unknown", what + ": published " + str(got) + ", lit are " + str(want)); return; }
  }
  vh::fail("bulbs-differ", what + ": " + str(got) + ", should be " + str(want));
}
void same_confidence(const std::vector<double> & got, std::vector<double> any, const std::string & what)
{
  for (double c : got) if (std::none_of(any.begin(), any.end(), [&](double w) { return std::abs(c - w) < 1e-6; })) { vh::fail("confidence-differs", what + vh::cat(": ", c, ", should be ", any[0])); return; }
}
template <typename F> bool refused(F && f)
{
  try { f(); return false; } catch (const std::exception &) { return true; } catch (...) { return true; }
}
// ---- part A: one light -----------------------------------------------------------------------
void new_map();
void one_light()
{
  const auto w = map_.ways[0];
  auto judge = [&](const std::string & text, const Bs & want) {
    vh::current("light '" + text + "'");
    TrafficLight l(w);
    try { l.set(text); } catch (const std::exception & e) { vh::fail("valid-refused", "'" + text + "': " + e.what()); return; }
    same_bulbs(of(l), want, false, "set('" + text + "')");
    std::ostringstream o;
    o << l;
    same_bulbs(read(o.str(), "after set('" + text + "')"), want, false, "description after set('" + text + "')");
    TrafficLight again(w);
    if (refused([&] { again.set(o.str()); })) vh::fail("description-refused", "'" + o.str() + "'");
    else same_bulbs(of(again), want, false, "set again from '" + o.str() + "'");
    auto p = static_cast<simulation_api_schema::TrafficSignal>(l);
    Bs b;
    for (auto & x : p.traffic_light_status()) b.insert(of(x));
    if (b.size() != std::size_t(p.traffic_light_status_size())) vh::fail("bulbs-repeat", "wire form after '" + text + "'");
    same_bulbs(b, want, false, "wire form after '" + text + "'");
    auto m = static_cast<traffic_simulator_msgs::msg::TrafficLightV1>(l);
    same_bulbs(seen(m.traffic_light_bulbs).bulbs, want, false, "TrafficLightV1 after '" + text + "'");
    if (m.traffic_light_bulbs.size() != want.size()) vh::fail("bulbs-repeat", "TrafficLightV1 after '" + text + "'");
    if (p.id() != w or m.lanelet_way_id != w) vh::fail("id-differs", vh::cat(p.id(), " and ", m.lanelet_way_id, " for ", w));
    for (auto & x : want) if (not l.contains(x.str())) vh::fail("contains", "'" + x.str() + "' after '" + text + "'");
    vh::observed(text);
  };
  static bool once = false;
  if (not once) {
    once = true;
    for (std::size_t i = 0; i <= colors.size(); ++i)
      for (std::size_t j = 0; j <= statuses.size(); ++j)
        for (std::size_t k = 0; k <= shapes.size(); ++k) {
          std::vector<std::string> v;
          if (i < colors.size()) v.push_back(colors[i].first);
          if (j < statuses.size()) v.push_back(statuses[j].first);
          if (k < shapes.size()) v.push_back(shapes[k].first);
          if (not v.empty()) judge(join(v, " "), {*meaning(v)});
        }
    judge("", {});
  }
  auto [text, want] = random_state();
  judge(text, want);
  const auto bad = bad_state();
  vh::current("bad light '" + bad + "'");
  TrafficLight l(w);
  if (not refused([&] { l.set(bad); })) vh::fail("invalid-accepted", "'" + bad + "' sets " + str(of(l)));
  if (not refused([&] { TrafficLight::Bulb b(bad); })) vh::fail("invalid-accepted", "bulb '" + bad + "'");
  vh::observed("bad " + bad);
  vh::count("invalid texts");
}
// ---- part B: the whole --------------------------------------------------------------------------
struct L { Bs bulbs; double confidence = 1; };
struct Model
{
  std::map<lanelet::Id, L> light[2];
  std::map<lanelet::Id, Bs> detected[2];
  std::set<lanelet::Id> v2i;
  std::map<lanelet::Id, std::vector<std::pair<std::int64_t, std::vector<B>>>> predictions;
};
void new_map()
{
  map_ = {};
  const int n = g->i(1, 6);
  for (int i = 0; i < n; ++i) map_.ways.push_back(100 + 7 * i + 1000 * g->i(0, 2));
  for (int i = g->i(1, 4); i > 0; --i) {
    std::vector<lanelet::Id> v;
    for (auto w : map_.ways) if (g->chance(.5)) v.push_back(w);
    if (v.empty()) v.push_back(g->pick(map_.ways));
    map_.groups[9000 + i] = v;
  }
  for (auto w : map_.ways) {
    for (auto c : {"green", "yellow", "red"}) if (g->chance(.85)) {
      geometry_msgs::msg::Point p;
      p.x = g->r(-100, 100), p.y = g->r(-100, 100), p.z = g->r(0, 8);
      map_.bulbs[{w, c}] = p;
    }
    if (g->chance(.8)) map_.lines[w] = g->r(0, 100);
  }
}
template <typename States> std::map<lanelet::Id, Seen> states_of(const States & states, const std::string & what)
{
  std::map<lanelet::Id, Seen> r;
  for (auto & s : states) {
    auto [it, fresh] = r.emplace(s.id(), Seen{});
    if (not fresh) { vh::fail("light-twice", what + vh::cat(": light ", s.id(), " has two states")); continue; }
    for (auto & x : s.traffic_light_status()) { it->second.bulbs.insert(of(x)); it->second.confidence.push_back(x.confidence()); }
    std::multiset<lanelet::Id> rel(s.relation_ids().begin(), s.relation_ids().end());
    auto w = map_.relations(s.id());
    if (rel != std::multiset<lanelet::Id>(w.begin(), w.end())) vh::fail("relations-differ", what + vh::cat(": light ", s.id()));
  }
  return r;
}
using Expected = std::map<lanelet::Id, std::pair<Bs, std::vector<double>>>;
Expected expected(const Model & m, int channel, bool with_detected)
{
  Expected e;
  for (auto & [w, l] : m.light[channel]) e[w] = {l.bulbs, {l.confidence}};
  if (with_detected) for (auto & [w, b] : m.detected[channel]) { e[w].first = b; e[w].second.push_back(1); }
  return e;
}
void same_states(const std::map<lanelet::Id, Seen> & got, const Expected & want, bool published, const std::string & what)
{
  for (auto & [w, s] : got) if (not want.count(w) and not s.bulbs.empty()) vh::fail("light-unasked", what + vh::cat(": light ", w, " shows ", str(s.bulbs)));
  for (auto & [w, e] : want) {
    auto it = got.find(w);
    if (it == got.end()) { if (not e.first.empty()) vh::fail("light-missing", what + vh::cat(": light ", w, " should show ", str(e.first))); continue; }
    same_bulbs(it->second.bulbs, e.first, published, what + vh::cat(", light ", w));
    same_confidence(it->second.confidence, e.second, what + vh::cat(", light ", w));
    if (it->second.confidence.size() > e.first.size()) vh::fail("bulbs-repeat", what + vh::cat(", light ", w));
  }
}
template <typename Groups> void same_groups(const Groups & groups, const Expected & want, const std::string & what)
{
  // one entry per lit light and group it belongs to
  std::multiset<std::pair<lanelet::Id, Bs>> w, shown, got;
  for (auto & [way, e] : want) if (not e.first.empty()) for (auto r : map_.relations(way)) {
    w.insert({r, e.first});
    Bs b;
    for (auto x : e.first) { if (x.h == "upperLeft" or x.h == "upperRight") x.h = "unknown"; b.insert(x); }
    shown.insert({r, b});
  }
  for (auto & [id, s] : groups) {
    got.insert({id, s.bulbs});
    std::vector<double> any;
    for (auto & [way, e] : want) for (auto r : map_.relations(way)) if (r == id) any.insert(any.end(), e.second.begin(), e.second.end());
    if (not any.empty()) same_confidence(s.confidence, any, what + vh::cat(", group ", id));
  }
  if (got == w) return;
  auto text = [](auto & m) { std::string r; for (auto & [i, b] : m) r += std::to_string(i) + str(b) + " "; return r; };
  vh::fail(got == shown ? "diagonal-up-arrows-published-unknown" : "groups-differ", what + ": published " + text(got) + " should be " + text(w));
}
using Groups = std::vector<std::pair<lanelet::Id, Seen>>;
void whole()
{
  new_map();
  vshim::clock_ns() = 1000000000;
  const std::vector<std::string> architectures{"awf/universe/20230906", "awf/universe/20240605", "awf/universe/20250130"};
  const auto architecture = g->pick(architectures);
  rclcpp::Node::SharedPtr node = std::make_shared<rclcpp::Node>("lights");
  std::map<std::string, std::vector<Groups>> groups;
  std::map<std::string, std::vector<autoware_perception_msgs::msg::TrafficLightGroupArray>> raw;
  std::vector<traffic_simulator_msgs::msg::TrafficLightArrayV1> arrays;
  std::vector<visualization_msgs::msg::MarkerArray> markers;
  int unknown_topics = 0;
  vshim::on_publish() = [&](const std::string & topic, std::type_index t, const void * p) {
    if (t == typeid(autoware_perception_msgs::msg::TrafficSignalArray)) {
      Groups v;
      for (auto & s : static_cast<const autoware_perception_msgs::msg::TrafficSignalArray *>(p)->signals) v.push_back({s.traffic_signal_id, seen(s.elements)});
      groups[topic].push_back(v);
    } else if (t == typeid(autoware_perception_msgs::msg::TrafficLightGroupArray)) {
      Groups v;
      auto & m = *static_cast<const autoware_perception_msgs::msg::TrafficLightGroupArray *>(p);
      for (auto & s : m.traffic_light_groups) v.push_back({s.traffic_light_group_id, seen(s.elements)});
      groups[topic].push_back(v);
      raw[topic].push_back(m);
    } else if (t == typeid(traffic_simulator_msgs::msg::TrafficLightArrayV1)) arrays.push_back(*static_cast<const traffic_simulator_msgs::msg::TrafficLightArrayV1 *>(p));
    else if (t == typeid(visualization_msgs::msg::MarkerArray)) markers.push_back(*static_cast<const visualization_msgs::msg::MarkerArray *>(p));
    else ++unknown_topics;
  };
  traffic_simulator::TrafficLights lights(node, architecture);
  simple_sensor_simulator::traffic_lights::TrafficLightsDetector detector(*node, architecture);
  if (not refused([&] { traffic_simulator::TrafficLights bad(node, "awf/universe"); })) vh::fail("architecture-accepted", "awf/universe");
  Model m;
  std::string log = architecture + ":";
  for (auto & [r, v] : map_.groups) { log += vh::cat(" ", r, "=("); for (auto w : v) log += vh::cat(w, " "); log += ")"; }
  auto channel = [&](int c) -> traffic_simulator::TrafficLightsBase & {
    if (c) return *lights.getV2ITrafficLights();
    return *lights.getConventionalTrafficLights();
  };
  auto detected = [&](int c) -> traffic_simulator::DetectedTrafficLights & { return c ? *lights.getV2IDetectedTrafficLights() : *lights.getConventionalDetectedTrafficLights(); };
  auto any_id = [&]() -> lanelet::Id {
    if (g->chance(.5)) return g->pick(map_.ways);
    auto it = map_.groups.begin();
    std::advance(it, g->i(0, map_.groups.size() - 1));
    return it->first;
  };
  auto mirrored = [&](lanelet::Id w, auto f) { if (m.v2i.count(w)) f(m.light[1][w]); };
  const char * names[2] = {"conventional", "v2i"};
  bool started = false;
  const int steps = g->i(5, 40);
  for (int step = 0; step < steps; ++step) {
    const int c = g->chance(.35), op = g->i(0, 99);
    const auto id = any_id();
    const auto ways = map_.of(id);
    auto note = [&](const std::string & t) { log += "\n" + t; vh::current(log); };
    auto must = [&](auto f) { try { f(); } catch (const std::exception & e) { vh::fail("valid-refused", log + "\n" + e.what()); } };
    if (op < 22) {
      auto [text, b] = random_state();
      note(vh::cat(names[c], " set ", id, " '", text, "'"));
      must([&] { channel(c).setTrafficLightsState(id, text); });
      for (auto w : ways) { m.light[c][w].bulbs = b; if (c == 0) mirrored(w, [&](L & l) { l.bulbs = b; }); }
    } else if (op < 30) {
      auto [text, b] = random_state(2);
      note(vh::cat(names[c], " add ", id, " '", text, "'"));
      must([&] { channel(c).addTrafficLightsState(id, text); });
      for (auto w : ways) { m.light[c][w].bulbs.insert(b.begin(), b.end()); if (c == 0) mirrored(w, [&](L & l) { l.bulbs.insert(b.begin(), b.end()); }); }
    } else if (op < 36) {
      note(vh::cat(names[c], " clear ", id));
      must([&] { channel(c).clearTrafficLightsState(id); });
      for (auto w : ways) { m.light[c][w].bulbs.clear(); if (c == 0) mirrored(w, [&](L & l) { l.bulbs.clear(); }); }
    } else if (op < 41) {
      auto & [text, name] = g->pick(colors);
      if (m.v2i.empty() or c) {   // whether this reaches an enabled V2I output is not judged
        note(vh::cat(names[c], " colour ", id, " ", text));
        must([&] { channel(c).setTrafficLightsColor(id, TrafficLight::Color(text)); });
        for (auto w : ways) m.light[c][w].bulbs.insert({name, "solidOn", "circle"});
      }
    } else if (op < 46) {
      const double k = g->i(0, 100) / 100.0;
      note(vh::cat(names[c], " confidence ", id, " ", k));
      must([&] { channel(c).setTrafficLightsConfidence(id, k); });
      for (auto w : ways) m.light[c][w].confidence = k;
    } else if (op < 54) {
      auto [text, b] = random_state();
      note(vh::cat(names[c], " detected ", id, " '", text, "'"));
      must([&] { detected(c).setState(id, text); });
      for (auto w : ways) m.detected[c][w] = b;
    } else if (op < 58) {
      auto [text, b] = random_state(2);
      note(vh::cat(names[c], " detected add ", id, " '", text, "'"));
      must([&] { detected(c).addState(id, text); });
      for (auto w : ways) m.detected[c][w].insert(b.begin(), b.end());
    } else if (op < 63) {
      note(vh::cat(names[c], " detected clear ", id));
      must([&] { detected(c).clearState(id); });
      for (auto w : ways) m.detected[c].erase(w);
    } else if (op < 71) {
      const bool on = g->chance(.7);
      note(vh::cat("v2i feature ", id, on ? " on" : " off"));
      must([&] { lights.setV2IFeature(id, on); });
      for (auto w : ways) { if (on) m.v2i.insert(w); else m.v2i.erase(w); }
      for (auto w : map_.ways) if (lights.isV2ITrafficLightEnabled(w) != bool(m.v2i.count(w))) vh::fail("v2i-feature", log + vh::cat("\nlight ", w));
      for (auto & [r, v] : map_.groups) {
        int k = 0;
        for (auto w : v) k += m.v2i.count(w);
        if ((k == 0 or k == int(v.size())) and lights.isV2ITrafficLightEnabled(r) != (k > 0)) vh::fail("v2i-feature", log + vh::cat("\ngroup ", r));
      }
    } else if (op < 75) {
      auto w = random_words();
      const auto text = join(w, " ");
      const double ahead = g->i(1, 8) * 5 + g->i(0, 2) * .001;
      note(vh::cat("predict ", id, " '", text, "' in ", ahead));
      must([&] { lights.getV2ITrafficLights()->addTrafficLightsStatePrediction(id, text, ahead); });
      const std::int64_t at = vshim::clock_ns() + std::llround(ahead * 1e9);
      for (auto x : ways) {
        auto & p = m.predictions[x];
        auto it = std::find_if(p.begin(), p.end(), [&](auto & q) { return std::abs(q.first - at) < 5000000; });
        if (it == p.end()) p.push_back({at, {*meaning(w)}});
        else it->second.push_back(*meaning(w));
      }
    } else if (op < 76) {
      note("clear predictions");
      lights.getV2ITrafficLights()->clearTrafficLightsStatePredictions();
      m.predictions.clear();
    } else if (op < 80) {
      const auto text = bad_state();
      note(vh::cat(names[c], " set ", id, " '", text, "' (invalid)"));
      if (not refused([&] { if (g->chance(.5)) channel(c).setTrafficLightsState(id, text); else channel(c).addTrafficLightsState(id, text); })) vh::fail("invalid-accepted", log);
      if (not refused([&] { channel(c).compareTrafficLightsState(id, "green sideways"); })) vh::fail("invalid-accepted", log + " compare");
      for (auto w : ways) { m.light[0][w].bulbs.clear(); m.light[1][w].bulbs.clear(); }   // what the valid beginning did is not judged
      for (int k : {0, 1}) channel(k).clearTrafficLightsState(id);
    } else if (op < 83) {
      note("unknown light");
      if (not refused([&] { channel(c).setTrafficLightsState(77, "red"); })) vh::fail("unknown-light-accepted", log);
      if (not refused([&] { detected(c).setState(77, "red"); })) vh::fail("unknown-light-accepted", log + " detected");
      if (not refused([&] { lights.getV2ITrafficLights()->addTrafficLightsStatePrediction(77, "red", 1); })) vh::fail("unknown-light-accepted", log + " prediction");
    } else {
      // ---- publish
      note("publish");
      if (not started) { started = true; lights.startTrafficLightsUpdate(20, 20); }
      groups.clear(), raw.clear(), arrays.clear(), markers.clear();
      vshim::clock_ns() += 50000000;
      node->get_node_base_interface()->spin_some();
      detector.updateFrame(node->now(), lights.generateConventionalUpdateRequest());
      if (arrays.size() != 1) vh::fail("not-published", log + vh::cat("\n", arrays.size(), " traffic light arrays in one period"));
      for (auto & a : arrays) {
        std::map<lanelet::Id, Seen> got;
        for (auto & l : a.traffic_lights)
          if (not got.emplace(l.lanelet_way_id, seen(l.traffic_light_bulbs)).second) vh::fail("light-twice", log);
        same_states(got, expected(m, 0, false), true, log + "\narray");
      }
      for (auto & [topic, want] : std::map<std::string, Expected>{
             {"/perception/traffic_light_recognition/internal/traffic_signals", expected(m, 0, true)},
             {"/perception/traffic_light_recognition/external/traffic_signals", expected(m, 1, true)},
             {"/v2x/traffic_signals", expected(m, 1, true)}}) {
        if (groups[topic].size() != 1) vh::fail("not-published", log + "\n" + topic);
        for (auto & v : groups[topic]) same_groups(v, want, log + "\n" + topic);
        if (topic.find("internal") != std::string::npos) { for (auto & r : raw[topic]) for (auto & x : r.traffic_light_groups) if (not x.predictions.empty()) vh::fail("prediction-unasked", log + topic); continue; }
        for (auto & r : raw[topic]) {
          // the predictions of a group's entries are those of its lit lights
          std::map<lanelet::Id, std::multiset<std::string>> got, due;
          auto line = [](std::int64_t ns, std::vector<B> b, bool show) {
            for (auto & x : b) if (show and (x.h == "upperLeft" or x.h == "upperRight")) x.h = "unknown";
            std::sort(b.begin(), b.end());
            std::string t = std::to_string((ns + 2500000) / 5000000 * 5) + "ms";
            for (auto & x : b) t += " " + x.str();
            return t;
          };
          for (auto & x : r.traffic_light_groups) for (auto & p : x.predictions) {
            std::vector<B> b;
            for (auto & e : p.simultaneous_elements) b.push_back(of_message(e));
            got[x.traffic_light_group_id].insert(line(std::int64_t(p.predicted_stamp.sec) * 1000000000 + p.predicted_stamp.nanosec, b, false));
          }
          bool diagonal = false;
          for (auto & [way, e] : want) if (not e.first.empty()) if (auto it = m.predictions.find(way); it != m.predictions.end())
            for (auto id2 : map_.relations(way)) for (auto & [at, b] : it->second) {
              for (auto & x : b) diagonal |= x.h == "upperLeft" or x.h == "upperRight";
              due[id2].insert(line(at, b, true));
            }
          if (got != due and not diagonal) {
            std::string t;
            for (auto & [k, v2] : got) { t += vh::cat("\n got ", k); for (auto & s : v2) t += " [" + s + "]"; }
            for (auto & [k, v2] : due) { t += vh::cat("\n due ", k); for (auto & s : v2) t += " [" + s + "]"; }
            vh::fail("predictions-differ", log + "\n" + topic + t);
          }
          vh::count("published predictions", got.size());
        }
      }
      if (markers.size() < 2) vh::fail("not-published", log + "\nmarkers");
      // the last messages of each channel: what they leave on the screen
      std::map<int, std::pair<double, geometry_msgs::msg::Point>> screen;
      for (auto & a : markers) {
        bool wiped = false;
        for (auto & k : a.markers) {
          if (k.action == visualization_msgs::msg::Marker::DELETEALL) wiped = true;
          else if (k.action == visualization_msgs::msg::Marker::ADD) { if (wiped) vh::fail("marker", log + "\nadded and wiped at once"); screen[k.id] = {k.color.a, k.pose.position}; }
        }
        if (wiped) screen.clear();
      }
      // whichever channel drew last is shown
      auto drawn = [&](int ch) {
        std::map<int, std::pair<double, geometry_msgs::msg::Point>> r;
        const std::vector<std::string> order{"green", "yellow", "red"};
        for (auto & [w, l] : m.light[ch]) for (int k = 0; k < 3; ++k) {
          auto it = map_.bulbs.find({w, order[k]});
          if (it == map_.bulbs.end()) continue;
          bool lit = false;
          for (auto & b : l.bulbs) lit |= b.c == order[k] and b.h == "circle";
          r[int(w << 2 | k)] = {lit ? 1 : .3, it->second};
        }
        return r;
      };
      auto close = [](auto & a, auto & b) {
        if (a.size() != b.size()) return false;
        for (auto & [k, v] : a) { auto it = b.find(k); if (it == b.end() or std::abs(it->second.first - v.first) > 1e-6 or it->second.second.x != v.second.x or it->second.second.z != v.second.z) return false; }
        return true;
      };
      auto d0 = drawn(0), d1 = drawn(1);
      if (not close(screen, d0) and not close(screen, d1)) vh::fail("markers-differ", log);
      vh::count("published rounds");
    }
    // ---- after every step
    for (int ch : {0, 1}) {
      auto e = expected(m, ch, ch == 0);
      const auto req = ch ? channel(1).generateUpdateTrafficLightsRequest() : lights.generateConventionalUpdateRequest();
      same_states(states_of(req.states(), log + "\n" + names[ch]), e, false, log + "\n" + names[ch] + " request");
    }
    if (g->chance(.6)) {
      const int ch = g->chance(.4);
      const auto q = any_id();
      const auto text = channel(ch).getTrafficLightsComposedState(q);
      std::vector<Bs> parts;
      std::string rest = text;
      for (;;) {
        auto p = rest.find("; ");
        parts.push_back(read(rest.substr(0, p), log));
        if (p == std::string::npos) break;
        rest = rest.substr(p + 2);
      }
      std::vector<Bs> want;
      for (auto w : map_.of(q)) want.push_back(m.light[ch][w].bulbs);
      if (parts != want) vh::fail("composed-state", log + vh::cat("\n", names[ch], " ", q, ": '", text, "'"));
      // comparing: every light of the group contains the bulb
      auto w = random_words();
      if (g->chance(.7)) for (auto & b : want) if (not b.empty()) { auto x = std::next(b.begin(), g->i(0, b.size() - 1)); w = {x->c, x->s, x->h}; break; }
      bool all = true, none = true;
      for (auto & b : want) { all &= b.count(*meaning(w)) > 0; none &= b.empty(); }
      if (join(w, " ") != "none" and channel(ch).compareTrafficLightsState(q, join(w, " ")) != all) vh::fail("compare", log + vh::cat("\n", names[ch], " ", q, " with '", join(w, " "), "' composed '", text, "'"));
      for (auto t : {"", "none"}) if (channel(ch).compareTrafficLightsState(q, t) != none) vh::fail("compare", log + vh::cat("\n", names[ch], " ", q, " with '", t, "'"));
      const auto x = g->pick(map_.ways);
      auto & b = m.light[ch][x].bulbs;
      if (channel(ch).isRequiredStopTrafficLightState(x) != (b.count({"red", "solidOn", "circle"}) or b.count({"yellow", "solidOn", "circle"}))) vh::fail("required-stop", log + vh::cat("\n", names[ch], " ", x));
      vh::count("comparisons");
    }
  }
  // ---- publication keeps its rate
  {
    const double rate = g->i(1, 200) / 4.0;
    channel(0).resetUpdate(rate);
    arrays.clear();
    const std::int64_t dt = std::int64_t(1e9 / rate / g->r(3, 9));
    const int n = g->i(20, 60);
    for (int i = 0; i < n; ++i) { vshim::clock_ns() += dt; node->get_node_base_interface()->spin_some(); }
    const double due = double(dt) * n * rate / 1e9;
    if (std::abs(double(arrays.size()) - due) > 1.5) vh::fail("publish-rate", vh::cat(arrays.size(), " messages, ", due, " due at ", rate, " Hz"));
  }
  vshim::on_publish() = nullptr;
  vh::observed(log);
}
}  // namespace
int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng rng(vh::st().seed);
  g = &rng;
  rclcpp::init(0, nullptr);
  new_map();
  for (std::uint64_t i = 0, n = vh::n(4000, 60000); i < n; ++i) one_light();
  for (std::uint64_t i = 0, n = vh::n(400, 8000); i < n; ++i) whole();
  vh::finish();
}
