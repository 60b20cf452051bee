// C26: every message kind converted to its wire form, serialised, parsed and converted back.
#include <simulation_interface/conversions.hpp>
#include <simulation_interface/operators.hpp>

#include "generic.hpp"
using namespace vh;
namespace si = simulation_interface;

template <typename T> void random(Rng & r, T & m) { generic::fill(r, m); }
// fields whose values the standard restricts
template <typename T> void legal(Rng & r, T & m)
{
  if constexpr (std::is_same_v<T, traffic_simulator_msgs::msg::EntityType>) m.type = std::uint8_t(r.i(0, 3));
  else if constexpr (std::is_same_v<T, traffic_simulator_msgs::msg::EntitySubtype>) m.value = std::uint8_t(r.i(0, 7));
  else if constexpr (std::is_same_v<T, autoware_vehicle_msgs::msg::GearCommand>) m.command = std::uint8_t(r.i(0, 24));
  else if constexpr (std::is_class_v<T> && !std::is_same_v<T, std::string> && !generic::is_vector<T>::value)
    m.verif_fields([&](const char *, auto & f) { legal(r, f); });
  else if constexpr (generic::is_vector<T>::value) for (auto & e : m) legal(r, e);
}

template <typename M, typename P, typename To, typename From>
void round_trip(Rng & r, const char * name, To to, From from, const std::function<void(M &)> & prepare = {})
{
  M m, back;
  random(r, m);
  legal(r, m);
  if (prepare) prepare(m);
  // the receiver may hold anything beforehand
  random(r, back);
  P wire;
  if (r.chance(0.5)) generic::fill_proto(r, wire);
  current(name);
  try {
    to(m, wire);
    std::uint64_t compared = 0;
    if (auto d = generic::against_wire(m, wire, name, compared); !d.empty()) { fail(cat("wire-", name), d); return; }
    const auto packet = zeromq::toZMQ(wire);
    const P parsed = zeromq::toProto<P>(packet);
    if (parsed.SerializeAsString() != wire.SerializeAsString()) { fail(cat("packet-", name), "the packet does not carry the message"); return; }
    from(parsed, back);
    if (auto d = generic::difference(m, back, name, prepare ? nullptr : P::descriptor()); !d.empty()) { fail(cat("changed-", name), d); return; }
    count("fields compared on the wire", compared);
    count(cat("round trips of ", name));
    observed(cat(name, r.e()));
  } catch (const std::exception & e) {
    fail(cat("refused-", name), cat("a valid message is refused: ", e.what()));
  }
}
#define PAIR(PKG, TYPE) round_trip<PKG::msg::TYPE, PKG::TYPE>(r, #TYPE, [](auto & a, auto & b) { si::toProto(a, b); }, [](auto & a, auto & b) { si::toMsg(a, b); })
#define PAIR2(PKG, TYPE) round_trip<PKG::msg::TYPE, PKG::TYPE>(r, #TYPE, [](auto & a, auto & b) { b = si::toProtobufMessage(a); }, [](auto & a, auto & b) { b = si::toROS2Message(a); })

template <typename F> bool refuses(F f)
{
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}

void enumerations(Rng & r)
{
  using traffic_simulator_msgs::msg::EntityType;
  using traffic_simulator_msgs::msg::EntitySubtype;
  using autoware_vehicle_msgs::msg::GearCommand;
  const char * types[] = {"EGO", "VEHICLE", "PEDESTRIAN", "MISC_OBJECT"};
  const char * subtypes[] = {"UNKNOWN", "CAR", "TRUCK", "BUS", "TRAILER", "MOTORCYCLE", "BICYCLE", "PEDESTRIAN"};
  auto print = [](auto & x) { using namespace traffic_simulator_msgs; std::stringstream s; s << x; return s.str(); };
  for (int v = 0; v < 256; ++v) {
    current(cat("enumeration value ", v));
    {
      EntityType m; m.type = std::uint8_t(v);
      traffic_simulator_msgs::EntityType p; p.set_type(traffic_simulator_msgs::EntityType_Enum(3 - std::min(v, 3)));
      const bool no = refuses([&] { si::toProto(m, p); });
      if (no != (v > 3)) fail("entity-type-domain", cat("entity type ", v, no ? " refused" : " accepted"));
      if (refuses([&] { print(m); }) != (v > 3)) fail("entity-type-print-domain", cat("printing entity type ", v));
      if (v <= 3) {
        if (print(m) != types[v] || print(p) != types[v]) fail("entity-type-name", cat(v, " prints as ", print(m), " and ", print(p)));
        if (p.type() != v) fail("entity-type-value", cat(v, " travels as ", int(p.type())));
      }
    }
    {
      EntitySubtype m; m.value = std::uint8_t(v);
      traffic_simulator_msgs::EntitySubtype p; p.set_value(traffic_simulator_msgs::EntitySubtype_Enum(7 - std::min(v, 7)));
      const bool no = refuses([&] { si::toProto(m, p); });
      if (no != (v > 7)) fail("entity-subtype-domain", cat("entity subtype ", v, no ? " refused" : " accepted"));
      if (refuses([&] { print(m); }) != (v > 7)) fail("entity-subtype-print-domain", cat("printing entity subtype ", v));
      if (v <= 7) {
        if (print(m) != subtypes[v] || print(p) != subtypes[v]) fail("entity-subtype-name", cat(v, " prints as ", print(m), " and ", print(p)));
        if (p.value() != v) fail("entity-subtype-value", cat(v, " travels as ", int(p.value())));
      }
    }
    {
      GearCommand m; m.command = std::uint8_t(v);
      autoware_vehicle_msgs::GearCommand p; p.set_command(autoware_vehicle_msgs::GearCommand_Constants(v == 3 ? 4 : 3));
      const bool no = refuses([&] { si::toProto(m, p); });
      if (no != (v > 24)) fail("gear-domain", cat("gear command ", v, no ? " refused" : cat(" accepted as ", int(p.command()))));
      else if (v <= 24 && p.command() != v) fail("gear-value", cat(v, " travels as ", int(p.command())));
    }
    count("enumeration values tried", 3);
  }
  // wire values without a counterpart
  for (int i = 0; i < 50; ++i) {
    const int v = i < 10 ? i + 25 : i < 20 ? -1 - i : int(r.u() >> 33);
    EntityType t; EntitySubtype s; GearCommand g;
    traffic_simulator_msgs::EntityType pt; pt.set_type(traffic_simulator_msgs::EntityType_Enum(v));
    traffic_simulator_msgs::EntitySubtype ps; ps.set_value(traffic_simulator_msgs::EntitySubtype_Enum(v));
    autoware_vehicle_msgs::GearCommand pg; pg.set_command(autoware_vehicle_msgs::GearCommand_Constants(v));
    if (!refuses([&] { si::toMsg(pt, t); })) fail("entity-type-wire", cat("wire value ", v, " becomes ", int(t.type)));
    if (!refuses([&] { si::toMsg(ps, s); })) fail("entity-subtype-wire", cat("wire value ", v, " becomes ", int(s.value)));
    if (!refuses([&] { si::toMsg(pg, g); })) fail("gear-wire", cat("wire value ", v, " becomes ", int(g.command)));
    count("wire values without counterpart tried", 3);
  }
}

// A stand-in for the bulb messages: distinct numbers for every value.
struct BulbMessage
{
  enum : std::uint8_t { RED = 1, AMBER, GREEN, WHITE, CIRCLE = 10, LEFT_ARROW, RIGHT_ARROW, UP_ARROW, DOWN_ARROW, DOWN_LEFT_ARROW, DOWN_RIGHT_ARROW, CROSS, SOLID_OFF = 30, SOLID_ON, FLASHING, UNKNOWN = 99 };
  std::uint8_t color, shape, status;
  float confidence;
};
void bulbs(Rng & r)
{
  using namespace simulation_api_schema;
  for (int c = 0; c < 5; ++c)
    for (int s = 0; s < 11; ++s)
      for (int t = 0; t < 4; ++t) {
        TrafficLight p;
        p.set_color(TrafficLight_Color(c));
        p.set_shape(TrafficLight_Shape(s));
        p.set_status(TrafficLight_Status(t));
        p.set_confidence(float(r.unit()));
        BulbMessage m{200, 200, 200, -1};
        si::toMsg(p, m);
        const int colors[] = {BulbMessage::RED, BulbMessage::AMBER, BulbMessage::GREEN, BulbMessage::WHITE, BulbMessage::UNKNOWN};
        // the two diagonal upward arrows are documented as not supported by the message form
        const int shapes[] = {BulbMessage::CIRCLE, BulbMessage::LEFT_ARROW, BulbMessage::RIGHT_ARROW, BulbMessage::UP_ARROW, -1, -1, BulbMessage::DOWN_ARROW, BulbMessage::DOWN_LEFT_ARROW, BulbMessage::DOWN_RIGHT_ARROW, BulbMessage::CROSS, BulbMessage::UNKNOWN};
        const int states[] = {BulbMessage::SOLID_OFF, BulbMessage::SOLID_ON, BulbMessage::FLASHING, BulbMessage::UNKNOWN};
        if (m.color != colors[c]) fail("bulb-color", cat("colour ", c, " becomes ", int(m.color)));
        if (shapes[s] >= 0 && m.shape != shapes[s]) fail("bulb-shape", cat("shape ", s, " becomes ", int(m.shape)));
        if (m.status != states[t]) fail("bulb-status", cat("status ", t, " becomes ", int(m.status)));
        if (m.confidence != p.confidence()) fail("bulb-confidence", cat(p.confidence(), " becomes ", m.confidence));
        count("bulbs converted");
      }
}

int main(int argc, char ** argv)
{
  init(argc, argv);
  Rng r(st().seed);
  enumerations(r);
  bulbs(r);
  for (int i = 0, n = int(vh::n(1500, 100000)); i < n; ++i) {
    PAIR(geometry_msgs, Point);
    PAIR(geometry_msgs, Quaternion);
    PAIR(geometry_msgs, Pose);
    PAIR(geometry_msgs, Vector3);
    PAIR(geometry_msgs, Twist);
    PAIR(geometry_msgs, Accel);
    PAIR(traffic_simulator_msgs, BoundingBox);
    PAIR(traffic_simulator_msgs, Performance);
    PAIR(traffic_simulator_msgs, Axle);
    PAIR(traffic_simulator_msgs, Axles);
    PAIR(traffic_simulator_msgs, VehicleParameters);
    PAIR(traffic_simulator_msgs, PedestrianParameters);
    PAIR(traffic_simulator_msgs, MiscObjectParameters);
    PAIR(traffic_simulator_msgs, ActionStatus);
    PAIR(traffic_simulator_msgs, LaneletPose);
    PAIR(traffic_simulator_msgs, EntityType);
    PAIR(traffic_simulator_msgs, EntitySubtype);
    PAIR(traffic_simulator_msgs, EntityStatus);
    PAIR(builtin_interfaces, Duration);
    PAIR(builtin_interfaces, Time);
    PAIR(rosgraph_msgs, Clock);
    PAIR(std_msgs, Header);
    PAIR(autoware_control_msgs, Lateral);
    PAIR(autoware_control_msgs, Longitudinal);
    PAIR(autoware_control_msgs, Control);
    PAIR(autoware_vehicle_msgs, GearCommand);
    PAIR2(traffic_simulator_msgs, Vertex);
    PAIR2(traffic_simulator_msgs, Polyline);
    PAIR2(traffic_simulator_msgs, PolylineTrajectory);
    // the short status: what it does not carry is documented to be empty on arrival
    round_trip<traffic_simulator_msgs::msg::EntityStatus, simulation_api_schema::EntityStatus>(
      r, "short EntityStatus", [](auto & a, auto & b) { si::toProto(a, b); }, [](auto & a, auto & b) { si::toMsg(a, b); },
      [](auto & m) { m.bounding_box = {}; m.lanelet_pose = {}; m.lanelet_pose_valid = false; });
    {  // the pair of control and gear
      std::tuple<autoware_control_msgs::msg::Control, autoware_vehicle_msgs::msg::GearCommand> m;
      random(r, std::get<0>(m));
      random(r, std::get<1>(m));
      legal(r, std::get<1>(m));
      traffic_simulator_msgs::VehicleCommand p;
      si::toProto(m, p);
      std::uint64_t k = 0;
      if (auto d = generic::against_wire(std::get<0>(m), p.control(), "control", k); !d.empty()) fail("vehicle-command-control", d);
      if (auto d = generic::against_wire(std::get<1>(m), p.gear_command(), "gear_command", k); !d.empty()) fail("vehicle-command-gear", d);
      count("round trips of VehicleCommand");
    }
  }
  sample(cat("31 message kinds, ", vh::n(1500, 100000), " random messages of each"));
  finish();
}
