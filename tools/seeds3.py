"""Third batch of planted bugs: vehicle models, message conversion and transport."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import mk, V
import seeds2
from seeds2 import headers
R="/repo"
PRE='#include <cmath>\n#include <iostream>\n#include <string>\n#include <vector>\n#include <memory>\n#define CHECK(x) do { if (!(x)) { std::cerr << "FAILED: " #x "\\n"; return 1; } } while (0)\n'
VM="simulation/simple_sensor_simulator/src/vehicle_simulation/vehicle_model"
VINC=[f"{R}/simulation/simple_sensor_simulator/include", f"{R}/common/scenario_simulator_exception/include", f"{V}/build/gen/msgs", f"{V}/build/gen", f"{V}/shim/include", "/usr/include/eigen3"]
def vm(id,needs,what,edits,body):
    demo=PRE+"#include <algorithm>\n#include <deque>\n#include <functional>\n#include <simple_sensor_simulator/vehicle_simulation/vehicle_model/sim_model.hpp>\n"+body
    every=demo+"".join(f'\n#include "{f}"' for f in glob.glob(f"{R}/{VM}/*.cpp"))
    h=headers(every,True,VINC)
    mk(id,"C22",needs,what,{f"{VM}/{k}":v for k,v in edits.items()},{"demo.cpp":demo,**h},
f'''I="-I$R/simulation/simple_sensor_simulator/include -I$R/common/scenario_simulator_exception/include -I$here/inc -I/usr/include/eigen3"
i=0; for f in "$here/demo.cpp" $R/{VM}/*.cpp; do i=$((i+1)); g++ -std=c++17 -O0 -w -include "$here/inc/prelude.hpp" $I -c "$f" -o "$T/$i.o" & done; wait
g++ -o "$T/demo" "$T"/*.o
"$T/demo"''')
SI="simulation/simulation_interface"
SINC=[f"{R}/{SI}/include", f"{R}/common/scenario_simulator_exception/include", f"{R}/common/status_monitor/include", f"{V}/build/gen/msgs", f"{V}/build/gen", f"{V}/build/gen/proto", f"{V}/shim/include", "/usr/include/eigen3"]
def si(id,prop,needs,what,edits,body,transport=False):
    demo=PRE+"#include <atomic>\n#include <chrono>\n#include <functional>\n#include <map>\n#include <mutex>\n#include <optional>\n#include <rclcpp/rclcpp.hpp>\n#include <simulation_interface/conversions.hpp>\n"+body
    files=["conversions","constants","operators"]+(["zmq_multi_client","zmq_multi_server"] if transport else [])
    srcs=[f"{R}/{SI}/src/{n}.cpp" for n in files]
    every=demo+"".join(f'\n#include "{f}"' for f in srcs+([f"{R}/common/status_monitor/src/status_monitor.cpp"] if transport else []))
    h={k:v for k,v in headers(every,True,SINC).items() if ".pb." not in k}
    extra="$(ls $R/common/status_monitor/src/*.cpp)" if transport else ""
    mk(id,prop,needs,what,{f"{SI}/{k}":v for k,v in edits.items()},{"demo.cpp":demo,**h},
f'''mkdir -p "$T/proto/simulation_interface"
protoc --proto_path="$R/{SI}/proto" --cpp_out="$T/proto/simulation_interface" "$R"/{SI}/proto/*.proto
I="-I$R/{SI}/include -I$R/common/scenario_simulator_exception/include -I$R/common/status_monitor/include -I$T/proto -I$T/proto/simulation_interface -I$here/inc"
i=0; for f in "$here/demo.cpp" {" ".join(f"$R/{SI}/src/{n}.cpp" for n in files)} {extra} "$T"/proto/simulation_interface/*.cc; do i=$((i+1)); g++ -std=c++17 -O0 -w -include "$here/inc/prelude.hpp" $I -c "$f" -o "$T/$i.o" & done; wait
g++ -o "$T/demo" "$T"/*.o -lprotobuf -lzmq -lpthread -lglog -lboost_thread
timeout 60 "$T/demo"''')
if __name__=="__main__":
    vm("C22-low-gear-two","a vehicle driven in the second low gear","A vehicle in the second low gear never moves.",
     {"sim_model_delay_steer_acc_geared.cpp":[("gear == GearCommand::DRIVE_18 || gear == GearCommand::LOW || gear == GearCommand::LOW_2) {","gear == GearCommand::DRIVE_18 || gear == GearCommand::LOW) {")]},
'''using G = autoware_vehicle_msgs::msg::GearCommand;
double run(int gear)
{
  SimModelDelaySteerAccGeared model(50, 1, 10, 5, 3, .1, 0, .1, 0, .1, 0, 1, 1); SimModelInterface & m = model;
  m.setGear(gear);
  Eigen::VectorXd u(2); u << 1, 0;
  m.setInput(u);
  for (int i = 0; i < 30; ++i) m.update(.1);
  return m.getVx();
}
int main()
{
  CHECK(run(G::DRIVE) > 1); CHECK(run(G::LOW) > 1); CHECK(run(G::LOW_2) > 1);
  CHECK(run(G::PARK) == 0); CHECK(run(G::REVERSE) == 0);
}
''')
    vm("C22-steering-late","a model whose delays for speed and steering differ","The steering command takes effect after the delay of the speed command.",
     {"sim_model_delay_steer_vel.cpp":[("static_cast<size_t>(round(steer_delay_ / dt))","static_cast<size_t>(round(vx_delay_ / dt))")]},
'''int main()
{
  for (double steer_delay : {.2, .5}) {
    SimModelDelaySteerVel model(50, 1, 10, 5, 3, .1, .2, .1, steer_delay, .1, 0); SimModelInterface & m = model;
    Eigen::VectorXd u(2); u << 0, .3;
    m.setInput(u);
    int steps = 0;
    while (m.getSteer() == 0 && steps < 20) { m.update(.1); ++steps; }
    CHECK(steps == int(std::round(steer_delay / .1)) + 1);
  }
}
''')
    vm("C22-dead-band-one-sided","steering to the positive side with a dead band","Steering to one side overshoots the dead band and grows by itself.",
     {"sim_model_delay_steer_acc.cpp":[("return steer_diff + steer_dead_band_;","return steer_diff - steer_dead_band_;")]},
'''int main()
{
  SimModelDelaySteerAcc left(50, 1, 10, 5, 3, .1, 0, .3, 0, .3, .1, 1, 1), right(50, 1, 10, 5, 3, .1, 0, .3, 0, .3, .1, 1, 1);
  SimModelInterface & l = left, & r = right;
  Eigen::VectorXd u(2), w(2);
  u << 0, .3;
  w << 0, -.3;
  l.setInput(u), r.setInput(w);
  for (int i = 0; i < 100; ++i) {
    l.update(.1), r.update(.1);
    CHECK(std::abs(l.getSteer() + r.getSteer()) < 1e-9);
  }
}
''')
    si("C26-second-low-gear","C26","a gear command for the second low gear","The second low gear arrives as the first one.",
     {"src/conversions.cpp":[("    CASE(LOW_2);\n","    case autoware_vehicle_msgs::msg::GearCommand::LOW_2:\n      proto.set_command(autoware_vehicle_msgs::GearCommand_Constants::LOW);\n      break;\n")]},
'''int main()
{
  using G = autoware_vehicle_msgs::msg::GearCommand;
  for (auto g : {G::NONE, G::DRIVE, G::DRIVE_18, G::REVERSE_2, G::PARK, G::LOW, G::LOW_2}) {
    G m; m.command = g;
    autoware_vehicle_msgs::GearCommand p;
    simulation_interface::toProto(m, p);
    G back;
    simulation_interface::toMsg(p, back);
    CHECK(back.command == g);
  }
}
''')
    si("C26-keeps-old-lane-pose","C26","receiving a status without a valid lane pose into a message that held one","The pose on the lane of an earlier status stays in the message.",
     {"src/conversions.cpp":[("  toMsg(proto.lanelet_pose(), status.lanelet_pose);\n","  if (proto.lanelet_pose_valid()) {\n    toMsg(proto.lanelet_pose(), status.lanelet_pose);\n  }\n")]},
'''int main()
{
  traffic_simulator_msgs::msg::EntityStatus a, b, c;
  a.type.type = b.type.type = traffic_simulator_msgs::msg::EntityType::VEHICLE;
  a.lanelet_pose_valid = true; a.lanelet_pose.lanelet_id = 34513; a.lanelet_pose.s = 10;
  b.lanelet_pose_valid = false; b.lanelet_pose.lanelet_id = 0; b.lanelet_pose.s = 1;
  for (auto m : {a, b}) {
    traffic_simulator_msgs::EntityStatus p;
    simulation_interface::toProto(m, p);
    simulation_interface::toMsg(p, c);
    CHECK(c.lanelet_pose_valid == m.lanelet_pose_valid && c.lanelet_pose.lanelet_id == m.lanelet_pose.lanelet_id && c.lanelet_pose.s == m.lanelet_pose.s);
  }
}
''')
    si("C26-duration-before-zero","C26","a negative duration","Negative durations arrive as zero seconds.",
     {"src/conversions.cpp":[("  duration.sec = proto.sec();","  duration.sec = proto.sec() > 0 ? proto.sec() : 0;")]},
'''int main()
{
  for (int s : {0, 5, -1, -7}) {
    builtin_interfaces::msg::Duration m, b;
    m.sec = s; m.nanosec = 500000000;
    builtin_interfaces::Duration p;
    simulation_interface::toProto(m, p);
    simulation_interface::toMsg(p, b);
    CHECK(b.sec == s && b.nanosec == 500000000);
  }
}
''')
    SERVER='''#include <simulation_interface/zmq_multi_client.hpp>
#include <simulation_interface/zmq_multi_server.hpp>
namespace api = simulation_api_schema;
std::vector<std::string> seen;
template <typename A, typename Q> A note(const Q & q) { seen.push_back(q.ShortDebugString()); A a; a.mutable_result()->set_description("ok"); return a; }
#define H(K) [](const api::K##Request & q) { return note<api::K##Response>(q); }
struct Both
{
  std::unique_ptr<zeromq::MultiServer> server;
  std::unique_ptr<zeromq::MultiClient> client;
  Both()
  {
    rclcpp::init(0, nullptr);
    for (unsigned port = 21000 + getpid() % 20000; !server; ++port) try {
      server = std::make_unique<zeromq::MultiServer>(simulation_interface::TransportProtocol::TCP, simulation_interface::HostName::ANY, port,
        H(Initialize), H(UpdateFrame), H(SpawnVehicleEntity), H(SpawnPedestrianEntity), H(SpawnMiscObjectEntity), H(DespawnEntity),
        [](const api::UpdateEntityStatusRequest & q) { seen.push_back(q.ShortDebugString()); return api::UpdateEntityStatusResponse(); },
        H(AttachImuSensor), H(AttachLidarSensor), H(AttachDetectionSensor), H(AttachOccupancyGridSensor), H(UpdateTrafficLights), H(AttachPseudoTrafficLightDetector), H(UpdateStepTime));
      client = std::make_unique<zeromq::MultiClient>(simulation_interface::TransportProtocol::TCP, "localhost", port);
    } catch (const zmq::error_t &) {}
  }
  ~Both() { client.reset(); rclcpp::shutdown(); server.reset(); }
};
'''
    si("C27-request-on-request","C27","two requests of one kind after another, the second lists fewer things","The lists of a request are added to those of the request before it.",
     {"src/zmq_multi_server.cpp":[("    auto proto = toProto<simulation_api_schema::SimulationRequest>(sim_request);\n","    static simulation_api_schema::SimulationRequest proto;\n    proto.MergeFromString(sim_request.to_string());\n")]},
SERVER+'''int main()
{
  Both b;
  for (int n : {2, 1, 3}) {
    api::UpdateEntityStatusRequest q;
    for (int i = 0; i < n; ++i) q.add_status()->set_name("npc" + std::to_string(i));
    b.client->call(q);
    CHECK(seen.back() == q.ShortDebugString());
  }
}
''',True)
    si("C27-wrong-drawer","C27","a request to attach an occupancy grid sensor","The answer to a request for an occupancy grid sensor is lost.",
     {"src/zmq_multi_server.cpp":[("        *sim_response.mutable_attach_occupancy_grid_sensor() =","        *sim_response.mutable_attach_detection_sensor() =\n          simulation_api_schema::AttachDetectionSensorResponse();\n        (void)")]} if False else
     {"src/zmq_multi_client.cpp":[("    *sim_request.mutable_attach_occupancy_grid_sensor() = request;\n    return call(sim_request).attach_occupancy_grid_sensor();","    sim_request.mutable_attach_occupancy_grid_sensor()->MergeFrom(request);\n    static const auto response = call(sim_request).attach_occupancy_grid_sensor();\n    return response;")]},
SERVER+'''int main()
{
  Both b;
  for (auto name : {"ego", "npc"}) {
    api::AttachOccupancyGridSensorRequest q;
    q.mutable_configuration()->set_entity(name);
    CHECK(b.client->call(q).result().description() == "ok");
    CHECK(!seen.empty() && seen.back() == q.ShortDebugString());
  }
  CHECK(seen.size() == 2);
}
''',True)
    si("C27-closed-step-time","C27","changing the step time after the connection was closed","A call on a closed connection throws instead of answering with nothing.",
     {"src/zmq_multi_client.cpp":[('''auto MultiClient::call(const simulation_api_schema::UpdateStepTimeRequest & request)
  -> simulation_api_schema::UpdateStepTimeResponse
{
  if (is_running) {''','''auto MultiClient::call(const simulation_api_schema::UpdateStepTimeRequest & request)
  -> simulation_api_schema::UpdateStepTimeResponse
{
  if (is_running or request.simulation_step_time() != 0) {''')]},
SERVER+'''int main()
{
  Both b;
  api::UpdateStepTimeRequest q;
  q.set_simulation_step_time(.05);
  CHECK(b.client->call(q).result().description() == "ok");
  b.client->closeConnection();
  CHECK(b.client->call(q).ByteSizeLong() == 0);
}
''',True)
