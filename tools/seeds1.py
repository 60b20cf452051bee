import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
from mkseed import mk
I="openscenario/openscenario_interpreter"
ASSERT='''#include <cstdio>
#include <cstdlib>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %s\\n", #x); std::exit(1); } } while (0)
'''
RCL='''#pragma once
#include <cstdio>
#include <string>
namespace rclcpp { inline bool ok() { return true; } struct Logger {}; inline Logger get_logger(const std::string &) { return {}; } }
#define RCLCPP_ERROR(...) ((void)0)
'''
mk("C11-empty-arguments","C11","an argument that is the empty string between others","Empty arguments of an external command are dropped, so later arguments move.",
 {f"{I}/src/posix/fork_exec.cpp":[("  for (const auto & each : f_xs) {\n","  for (const auto & each : f_xs) {\n    if (each.empty()) {\n      continue;\n    }\n\n")]},
 {"demo.cpp":ASSERT+'''#include <openscenario_interpreter/posix/fork_exec.hpp>
#include <unistd.h>
int main(int, char ** argv)
{
  std::string out = argv[1];
  openscenario_interpreter::fork_exec(std::vector<std::string>{"/bin/sh", "-c", "test $# -eq 3 && touch " + out, "sh", "x", "", "y"});
  CHECK(access(out.c_str(), F_OK) == 0);
}
'''},f'''g++ -std=c++17 -I$R/{I}/include $here/demo.cpp $R/{I}/src/posix/fork_exec.cpp -o $T/demo
timeout 20 $T/demo $T/out''')
mk("C11-repeated-parameter","C11","output larger than the pipe chunk whose length is an exact multiple of the chunk","The last chunk of captured output is dropped when it is full.",
 {"external/concealer/src/execute.cpp":[("  std::array<char, 128> buffer;","  std::array<char, 128> buffer;\n\n  auto full = false;"),
   ("    while (const auto size","    while (const auto size")]} if False else
 {"external/concealer/include/concealer/launch.hpp":[("    for (const auto & parameter : parameters) {\n      argv.push_back(parameter);","    for (const auto & parameter : parameters) {\n      if (std::find(argv.begin(), argv.end(), parameter) == argv.end()) argv.push_back(parameter);")]},
 {"demo.cpp":'''#include <algorithm>
'''+ASSERT+'''#include <concealer/launch.hpp>
#include <sys/wait.h>
#include <unistd.h>
int main(int, char **)
{
  std::vector<std::string> p{"a:=1", "--", "a:=1"};
  const auto pid = concealer::ros2_launch("package", "file", p);
  int status = 0;
  waitpid(pid, &status, 0);
  CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0);
}
'''},'''mkdir $T/bin
printf '#!/bin/sh\\n[ $# -eq 7 ]\\n' > $T/bin/python3
printf '#!/bin/sh\\n' > $T/bin/ros2
chmod +x $T/bin/*
g++ -std=c++17 -I$R/external/concealer/include $here/demo.cpp $R/external/concealer/src/execute.cpp -o $T/demo
PATH=$T/bin:$PATH timeout 20 $T/demo''')
mk("C12-failure-hides-error","C12","one test case with both an error and a failure","The error elements of a case that has a failure as well are not written, though they are counted.",
 {"common/simple_junit/include/simple_junit/junit5.hpp":[('''    for (const auto & each : testcase.error) {
      current_node.append_child("error") << each;
    }''','''    if (testcase.failure.empty()) {
      for (const auto & each : testcase.error) {
        current_node.append_child("error") << each;
      }
    }''')]},
 {"demo.cpp":ASSERT+'''#include <memory>
#include <pugixml.hpp>
#include <simple_junit/junit5.hpp>
int main(int, char ** argv)
{
  common::JUnit5 t;
  auto & c = t.testsuite("s").testcase("c");
  c.error.push_back(common::junit::Error("E", "what went wrong"));
  c.failure.push_back(common::junit::Failure("F", "what failed"));
  t.write_to(argv[1]);
  pugi::xml_document d;
  d.load_file(argv[1]);
  auto n = d.child("testsuites").child("testsuite").child("testcase");
  CHECK(n.child("failure") && n.child("error"));
}
'''},'''g++ -std=c++17 -w -include iostream -include vector -include string -include unordered_map -I$R/common/simple_junit/include $here/demo.cpp -lpugixml -o $T/demo
timeout 20 $T/demo $T/report.xml''')
mk("C13-empty-while-running","C13","an observer asking while the last task is still running","The queue reports itself empty while its last task is still running.",
 {"external/concealer/src/task_queue.cpp":[("          thunk();\n          pop();","          pop();\n          thunk();")]},
 {"demo.cpp":ASSERT+'''#include <concealer/task_queue.hpp>
#include <chrono>
int main()
{
  concealer::TaskQueue q;
  std::atomic<int> state{0};
  q.delay([&]() { state = 1; std::this_thread::sleep_for(std::chrono::milliseconds(300)); state = 2; });
  while (state == 0) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  const bool empty = q.empty();
  CHECK(!(empty && state == 1));
}
''',"stub/rclcpp/rclcpp.hpp":RCL},'''g++ -std=c++17 -I$here/stub -I$R/external/concealer/include $here/demo.cpp $R/external/concealer/src/task_queue.cpp -pthread -o $T/demo
timeout 20 $T/demo''')
mk("C14-threshold-in-seconds","C14","a thread silent for longer than the threshold but less than a second more","Silence is compared with the threshold in whole seconds, so a thread up to a second late is called good.",
 {"common/status_monitor/include/status_monitor/status_monitor.hpp":[("    auto good() const { return exited or since_last_access() < threshold; }",'''    auto good() const
    {
      return exited or
             std::chrono::duration_cast<std::chrono::seconds>(since_last_access()) <= threshold;
    }''')]},
 {"demo.cpp":"#include <atomic>\n#include <string>\n#include <cerrno>\n"+ASSERT+'''#include <nlohmann/json.hpp>
#include <status_monitor/status_monitor.hpp>
#include <thread>
int main()
{
  const auto path = std::string("/tmp/") + program_invocation_short_name + "_status.json";
  for (int i = 0; i < 500; ++i) { std::ifstream f(path); if (f && f.peek() != EOF) break; std::this_thread::sleep_for(std::chrono::milliseconds(10)); }
  common::status_monitor.updateThreshold(std::chrono::seconds(1));
  common::status_monitor.touch("main");
  std::this_thread::sleep_for(std::chrono::milliseconds(1400));
  common::status_monitor.write();
  std::ifstream f(path);
  std::string line, last;
  while (std::getline(f, line)) last = line;
  CHECK(nlohmann::json::parse(last)["good"] == false);
}
''',"stub/rclcpp/rclcpp.hpp":RCL},'''g++ -std=c++17 -I$here/stub -I$R/common/status_monitor/include $here/demo.cpp $R/common/status_monitor/src/status_monitor.cpp -pthread -o $T/demo_status_$$
rc=0
timeout 30 $T/demo_status_$$ || rc=$?
rm -f /tmp/demo_status_$$_status.json
exit $rc''')
mk("C15-second-cleanup","C15","an exclusive job that has already finished when another of its kind is registered","Registering an exclusive job cleans up finished jobs of that kind again.",
 {"simulation/traffic_simulator/src/job/job.cpp":[("    case Status::INACTIVE:\n      return;","    case Status::INACTIVE:\n      func_on_cleanup_();\n      return;")]},
 {"demo.cpp":ASSERT+'''#include <traffic_simulator/job/job.hpp>
using namespace traffic_simulator::job;
int main()
{
  int cleanups = 0, updates = 0;
  Job j([&](double) { return ++updates == 2; }, [&]() { ++cleanups; }, Type::LINEAR_VELOCITY, true, Event::PRE_UPDATE);
  for (int i = 0; i < 5; ++i) j.onUpdate(0.1);
  CHECK(updates == 2 && cleanups == 1);
}
'''},'''g++ -std=c++17 -I$R/simulation/traffic_simulator/include $here/demo.cpp $R/simulation/traffic_simulator/src/job/job.cpp -o $T/demo
timeout 20 $T/demo''')
mk("C20-rounded-start","C20","a start exactly on an odd cell border","The start cell is rounded to the nearest even border, so a start exactly on an odd border begins one cell early.",
 {"simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp":[("int32_t(start_x_), int32_t(start_y_)};","int32_t(std::nearbyint(start_x_ - 0.5)), int32_t(start_y_)};")]},
 {"demo.cpp":ASSERT+'''#include <simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp>
int main()
{
  simple_sensor_simulator::GridTraversal t(1.0, 0.5, 3.5, 0.75);
  auto it = t.begin();
  CHECK((*it).first == 1 && (*it).second == 0);
}
'''},'''S=$R/simulation/simple_sensor_simulator
g++ -std=c++17 -I$S/include $here/demo.cpp $S/src/sensor_simulation/occupancy_grid/grid_traversal.cpp -o $T/demo
timeout 20 $T/demo''')
mk("C28-one-timeout-per-call","C28","two entities whose contact has timed out before the next contact of either","Only one timed-out contact is forgotten per call, so the next contact of another entity is not reported.",
 {"test_runner/random_test_runner/include/random_test_runner/metrics/ego_collision_metric.hpp":[("        npc_last_collision_type_map_.erase(it++);","        npc_last_collision_type_map_.erase(it++);\n        break;")]},
 {"demo.cpp":ASSERT+'''#include <string>
#include <unordered_map>
#include <random_test_runner/metrics/ego_collision_metric.hpp>
int main()
{
  EgoCollisionMetric m;
  for (auto * n : {"a", "b", "c"}) CHECK(m.isThereEgosCollisionWith(n, 0.0));
  for (auto * n : {"a", "b", "c"}) CHECK(m.isThereEgosCollisionWith(n, 9.0));
}
'''},'''g++ -std=c++17 -I$R/test_runner/random_test_runner/include $here/demo.cpp -o $T/demo
timeout 20 $T/demo''')
mk("C29-same-minimum","C29","a range change that keeps the lower end","A new range with the old lower end is ignored.",
 {"test_runner/random_test_runner/include/random_test_runner/randomizers.hpp":[('''  void setRange(T range_min, T range_max)
  {
''','''  void setRange(T range_min, T range_max)
  {
    if (randomization_distribution_->min() == range_min) {
      return;
    }
''')]},
 {"demo.cpp":ASSERT+'''#include <stdexcept>
#include <random_test_runner/randomizers.hpp>
int main()
{
  UniformRandomizer<int64_t> r(std::make_shared<RandomizationEngine>(1), 0, 1000000);
  r.setRange(0, 3);
  for (int i = 0; i < 20; ++i) CHECK(r.generate() <= 3);
}
'''},'''g++ -std=c++17 -I$R/test_runner/random_test_runner/include $here/demo.cpp -o $T/demo
timeout 20 $T/demo''')
mk("C32-rebind-same-type","C32","rebinding a handle that already holds an object of the same type","Rebinding a handle to a new object of the same type keeps the old one.",
 {f"{I}/include/openscenario_interpreter/pointer.hpp":[("    return *this = bind<U>(std::forward<decltype(xs)>(xs)...);","    return is<U>() ? *this : *this = bind<U>(std::forward<decltype(xs)>(xs)...);")]},
 {"demo.cpp":ASSERT+'''#include <openscenario_interpreter/object.hpp>
using namespace openscenario_interpreter;
struct X { int v; explicit X(int v) : v(v) {} };
int main()
{
  Object o = make<X>(1);
  o.rebind<X>(2);
  CHECK(o.as<X>().v == 2);
}
'''},f'''g++ -std=c++17 -I$R/{I}/include -I$R/common/scenario_simulator_exception/include $here/demo.cpp $R/{I}/src/object.cpp $R/{I}/src/utility/demangle.cpp $R/common/scenario_simulator_exception/src/*.cpp -o $T/demo
timeout 20 $T/demo''')
mk("C01-integer-add-float","C01","an integer beyond 24 bits, or an increment beyond single precision","Adding to an integer goes through single precision.",
 {f"{I}/src/syntax/integer.cpp":[("  data += rhs;","  data += static_cast<float>(rhs);")]},
 {"demo.cpp":ASSERT+'''#include <openscenario_interpreter/syntax/integer.hpp>
int main()
{
  openscenario_interpreter::Integer i(1);
  i += 16777217.0;
  CHECK(i.data == 16777218);
}
'''},f'''INC="-include cmath -include cstdint -include iomanip -include string -include openscenario_interpreter/expression.hpp -include openscenario_interpreter/object.hpp -include boost/lexical_cast.hpp"
g++ -std=c++17 -w $INC -I$R/{I}/include -I$R/common/scenario_simulator_exception/include $here/demo.cpp $R/{I}/src/syntax/integer.cpp $R/{I}/src/utility/demangle.cpp $R/{I}/src/object.cpp $R/common/scenario_simulator_exception/src/*.cpp -o $T/demo
timeout 20 $T/demo''')
mk("C02-list-not-absolute","C02","a list of numbers compared for equality with a larger scalar","A list element below the scalar it is compared with counts as equal.",
 {f"{I}/include/openscenario_interpreter/functional/equal_to.hpp":[('''  constexpr auto operator()(const std::valarray<T> & lhs, const T & rhs) const noexcept
  {
    return (lhs == rhs) or
           (std::abs(lhs - rhs)''','''  constexpr auto operator()(const std::valarray<T> & lhs, const T & rhs) const noexcept
  {
    return (lhs == rhs) or
           ((lhs - rhs)''')]},
 {"demo.cpp":ASSERT+'''#include <openscenario_interpreter/syntax/rule.hpp>
int main()
{
  openscenario_interpreter::Rule r(openscenario_interpreter::Rule::equalTo);
  const auto b = r(std::valarray<double>{1.0, 2.0, 3.0}, 2.0);
  CHECK(!b[0] && b[1] && !b[2]);
}
'''},f'''g++ -std=c++17 -I$R/{I}/include -I$R/common/scenario_simulator_exception/include $here/demo.cpp -o $T/demo
timeout 20 $T/demo''')
mk("C03-foreign-alias","C03","printing one particular value","Writing out one storyboard element type gives the name of another.",
 {f"{I}/src/syntax/storyboard_element_type.cpp":[("    BOILERPLATE(maneuver);\n    BOILERPLATE(maneuverGroup);\n    BOILERPLATE(story);\n\n    default","    BOILERPLATE(maneuver);\n    case StoryboardElementType::maneuverGroup:\n      return os << \"maneuver\";\n    BOILERPLATE(story);\n\n    default")]},
 {"demo.cpp":ASSERT+'''#include <openscenario_interpreter/syntax/storyboard_element_type.hpp>
#include <sstream>
using namespace openscenario_interpreter;
int main()
{
  std::istringstream i("maneuverGroup");
  StoryboardElementType t;
  i >> t;
  std::ostringstream o;
  o << t;
  CHECK(o.str() == "maneuverGroup");
}
'''},f'''g++ -std=c++17 -I$R/{I}/include -I$R/common/scenario_simulator_exception/include $here/demo.cpp $R/{I}/src/syntax/storyboard_element_type.cpp $R/{I}/src/utility/demangle.cpp $R/common/scenario_simulator_exception/src/*.cpp -o $T/demo
timeout 20 $T/demo''')
