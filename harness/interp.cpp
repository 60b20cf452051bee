#include "interp.hpp"
#include <cstdlib>
#include <ctime>
#include <filesystem>
#include <fstream>
#include <openscenario_interpreter/openscenario_interpreter.hpp>
#include <openscenario_interpreter_msgs/msg/context.hpp>
#include <pugixml.hpp>
#include <rclcpp/rclcpp.hpp>
#include <unistd.h>

// The node sleeps a second while it is configured; the runs here need not wait.
extern "C" int nanosleep(const struct timespec * t, struct timespec * rest)
{
  if (getpid() == gettid()) return 0;
  return clock_nanosleep(CLOCK_MONOTONIC, 0, t, rest) ? -1 : 0;
}

namespace fs = std::filesystem;
namespace interp
{
namespace
{
std::string dir;
void remove_dir() { std::error_code e; if (not dir.empty()) fs::remove_all(dir, e); }
}  // namespace
std::string scratch()
{
  if (dir.empty()) {
    char t[] = "/tmp/verif_interp_XXXXXX";
    dir = mkdtemp(t);
    std::atexit(remove_dir);
  }
  return dir;
}
std::string map_dir() { return scratch() + "/map"; }
void write(const std::string & path, const std::string & text) { fs::create_directories(fs::path(path).parent_path()); std::ofstream(path, std::ios::binary) << text; }
std::string slurp(const std::string & path) { std::ifstream f(path, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; }
std::vector<std::string> & log() { static std::vector<std::string> v; return v; }
void prepare()
{
  if (not rclcpp::ok()) rclcpp::init(0, nullptr);
  write(map_dir() + "/lanelet2_map.osm", "<osm/>");
  write(map_dir() + "/pointcloud_map.pcd", "");
  vshim::on_log() = [](const std::string & level, const std::string & text) { if (log().size() < 100000) log().push_back(level + ": " + text); };
}
void reset_world()
{
  vworld::state() = vworld::State();
  vworld::on_frame() = nullptr;
  vworld::on_request() = nullptr;
  log().clear();
}
Result verdict_of(const std::string & path)
{
  Result r;
  r.junit = slurp(path);
  pugi::xml_document d;
  if (r.junit.empty() or not d.load_buffer(r.junit.data(), r.junit.size())) return r;
  for (auto suite : d.child("testsuites").children("testsuite"))
    for (auto c : suite.children("testcase")) {
      ++r.cases;
      auto e = c.first_child();
      while (e and e.type() != pugi::node_element) e = e.next_sibling();
      r.verdict = e ? e.name() : "pass";
      r.kind = e.attribute("type").value();
      r.message = e.attribute("message").value();
    }
  return r;
}
Result run(const Options & o)
{
  Result r;
  fs::create_directories(o.out);
  fs::remove(o.out + "/result.junit.xml");
  const std::int64_t period = static_cast<unsigned>(1 / o.frame_rate * 1000) * 1000000ll;
  if (vshim::clock_ns() < 0) vshim::clock_ns() = 1000000000;
  rclcpp::NodeOptions options;
  auto node = std::make_shared<openscenario_interpreter::Interpreter>(options);
  node->set_parameter(rclcpp::Parameter("osc_path", o.osc));
  node->set_parameter(rclcpp::Parameter("output_directory", o.out));
  node->set_parameter(rclcpp::Parameter("local_frame_rate", o.frame_rate));
  std::string context;
  vshim::on_publish() = [&](const std::string & topic, std::type_index t, const void * m) {
    if (t == typeid(openscenario_interpreter_msgs::msg::Context) and topic == "/context")
      context = static_cast<const openscenario_interpreter_msgs::msg::Context *>(m)->data;
  };
  r.configured = node->configure().label();
  if (o.after_configure) o.after_configure();
  if (r.configured == "inactive") {
    r.activated = node->activate().label();
    if (o.after_activate) o.after_activate();
    if (r.activated == "active") {
      rclcpp::executors::SingleThreadedExecutor x;
      x.add_node(node->get_node_base_interface());
      bool go = true;
      while (go and r.frames < o.max_frames and node->get_current_state().label() == "active") {
        vshim::clock_ns() += period;
        x.spin_some();
        ++r.frames;
        if (node->get_current_state().label() != "active") { r.by_itself = true; if (o.on_frame) o.on_frame({r.frames, vworld::state().time, context}); break; }
        if (o.on_frame) go = o.on_frame({r.frames, vworld::state().time, context});
      }
      if (not r.by_itself) node->deactivate();
    }
  }
  r.ended = node->get_current_state().label();
  if (r.ended == "inactive") node->cleanup();
  r.finalized = node->shutdown().label();
  vshim::on_publish() = nullptr;
  node.reset();
  auto v = verdict_of(o.out + "/result.junit.xml");
  r.verdict = v.verdict, r.kind = v.kind, r.message = v.message, r.junit = v.junit, r.cases = v.cases;
  return r;
}
}  // namespace interp
