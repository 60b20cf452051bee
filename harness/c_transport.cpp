// C27: real servers and clients over loopback; handlers log what they get and answer with
// generated replies; the logs of both sides are compared.
#include <chrono>
#include <condition_variable>
#include <deque>
#include <memory>
#include <rclcpp/rclcpp.hpp>
#include <simulation_interface/conversions.hpp>
#include <simulation_interface/zmq_multi_client.hpp>
#include <simulation_interface/zmq_multi_server.hpp>
#include <thread>

#include "generic.hpp"
using namespace vh;
namespace api = simulation_api_schema;

// in the order in which the server takes its handlers
#define KINDS(X) X(Initialize) X(UpdateFrame) X(SpawnVehicleEntity) X(SpawnPedestrianEntity) X(SpawnMiscObjectEntity) X(DespawnEntity) \
  X(UpdateEntityStatus) X(AttachImuSensor) X(AttachLidarSensor) X(AttachDetectionSensor) X(AttachOccupancyGridSensor) X(UpdateTrafficLights) \
  X(AttachPseudoTrafficLightDetector) X(UpdateStepTime)

struct Served { std::string kind, content, reply; };
struct Log
{
  std::mutex m;
  std::vector<Served> served;
  Rng rng{1};
  int delay_us = 0;
  std::atomic<int> inside{0}, overlapping{0};
} served_log;

template <typename Response, typename Request> Response serve(const char * kind, const Request & request)
{
  if (served_log.inside++) ++served_log.overlapping;
  Response reply;
  int delay;
  {
    std::lock_guard<std::mutex> g(served_log.m);
    generic::fill_proto(served_log.rng, reply);
    served_log.served.push_back({kind, request.SerializeAsString(), reply.SerializeAsString()});
    delay = served_log.delay_us ? int(served_log.rng.i(0, served_log.delay_us)) : 0;
  }
  if (delay) std::this_thread::sleep_for(std::chrono::microseconds(delay));
  --served_log.inside;
  return reply;
}

struct Sent { std::string kind, content, reply; };
template <typename Request> Sent send(Rng & r, zeromq::MultiClient & c, const char * kind)
{
  Request q;
  generic::fill_proto(r, q);
  current(cat(kind, " of ", q.ByteSizeLong(), " bytes"));
  const auto reply = c.call(q);
  return {kind, q.SerializeAsString(), reply.SerializeAsString()};
}
Sent send_any(Rng & r, zeromq::MultiClient & c)
{
  static const std::vector<Sent (*)(Rng &, zeromq::MultiClient &)> senders{
#define X(K) [](Rng & r, zeromq::MultiClient & c) { return send<api::K##Request>(r, c, #K); },
    KINDS(X)
#undef X
  };
  return r.pick(senders)(r, c);
}

std::unique_ptr<zeromq::MultiServer> serve_on(unsigned port)
{
  return std::make_unique<zeromq::MultiServer>(simulation_interface::TransportProtocol::TCP, simulation_interface::HostName::ANY, port
#define X(K) , [](const api::K##Request & q) { return serve<api::K##Response>(#K, q); }
    KINDS(X)
#undef X
  );
}

void round(Rng & r, int index)
{
  rclcpp::init(0, nullptr);
  served_log.served.clear();
  served_log.rng = Rng(r.u());
  served_log.delay_us = r.chance(0.3) ? int(r.i(1, 3000)) : 0;
  served_log.overlapping = 0;
  std::unique_ptr<zeromq::MultiServer> server;
  unsigned port = 0;
  const bool client_first = r.chance(0.3);
  const int clients = r.chance(0.5) ? 1 : int(r.i(2, 3)), calls = int(r.i(5, 60));
  std::vector<std::unique_ptr<zeromq::MultiClient>> connected;
  auto connect = [&] {
    for (int i = 0; i < clients; ++i)
      connected.push_back(std::make_unique<zeromq::MultiClient>(simulation_interface::TransportProtocol::TCP, "localhost", port));
  };
  for (int tries = 0; !server; ++tries) {
    port = unsigned(r.i(20000, 60000));
    if (client_first) { connected.clear(); connect(); }
    try { server = serve_on(port); } catch (const zmq::error_t &) { if (tries > 50) throw; }
  }
  if (!client_first) connect();
  std::string story = cat(clients, " clients of ", calls, " calls each", client_first ? ", connected before the server starts" : "", served_log.delay_us ? ", slow handlers" : "");
  std::vector<std::vector<Sent>> sent{std::size_t(clients)};
  std::vector<std::uint64_t> seeds;
  for (int i = 0; i < clients; ++i) seeds.push_back(r.u());
  std::vector<std::thread> threads;
  for (int i = 0; i < clients; ++i)
    threads.emplace_back([&, i] {
      Rng q(seeds[std::size_t(i)]);
      for (int k = 0; k < calls; ++k) {
        sent[std::size_t(i)].push_back(send_any(q, *connected[std::size_t(i)]));
        if (q.chance(0.05)) std::this_thread::sleep_for(std::chrono::microseconds(q.i(0, 2000)));
      }
    });
  for (auto & t : threads) t.join();
  // a closed client answers nothing and sends nothing
  const auto before = served_log.served.size();
  for (auto & c : connected) {
    if (r.chance(0.5)) {
      c->closeConnection();
      if (r.chance(0.3)) c->closeConnection();
      auto s = send_any(r, *c);
      if (!s.reply.empty()) fail("closed-client-answers", cat(s.kind, " on a closed client has a reply\n", story));
      count("calls on closed clients");
    }
  }
  if (r.chance(0.5)) connected.clear();
  rclcpp::shutdown();
  current(story + "\nstopping the server");
  server.reset();
  connected.clear();
  if (served_log.served.size() != before) fail("served-after-close", story);
  if (served_log.overlapping) fail("overlapping-handlers", cat(int(served_log.overlapping), " handlers ran inside another\n", story));
  // every request handled once, by the handler of its kind, in the order sent by each client
  std::map<std::tuple<std::string, std::string, std::string>, int> balance;
  std::size_t total = 0;
  for (auto & v : sent)
    for (auto & s : v) { ++balance[{s.kind, s.content, s.reply}]; ++total; }
  for (auto & s : served_log.served) --balance[{s.kind, s.content, s.reply}];
  for (auto & [k, n] : balance)
    if (n) {
      std::string how;
      for (auto & s : served_log.served)
        if (s.content == std::get<1>(k) && s.kind != std::get<0>(k)) how += cat("; its content reached the handler of ", s.kind);
        else if (s.kind == std::get<0>(k) && s.content == std::get<1>(k) && s.reply != std::get<2>(k)) how += "; it was handled but the reply differs";
        else if (s.kind == std::get<0>(k) && s.reply == std::get<2>(k)) how += "; its reply was given to other content";
      fail(cat(n > 0 ? "not-answered-by-its-handler-" : "handled-but-not-sent-", std::get<0>(k)), cat(std::get<0>(k), " ", n, how.substr(0, 500), "\n", story));
      break;
    }
  if (served_log.served.size() != total) fail("handled-count", cat(total, " sent, ", served_log.served.size(), " handled\n", story));
  for (auto & v : sent) {
    std::size_t at = 0;
    for (auto & s : v) {
      while (at < served_log.served.size() && !(served_log.served[at].kind == s.kind && served_log.served[at].content == s.content && served_log.served[at].reply == s.reply)) ++at;
      if (at == served_log.served.size()) { fail("order", cat("the requests of a client were not handled in the order sent\n", story)); break; }
      ++at;
    }
  }
  std::string order;
  for (auto & s : served_log.served) { count("requests of kind " + s.kind); order += s.kind[0]; order += s.kind.back(); }
  if (clients > 1) count("rounds with several clients");
  if (client_first) count("rounds with clients connected first");
  count("requests answered", total);
  observed(story + order);
  if (index < 4) sample(story + ": " + order.substr(0, 60));
}

int main(int argc, char ** argv)
{
  init(argc, argv);
  Rng r(st().seed);
  for (int i = 0, n = int(vh::n(60, 3000)); i < n; ++i) round(r, i);
  finish();
}
