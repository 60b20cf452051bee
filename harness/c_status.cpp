// C14: the records of the status monitor against what the threads did.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <fstream>
#include <iostream>
#include <nlohmann/json.hpp>
#include <set>
#include <sys/wait.h>
#include <thread>

#include <status_monitor/status_monitor.hpp>

#include "vh.hpp"
using namespace vh;
using namespace std::chrono_literals;
using Clock = std::chrono::high_resolution_clock;

static std::string status_path() { return cat("/tmp/", program_invocation_short_name, "_status.json"); }

struct SlowName  // turning it into a string takes a while (inside the monitor)
{
  int ms;
  operator std::string() const
  {
    std::this_thread::sleep_for(std::chrono::milliseconds(ms));
    return "slow";
  }
};

struct Reader
{
  std::ifstream f;
  std::string rest;
  // complete new lines of the file
  std::vector<std::string> lines()
  {
    if (!f.is_open()) f.open(status_path());
    f.clear();
    std::string chunk((std::istreambuf_iterator<char>(f)), {});
    rest += chunk;
    std::vector<std::string> out;
    for (std::size_t p; (p = rest.find('\n')) != std::string::npos; rest.erase(0, p + 1)) out.push_back(rest.substr(0, p));
    return out;
  }
};

struct Worker
{
  std::string name;
  Clock::time_point before{}, after{};  // around the last report
  double min_ms = 1e18, max_ms = -1;    // bounds of the intervals between reports
  bool registered = false, exited = false;
  std::string id;
};

static std::string id_text(std::thread::id id)
{
  std::ostringstream o;
  o << id;
  return o.str();
}

static bool well_formed(const std::string & line, nlohmann::json & j)
{
  try {
    j = nlohmann::json::parse(line);
    if (!j.at("good").is_boolean() || !j.at("name").is_string() || !j.at("threads").is_array() || !j.at("threshold").is_number() || !j.at("unix_time").is_number()) throw 0;
    std::set<std::string> ids;
    bool all = true, near = false;
    for (auto & t : j["threads"]) {
      if (!ids.insert(t.at("thread_id").get<std::string>()).second) {
        fail("thread-twice", "a thread is listed twice: " + line);
        return false;
      }
      t.at("name").get<std::string>();
      const bool g = t.at("good").get<bool>();
      all &= g;
      const double ms = t.at("since_last_access_ms").get<double>();
      near |= std::abs(ms - 1000.0 * j["threshold"].get<double>()) < 1000;
    }
    if (j["good"].get<bool>() && !all) fail("whole-good", "the whole is good but a thread is not: " + line);
    if (!j["good"].get<bool>() && all && !near) fail("whole-bad", "the whole is not good but every thread is: " + line);
    if (j["name"] != program_invocation_short_name) fail("name", "the record names another program: " + line);
    count("records read");
    return true;
  } catch (...) {
    fail("malformed", "record is not complete JSON: " + line.substr(0, 600));
    return false;
  }
}

static void round(Rng & r, Reader & reader, std::set<std::string> & known_ids)
{
  (void)known_ids;
  const int workers = int(r.i(2, 10));
  struct Slot { Worker w; std::mutex m; std::condition_variable cv; std::function<void()> job; bool busy = false, quit = false; };
  std::vector<std::unique_ptr<Slot>> slots;
  std::vector<std::thread> threads;
  for (int i = 0; i < workers; ++i) {
    slots.push_back(std::make_unique<Slot>());
    auto * s = slots.back().get();
    s->w.name = cat("worker ", i, r.chance(0.2) ? " \"quoted\"\\" : r.chance(0.2) ? " é" : "");
    threads.emplace_back([s]() {
      std::unique_lock l(s->m);
      while (true) {
        s->cv.wait(l, [s]() { return s->busy || s->quit; });
        if (s->quit) return;
        auto j = s->job;
        l.unlock();
        j();
        l.lock();
        s->busy = false;
        s->cv.notify_all();
      }
    });
  }
  auto start = [&](int i, std::function<void()> f) {
    auto * s = slots[std::size_t(i)].get();
    std::unique_lock l(s->m);
    s->job = std::move(f);
    s->busy = true;
    s->cv.notify_all();
  };
  auto join = [&](int i) {
    auto * s = slots[std::size_t(i)].get();
    std::unique_lock l(s->m);
    s->cv.wait(l, [s]() { return !s->busy; });
  };
  auto touch = [](Worker & w) {
    const auto b = Clock::now();
    common::status_monitor.touch(w.name);
    const auto a = Clock::now();
    if (w.registered) {
      auto ms = [](auto d) { return std::chrono::duration<double, std::milli>(d).count(); };
      // the interval lies between (b - after) and (a - before)
      w.min_ms = std::min(w.min_ms, ms(a - w.before));
      w.max_ms = std::max(w.max_ms, ms(b - w.after));
    }
    w.before = b;
    w.after = a;
    w.registered = true;
    w.id = id_text(std::this_thread::get_id());
  };
  std::chrono::seconds threshold{r.chance(0.5) ? 1 : r.i(2, 10)};
  common::status_monitor.updateThreshold(threshold);
  std::string story = cat(workers, " workers, threshold ", threshold.count(), ":");
  for (int phase = 0; phase < 6; ++phase) {
    // stress: everything at once
    const std::uint64_t seed = r.u();
    std::atomic<bool> go{false};
    for (int i = 0; i < workers; ++i)
      start(i, [&, i, seed]() {
        Rng rr(seed + std::uint64_t(i));
        auto & w = slots[std::size_t(i)]->w;
        while (!go) std::this_thread::yield();
        for (int k = 0, m = int(rr.i(0, 40)); k < m; ++k) {
          if (w.exited) break;
          switch (rr.i(0, 7)) {
            case 0: common::status_monitor.write(); break;
            case 1: common::status_monitor.updateThreshold(threshold); break;
            case 2:
              if (w.registered) {
                // entering and leaving the override report as well
                auto ms = [](auto d) { return std::chrono::duration<double, std::milli>(d).count(); };
                const auto enter = Clock::now();
                common::status_monitor.overrideThreshold(threshold, [&]() {
                  const auto entered = Clock::now();
                  w.min_ms = std::min(w.min_ms, ms(entered - w.before));
                  w.max_ms = std::max(w.max_ms, ms(enter - w.after));
                  w.before = enter;
                  w.after = entered;
                  touch(w);
                });
                w.after = Clock::now();
                w.min_ms = std::min(w.min_ms, ms(w.after - w.before));
              }
              break;
            case 3: std::this_thread::sleep_for(std::chrono::microseconds(rr.i(0, 300))); break;
            default: touch(w);
          }
        }
        if (phase >= 2 && w.registered && !w.exited && rr.chance(0.2)) {
          { common::StatusMonitor monitor; }  // the end of a monitor marks its thread as exited
          w.exited = true;
        }
      });
    go = true;
    for (int i = 0; i < workers; ++i) join(i);
    nlohmann::json j;
    for (auto & l : reader.lines()) well_formed(l, j);
    // quiet: nobody reports; look at what a record says
    const int naps = phase == 3 ? 1150 : phase == 5 ? 600 : 0;
    if (naps) std::this_thread::sleep_for(std::chrono::milliseconds(naps));
    if (r.chance(0.3)) { threshold = std::chrono::seconds(r.i(0, 3)); common::status_monitor.updateThreshold(threshold); }
    for (auto & l : reader.lines()) well_formed(l, j);
    const auto t0 = Clock::now();
    common::status_monitor.write();
    const auto t1 = Clock::now();
    auto lines = reader.lines();
    if (lines.empty()) { fail("no-record", "write() added no complete record to the file\n" + story); continue; }
    if (!well_formed(lines.back(), j)) continue;
    const std::string line = lines.back();
    std::map<std::string, nlohmann::json> by;
    for (auto & t : j["threads"]) by[t["thread_id"].get<std::string>()] = t;
    // a record written by the watchdog after write() lies a little later
    const auto t2 = lines.size() > 1 ? Clock::now() : t1;
    auto ms = [](auto d) { return std::chrono::duration<double, std::milli>(d).count(); };
    if (j["threshold"].get<long>() != threshold.count()) fail("threshold", cat("record says threshold ", j["threshold"].dump(), " instead of ", threshold.count(), "\n", line));
    for (auto & s : slots) {
      auto & w = s->w;
      if (!w.registered) continue;
      auto it = by.find(w.id);
      if (it == by.end()) { fail("thread-lost", cat("thread ", w.name, " reported and is not listed\n", line)); continue; }
      auto & t = it->second;
      if (t["name"] != w.name) fail("thread-name", cat("thread ", w.name, " is listed as ", t["name"].dump()));
      const double least = ms(t0 - w.after), most = ms(t2 - w.before), limit = 1000.0 * double(threshold.count());
      const bool g = t["good"].get<bool>();
      if (w.exited && !g) fail("exited-bad", cat("thread ", w.name, " has exited and is not good\n", line));
      if (!w.exited && g && least >= limit) fail("silent-good", cat("thread ", w.name, " is good after ", least, " ms without a report, threshold ", limit, "\n", line));
      if (!w.exited && !g && most < limit) fail("reporting-bad", cat("thread ", w.name, " is not good although it reported ", most, " ms ago, threshold ", limit, "\n", line));
      const double since = t["since_last_access_ms"].get<double>();
      if (since < std::floor(least) - 1 || since > most + 1) fail("since", cat("thread ", w.name, " last reported ", least, "..", most, " ms ago and the record says ", since));
      if (w.max_ms >= 0) {
        if (t["maximum_access_interval_ms"].get<double>() < std::floor(w.max_ms) - 1) fail("maximum-interval", cat("thread ", w.name, ": longest interval at least ", w.max_ms, ", record says ", t["maximum_access_interval_ms"].dump()));
        if (t["minimum_access_interval_ms"].get<double>() > w.min_ms + 1) fail("minimum-interval", cat("thread ", w.name, ": shortest interval at most ", w.min_ms, ", record says ", t["minimum_access_interval_ms"].dump()));
      }
      count(w.exited ? "exited threads judged" : g ? "good threads judged" : "silent threads judged");
    }
    story += cat(" ", phase, "/", threshold.count(), "/", by.size());
    observed(story + cat(" ", st().seed, " ", phase));
  }
  sample(story);
  // keep the threads (and their identifiers) alive until the end, marked as exited
  for (int i = 0; i < workers; ++i) {
    start(i, [&]() { common::StatusMonitor monitor; });
    join(i);
  }
  static std::vector<std::unique_ptr<Slot>> keep_slots;
  static std::vector<std::thread> keep;
  for (auto & s : slots) keep_slots.push_back(std::move(s));
  for (auto & t : threads) { t.detach(); keep.push_back(std::move(t)); }
}

// A program whose watchdog waits for the lock while the last monitor goes away must still end.
static int ending(int argc, char ** argv)
{
  const int hold = std::atoi(argv[2]), lead = std::atoi(argv[3]);
  (void)argc;
  std::thread([hold]() {
    common::status_monitor.touch(SlowName{hold});
    std::this_thread::sleep_for(std::chrono::hours(1));
  }).detach();
  std::this_thread::sleep_for(std::chrono::milliseconds(lead));
  return 0;
}

static void endings(Rng & r, int rounds)
{
  struct Child { pid_t pid; std::string name; int hold, lead; };
  std::vector<Child> children;
  for (int i = 0; i < rounds; ++i) {
    const int hold = int(r.i(900, 2200)), lead = int(r.i(0, hold));
    const std::string name = cat(program_invocation_short_name, "_e", i), h = cat(hold), l = cat(lead);
    const pid_t p = fork();
    if (p == 0) {
      execl("/proc/self/exe", name.c_str(), "--ending", h.c_str(), l.c_str(), nullptr);
      _exit(99);
    }
    children.push_back({p, name, hold, lead});
  }
  const auto deadline = Clock::now() + 25s;
  for (auto & c : children) {
    int status = -1;
    while (waitpid(c.pid, &status, WNOHANG) == 0) {
      if (Clock::now() > deadline) {
        kill(c.pid, SIGKILL);
        waitpid(c.pid, &status, 0);
        fail("end-deadlock", cat("a program whose thread registers for ", c.hold, " ms does not end when its last monitor goes away after ", c.lead, " ms"));
        status = 0;
        break;
      }
      std::this_thread::sleep_for(5ms);
    }
    if (status != 0) fail("end-status", cat("a program ended with wait status ", status, " (", c.hold, " ms, ", c.lead, " ms)"));
    std::ifstream f(cat("/tmp/", c.name, "_status.json"));
    std::string line;
    while (std::getline(f, line)) {
      if (f.eof()) { fail("malformed", "last record of an ended program is incomplete: " + line); break; }
      try { (void)nlohmann::json::parse(line); count("records read"); } catch (...) { fail("malformed", "record of an ended program: " + line); }
    }
    std::remove(cat("/tmp/", c.name, "_status.json").c_str());
    count("program ends observed");
    observed(cat("end ", c.hold, " ", c.lead));
  }
}

int main(int argc, char ** argv)
{
  if (argc > 3 && std::string(argv[1]) == "--ending") return ending(argc, argv);
  if (std::string(program_invocation_short_name).find("vhstatus") != 0) {
    // a name of its own, hence a status file of its own
    std::remove(status_path().c_str());
    const std::string name = cat("vhstatus", getpid());
    std::vector<char *> a(argv, argv + argc + 1);
    a[0] = const_cast<char *>(name.c_str());
    execv("/proc/self/exe", a.data());
    std::perror("execv");
    return 3;
  }
  init(argc, argv);
  current("status monitor");
  Rng r(st().seed);
  endings(r, int(n(24, 120)));
  Reader reader;
  for (int i = 0; i < 5000; ++i) {  // until the watchdog has opened its file
    std::ifstream f(status_path());
    if (f && f.peek() != EOF) break;
    std::this_thread::sleep_for(2ms);
  }
  std::set<std::string> ids;
  for (std::uint64_t i = 0; i < n(12, 200); ++i) round(r, reader, ids);
  finish();
  std::remove(status_path().c_str());
  std::cerr.flush();
  _exit(0);
}
