// C15: the invocations of every registered job, against a model of the job list.
#include <cmath>
#include <rclcpp/rclcpp.hpp>
#include <traffic_simulator/job/job_list.hpp>

#include "vh.hpp"
using namespace vh;
using namespace traffic_simulator::job;

struct Ev
{
  int job;
  bool cleanup;
  double t;
};
struct Model
{
  bool active = true;
  double elapsed = 0;
  Type type;
  bool exclusive;
  Event event;
  int remaining;  // invocations until it reports completion; <0: never
};

static void lists(Rng & r)
{
  JobList list;
  std::vector<Ev> log, want;
  std::vector<Model> model;
  auto countdown = std::make_shared<std::vector<int>>();
  std::string story;
  const double dt0 = r.chance(0.5) ? 0.05 : r.r(0.001, 1.0);
  auto compare = [&](const char * what) {
    bool same = log.size() == want.size();
    for (std::size_t i = 0; same && i < log.size(); ++i)
      same = log[i].job == want[i].job && log[i].cleanup == want[i].cleanup &&
             (log[i].cleanup || std::abs(log[i].t - want[i].t) <= 1e-9 * (1 + std::abs(want[i].t)));
    if (!same) {
      auto show = [](const std::vector<Ev> & v) {
        std::string s;
        for (auto & e : v) s += cat(" ", e.cleanup ? "cleanup" : "update", "#", e.job, "@", e.t);
        return s;
      };
      fail(cat("job-", what), cat("observed:", show(log), "\nexpected:", show(want), "\nafter ", story));
    }
    count("job events", log.size());
    log.clear();
    want.clear();
    return same;
  };
  const int steps = int(r.i(3, 60));
  for (int i = 0; i < steps; ++i) {
    if (r.chance(0.35)) {
      Model m;
      m.type = Type(r.i(0, 5));
      if (r.chance(0.6)) m.type = r.chance(0.5) ? Type::LINEAR_VELOCITY : Type::OUT_OF_RANGE;
      m.exclusive = r.chance(0.7);
      m.event = r.chance(0.5) ? Event::PRE_UPDATE : Event::POST_UPDATE;
      m.remaining = r.chance(0.2) ? -1 : int(r.i(1, 8));
      const int id = int(model.size());
      story += cat("append #", id, " type ", int(m.type), " exclusive ", m.exclusive, " event ", int(m.event), " remaining ", m.remaining, "; ");
      for (std::size_t k = 0; k < model.size(); ++k)
        if (m.exclusive && model[k].exclusive && model[k].type == m.type && model[k].active) {
          model[k].active = false;
          want.push_back({int(k), true, 0});
          count("exclusive replacements");
        }
      countdown->push_back(m.remaining);
      model.push_back(m);
      current(story);
      list.append(
        [&log, id, countdown](double t) {
          log.push_back({id, false, t});
          return --(*countdown)[std::size_t(id)] == 0;
        },
        [&log, id]() { log.push_back({id, true, 0}); }, m.type, m.exclusive, m.event);
      if (!compare("append")) return;
    }
    const Event e = r.chance(0.5) ? Event::PRE_UPDATE : Event::POST_UPDATE;
    const double dt = r.chance(0.7) ? dt0 : r.r(0, 2);
    story += cat("update(", dt, ", ", int(e), "); ");
    for (std::size_t k = 0; k < model.size(); ++k) {
      auto & m = model[k];
      if (!m.active || m.event != e) continue;
      want.push_back({int(k), false, m.elapsed});
      if (--m.remaining == 0) {
        m.active = false;
        want.push_back({int(k), true, 0});
      }
      m.elapsed += dt;
    }
    current(story);
    list.update(dt, e);
    if (!compare("update")) return;
  }
  observed(story);
  sample(story.substr(0, 200));
}

static void single(Rng & r)
{
  int updates = 0, cleanups = 0, need = int(r.i(1, 6));
  double last = -1;
  Job job([&](double t) { ++updates; last = t; return updates == need; }, [&]() { ++cleanups; },
    Type(r.i(0, 5)), r.chance(0.5), r.chance(0.5) ? Event::PRE_UPDATE : Event::POST_UPDATE);
  double elapsed = 0;
  const int stop = r.chance(0.3) ? int(r.i(0, 5)) : -1;
  std::string story = cat("need ", need, " stop ", stop, ":");
  bool active = true;
  int wu = 0, wc = 0;
  for (int i = 0; i < 12; ++i) {
    if (i == stop && active) { job.inactivate(); active = false; ++wc; story += " inactivate"; }
    const double dt = r.r(0, 1);
    story += cat(" ", dt);
    job.onUpdate(dt);
    if (active) {
      ++wu;
      if (std::abs(last - elapsed) > 1e-9) fail("job-duration", cat("invoked with ", last, " after ", elapsed, " s\n", story));
      if (wu == need) { active = false; ++wc; }
      elapsed += dt;
    }
    if (updates != wu || cleanups != wc || (job.getStatus() == Status::ACTIVE) != active) {
      fail("job-single", cat(updates, " updates, ", cleanups, " cleanups, status ", int(job.getStatus()), " instead of ", wu, ", ", wc, ", ", active ? "active" : "inactive", "\n", story));
      return;
    }
  }
  observed(story);
}

int main(int argc, char ** argv)
{
  init(argc, argv);
  Rng r(st().seed);
  for (std::uint64_t i = 0; i < n(20000, 400000); ++i) { lists(r); single(r); }
  finish();
}
