// C13: log of submissions, executions and observations of a task queue under stress.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <memory>
#include <stdexcept>
#include <thread>

#include <concealer/task_queue.hpp>
#include <rclcpp/rclcpp.hpp>

#include "vh.hpp"
using namespace vh;
using namespace std::chrono_literals;

struct Task
{
  std::atomic<long> submit_begin{0}, submit_end{0}, run_begin{0}, run_end{0};
  std::atomic<int> runs{0};
  int submitter = 0, index = 0;
};
struct Boom : std::runtime_error
{
  int id;
  Boom(int i) : std::runtime_error("boom " + std::to_string(i)), id(i) {}
};

static void nap(Rng & r)
{
  switch (r.i(0, 9)) {
    case 0: std::this_thread::sleep_for(std::chrono::microseconds(r.i(1, 3000))); break;
    case 1: case 2: std::this_thread::yield(); break;
    case 3: for (volatile int i = 0; i < 2000; ++i) {} break;
    default: break;
  }
}

static void scenario(std::uint64_t seed)
{
  Rng r(seed);
  const int submitters = int(r.i(1, 4)), each = int(r.i(1, 12)), observers = int(r.i(0, 2));
  const int total = submitters * each;
  const bool throwing = r.chance(0.35), early = r.chance(0.25);
  const int boom = throwing ? int(r.i(0, total - 1)) : -1;
  const std::string story = cat("seed ", seed, ": ", submitters, " submitters x ", each, ", ", observers, " observers, throwing task ", boom, early ? ", destroyed early" : "");
  std::vector<Task> tasks(static_cast<std::size_t>(total));
  std::atomic<long> clock{1};
  std::atomic<int> inside{0}, executed{0};
  std::atomic<bool> overlap{false}, thrown{false}, stop{false}, after_throw{false}, wrong_error{false}, dead{false}, after_death{false};
  std::vector<std::atomic<bool>> accepted(static_cast<std::size_t>(total));
  struct Seen { long a, b; };
  std::vector<std::vector<Seen>> empties(static_cast<std::size_t>(observers));
  auto q = std::make_unique<concealer::TaskQueue>();
  auto body = [&](int id, std::uint64_t s) {
    auto & t = tasks[std::size_t(id)];
    if (dead) after_death = true;
    if (thrown) after_throw = true;
    if (inside.fetch_add(1) != 0) overlap = true;
    t.run_begin = clock.fetch_add(1);
    ++t.runs;
    Rng rr(s);
    nap(rr);
    t.run_end = clock.fetch_add(1);
    inside.fetch_sub(1);
    ++executed;
    if (id == boom) { thrown = true; throw Boom(id); }
  };
  std::vector<std::thread> threads;
  std::atomic<int> submitted{0}, refused{0};
  for (int s = 0; s < submitters; ++s)
    threads.emplace_back([&, s]() {
      Rng rr(seed * 31 + std::uint64_t(s));
      for (int k = 0; k < each; ++k) {
        const int id = s * each + k;
        auto & t = tasks[std::size_t(id)];
        t.submitter = s;
        t.index = k;
        nap(rr);
        const std::uint64_t ts = rr.u();
        const bool was_thrown = thrown;
        try {
          t.submit_begin = clock.fetch_add(1);
          q->delay([&body, id, ts]() { body(id, ts); });
          t.submit_end = clock.fetch_add(1);
          accepted[std::size_t(id)] = true;
          ++submitted;
        } catch (const Boom & e) {
          ++refused;
          if (e.id != boom || !thrown) wrong_error = true;
        } catch (...) {
          wrong_error = true;
        }
        (void)was_thrown;
      }
    });
  for (int o = 0; o < observers; ++o)
    threads.emplace_back([&, o]() {
      Rng rr(seed * 77 + std::uint64_t(o));
      while (!stop) {
        const long a = clock.fetch_add(1);
        const bool e = q->empty();
        const long b = clock.fetch_add(1);
        if (e && empties[std::size_t(o)].size() < 3000) empties[std::size_t(o)].push_back({a, b});
        nap(rr);
        std::this_thread::sleep_for(50us);
      }
    });
  for (int s = 0; s < submitters; ++s) threads[std::size_t(s)].join();
  auto bad = [&](const char * key, const std::string & what) { fail(key, what + "\n" + story); };
  auto deadline = std::chrono::steady_clock::now() + 20s;
  auto wait = [&](auto && f) {
    while (!f()) {
      if (std::chrono::steady_clock::now() > deadline) return false;
      std::this_thread::sleep_for(1ms);
    }
    return true;
  };
  if (!early) {
    if (!throwing) {
      if (!wait([&]() { return executed == submitted.load(); })) bad("lost-task", cat(executed.load(), " of ", submitted.load(), " tasks were executed"));
      if (!wait([&]() { return q->empty(); })) bad("never-empty", "the queue does not become empty after all tasks are done");
      try { q->rethrow(); } catch (...) { bad("error-invented", "rethrow() throws although no task did"); }
    } else {
      if (!accepted[std::size_t(boom)]) {
        // refused only if an earlier task had thrown: there is none
        bad("refused", "the throwing task itself was refused");
      } else {
        if (!wait([&]() { return thrown.load(); })) bad("lost-task", "the throwing task was never executed");
        auto surfaced = [&]() {
          try { q->rethrow(); } catch (const Boom & e) { return e.id == boom; } catch (...) {}
          return false;
        };
        if (!wait(surfaced)) bad("error-lost", "the error of a task is never thrown again");
        bool ran = false, got = false;
        try { q->delay([&]() { ran = true; }); } catch (const Boom & e) { got = e.id == boom && e.what() == cat("boom ", boom); } catch (...) {}
        if (!got) bad("error-lost", "the next submitter does not receive the error of the task");
        std::this_thread::sleep_for(std::chrono::milliseconds(r.i(0, 120)));
        if (ran) bad("after-error", "a task submitted after the error was executed");
        count("errors surfaced");
      }
    }
  }
  stop = true;
  for (std::size_t i = std::size_t(submitters); i < threads.size(); ++i) threads[i].join();
  q.reset();
  dead = true;
  if (early) std::this_thread::sleep_for(std::chrono::milliseconds(r.i(0, 20)));
  if (after_death) bad("after-destruction", "a task ran after the queue was gone");
  if (overlap) bad("overlap", "two tasks ran at the same time");
  if (after_throw) bad("after-error", "a task ran after another had thrown");
  if (wrong_error) bad("wrong-error", "a submitter received an error no task had thrown");
  std::vector<const Task *> ran;
  for (int id = 0; id < total; ++id) {
    auto & t = tasks[std::size_t(id)];
    if (t.runs > 1) bad("twice", cat("task ", id, " ran ", t.runs.load(), " times"));
    if (t.runs && !accepted[std::size_t(id)]) bad("refused-but-run", cat("task ", id, " was refused and still ran"));
    if (t.runs) ran.push_back(&t);
  }
  std::sort(ran.begin(), ran.end(), [](auto a, auto b) { return a->run_begin < b->run_begin; });
  for (std::size_t i = 0; i < ran.size(); ++i)
    for (std::size_t j = i + 1; j < ran.size(); ++j)
      if (ran[j]->submit_end < ran[i]->submit_begin && ran[j]->submit_end != 0) {
        bad("order", cat("task ", ran[j]->submitter, ".", ran[j]->index, " was submitted before ", ran[i]->submitter, ".", ran[i]->index, " and ran after it"));
        i = ran.size();
        break;
      }
  // executed tasks are a prefix of the submission order
  for (auto & t : tasks)
    if (!t.runs && t.submit_end)
      for (auto * x : ran)
        if (t.submit_end < x->submit_begin) { bad("skipped", cat("task ", t.submitter, ".", t.index, " was skipped")); break; }
  std::uint64_t seen_empty = 0;
  for (auto & v : empties)
    for (auto & e : v) {
      ++seen_empty;
      for (auto & t : tasks)
        if (t.submit_end && t.submit_end < e.a && (!t.runs || t.run_end > e.b)) {
          bad("empty-lies", cat("empty() at ", e.a, "..", e.b, " while task ", t.submitter, ".", t.index, " submitted at ", t.submit_end.load(), " was not finished"));
          break;
        }
    }
  count("tasks executed", ran.size());
  count("submissions refused after an error", std::uint64_t(refused.load()));
  count("times seen empty", seen_empty);
  std::string shape;
  for (auto * t : ran) shape += cat(t->submitter, ".");
  observed(story + shape);
  sample(story + " order " + shape);
}

int main(int argc, char ** argv)
{
  init(argc, argv);
  rclcpp::init(0, nullptr);
  current("task queue stress");
  const std::uint64_t total = n(400, 6000);
  std::atomic<std::uint64_t> next{0};
  std::vector<std::thread> pool;
  for (int i = 0; i < 20; ++i)
    pool.emplace_back([&]() {
      for (std::uint64_t k; (k = next++) < total;) scenario(st().seed * 100000 + k);
    });
  for (auto & t : pool) t.join();
  finish();
}
