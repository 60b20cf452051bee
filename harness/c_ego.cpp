// C28: reported collisions over contact histories, against a model per entity.
#include <cmath>
#include <string>
#include <unordered_map>
#include <random_test_runner/metrics/ego_collision_metric.hpp>

#include "vh.hpp"
using namespace vh;

int main(int argc, char ** argv)
{
  init(argc, argv);
  Rng r(st().seed);
  for (std::uint64_t k = 0; k < n(40000, 800000); ++k) {
    EgoCollisionMetric metric;
    std::map<std::string, double> last;
    std::vector<std::string> names;
    for (int i = 0, m = int(r.i(1, 12)); i < m; ++i) names.push_back(r.chance(0.1) ? std::string() : cat("npc", r.i(0, 20)));
    double t = r.chance(0.5) ? 0 : r.chance(0.5) ? r.r(0, 1e4) : -r.r(0, 10);
    std::string story;
    for (int i = 0, m = int(r.i(1, 40)); i < m; ++i) {
      const auto & name = r.pick(names);
      // multiples of 1/1024 make the timeout comparison exact; gaps of exactly 0.5 s stay one encounter
      const double gap = r.chance(0.3) ? 0 : r.chance(0.15) ? 0.5 : r.chance(0.1) ? 0.5 + 1.0 / 1024 : std::floor(r.r(0, r.chance(0.8) ? 0.6 : 3) * 1024) / 1024;
      t = std::floor(t * 1024) / 1024 + gap;
      auto it = last.find(name);
      const bool want = it == last.end() || t - it->second > 0.5;
      last[name] = t;
      story += cat("('", name, "', ", t, ") ");
      current(story);
      const bool got = metric.isThereEgosCollisionWith(name, t);
      count(want ? "new collisions" : "continued contacts");
      if (got != want) { fail(got ? "collision-invented" : "collision-missed", cat("answer ", got, " after ", story)); break; }
    }
    observed(story);
    sample(story.substr(0, 120), 4);
  }
  finish();
}
