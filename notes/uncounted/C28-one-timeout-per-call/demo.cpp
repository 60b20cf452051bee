#include <cstdio>
#include <cstdlib>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %s\n", #x); std::exit(1); } } while (0)
#include <string>
#include <unordered_map>
#include <random_test_runner/metrics/ego_collision_metric.hpp>
int main()
{
  EgoCollisionMetric m;
  for (auto * n : {"a", "b", "c"}) CHECK(m.isThereEgosCollisionWith(n, 0.0));
  for (auto * n : {"a", "b", "c"}) CHECK(m.isThereEgosCollisionWith(n, 9.0));
}
