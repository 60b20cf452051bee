#include <cstdio>
#include <cstdlib>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %s\n", #x); std::exit(1); } } while (0)
#include <stdexcept>
#include <random_test_runner/randomizers.hpp>
int main()
{
  UniformRandomizer<int64_t> r(std::make_shared<RandomizationEngine>(1), 0, 1000000);
  r.setRange(0, 3);
  for (int i = 0; i < 20; ++i) CHECK(r.generate() <= 3);
}
