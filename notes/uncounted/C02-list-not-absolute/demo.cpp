#include <cstdio>
#include <cstdlib>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %s\n", #x); std::exit(1); } } while (0)
#include <openscenario_interpreter/syntax/rule.hpp>
int main()
{
  openscenario_interpreter::Rule r(openscenario_interpreter::Rule::equalTo);
  const auto b = r(std::valarray<double>{1.0, 2.0, 3.0}, 2.0);
  CHECK(!b[0] && b[1] && !b[2]);
}
