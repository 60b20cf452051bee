// C29: generated values against their ranges, reproducibility and coverage of small ranges.
#include <cmath>
#include <limits>
#include <stdexcept>
#include <random_test_runner/randomizers.hpp>

#include "vh.hpp"
using namespace vh;

template <typename T> struct Range { T lo, hi; };
template <typename T> Range<T> range(Rng & r)
{
  if constexpr (std::is_integral_v<T>) {
    if (r.chance(0.05)) return {std::numeric_limits<T>::min(), std::numeric_limits<T>::max()};
    T lo = r.chance(0.3) ? T(r.u()) : T(r.i(-1000, 1000));
    T width = r.chance(0.5) ? T(r.i(0, 4)) : T(r.i(0, 1000000));
    if (lo > std::numeric_limits<T>::max() - width) lo = std::numeric_limits<T>::max() - width;
    return {lo, T(lo + width)};
  } else {
    T lo = T(r.r(-100, 100) * std::pow(10.0, double(r.i(-3, 5))));
    T w = r.chance(0.1) ? T(0) : T(r.r(0, 1) * std::pow(10.0, double(r.i(-6, 4))));
    return {lo, lo + w};
  }
}

template <typename T> void run(Rng & r, const char * name)
{
  const auto seed = unsigned(r.u());
  auto ea = std::make_shared<RandomizationEngine>(seed), eb = std::make_shared<RandomizationEngine>(seed);
  auto g = range<T>(r);
  UniformRandomizer<T> a(ea, g.lo, g.hi), b(eb, g.lo, g.hi);
  std::string story = cat(name, " seed ", seed, " [", g.lo, ", ", g.hi, "]");
  for (int phase = 0, phases = int(r.i(1, 5)); phase < phases; ++phase) {
    if (phase) {
      g = range<T>(r);
      a.setRange(g.lo, g.hi);
      b.setRange(g.lo, g.hi);
      story += cat(" [", g.lo, ", ", g.hi, "]");
    }
    const std::uint64_t width = std::is_integral_v<T> ? std::uint64_t(g.hi) - std::uint64_t(g.lo) : 99;
    const bool small = width <= 4;
    const int draws = small ? 400 : int(r.i(1, 30));
    bool lo = false, hi = false;
    std::map<T, int> seen;
    for (int i = 0; i < draws; ++i) {
      current(story);
      const T x = a.generate(), y = b.generate();
      lo |= x == g.lo;
      hi |= x == g.hi;
      ++seen[x];
      // std::uniform_real_distribution may round up to its upper end
      if (!(x >= g.lo && x <= g.hi)) { fail(cat("out-of-range-", name), cat(x, " drawn\n", story)); return; }
      if (!(x == y)) { fail(cat("not-reproducible-", name), cat(x, " and ", y, " from the same seed\n", story)); return; }
      count("values drawn");
    }
    if (small) {
      if (!lo || !hi) fail(cat("end-missing-", name), cat("an end of the range never occurs in 400 draws\n", story));
      if (seen.size() != width + 1) fail(cat("value-missing-", name), cat("only ", seen.size(), " values of the range occur in 400 draws\n", story));
      count("small ranges covered");
    }
  }
  observed(story);
  sample(story, 4);
  // another seed gives another sequence
  auto ec = std::make_shared<RandomizationEngine>(seed), ed = std::make_shared<RandomizationEngine>(seed + 1);
  UniformRandomizer<T> c(ec, T(0), T(1000000)), d(ed, T(0), T(1000000));
  int same = 0;
  for (int i = 0; i < 8; ++i) same += c.generate() == d.generate();
  if (same == 8) fail(cat("seed-ignored-", name), cat("seeds ", seed, " and ", seed + 1, " give the same 8 values"));
  // no engine
  UniformRandomizer<T> none(nullptr, g.lo, g.hi);
  bool threw = false;
  try { none.generate(); } catch (const std::exception &) { threw = true; }
  if (!threw) fail(cat("no-engine-", name), "a randomizer without an engine returned a value");
}

// the values are spread over the range: a gross check (each tenth gets 4%..18% of 4000 draws)
template <typename T> void spread(Rng & r, const char * name)
{
  auto e = std::make_shared<RandomizationEngine>(unsigned(r.u()));
  UniformRandomizer<T> a(e, T(0), T(1000000));
  int bucket[10] = {};
  for (int i = 0; i < 4000; ++i) {
    const double x = double(a.generate());
    if (x >= 0 && x <= 1000000) ++bucket[std::min(9, int(x / 100000))];
  }
  for (int b : bucket)
    if (b < 160 || b > 720) fail(cat("spread-", name), cat("a tenth of the range got ", b, " of 4000 draws"));
}

int main(int argc, char ** argv)
{
  init(argc, argv);
  Rng r(st().seed);
  for (std::uint64_t i = 0; i < n(4000, 60000); ++i) {
    run<std::int64_t>(r, "int64");
    run<double>(r, "double");
    if (i % 4 == 0) run<std::int32_t>(r, "int32");
  }
  for (int i = 0; i < 20; ++i) { spread<std::int64_t>(r, "int64"); spread<double>(r, "double"); }
  finish();
}
