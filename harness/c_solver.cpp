// C16: roots of linear, quadratic and cubic equations in an interval.  Oracle: the equation is
// evaluated in extended precision and its roots are isolated by bisection between the roots of
// its derivatives, independently of any closed formula.
#include <algorithm>
#include <cmath>
#include <vector>
#include <geometry/solver/polynomial_solver.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include "vh.hpp"
using L = long double;
using P = std::vector<L>;  // highest degree first

static L eval(const P & p, L x) { L v = 0; for (L c : p) v = v * x + c; return v; }
static P derive(const P & p)
{
  P d;
  for (std::size_t i = 0; i + 1 < p.size(); ++i) d.push_back(p[i] * L(p.size() - 1 - i));
  return d;
}
static P trimmed(P p) { while (!p.empty() && p[0] == 0) p.erase(p.begin()); return p; }
// all real roots with a sign change in [lo,hi], sorted
static std::vector<L> roots(P p, L lo, L hi)
{
  p = trimmed(p);
  if (p.size() < 2) return {};
  if (p.size() == 2) { L r = -p[1] / p[0]; return r >= lo && r <= hi ? std::vector<L>{r} : std::vector<L>{}; }
  std::vector<L> cut{lo};
  for (L r : roots(derive(p), lo, hi)) cut.push_back(r);
  cut.push_back(hi);
  std::vector<L> out;
  for (std::size_t i = 0; i + 1 < cut.size(); ++i) {
    L a = cut[i], b = cut[i + 1], fa = eval(p, a), fb = eval(p, b);
    if (fa == 0) { if (out.empty() || out.back() != a) out.push_back(a); continue; }
    if (fb == 0 || (fa < 0) == (fb < 0)) { if (fb == 0 && i + 2 == cut.size()) out.push_back(b); continue; }
    for (int k = 0; k < 200 && b > a; ++k) {
      L m = (a + b) / 2;
      if (m <= a || m >= b) break;
      ((eval(p, m) < 0) == (fa < 0) ? a : b) = m;
    }
    out.push_back((a + b) / 2);
  }
  return out;
}

int main(int argc, char ** argv)
{
  vh::init(argc, argv);
  vh::Rng g(vh::st().seed);
  const math::geometry::PolynomialSolver s;
  constexpr L tol = 1e-7L;
  auto mag = [&](double lo, double hi) { return (g.chance(.5) ? 1 : -1) * std::pow(10.0, g.r(lo, hi)); };
  const auto N = vh::n(300000, 6000000);
  for (std::uint64_t k = 0; k < N; ++k) {
    int deg = int(g.i(1, 3));
    double c[4] = {0, 0, 0, 0};  // a t^3 + b t^2 + c t + d
    const char * family = "random";
    bool exact_multiple = false;
    double multiple = 0;
    int shape = int(g.i(0, 9));
    double lead = g.chance(.3) ? 1.0 : mag(-2, 2);
    if (shape <= 1) { for (int i = 3 - deg; i < 4; ++i) c[i] = g.r(-10, 10); }
    else if (shape <= 5) {  // from chosen roots
      family = "roots";
      double w = std::pow(10.0, g.r(-1, 1)), base = g.chance(.5) ? 0 : g.r(-3, 3);
      double r[3];
      for (auto & x : r) x = base + g.r(-w, w);
      if (deg == 3) {
        if (shape == 5) {  // one real root and a complex pair
          family = "complex";
          double re = base + g.r(-w, w), im = g.r(.05, 2);
          c[0] = lead; c[1] = lead * (-2 * re - r[0]); c[2] = lead * (re * re + im * im + 2 * re * r[0]); c[3] = -lead * r[0] * (re * re + im * im);
        } else { c[0] = lead; c[1] = -lead * (r[0] + r[1] + r[2]); c[2] = lead * (r[0] * r[1] + r[1] * r[2] + r[0] * r[2]); c[3] = -lead * r[0] * r[1] * r[2]; }
      } else if (deg == 2) { c[1] = lead; c[2] = -lead * (r[0] + r[1]); c[3] = lead * r[0] * r[1]; }
      else { c[2] = lead; c[3] = -lead * r[0]; }
    } else if (shape == 6) {  // multiple roots with exactly representable coefficients
      family = "multiple";
      double r = g.i(-16, 16) / 8.0, o = g.chance(.3) ? r : g.i(-16, 16) / 8.0;
      lead = g.i(1, 8) * (g.chance(.5) ? 1 : -1);
      if (deg < 2) deg = 2;
      exact_multiple = true; multiple = r;
      if (deg == 3) { c[0] = lead; c[1] = -lead * (2 * r + o); c[2] = lead * (r * r + 2 * r * o); c[3] = -lead * r * r * o; }
      else { c[1] = lead; c[2] = -2 * lead * r; c[3] = lead * r * r; }
    } else if (shape == 7) {  // nearly degenerate or degenerate leading coefficients
      family = "degenerate";
      static const double tiny[] = {0, 0, 1e-8, -1e-8, 1e-9, -1e-12, 1e-300};
      deg = 3;
      c[0] = tiny[g.i(0, 6)];
      c[1] = g.chance(.5) ? tiny[g.i(0, 6)] : g.r(-5, 5);
      c[2] = g.chance(.3) ? tiny[g.i(0, 6)] : g.r(-5, 5);
      c[3] = g.chance(.3) ? tiny[g.i(0, 6)] : g.r(-5, 5);
    } else if (shape == 8) {  // small linear or quadratic part: nearly triple roots
      family = "flat";
      deg = 3;
      double x0 = g.r(-1, 1), q = g.chance(.3) ? 0 : mag(-6, -1), r = g.chance(.3) ? 0 : mag(-6, -1);
      c[0] = lead; c[1] = -3 * lead * x0; c[2] = lead * (3 * x0 * x0 + q); c[3] = lead * (-x0 * x0 * x0 - q * x0 + r);
    } else {  // small integers
      family = "integers";
      for (int i = 3 - deg; i < 4; ++i) c[i] = double(g.i(-4, 4));
    }
    double lo = 0, hi = 1;
    if (g.chance(.5)) { lo = g.r(-5, 5); hi = lo + std::pow(10.0, g.r(-1, 1.5)); }
    if (g.chance(.1)) { lo = -100; hi = 100; }
    auto where = vh::cat("degree ", deg, " ", c[0], " ", c[1], " ", c[2], " ", c[3], " in [", lo, ", ", hi, "] (", family, ")");
    vh::current(where);
    // which equation is left after coefficients below the tolerance are taken as zero
    auto zero = [&](double x) { return std::abs(x) <= double(tol); };
    int eff = deg;
    while (eff > 0 && zero(c[3 - eff])) --eff;
    std::vector<double> got;
    bool threw = false;
    try {
      got = deg == 3 ? s.solveCubicEquation(c[0], c[1], c[2], c[3], lo, hi)
            : deg == 2 ? s.solveQuadraticEquation(c[1], c[2], c[3], lo, hi) : s.solveLinearEquation(c[2], c[3], lo, hi);
    } catch (const common::SimulationError &) { threw = true; }
    vh::observed(where);
    vh::count(vh::cat("degree", deg, ".", family));
    if (k < 6) vh::sample(where);
    if (eff == 0) {
      if (zero(c[3]) && !threw) vh::fail("identity-not-reported", where);
      if (!zero(c[3]) && (threw || !got.empty())) vh::fail("unsatisfiable-has-solution", where);
      vh::count("no-unknown-left");
      continue;
    }
    if (threw) { vh::fail("unexpected-exception", where); continue; }
    P p;
    for (int i = 3 - eff; i < 4; ++i) p.push_back(c[i]);
    L M = std::max(std::abs(L(lo)), std::abs(L(hi)));
    const L a = std::abs(p[0]);
    // conditioning of the closed formulas: relative size of the other coefficients
    L big = 1;
    for (L x : p) big = std::max(big, std::abs(x) / a);
    if (big > 1e4L) { vh::count("ill-conditioned"); continue; }
    if (int(got.size()) > eff) vh::fail("more-roots-than-the-degree", vh::cat(where, " gives ", got.size()));
    std::string list;
    for (double x : got) list += vh::cat(x, " ");
    const L delta = 1e-6L * std::max(L(1), std::pow(big, L(0.5)) / 10);
    P d = derive(p);
    for (double x : got) {
      if (!(lo <= x && x <= hi)) { vh::fail("outside-the-interval", vh::cat(where, ": ", x)); continue; }
      // an exact root lies within delta, or the value is as small as the documented tolerance allows
      L slope = 0;
      for (int j = -4; j <= 4; ++j) slope = std::max(slope, std::abs(eval(d, x + delta * j / 4)));
      L allowed = slope * delta + 1e-12L * a * big * (1 + M * M * M);
      if (eff == 3) allowed += 2 * tol * a * std::max(L(1), std::sqrt(big) * 0);
      if (eff == 2) allowed += tol / (4 * a) * 1.01L;
      if (!(std::abs(eval(p, x)) <= allowed)) vh::fail("not-a-root", vh::cat(where, ": ", x, " gives ", double(eval(p, x)), " where ", double(allowed), " is allowed; all: ", list));
    }
    auto truth = roots(p, lo - 50, hi + 50);
    vh::count("true-roots", truth.size());
    for (std::size_t i = 0; i < truth.size(); ++i) {
      L r = truth[i];
      if (r < lo + 1e-6L || r > hi - 1e-6L) continue;
      // well separated: f leaves zero clearly on both sides
      L sep = 1e-2L, w = eval(p, r + sep), v = eval(p, r - sep), need = (eff == 3 ? 1e-3L : 1e-3L) * a * sep;
      bool alone = (i == 0 || truth[i] - truth[i - 1] > sep) && (i + 1 == truth.size() || truth[i + 1] - truth[i] > sep);
      if (!alone || (w < 0) == (v < 0) || std::abs(w) < need || std::abs(v) < need || std::abs(eval(d, r)) < 1e-2L * a) continue;
      if (eff == 2 && a * a * (truth.size() == 2 ? (truth[1] - truth[0]) * (truth[1] - truth[0]) : L(1)) < 1e-5L) continue;
      if (eff == 2 && truth.size() < 2) {
        L disc = p[1] * p[1] - 4 * p[0] * p[2];
        if (disc < 1e-5L) continue;
      }
      vh::count("roots-looked-for");
      L best = 1e9L;
      for (double x : got) best = std::min(best, std::abs(L(x) - r));
      if (best > 1e-5L * std::max(L(1), std::pow(big, L(0.5)) / 10)) vh::fail("root-missed", vh::cat(where, ": ", double(r), " not among ", list));
    }
    if (exact_multiple && multiple > lo + 1e-3 && multiple < hi - 1e-3) {
      vh::count("multiple-roots-looked-for");
      L best = 1e9L;
      for (double x : got) best = std::min(best, std::abs(L(x) - multiple));
      if (best > 1e-3L) vh::fail("multiple-root-missed", vh::cat(where, ": ", multiple, " not among ", list));
    }
    // evaluation helpers agree with the equation
    double t = g.r(-3, 3);
    L scale = std::abs(c[0]) * 27 + std::abs(c[1]) * 9 + std::abs(c[2]) * 3 + std::abs(c[3]) + 1;
    if (std::abs(L(s.cubic(c[0], c[1], c[2], c[3], t)) - eval({c[0], c[1], c[2], c[3]}, t)) > 1e-13L * scale) vh::fail("cubic-value", where);
    if (std::abs(L(s.quadratic(c[1], c[2], c[3], t)) - eval({c[1], c[2], c[3]}, t)) > 1e-13L * scale) vh::fail("quadratic-value", where);
    if (std::abs(L(s.linear(c[2], c[3], t)) - eval({c[2], c[3]}, t)) > 1e-13L * scale) vh::fail("linear-value", where);
  }
  vh::finish();
}
