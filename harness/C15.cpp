// SRCS: utils/MathUtils.cpp
#include "common.h"
#include "utils/MathUtils.h"
using namespace ppp::utils::math;
static std::string S(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static double val(Rng& r, double near) {
  static const std::vector<double> sp = {0.0, -0.0, 1, -1, 0.5, -0.5, 1e-4, -1e-4, 1e308, -1e308, 1e-308, 5e-324, 0.1, 0.2, 0.3, 1e15 + 0.5, 2.5, -2.5, 4503599627370497.5,
    std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest()};
  switch (r.i(0, 5)) {
    case 0: return r.pick(sp);
    case 1: return r.i(-40, 40) * 0.25;
    case 2: return r.d(-1000, 1000);
    case 3: return near;
    case 4: return near + r.i(-3, 3) * 0.0001;
    default: { double x = near; for (int k = r.i(1, 3); k > 0; k--) x = std::nextafter(x, r.p(50) ? 1e300 : -1e300); return x; }
  }
}
void oneCase(uint64_t idx, Rng& r) {
  double a = val(r, r.i(-5, 5)), b = val(r, a), t = r.p(60) ? 0.0001 : std::fabs(val(r, std::fabs(a - b)));
  if (r.p(3)) t = -t;
  volatile double dd = a - b, bp = b + t, bm = b - t;
  std::string in = "a=" + S(a) + " b=" + S(b) + " tol=" + S(t);
  KIND(hashstr(in));
  CHECK("equal", equal(a, b, t) == (std::fabs(dd) <= t), "equal(" << in << ")");
  CHECK("larger", larger(a, b, t) == (a > bp), "larger(" << in << ")");
  CHECK("smaller", smaller(a, b, t) == (a < bm), "smaller(" << in << ")");
  CHECK("equalOrLarger", equalOrLarger(a, b, t) == (a >= bm), "equalOrLarger(" << in << ")");
  CHECK("equalOrSmaller", equalOrSmaller(a, b, t) == (a <= bp), "equalOrSmaller(" << in << ")");
  double c = val(r, b); volatile double cp = c + t;
  CHECK("between", between(a, b, c, t) == (a >= bm && a <= cp), "between(" << in << " c=" << S(c) << ")");
  if (t == 0.0001) {
    CHECK("default tolerance", equal(a, b) == equal(a, b, t) && larger(a, b) == larger(a, b, t) && smaller(a, b) == smaller(a, b, t) && equalOrLarger(a, b) == equalOrLarger(a, b, t) && equalOrSmaller(a, b) == equalOrSmaller(a, b, t) && between(a, b, c) == between(a, b, c, t), "defaults " << in);
  }
  double d = val(r, a);
  double xs[4] = {a, b, c, d};
  bool nan = false; for (double x : xs) nan |= std::isnan(x);
  if (!nan) {
    for (int k = 2; k <= 4; k++) {
      double mn = *std::min_element(xs, xs + k), mx = *std::max_element(xs, xs + k);
      double gmn = k == 2 ? minimum(a, b) : k == 3 ? minimum(a, b, c) : minimum(a, b, c, d);
      double gmx = k == 2 ? maximum(a, b) : k == 3 ? maximum(a, b, c) : maximum(a, b, c, d);
      CHECK("minimum", gmn == mn, "minimum of " << k << ": " << in << " c=" << S(c) << " d=" << S(d) << " -> " << S(gmn));
      CHECK("maximum", gmx == mx, "maximum of " << k << ": " << in << " c=" << S(c) << " d=" << S(d) << " -> " << S(gmx));
    }
  }
  // rounding
  if (std::isfinite(a)) {
    double e = std::round(a);
    CHECK("round to integer", round(a, 0) == e && ppp::utils::math::round(a) == e, "round(" << S(a) << ", 0)");
    if (std::fabs(a) < 1e6) {
      for (unsigned n = 1; n <= 6; n++) {
        double p = std::pow(10.0, n), q = round(a, n);
        CHECK("round: distance", std::fabs(q - a) <= 0.5 / p * (1 + 1e-9) + std::fabs(a) * 1e-15, "round(" << S(a) << ", " << n << ") = " << S(q));
        CHECK("round: on the decimal grid", q == std::round(q * p) / p, "round(" << S(a) << ", " << n << ") = " << S(q));
        double half = r.i(-50, 50) + 0.5;   // halves away from zero, exact in binary for n = 1 when scaled
        if (n == 1) { double x = (r.i(-20, 20) * 4 + (r.p(50) ? 1 : 3)) / 4.0; double w = (x < 0 ? -1 : 1) * std::floor(std::fabs(x) * 10 + 0.5) / 10;
          CHECK("round: halves away from zero", round(x, 1) == w, "round(" << S(x) << ", 1) = " << S(round(x, 1))); }
        (void)half;
      }
    }
  }
}
