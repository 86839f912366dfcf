// C20: the penalty of each kind of constraint
// SRC: ShapeConstraint.cpp ShapeInterpConstraint.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ContainerTools.cpp Combinations.cpp
// BOUNDS: any value, mean in [-50,50], any width in [0.5,20], any correlation in [-0.95,0.95] plus any refused one; ratios with a denominator of 0.25 or more in size and 0; interpolated shapes in 1 to 3 dimensions with 2 to 4 bins per axis, equal and unequal, any contents
// OUTSIDE: rounding beyond 1e-9 relative; denominators between 0 and 0.25; widths of zero
#include "hx.h"
#include <BivariateQuadraticConstraint.h>
#include <cmath>
#include <Exceptions.h>
#include <FractionalConstraint.h>
#include <Histogram.h>
#include <QuadraticConstraint.h>
#include <RatioConstraint.h>
#include <ShapeConstraint.h>
#include <ShapeInterpConstraint.h>
typedef std::vector<double> Vd;
static double V(const char *n) { return sx_grid(n, -50, 50, -10); }
static double W(const char *n) { return sx_grid(n, 0.5, 20, -10); }
static void gauss(double p, double dev, double w, const char *l) { sx_close(p * 2 * w * w, dev * dev, l); }
SX_HARNESS(h_symmetric) { double m = V("m"), w = W("w"), v = V("v"); QuadraticConstraint q(m, w); double p = q.Evaluate(v); gauss(p, v - m, w, "half the squared deviation in sigmas"); sx_assert(p > -1e-9, "a penalty is never negative"); sx_close(q.Evaluate(m), 0, "the central value costs nothing"); sx_close(q.Evaluate(m + w), 0.5, "one sigma costs a half"); sx_close(q.Evaluate(m - w), 0.5, "one sigma costs a half"); QuadraticConstraint c = q; sx_assert(c.Evaluate(v) == p, "copies give the same penalty"); }
SX_HARNESS(h_asymmetric) { double m = V("m"), hi = W("hi"), lo = W("lo"), v = V("v"); QuadraticConstraint q(m, hi, lo); double p = q.Evaluate(v); if (v >= m) gauss(p, v - m, hi, "above the centre the upper width applies"); else gauss(p, v - m, lo, "below the centre the lower width applies"); sx_assert(p > -1e-9, "a penalty is never negative"); sx_close(q.Evaluate(m), 0, "the central value costs nothing"); QuadraticConstraint c; c = q; sx_assert(c.Evaluate(v) == p, "copies give the same penalty"); }
SX_HARNESS(h_bivariate) {
  double m1 = V("m1"), m2 = V("m2"), w1 = sx_grid("w1", 0.5, 4, -4), w2 = sx_grid("w2", 0.5, 4, -4), v1 = V("v1"), v2 = V("v2"), r = sx_grid("r", -0.9375, 0.9375, -4); BivariateQuadraticConstraint b(m1, w1, m2, w2, r); double p = b.Evaluate(v1, v2), a = v1 - m1, c = v2 - m2;
  sx_close(p * 2 * (1 - r * r) * w1 * w1 * w2 * w2, a * a * w2 * w2 - 2 * r * a * c * w1 * w2 + c * c * w1 * w1, "the correlated quadratic form"); sx_close(b.Evaluate(m1, m2), 0, "the central value costs nothing"); sx_close(BivariateQuadraticConstraint(m2, w2, m1, w1, r).Evaluate(v2, v1), p, "swapping the parameters changes nothing");
}
SX_HARNESS(h_bivariate_uncorrelated) { double m1 = V("m1"), m2 = V("m2"), w1 = W("w1"), w2 = W("w2"), v1 = V("v1"), v2 = V("v2"); BivariateQuadraticConstraint b(m1, w1, m2, w2, 0); sx_close(b.Evaluate(v1, v2), QuadraticConstraint(m1, w1).Evaluate(v1) + QuadraticConstraint(m2, w2).Evaluate(v2), "without correlation two single penalties add up"); }
SX_HARNESS(h_bivariate_sign) { double d1 = sx_grid("d1", -8, 8, -4), d2 = sx_grid("d2", -8, 8, -4); static const double R[] = {-0.9, -0.5, 0.3, 0.9}; BivariateQuadraticConstraint b(1, 2, -3, 0.5, R[sx_choice("r", 4)]); sx_assert(b.Evaluate(1 + d1, -3 + d2) >= -1e-9, "a penalty is never negative"); if (d1 > 0 && d2 > 0) { double pos = BivariateQuadraticConstraint(1, 2, -3, 0.5, 0.4).Evaluate(1 + d1, -3 + d2), neg = BivariateQuadraticConstraint(1, 2, -3, 0.5, -0.4).Evaluate(1 + d1, -3 + d2); sx_assert(pos < neg, "positive correlation favours common deviations"); } }
SX_HARNESS(h_correlation_refused) { double r = sx_grid("r", -3, 3, -8); if (r > -1 && r < 1) SX_NOTHROW(BivariateQuadraticConstraint(0, 1, 0, 1, r), "possible correlations are accepted"); else SX_THROWS(ValueError, BivariateQuadraticConstraint(0, 1, 0, 1, r), "impossible correlations are refused"); }
SX_HARNESS(h_ratio) {
  double m = sx_grid("m", -4, 4, -6), w = W("w"), a = V("a"), b = sx_grid("b", 0.25, 50, -6); if (sx_choice("negative", 2)) b = -b; RatioConstraint q(m, w); double p = q.Evaluate(a, b); sx_close_tol(p * 2 * w * w * b * b, (a - m * b) * (a - m * b), 1e-6, "half the squared deviation of the ratio in sigmas"); sx_assert(p > -1e-9, "a penalty is never negative"); sx_close(q.Evaluate(m * b, b), 0, "the central ratio costs nothing");
}
SX_HARNESS(h_ratio_zero) { double m = sx_grid("m", -4, 4, -6), w = W("w"); RatioConstraint q(m, w); double p = q.Evaluate(V("a"), 0); sx_assert(p > -1e6 && p < 1e30, "a zero denominator still gives a finite penalty"); }
SX_HARNESS(h_fraction) {
  double m = sx_grid("m", -1, 1, -6), w = W("w"), s = sx_grid("s", 0.25, 50, -6), e = sx_grid("e", -50, 50, -6); if (sx_choice("negative", 2)) s = -s; double a = s / 2 + e / 2, b = s / 2 - e / 2; FractionalConstraint q(m, w); double p = q.Evaluate(a, b); sx_close_tol(p * 2 * w * w * s * s, (a - b - m * s) * (a - b - m * s), 1e-6, "half the squared deviation of the fractional difference in sigmas"); sx_assert(p > -1e-9, "a penalty is never negative");
}
static double f(const ParameterDict &d) { return 3 * d.at("a") - d.at("b") * d.at("b"); }
SX_HARNESS(h_shape) { double m = V("m"), w = W("w"), a = sx_grid("a", -8, 8, -6), b = sx_grid("b", -8, 8, -6); ShapeConstraint q(f, m, w); ParameterDict d; d["a"] = a; d["b"] = b; d["c"] = 17; double p = q.Evaluate(d); gauss(p, 3 * a - b * b - m, w, "half the squared deviation of the function in sigmas"); sx_assert(p > -1e-9, "a penalty is never negative"); d.erase("b"); SX_THROWS_ANY(q.Evaluate(d), "a missing parameter is refused"); }
static const std::vector<std::vector<int>> SHP{{2}, {3}, {4}, {2, 3}, {3, 2}, {3, 3}, {2, 2, 3}};
SX_HARNESS(h_interp) {
  const auto &sh = SHP[sx_choice("shape", h_thorough() ? 7 : 6)]; AxisCollection ax = h_axes(sh); Histogram h(ax); Vd c; for (size_t i = 0; i < ax.GetNBins(); i++) c.push_back(sx_double(("c" + std::to_string(i)).c_str(), -10, 10)); h.SetBinContents(c); ShapeInterpConstraint q(h); ParameterDict d; d["extra"] = 5; Vd v; std::vector<size_t> cell; Vd t;
  for (size_t i = 0; i < sh.size(); i++) { const BinAxis &a = ax.GetAxis(i); double x = sx_grid(("v" + std::to_string(i)).c_str(), -4, 40, -6); sx_assume(x > a.GetBinCentre(0) && x < a.GetBinCentre(sh[i] - 1)); size_t k = 0; while (k + 2 < (size_t)sh[i] && x >= a.GetBinCentre(k + 1)) k++; sx_assume(x > a.GetBinCentre(k)); cell.push_back(k); t.push_back((x - a.GetBinCentre(k)) / (a.GetBinCentre(k + 1) - a.GetBinCentre(k))); v.push_back(x); d[h_names[i]] = x; }
  double want = 0; for (size_t m = 0; m < (1u << sh.size()); m++) { std::vector<size_t> ix; double wgt = 1; for (size_t i = 0; i < sh.size(); i++) { bool up = m >> i & 1; ix.push_back(cell[i] + up); wgt *= up ? t[i] : 1 - t[i]; } want += wgt * c[h_flat(ix, sh)]; }
  sx_close(q.Evaluate(d), want, "the penalty interpolates between the surrounding bin centres"); d.erase(h_names[sh.size() - 1]); SX_THROWS(NotFoundError, q.Evaluate(d), "a missing parameter is refused");
}
