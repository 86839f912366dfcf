// C36: randomly binned distributions, rejection sampling
// SRC: BinnedEDGenerator.cpp BinnedED.cpp EventDistribution.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp Event.cpp ObsSet.cpp ContainerTools.cpp Rand.cpp Heaviside.cpp ParameterManager.cpp
// BOUNDS: every random number the generator can return and every Poisson count up to 3; one or two sources of up to 4 bins (1D and 2D) with arbitrary non-negative contents (not all zero); every rate rounding to at most 3; sampling: every range, height and function value, up to 3 (thorough 4) rejections
// OUTSIDE: negative rates or contents; sources with no content at all; the distribution of Poisson counts
// ASSUME: ROOT's TRandom3 is replaced by a stand-in returning any multiple of 2^-32 in (0,1) and any Poisson count up to the bound
#include "hx.h"
#include <BinnedED.h>
#include <BinnedEDGenerator.h>
#include <Exceptions.h>
#include <Function.h>
#include <Rand.h>
typedef std::vector<double> Vd; typedef std::vector<std::string> Vs; typedef std::vector<int> Vi;
static std::string N(int i) { return std::to_string(i); }
static AxisCollection axes(int shape) { AxisCollection a; if (shape < 4) a.AddAxis(h_axis("x", shape + 1, shape % 3)); else { a.AddAxis(h_axis("x", 2, 2)); a.AddAxis(h_axis("y", 2, 1)); } return a; }
static BinnedED source(int k, int shape, const char *nm) { BinnedED e(nm, axes(shape)); e.SetObservables(shape < 4 ? Vs{"x"} : Vs{"x", "y"}); for (size_t i = 0; i < e.GetNBins(); i++) e.SetBinContent(i, sx_choice(("empty" + N(k)).c_str(), 2) ? 0 : sx_grid(("c" + N(k) + N(i)).c_str(), 0.125, 8, -3)); return e; }
static double total(const BinnedED &e) { double t = 0; for (size_t i = 0; i < e.GetNBins(); i++) t += e.GetBinContent(i); return t; }
// the counts of each bin are those the random numbers fall into
static void check(const BinnedED &o, const std::vector<BinnedED> &src, const Vi &n, const std::string &name, size_t first) {
  sx_assert(o.GetName() == name, "the name is the one asked for"); sx_assert(o.GetAxes() == src[0].GetAxes() && o.GetObservables() == src[0].GetObservables(), "the first source's axes and observables"); int want = 0; for (int c : n) want += c; double sum = 0; for (size_t i = 0; i < o.GetNBins(); i++) { double c = o.GetBinContent(i); sx_assert(c >= 0 && c == (int)c, "bins hold whole counts"); double m = 0; for (size_t k = 0; k < src.size(); k++) m += src[k].GetBinContent(i) * n[k]; if (c > 0) sx_assert(m > 0, "only bins with content are filled"); sum += c; } sx_assert(sum == want, "the counts add up to those requested");
  sx_assert(sx_draws().size() == first + want, "one random number per count"); if (sx_draws().size() != first + want) return;
  // equal slices of the random number are worth equal probability: the number of draws below the cumulated share of a bin is its cumulated count
  double c = 0; for (size_t i = 0; i + 1 < o.GetNBins(); i++) { c += o.GetBinContent(i); size_t d = first; int below = 0; for (size_t k = 0; k < src.size(); k++) { double s = 0; for (size_t j = 0; j <= i; j++) s += src[k].GetBinContent(j); for (int q = 0; q < n[k]; q++, d++) below += sx_draws()[d] * total(src[k]) <= s; } sx_assert(below == c, "a bin is chosen with its share of the source"); }
}
static void story(int nsrc, int shape, int most, bool poisson) {
  std::vector<BinnedED> s; Vd r; Vi n; std::string name = "", derived = poisson ? "Gen_Poi" : "Gen_Exp"; static const char *nm[] = {"one", "two"}; for (int k = 0; k < nsrc; k++) { s.push_back(source(k, shape, nm[k])); sx_assume(total(s[k]) > 0); derived += nm[k]; if (k + 1 < nsrc) derived += "_"; int c = poisson ? 1 : sx_choice("count", most + 1); n.push_back(c); r.push_back(c + (poisson ? 0 : sx_double(("frac" + N(k)).c_str(), c ? -0.49 : 0, 0.49))); } if (sx_choice("named", 2)) name = "mine"; sx_maxcount() = most;
  // no draw exactly on a boundary between bins
  BinnedEDGenerator g; g.SetPdfs(s); g.SetRates(r); sx_assert(g.GetRates() == r && g.GetPdfs().size() == s.size(), "sources and rates read back"); size_t b = sx_draws().size(), pc = sx_counts().size(); BinnedED o = poisson ? g.PoissonFluctuatedED(name) : g.ExpectedRatesED(name); for (size_t d = b; d < sx_draws().size(); d++) for (auto &e : s) { double t = total(e), c = 0; for (size_t i = 0; i + 1 < e.GetNBins(); i++) { c += e.GetBinContent(i); double x = sx_draws()[d] * t - c; sx_assume(x > 1e-6 || x < -1e-6); } }
  if (poisson) { n.assign(sx_counts().begin() + pc, sx_counts().end()); sx_assert(n.size() == s.size(), "one Poisson count per source"); if (n.size() != s.size()) return; } check(o, s, n, name == "" ? derived : name, b); for (int k = 0; k < nsrc; k++) { std::vector<BinnedED> back = g.GetPdfs(); for (size_t i = 0; i < s[k].GetNBins(); i++) sx_assert(back[k].GetBinContent(i) == s[k].GetBinContent(i), "the sources are untouched"); } }
SX_HARNESS(h_one) { story(1, sx_choice("shape", 3), h_thorough() ? 3 : 2, false); }
SX_HARNESS(h_wide) { story(1, 3 + sx_choice("shape", 2), 1, false); }
SX_HARNESS(h_two) { story(2, 1 + sx_choice("shape", h_thorough() ? 2 : 1), 1, false); }
SX_HARNESS(h_poisson) { story(1, sx_choice("shape", 2), 2, true); }
SX_HARNESS(h_poisson_two) { story(2, 1, 1, true); }
SX_HARNESS(h_refused) { BinnedEDGenerator g; BinnedED e("e", axes(1)); e.SetBinContent(0, 1); int w = sx_choice("what", 4); if (w == 1) g.SetRates(Vd{1}); if (w == 2) g.SetPdfs({e}); if (w == 3) { g.SetPdfs({e}); g.SetRates(Vd{1, 1}); } SX_THROWS(LogicError, g.ExpectedRatesED(), "one rate per source is needed"); SX_THROWS(LogicError, g.PoissonFluctuatedED("p"), "one rate per source is needed"); g.SetPdfs({BinnedED()}); g.SetRates(Vd{1}); SX_THROWS(LogicError, g.ExpectedRatesED(), "a source without axes is refused"); g.SetPdfs({e}); g.SetRates(Vd{0}); sx_assert(total(g.ExpectedRatesED()) == 0, "a rate of zero gives nothing"); }
// ---- rejection sampling and uniform numbers
struct Any : Function { int n; mutable std::vector<Vd> at; mutable Vd val; Any(int d = 1) : n(d) {} double operator()(const Vd &v) const { at.push_back(v); double f = sx_grid(("f" + N(val.size())).c_str(), 0, 4, -3); val.push_back(f); sx_assume((int)val.size() <= (h_thorough() ? 5 : 4)); return f; } size_t GetNDims() const { return n; } Function *Clone() const { return new Any(*this); }
  void SetParameter(const std::string &, double) {} double GetParameter(const std::string &) const { return 0; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { return ParameterDict(); } size_t GetParameterCount() const { return 0; } std::set<std::string> GetParameterNames() const { return std::set<std::string>(); } void RenameParameter(const std::string &, const std::string &) {} std::string GetName() const { return "any"; } void SetName(const std::string &) {} };
SX_HARNESS(h_sample) { Any f; double lo = sx_grid("lo", -4, 4, -3), hi = lo + sx_grid("width", 0.125, 4, -3), top = sx_grid("top", 0.125, 8, -3); size_t b = sx_draws().size(); double x = Rand::VonNeumannSample(&f, lo, hi, top); sx_assert(sx_draws().size() - b == 2 * f.at.size() && f.at.size() >= 1, "two random numbers per trial"); if (sx_draws().size() - b != 2 * f.at.size()) return; for (size_t i = 0; i < f.at.size(); i++) { double y = f.at[i][0], h = sx_draws()[b + 2 * i + 1] * top; sx_assert(f.at[i].size() == 1 && y >= lo && y <= hi, "trials lie in the range"); sx_close(y, lo + (hi - lo) * sx_draws()[b + 2 * i], "trials are uniform in the range"); double m = h - f.val[i]; sx_assume(m > 1e-9 || m < -1e-9); sx_assert((m < 0) == (i + 1 == f.at.size()), "the first point under the curve is taken"); } sx_assert(x == f.at.back()[0], "the point taken is the one tested"); }
SX_HARNESS(h_sample_refused) { Any f(1 + sx_choice("dims", 2)), z(0); double lo = sx_grid("lo", -4, 4, -3), hi = sx_grid("hi", -4, 4, -3), top = sx_grid("top", -4, 4, -3); sx_assume(lo >= hi || top <= 0 || f.n != 1); SX_THROWS(ValueError, Rand::VonNeumannSample(&f, lo, hi, top), "meaningless ranges are refused"); SX_THROWS(ValueError, Rand::VonNeumannSample(&z, 0, 1, 1), "only one dimension"); }
SX_HARNESS(h_uniform) { double lo = sx_grid("lo", -4, 4, -3), hi = lo + sx_grid("width", 0.125, 4, -3); size_t b = sx_draws().size(); double x = Rand::UniformRange(lo, hi), y = Rand::Uniform(hi - lo), z = Rand::Uniform(); sx_assert(sx_draws().size() == b + 3, "one random number each"); sx_assert(x >= lo && x <= hi && y >= 0 && y <= hi - lo && z > 0 && z < 1, "uniform numbers stay in their range"); int n = 1 + sx_choice("n", 8), s = Rand::Shoot(n); sx_assert(s >= 0 && s < n, "shots stay below the limit"); double u = sx_draws().back(); sx_assert(u * n >= s && u * n < s + 1, "shots are equally likely"); double q = Rand::UniformRange(), r = Rand::UniformRange(0.25), t = Rand::UniformRange(lo, hi), a = sx_draws()[sx_draws().size() - 3] - 0.5, c = sx_draws()[sx_draws().size() - 2] - 0.5, d = sx_draws().back() - 0.5; sx_assert(q >= 0 && q <= 1 && r >= 0.25 && r <= 1, "the range is the unit interval unless given"); auto even = [](double v, double l, double h, double w) { double m = v - 0.5 * (l + h); sx_close(m * m, w * w * (h - l) * (h - l), "equal slices of the range are equally likely"); }; even(q, 0, 1, a); even(r, 0.25, 1, c); even(t, lo, hi, d); Rand::SetSeed(17); sx_assert(Rand::GetSeed() == 17, "the seed reads back"); double m = sx_double("mean", -4, 4), w = sx_grid("sig", 0.125, 4, -3); double g = Rand::Gaus(m, w); sx_close(g, m + w * sx_gauss().back(), "Gaussian numbers have the mean and width asked for"); }
