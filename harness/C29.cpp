// C29: Markov chain
// SRC: MCMC.cpp MCMCSamples.cpp MetropolisSampler.cpp Rand.cpp FitResult.cpp HistTools.cpp AutoCorrelationCalc.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp DenseMatrix.cpp TestStatistic.cpp ConstraintManager.cpp ComponentManager.cpp ParameterManager.cpp ContainerTools.cpp SystematicManager.cpp Systematic.cpp SparseMatrix.cpp BinnedED.cpp EventDistribution.cpp ObsSet.cpp Event.cpp CutCollection.cpp CutLog.cpp ShapeConstraint.cpp ShapeInterpConstraint.cpp Combinations.cpp
// FLAGS: -mlong-double-64
// BOUNDS: chains of up to 3 steps (thorough 4) over 1 or 2 parameters with every proposal inside or outside the limits, every value of the statistic at each proposal, every random draw; plain and logarithmic statistics, with and without flipped sign; burn-in and thinning up to 3; given and drawn starting points; the sample store by itself for up to 5 points; statistic values that differ by as little as 2^-30, widths and ranges scaled by 2^-20 and 2^20
// OUTSIDE: acceptance ratios within 1e-9 of the random number; plain (not logarithmic) statistics that are negative or start at zero, or that are flipped; running one chain object twice; a starting point outside the limits; step times; the distribution of the random numbers
// ASSUME: ROOT's random generator, tree and stopwatch are replaced by in-memory stand-ins; the acceptance ratio, a long double, is computed as a double in the symbolic run (the native replay uses long double)
// BUDGET: 200
#include "hx.h"
#include <Exceptions.h>
#include <AutoCorrelationCalc.h>
#include <MCMC.h>
#include <MCMCSamples.h>
#include <MetropolisSampler.h>
#include <Rand.h>
#include <TTree.h>
#include <TestStatistic.h>
typedef std::string S; typedef std::vector<double> Vd;
static S N(int i) { return std::to_string(i); }
static const char *const pn[] = {"b", "a", "c-d"};
struct Stat : TestStatistic { // an arbitrary value for every evaluation
  int n, lo, hi; ParameterDict now; std::vector<ParameterDict> at; Vd val; int reg = 0; Stat(int k, int l, int h) : n(k), lo(l), hi(h) {}
  // lo < 0: any value; lo == 0: zero or any positive one (positive at the start); lo > 0: far better or far worse than all before
  double Evaluate() { at.push_back(now); int k = val.size(); if (lo > 0) val.push_back(k == 0 ? 0 : sx_choice("better", 2) ? 100 * k : -1000 * k); else if (lo == 0 && k && sx_choice("zero", 2)) val.push_back(0); else val.push_back(sx_grid(("v" + N(k)).c_str(), lo == 0 ? 0.0625 : lo, hi, -4)); return val.back(); } void SetParameters(const ParameterDict &p) { now = p; } ParameterDict GetParameters() const { return now; } size_t GetParameterCount() const { return n; } std::set<S> GetParameterNames() const { return std::set<S>(pn, pn + n); } void RegisterFitComponents() { reg++; }
};
struct Prop : MCSampler { // an arbitrary proposal for every step
  int n; std::vector<ParameterDict> from, to; std::vector<size_t> used; double corr = 0; bool inside; Prop(int k, bool in) : n(k), inside(in) {}
  ParameterDict Draw(const ParameterDict &c) { used.push_back(sx_draws().size()); from.push_back(c); ParameterDict p; for (int i = 0; i < n; i++) p[pn[i]] = sx_grid(("z" + N(to.size()) + N(i)).c_str(), inside ? 0 : -1, inside ? 2 : 3, -4); to.push_back(p); return p; } double CorrectAccParam() { return corr; }
};
static AxisCollection axes(int n) { AxisCollection a; for (int i = 0; i < n; i++) a.AddAxis(BinAxis(pn[i], 0, 2, i ? 1 : 2)); return a; }
struct Cfg { int n, steps, burn, thin, logged; bool flip, full, chain, inside, drawn, corr; };
static void run(Cfg c) {
  Stat t(c.n, c.logged == 2 ? 1 : c.logged ? -4 : 0, 4); Prop s(c.n, c.inside); if (c.corr) s.corr = sx_grid("corr", -2, 2, -4); MCMC m(s); ParameterDict lo, hi, start; for (int i = 0; i < c.n; i++) { lo[pn[i]] = 0; hi[pn[i]] = 2; start[pn[i]] = sx_grid(("start" + N(i)).c_str(), 0, 2, -4); } m.SetMinima(lo); m.SetMaxima(hi); if (!c.drawn) m.SetInitialTrial(start); m.SetMaxIter(c.steps); m.SetBurnIn(c.burn); m.SetThinFactor(c.thin); m.SetTestStatLogged(c.logged != 0); m.SetFlipSign(c.flip); m.SetSaveFullHistogram(c.full); if (c.chain) m.SetSaveChain(true); m.SetHistogramAxes(axes(c.n));
  sx_assert(m.GetMinima() == lo && m.GetMaxima() == hi && m.GetMaxIter() == (unsigned)c.steps && m.GetBurnIn() == (unsigned)c.burn && m.GetThinFactor() == (unsigned)c.thin && m.GetTestStatLogged() == (c.logged != 0) && m.GetFlipSign() == c.flip && m.GetSaveFullHistogram() == c.full && m.GetSaveChain() == c.chain && m.GetInitialTrial() == (c.drawn ? ParameterDict() : start) && m.GetHistogramAxes() == axes(c.n), "settings read back");
  sx_draws().clear(); FitResult r = m.Optimise(&t); size_t d = 0, e = 0; sx_assert(t.reg == 1, "fit components are registered"); sx_assert((int)s.to.size() == c.steps, "one proposal per step"); if (c.drawn) { int i = 0; for (auto &q : start) { (void)i; q.second = sx_draws().at(d++) * 2; } }
  sx_assert(t.at.size() >= 1 && t.at[0].size() == start.size(), "the start is evaluated"); for (auto &q : start) sx_close(t.at[0][q.first], q.second, "the chain starts at the given or drawn point"); start = t.at[0]; double sg = c.flip ? -1 : 1, cur = sg * t.val[e++], best = cur; ParameterDict x = start; std::vector<ParameterDict> path; Vd vals; std::vector<bool> acc; int nacc = 0; std::vector<ParameterDict> bests(1, x);
  for (int i = 0; i < c.steps; i++) { sx_assert(s.from[i] == x, "proposals start from the current point"); bool in = true; for (auto &q : s.to[i]) in = in && q.second >= 0 && q.second <= 2; bool ok = false; if (in) { sx_assert(e < t.at.size() && t.at[e] == s.to[i], "proposals inside the limits are evaluated"); if (e >= t.at.size()) return; double v = sg * t.val[e++]; double up = c.logged ? v - cur + s.corr : v - cur; size_t end = i + 1 < c.steps ? s.used[i + 1] : sx_draws().size(), k = end - s.used[i]; d += k; sx_assume(up == 0 || up > 0.03 || up < -0.03); if (up > 0) ok = true; else { sx_assert(k == 1 || (up == 0 && k == 0), "the acceptance is drawn"); if (k == 1) { double u = sx_draws()[end - 1], ratio = c.logged ? exp(up) : v / cur, gap = ratio - u; sx_assume(gap > 1e-9 || gap < -1e-9); ok = gap > 0; } else ok = true; } if (ok) { cur = v; x = s.to[i]; if (v > best) best = v; } } path.push_back(x); vals.push_back(cur); acc.push_back(ok); nacc += ok; }
  sx_assert(e == t.at.size(), "proposals outside the limits are not evaluated"); sx_assert(d == sx_draws().size(), "nothing else is drawn"); sx_assert(r.GetValid(), "the result is valid"); sx_assert(r.GetExtremeVal() == best, "the extreme value is the highest visited"); bool vis = r.GetBestFit() == start && sg * t.val[0] == best; for (int i = 0; i < c.steps; i++) vis = vis || (r.GetBestFit() == path[i] && vals[i] == best); sx_assert(vis, "the best fit is the point of the highest value visited");
  const MCMCSamples &q = m.GetSamples(); sx_close(q.GetAcceptanceRate(), 1. * nacc / c.steps, "the acceptance rate counts accepted steps"); sx_close(m.GetRejectionRate(), 1 - 1. * nacc / c.steps, "the rejection rate counts rejected steps"); AxisCollection ax = axes(c.n); Vd want(ax.GetNBins(), 0); int rec = 0; std::map<S, Vd> w1; for (int i = 0; i < c.n; i++) w1[pn[i]] = Vd(i ? 1 : 2, 0);
  for (int i = 0; i < c.steps; i++) if (i > c.burn && i % c.thin == 0) { rec++; Vd p; for (int k = 0; k < c.n; k++) p.push_back(path[i][pn[k]]); int b = p[0] >= 1; want[b]++; w1[pn[0]][b]++; if (c.n > 1) w1[pn[1]][0]++; }
  if (c.full) { const Histogram &h = q.GetHistogram(); sx_assert(h.GetAxes() == ax, "the histogram has the axes asked for"); for (size_t i = 0; i < want.size(); i++) sx_assert(h.GetBinContent(i) == want[i], "every recorded point is counted once"); } else { sx_assert(q.Get1DProjections().size() == (size_t)c.n && q.Get2DProjections().size() == (c.n == 2 ? 1u : 0u), "one histogram per parameter and pair"); for (auto &z : w1) for (size_t i = 0; i < z.second.size(); i++) sx_assert(q.Get1DProjections().at(z.first).GetBinContent(i) == z.second[i], "every recorded point is counted once"); if (c.n == 2) { S key = q.Get2DProjections().begin()->first; const Histogram &h = q.Get2DProjections().begin()->second; sx_assert((key == "a_b" && h.GetAxisNames() == (std::vector<S>{"a", "b"})) || (key == "b_a" && h.GetAxisNames() == (std::vector<S>{"b", "a"})), "pairs are named after their parameters"); for (size_t i = 0; i < 2; i++) sx_assert(h.GetBinContent(i) == want[i], "every recorded point is counted once"); } }
  if (c.chain) { TTree *tr = q.GetChain(); sx_assert((int)tr->rows.size() == c.steps, "the chain has one entry per step"); std::vector<S> nm{"LogL", "Accepted", "Step", "StepTime"}; for (auto &z : start) nm.push_back(z.first); sx_assert(tr->names == nm && tr->leafname == nm, "the chain names its columns"); for (int i = 0; i < c.steps; i++) { const Vd &row = tr->rows[i]; sx_assert(row[0] == vals[i] && row[1] == acc[i] && row[2] == i, "the chain holds every step"); int k = 4; for (auto &z : path[i]) sx_assert(row[k++] == z.second, "the chain holds every step's point"); } delete tr; }
}
SX_HARNESS(h_logged) { int n = 1 + sx_choice("dims", 2); run({n, n == 2 ? 2 : h_thorough() ? 4 : 3, 0, 1, true, (bool)sx_choice("flip", 2), true, false, true, false, false}); }
SX_HARNESS(h_corrected) { run({1, 2, 0, 1, true, false, true, false, true, false, true}); }
SX_HARNESS(h_plain) { run({1, 2, 0, 1, false, false, true, false, true, false, false}); }
SX_HARNESS(h_limits) { int n = 1 + sx_choice("dims", 2); run({n, h_thorough() && n == 1 ? 3 : 2, 0, 1, true, false, true, false, false, false, false}); }
SX_HARNESS(h_record) { int n = 1 + sx_choice("dims", 2); run({n, h_thorough() ? 4 : 3, sx_choice("burn", 3), 1 + sx_choice("thin", 3), 2, false, false, (bool)sx_choice("chain", 2), true, (bool)sx_choice("drawn", 2), false}); }
SX_HARNESS(h_refused) { Stat t(2, -4, 4); Prop s(2, true); MCMC m(s); ParameterDict full{{"a", 0}, {"b", 0}}, up{{"a", 2}, {"b", 2}}, bad{{"a", 1}}; int w = sx_choice("what", 4); m.SetMinima(w == 0 ? bad : full); m.SetMaxima(w == 1 ? bad : up); if (w == 2) m.SetInitialTrial(bad); m.SetMaxIter(1); if (w == 3) { m.SetInitialTrial(full); m.SetHistogramAxes(axes(1)); SX_THROWS(DimensionError, m.Optimise(&t), "one axis per parameter is needed"); } else SX_THROWS(LogicError, m.Optimise(&t), "inconsistent limits are refused"); }
SX_HARNESS(h_default_axes) { // without axes given: the range between the limits, also when it is empty
  Stat t(1, -4, 4); Prop s(1, true); MCMC m(s); static const double W[] = {0, 2, 0.25, 1. / 1024, 1. / (1 << 20), 1 << 20}; double w = W[sx_choice("width", 6)]; m.SetMinima(ParameterDict{{"b", 0}}); m.SetMaxima(ParameterDict{{"b", w}}); m.SetInitialTrial(ParameterDict{{"b", 0}}); m.SetMaxIter(2); m.SetBurnIn(0); m.SetTestStatLogged(true); m.Optimise(&t); const Histogram &h = m.GetSamples().Get1DProjections().at("b"); const BinAxis &a = h.GetAxes().GetAxis(0); sx_assert(a.GetName() == "b" && a.GetMin() == 0 && a.GetNBins() == 2, "the axis covers the limits"); if (w == 0) w = 0.01; sx_close(a.GetMax() / w, 1, "the axis covers the limits"); sx_close(a.GetBinHighEdge(0) / w, 0.5, "the axis covers the limits"); double sum = h.GetBinContent(0) + h.GetBinContent(1); sx_assert(sum == 1, "every recorded point is counted once"); }
SX_HARNESS(h_samples) { // the sample store by itself
  Prop s(1, true); MCMC m(s); m.SetMinima(ParameterDict{{"b", 0}}); m.SetMaxima(ParameterDict{{"b", 2}}); MCMCSamples q(&m); int burn = sx_choice("burn", 4), thin = 1 + sx_choice("thin", 3), n = 1 + sx_choice("points", 5); q.SetBurnIn(burn); q.SetThinFactor(thin); q.SetHistogramAxes(axes(1)); bool full = sx_choice("full", 2); q.SetSaveFullHistogram(full); sx_assert(q.GetBurnIn() == burn && q.GetThinFactor() == thin && q.GetSaveFullHistogram() == full && !q.GetSaveChain(), "settings read back"); for (int round = 0; round < 2; round++) { double want[2] = {0, 0}; int acc = 0; AutoCorrelationCalc ac(8); for (int i = 0; i < n; i++) { int b = sx_choice("bin", 2); bool a = (i + b) % 2; acc += a; q.Fill(ParameterDict{{"b", b + sx_double(("off" + N(i)).c_str(), 0.1, 0.9)}}, 1. * i * i + 1, a); if (i > burn && i % thin == 0) { want[b]++; ac.Fill(i * i + 1); } } sx_close(q.GetAcceptanceRate(), 1. * acc / n, "the acceptance rate counts accepted steps"); sx_close(q.GetRejectionRate(), 1 - 1. * acc / n, "the rejection rate counts rejected steps"); const Histogram &h = full ? q.GetHistogram() : q.Get1DProjections().at("b"); for (int b = 0; b < 2; b++) sx_assert(h.GetBinContent(b) == want[b], "every recorded point is counted once"); Vd got = q.GetAutoCorrelations(), au = ac.Get(); for (int k = 0; k < n; k++) sx_assert(got.at(k) == au.at(k) || (got[k] != got[k] && au[k] != au[k]), "the autocorrelations are those of the recorded points"); if (round || n > 2) break; q.Clear(); } }
SX_HARNESS(h_metropolis) { MetropolisSampler s; ParameterDict sig, x; int n = 1 + sx_choice("dims", 3), fix = sx_choice("fixed", 1 << n); bool rel = sx_choice("release", 2); static const double SZ[] = {1, 1. / (1 << 20), 1 << 20}; double L = SZ[n == 1 ? sx_choice("size", 3) : 0]; for (int i = 0; i < n; i++) { x[pn[i]] = sx_grid(("z" + N(i)).c_str(), -2, 2, -4) * L; if (!(fix >> i & 1) || rel) sig[pn[i]] = sx_grid(("w" + N(i)).c_str(), 0.0625, 2, -4) * L; } s.SetSigmas(sig); sx_assert(s.GetSigmas() == sig && s.CorrectAccParam() == 0, "widths read back"); for (int i = 0; i < n; i++) if (fix >> i & 1) s.Fix(pn[i]); if (rel) for (int i = 0; i < n; i++) s.Release(pn[i]); sx_gauss().clear(); ParameterDict x0 = x, y = s.Draw(x); sx_assert(x == x0 && y.size() == x.size(), "the current point is untouched"); size_t g = 0; for (auto &q : x) { int i = 0; while (q.first != pn[i]) i++; if ((fix >> i & 1) && !rel) sx_assert(y.at(q.first) == q.second, "fixed parameters never move"); else { sx_assert(g < sx_gauss().size(), "one random step per free parameter"); if (g < sx_gauss().size()) sx_close(y.at(q.first) / L, (q.second + sig[q.first] * sx_gauss()[g++]) / L, "free parameters move by their own width"); } } sx_assert(g == sx_gauss().size(), "one random step per free parameter"); }
SX_HARNESS(h_metropolis_chain) { // a fixed parameter stays where it started through a whole chain
  Stat t(2, -4, 4); MetropolisSampler s; s.SetSigmas(ParameterDict{{"a", 0.5}, {"b", 0.5}}); const char *f = sx_choice("which", 2) ? "a" : "b"; s.Fix(f); MCMC m(s); m.SetMinima(ParameterDict{{"a", 0}, {"b", 0}}); m.SetMaxima(ParameterDict{{"a", 2}, {"b", 2}}); double x = sx_grid("z", 0, 2, -4); m.SetInitialTrial(ParameterDict{{"a", x}, {"b", x}}); m.SetMaxIter(2); m.SetBurnIn(0); m.SetTestStatLogged(true); m.SetSaveFullHistogram(true); m.SetHistogramAxes(axes(2)); FitResult r = m.Optimise(&t); for (auto &p : t.at) sx_assert(p[f] == x, "fixed parameters never move"); sx_assert(r.GetBestFit().at(f) == x, "fixed parameters never move"); }
SX_HARNESS(h_close_values) { // the best is the best by however little, the way up is always taken
  struct Up : TestStatistic { double base, unit; bool flip; ParameterDict now; std::vector<ParameterDict> at; Vd val; double Evaluate() { int k = val.size(); double v = k ? val.back() + unit * sx_grid(("v" + N(k)).c_str(), 1, 64, 0) * (flip ? -1 : 1) : base; at.push_back(now); val.push_back(v); return v; } void SetParameters(const ParameterDict &p) { now = p; } ParameterDict GetParameters() const { return now; } size_t GetParameterCount() const { return 1; } std::set<S> GetParameterNames() const { return std::set<S>{"b"}; } void RegisterFitComponents() {} } t;
  static const int E[] = {-30, -20, -12}; t.unit = std::ldexp(1, E[sx_choice("unit", 3)]); bool logged = sx_choice("logged", 2); t.flip = logged && sx_choice("flip", 2); static const double Bs[] = {-4, 0, 2}; t.base = logged ? Bs[sx_choice("base", 3)] : 2; Prop s(1, true); MCMC m(s); m.SetMinima(ParameterDict{{"b", 0}}); m.SetMaxima(ParameterDict{{"b", 2}}); m.SetInitialTrial(ParameterDict{{"b", 1}}); m.SetMaxIter(3); m.SetBurnIn(0); m.SetTestStatLogged(logged); m.SetFlipSign(t.flip); m.SetSaveFullHistogram(true); m.SetHistogramAxes(axes(1)); FitResult r = m.Optimise(&t);
  sx_assert(t.at.size() == 4 && m.GetSamples().GetAcceptanceRate() == 1, "higher values are always accepted"); for (int i = 1; i < 3; i++) sx_assert(s.from[i] == s.to[i - 1], "higher values are always accepted"); sx_assert(r.GetBestFit() == s.to.back(), "the best fit is the point of the highest value visited"); sx_assert(r.GetExtremeVal() == t.val.back() * (t.flip ? -1 : 1), "the extreme value is the highest visited");
}
