// C30: counting experiments and credible limits
// SRC: CountingExperiment.cpp CountingResult.cpp BayesIntervalCalc.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp Event.cpp ObsSet.cpp OXSXDataSet.cpp DataSet.cpp CutCollection.cpp CutLog.cpp BoxCut.cpp LineCut.cpp BoolCut.cpp Cut.cpp EventSystematicManager.cpp EventSystematic.cpp EventShift.cpp EventScale.cpp ParameterManager.cpp ContainerTools.cpp
// BOUNDS: up to 3 events per set with any values of the cut observables, up to 2 cuts (3 to 5 for single events), 2 backgrounds with any rates, one systematic; counting again; posteriors of up to 4 bins on uniform and irregular axes with any contents (at least half an event, or empty in one bin, adding up to 8), six credibilities; one-sided counting intervals; single runs of many items
// OUTSIDE: rounding beyond 1e-9 of the result; counting intervals beyond the listed settings
#include "hx.h"
#include <BayesIntervalCalc.h>
#include <BoxCut.h>
#include <CountingExperiment.h>
#include <EventScale.h>
#include <EventShift.h>
#include <Event.h>
#include <Exceptions.h>
#include <LineCut.h>
#include <OXSXDataSet.h>
#include <gsl/gsl_sf_gamma.h>
#include <algorithm>
#include <memory>
#include <sstream>
typedef std::string S; typedef std::vector<S> Vs; typedef std::vector<double> Vd;
static S N(int i) { return std::to_string(i); }
struct Set { OXSXDataSet ds; std::vector<Vd> ev; Set(const S &p, int n) { ds.SetObservableNames(Vs{"z", "y"}); for (int i = 0; i < n; i++) { Vd v{sx_grid((p + "z" + N(i)).c_str(), -2, 2, -3), sx_grid((p + "y" + N(i)).c_str(), -2, 2, -3)}; ev.push_back(v); ds.AddEntry(Event(v)); } }
  int pass(int cuts, double shift) const { int k = 0; for (auto &v : ev) { double x = v[0] + shift; k += (!(cuts & 1) || (x > -1 && x < 1)) && (!(cuts & 2) || v[1] > 0.5); } return k; } };
static void cut(CountingExperiment &e, int cuts) { if (cuts & 1) e.AddCut(BoxCut("box", "z", -1, 1)); if (cuts & 2) e.AddCut(LineCut("line", "y", 0.5, "lower")); }
SX_HARNESS(h_data) { CountingExperiment e; int cuts = sx_choice("cuts", 4); cut(e, cuts); Set s("d", 1 + sx_choice("n", h_thorough() ? 3 : 2)); sx_assert(e.GetCountingResult().GetObservedCounts() == -1 && e.GetCountingResult().GetSignalEfficiency() == -1, "nothing is reported before counting"); for (int i = 0; i < 2; i++) { e.CountData(&s.ds); sx_assert(e.GetCountingResult().GetObservedCounts() == s.pass(cuts, 0), "observed counts are the passing events"); } sx_assert(e.GetCountingResult().GetExpectedCounts() == 0 && e.GetCountingResult().GetExpectedRates().empty(), "no background, no expectation"); OXSXDataSet none; none.SetObservableNames(Vs{"z", "y"}); e.CountData(&none); sx_assert(e.GetCountingResult().GetObservedCounts() == 0, "an empty data set counts nothing"); }
SX_HARNESS(h_signal) { CountingExperiment e; int cuts = 1 + sx_choice("cuts", 3); cut(e, cuts); Set s("s", 1 + sx_choice("n", 3)); e.SetSignal(&s.ds, "sig"); for (int i = 0; i < 2; i++) { e.CountSignal(); sx_close(e.GetCountingResult().GetSignalEfficiency() * s.ev.size(), s.pass(cuts, 0), "the efficiency is the passing fraction"); } }
SX_HARNESS(h_backgrounds) { CountingExperiment e; int cuts = 1 + (h_thorough() ? sx_choice("cuts", 3) : 1 * sx_choice("cuts", 2)); cut(e, cuts); int nb = 1 + sx_choice("nbkg", 2); std::vector<Set> b; Vd rate; for (int i = 0; i < nb; i++) { b.emplace_back("b" + N(i), i ? 1 : 1 + sx_choice("n", 2)); rate.push_back(sx_double(("r" + N(i)).c_str(), 0.5, 1000)); } for (int i = 0; i < nb; i++) e.AddBackground(&b[i].ds, rate[i], "bg" + N(i)); for (int k = 0; k < 2; k++) { e.CountBackgrounds(); const CountingResult &r = e.GetCountingResult(); sx_assert((int)r.GetExpectedRates().size() == nb && (int)r.GetExpectedRateErrors().size() == nb, "one rate and error per background, however often counted"); double tot = 0, var = 0; for (int i = 0; i < nb; i++) { double n = b[i].ev.size(), p = b[i].pass(cuts, 0), er = std::sqrt(p) * rate[i] / n; sx_close(r.GetExpectedRates()[i], p * rate[i] / n, "each background is its rate times the passing fraction"); sx_close(r.GetExpectedRateErrors()[i], er, "errors scale with the root of the passing events"); tot += p * rate[i] / n; var += er * er; } sx_close(r.GetExpectedCounts(), tot, "totals add up"); double te = r.GetExpectedCountError(); sx_assert(te >= 0, "the total error is not negative"); sx_close_tol(te * te, var, 1e-6, "errors add in quadrature"); } }
SX_HARNESS(h_systematic) { // events are transformed before they are cut
  CountingExperiment e; cut(e, 1); EventShift sh("shift"); double d = sx_grid("shift", -1, 1, -3); sh.SetShift(d); sh.SetInObservables(Vs{"z"}); sh.SetOutObservables(Vs{"z"}); e.AddSystematic(&sh, "shift"); Set a("a", 1), b("b", 2), c("c", 1); e.SetSignal(&b.ds, "s"); e.AddBackground(&c.ds, 16, "bg"); e.CountSignal(); e.CountBackgrounds(); e.CountData(&a.ds); const CountingResult &r = e.GetCountingResult(); sx_assert(r.GetObservedCounts() == a.pass(1, d), "data are transformed, then cut"); sx_assert(r.GetSignalEfficiency() * 2 == b.pass(1, d), "signal is transformed, then cut"); sx_assert(r.GetExpectedCounts() == 16 * c.pass(1, d), "backgrounds are transformed, then cut"); }
SX_HARNESS(h_two_systematics) { // one after the other, to every event of every set
  CountingExperiment e; cut(e, 3); EventShift sh("shift"); EventScale sc("scale"); double d = sx_grid("shift", -1, 1, -3); sh.SetShift(d); sc.SetScale(2); for (EventSystematic *s : {(EventSystematic *)&sh, (EventSystematic *)&sc}) { s->SetInObservables(Vs{"z"}); s->SetOutObservables(Vs{"z"}); } bool swap = sx_choice("order", 2); if (swap) { e.AddSystematic(&sc, "a"); e.AddSystematic(&sh, "b"); } else { e.AddSystematic(&sh, "a"); e.AddSystematic(&sc, "b"); }
  auto n = [&](const Set &s) { int k = 0; for (auto &v : s.ev) { double x = swap ? v[0] * 2 + d : (v[0] + d) * 2; k += x > -1 && x < 1 && v[1] > 0.5; } return k; }; Set a("a", 2), b("b", 1), c("c", 1); e.SetSignal(&a.ds, "s"); e.AddBackground(&b.ds, 16, "bg"); e.CountSignal(); e.CountBackgrounds(); e.CountData(&c.ds); const CountingResult &r = e.GetCountingResult(); sx_assert(r.GetSignalEfficiency() * 2 == n(a), "signal is transformed, then cut"); sx_assert(r.GetExpectedCounts() == 16 * n(b), "backgrounds are transformed, then cut"); sx_assert(r.GetObservedCounts() == n(c), "data are transformed, then cut");
}
SX_HARNESS(h_result) { // the sums of any backgrounds, alike in name or rate
  CountingResult r; int n = sx_choice("n", 5), same = sx_choice("names", 2); CutLog l(Vs{"c"}); double tot = 0, var = 0; for (int i = 0; i < n; i++) { double x = sx_double(("x" + N(i)).c_str(), 0, 50), er = sx_choice(("zero" + N(i)).c_str(), 2) ? 0 : sx_double(("e" + N(i)).c_str(), 0.5, 50); r.AddBackground(x, same ? "b" : "b" + N(i % 3), er, l); tot += x; var += er * er; } sx_close(r.GetExpectedCounts(), tot, "totals add up"); double te = r.GetExpectedCountError(); sx_close_tol(te * te, var, 1e-6, "errors add in quadrature"); sx_assert((int)r.GetExpectedRates().size() == n && (int)r.GetExpectedRateErrors().size() == n, "one rate and error per background");
}
static Histogram post(int n, Vd &c, BinAxis &ax) { int k = sx_choice("axis", 3); ax = h_axis("z", n, k); AxisCollection a; a.AddAxis(ax); Histogram h(a); if (n == 1) c.push_back(sx_grid("c0", 0.5, 8, -3)); else { double e = sx_grid("e", -1, 1, -3), f = n > 2 ? sx_grid("f", -1, 1, -3) : 0; c = n == 2 ? Vd{4 + e, 4 - e} : n == 3 ? Vd{2 + e, 3 - e - f, 3 + f} : Vd{2 + e, 3 - e - f, 1.5 + f, 1.5}; std::rotate(c.begin(), c.begin() + sx_choice("rotate", std::min(n, 4)), c.end()); if (n > 4) c.insert(c.begin() + 2, 0); else if (n == 4 && sx_choice("hole", 2)) { int k = sx_choice("at", 4); c[(k + 1) % 4] += c[k]; c[k] = 0; } } h.SetBinContents(c); return h; }
SX_HARNESS(h_upper_bound) { int n = 1 + sx_choice("bins", h_thorough() ? 5 : 4); Vd c; BinAxis ax("z", 0, 1, 1); Histogram h = post(n, c, ax); static const double CL[] = {0.5, 0.875, 0.0625, 1, 0.25, 0.75}; double cl = CL[sx_choice("cl", h_thorough() ? 6 : 4)], cum = 0, tot = 0, x = BayesIntervalCalc::UpperBound(h, cl); for (double v : c) tot += v; for (int i = 0; i < n; i++) { if (cum + c[i] >= cl * tot) { double lo = ax.GetBinLowEdge(i), w = ax.GetBinHighEdge(i) - lo; sx_close(x * c[i], lo * c[i] + w * (cl * tot - cum), "the interpolated posterior below the limit holds the requested probability"); sx_assert(x > lo - 1e-9 && x < lo + w + 1e-9, "the limit lies in the bin that reaches the credibility"); return; } cum += c[i]; } sx_assert(false, "some bin reaches the credibility"); }
SX_HARNESS(h_unchanged) { Vd c; BinAxis ax("z", 0, 1, 1); Histogram h = post(3, c, ax); BayesIntervalCalc::UpperBound(h, 0.5); sx_assert(h.GetBinContents() == c, "the posterior is not changed"); double k = sx_choice("scale", 2) ? 4 : 0.5; Histogram g = h; g.Scale(k); sx_close(BayesIntervalCalc::UpperBound(g, 0.75), BayesIntervalCalc::UpperBound(h, 0.75), "the limit does not depend on the normalisation"); }
SX_HARNESS(h_refused) { AxisCollection a; a.AddAxis(BinAxis("z", 0, 2, 2)); Histogram h(a); SX_THROWS(ValueError, BayesIntervalCalc::UpperBound(h, 0.5), "an empty posterior is refused"); h.SetBinContent(0, 1); double bad = sx_double("cl", -3, 0); SX_THROWS(ValueError, BayesIntervalCalc::UpperBound(h, bad), "a credibility that is not positive is refused"); double big = sx_double("big", 1.0000001, 3); SX_THROWS(ValueError, BayesIntervalCalc::UpperBound(h, big), "a credibility above one is refused"); a.AddAxis(BinAxis("y", 0, 2, 2)); Histogram g(a); g.SetBinContent(0, 1); SX_THROWS(DimensionError, BayesIntervalCalc::UpperBound(g, 0.5), "more dimensions are refused"); }
SX_HARNESS(h_counting) { // probability below the limit given the background and the count
  int n = sx_choice("n", 4); static const double B[] = {0, 0.5, 2, 7}; double b = B[sx_choice("b", 4)], last = 0; for (double u = 0; u < 8; u += 0.5) { double p = BayesIntervalCalc::OneSidedUpperInterval(b, n, u); auto poi = [&](double m) { double t = std::exp(-m), s = 0; for (int k = 0; k <= n; k++) { s += t; t *= m / (k + 1); } return s; }; sx_close_tol(p, 1 - poi(b + u) / poi(b), 1e-6, "the interval's probability follows from the Poisson sums"); sx_assert(p > last - 1e-12 && p < 1 + 1e-12, "the probability grows with the limit"); last = p; } double cl = 0.5 + 0.4 * sx_choice("cl", 2), x = BayesIntervalCalc::UpperBound(b, n, cl, 0.01); sx_assert(std::fabs(BayesIntervalCalc::OneSidedUpperInterval(b, n, x) - cl) < 0.0101, "the limit found has the requested probability"); }
SX_HARNESS(h_many) { // twelve backgrounds alike in name, thirty events each
  CountingExperiment e; cut(e, 3); EventShift sh("shift"); double d = sx_grid("shift", -1, 1, -2); sh.SetShift(d); sh.SetInObservables(Vs{"z"}); sh.SetOutObservables(Vs{"z"}); e.AddSystematic(&sh, "shift"); std::vector<std::unique_ptr<OXSXDataSet>> b; Vd rate, frac; int n = 0; for (int i = 0; i < 13; i++) { b.emplace_back(new OXSXDataSet); b[i]->SetObservableNames(Vs{"z", "y"}); int p = 0, m = 20 + i; for (int k = 0; k < m; k++) { double z = ((k * 7 + i * 3) % 16 - 8) * 0.25, y = ((k * 5 + i) % 9 - 3) * 0.25; b[i]->AddEntry(Event(Vd{z, y})); p += z + d > -1 && z + d < 1 && y > 0.5; } rate.push_back(sx_double(("r" + N(i)).c_str(), 0.5, 1000)); frac.push_back(double(p) / m); if (i == 12) n = p; }
  for (int i = 0; i < 12; i++) e.AddBackground(b[i].get(), rate[i], i == 4 ? "b" : i == 6 ? "B_1" : "b_" + N(i)); e.SetSignal(b[12].get(), "b_1"); e.CountSignal(); e.CountBackgrounds(); e.CountData(b[12].get()); const CountingResult &r = e.GetCountingResult(); double tot = 0; sx_assert(r.GetExpectedRates().size() == 12 && r.GetExpectedRateErrors().size() == 12, "one rate and error per background, however often counted"); for (int i = 0; i < 12; i++) { sx_close(r.GetExpectedRates()[i], rate[i] * frac[i], "each background is its rate times the passing fraction"); tot += rate[i] * frac[i]; } sx_close(r.GetExpectedCounts(), tot, "totals add up"); sx_close(r.GetSignalEfficiency(), frac[12], "the efficiency is the passing fraction"); sx_assert(r.GetObservedCounts() == n, "observed counts are the passing events");
}
SX_HARNESS(h_text) { // the summary names every background with its counts, signal and data
  CountingResult r; int n = sx_choice("n", 4); static const double R[] = {12, 12.5, 3}; Vd rate; CutLog l(Vs{"one"}), sl(Vs{"two"}), dl(Vs{"three"}); l.LogPass(); l.CalculateMeta(); sl.CalculateMeta(); dl.CalculateMeta(); for (int i = 0; i < n; i++) { rate.push_back(R[sx_choice(("r" + N(i)).c_str(), 3)]); r.AddBackground(rate[i], "bkg" + N(i), 0.25 + i, l); } r.SetSignal(0.5, "sig", sl); r.SetDataLog(dl); r.SetObservedCounts(41); S t = r.AsString(), sum = t.substr(t.find("Summary")); double tot = 0; auto has = [&](const S &a, double x, double e) { std::istringstream in(sum); S line, w; int k = 0; while (std::getline(in, line)) { std::istringstream q(line); double u = -1, v = -1; S pm; if (line.compare(0, a.size(), a)) continue; std::istringstream q2(line.substr(a.size())); k += q2 >> u && u == x && (e < 0 || (q2 >> pm >> v && pm == "+-" && v == e)); } return k; };
  for (int i = 0; i < n; i++) { sx_assert(has("bkg" + N(i) + " ", rate[i], 0.25 + i) == 1, "the summary lists every background once with its counts and error"); tot += rate[i]; sx_assert(t.find("bkg" + N(i) + "\n") < t.find("Summary"), "the text holds every background's cut log"); } sx_assert(has("Total :", tot, -1) == 1 && has("Signal Efficiency", 0.5, -1) == 1 && has("Observed: ", 41, -1) == 1, "the summary gives total, efficiency and observed counts"); sx_assert((t.find("one") != S::npos) == (n > 0) && t.find("two") != S::npos && t.find("three") != S::npos && t.find("sig\n") != S::npos, "the text holds every cut log"); }
SX_HARNESS(h_tiny_bins) { // contents as small as a billionth count
  static const int E[] = {-22, -34}; double u = std::ldexp(1, E[sx_choice("size", 2)]), a = u * sx_grid("a", 1, 64, 0), b = u * sx_grid("b", 1, 64, 0); int k = sx_choice("axis", 3), big = sx_choice("big", 3); BinAxis ax = h_axis("z", 3, k); AxisCollection x; x.AddAxis(ax); Histogram h(x); Vd c; for (int i = 0; i < 3; i++) c.push_back(i == big ? 1 : (i == (big ? 0 : 1)) ? a : b); if (sx_choice("small", 2)) for (double &v : c) v *= std::ldexp(1, -20); h.SetBinContents(c);
  if (big == 2) { double tot = c[0] + c[1] + c[2], f = c[0] / 2 / tot, y = BayesIntervalCalc::UpperBound(h, f), lo = ax.GetBinLowEdge(0), w = ax.GetBinHighEdge(0) - lo; sx_close_tol(y, lo + w / 2, 1e-6, "the interpolated posterior below the limit holds the requested probability"); }
  else if (big == 1) { double tot = c[0] + c[1] + c[2], f = (c[0] + c[1] / 2) / tot, y = BayesIntervalCalc::UpperBound(h, f), lo = ax.GetBinLowEdge(1), w = ax.GetBinHighEdge(1) - lo; sx_close_tol(y, lo + w / 2, 1e-6, "the interpolated posterior below the limit holds the requested probability"); }
  else { double tot = c[0] + c[1] + c[2], f = (c[0] + c[1] / 2) / tot, y = BayesIntervalCalc::UpperBound(h, f), lo = ax.GetBinLowEdge(1), w = ax.GetBinHighEdge(1) - lo; sx_assert(y > lo + w * 0.25 && y < lo + w * 0.75, "the interpolated posterior below the limit holds the requested probability"); }
}
SX_HARNESS(h_many_cuts) { // three to five cuts on transformed events
  int n = 3 + sx_choice("cuts", 3); CountingExperiment e; std::vector<std::pair<int, double>> c{{0, -1.5}, {1, -1}, {0, -0.5}, {1, -0.25}, {0, 0}}; for (int i = 0; i < n; i++) e.AddCut(LineCut("l" + N(i), c[i].first ? "y" : "z", c[i].second, "lower")); EventShift sh("shift"); double d = sx_grid("shift", -1, 1, -3); sh.SetShift(d); sh.SetInObservables(Vs{"z"}); sh.SetOutObservables(Vs{"z"}); e.AddSystematic(&sh, "shift"); Set a("a", 1), b("b", 1), q("c", 1); auto pass = [&](const Set &s) { double zm = n == 5 ? 0 : -0.5, ym = n > 3 ? -0.25 : -1; return s.ev[0][0] + d > zm && s.ev[0][1] > ym ? 1 : 0; };
  e.SetSignal(&b.ds, "s"); e.AddBackground(&q.ds, 16, "bg"); e.CountSignal(); e.CountBackgrounds(); e.CountData(&a.ds); const CountingResult &r = e.GetCountingResult(); sx_assert(r.GetObservedCounts() == pass(a), "data are transformed, then cut"); sx_assert(r.GetSignalEfficiency() == pass(b), "signal is transformed, then cut"); sx_assert(r.GetExpectedCounts() == 16 * pass(q), "backgrounds are transformed, then cut");
}
