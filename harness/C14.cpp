// C14: distribution managers
// SRC: BinnedEDManager.cpp EDManager.cpp BinnedEDShrinker.cpp SystematicManager.cpp Systematic.cpp Renorm.cpp SparseMatrix.cpp BinnedED.cpp AnalyticED.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ObsSet.cpp Event.cpp ContainerTools.cpp ParameterManager.cpp
// OUTSIDE: renamed normalisations after copying or adding to a manager (the distributions' names return)
// BOUNDS: managers of up to 3 (one mixture: 12) distributions of 3 bins (any non-negative contents), every mixture of the three fitting modes, any normalisations, set by vector, name or dictionary; one scaling systematic; 1+1 buffer bins; one or two axes; histories of three (thorough: four) uses of one manager (distributions added, normalisations set, systematics and shrinking applied) per mixture of modes
#include "hx.h"
#include <AnalyticED.h>
#include <BinnedED.h>
#include <BinnedEDManager.h>
#include <BinnedEDShrinker.h>
#include <EDManager.h>
#include <Event.h>
#include <Exceptions.h>
#include <SparseMatrix.h>
#include <Systematic.h>
#include <SystematicManager.h>
#include <memory>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
static const char *const dn[] = {"b", "c", "a", "d"}; // not in alphabetical order
static std::string S(int i) { return std::to_string(i); }
static BinnedED ed(int k, int n = 3) { AxisCollection a; a.AddAxis(h_axis("z", n, 0)); BinnedED d(dn[k], a); for (int i = 0; i < n; i++) d.SetBinContent(i, sx_grid(("c" + S(k) + "_" + S(i)).c_str(), 0.25, 100, -10)); d.SetObservables(Vs{"z"}); return d; }
struct Fix : Systematic { // a systematic with a fixed diagonal response
  std::string n; Fix(const std::string &s, const Vd &f) : n(s) { SparseMatrix m(f.size(), f.size()); for (size_t i = 0; i < f.size(); i++) m.SetComponent(i, i, f[i]); SetResponse(m); }
  void Construct() {} void SetParameter(const std::string &, double) {} double GetParameter(const std::string &) const { return 0; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { return ParameterDict(); } size_t GetParameterCount() const { return 0; }
  std::set<std::string> GetParameterNames() const { return std::set<std::string>(); } void RenameParameter(const std::string &, const std::string &) {} std::string GetName() const { return n; } void SetName(const std::string &s) { n = s; }
};
static NormFittingStatus mode(int k) { static const NormFittingStatus M[] = {FALSE, DIRECT, INDIRECT}; return M[sx_choice(("mode" + S(k)).c_str(), 3)]; }
SX_HARNESS(h_binned_modes) { // any mixture of modes, any way of setting
  int n = 1 + sx_choice("ndists", 3); std::vector<BinnedED> p; std::vector<NormFittingStatus> m; Vd w; BinnedEDManager M;
  for (int i = 0; i < n; i++) { p.push_back(ed(i)); m.push_back(mode(i)); w.push_back(sx_double(("n" + S(i)).c_str(), -100, 100)); }
  int how = sx_choice("how", 3); if (how != 1) for (int i = 0; i < n; i++) M.AddPdf(p[i], m[i]); else M.AddPdfs(p, &m);
  ParameterDict d; for (int i = 0; i < n; i++) if (m[i] != FALSE) d[dn[i]] = w[i];
  if (how == 0) M.SetNormalisations(w); else if (how == 1) M.SetParameters(d); else for (int i = n; i-- > 0;) if (m[i] != FALSE) M.SetParameter(dn[i], w[i]);
  double v = sx_double("v", -5, 8); int vb = v < 1 ? 0 : v < 2 ? 1 : 2; Event e(Vd{v}); Vs on{"z"}; e.SetObservableNames(&on);
  for (int again = 0; again < 2; again++) {
    double wantE = 0; for (int bin = 0; bin < 3; bin++) { double want = 0; for (int i = 0; i < n; i++) want += (m[i] == FALSE ? 1 : w[i]) * p[i].GetBinContent(bin); sx_close(M.BinProbability(bin), want, "a bin's probability is the normalisation-weighted sum of its contents"); }
    for (int i = 0; i < n; i++) { wantE += (m[i] == FALSE ? 1 : w[i]) * p[i].GetBinContent(vb) / p[i].Integral(); }
    sx_close(M.Probability(e), wantE, "an event's probability is the normalisation-weighted sum of the distributions'");
    sx_assert(M.GetParameters() == d && M.GetParameterCount() == d.size(), "normalisation parameters read back by name"); for (auto &q : d) sx_assert(M.GetParameter(q.first) == q.second, "normalisation parameters read back by name");
    for (int i = 0; i < n; i++) if (m[i] == DIRECT || (how == 0 && !again)) { if (m[i] != FALSE) sx_assert(M.GetNormalisations()[i] == w[i], "normalisations are those set"); }
    // change exactly one of them
    if (again) break; int k = sx_choice("k", n); if (m[k] != FALSE) { w[k] = d[dn[k]] = sx_double("newnorm", -100, 100); M.SetParameter(dn[k], w[k]); }
  }
  sx_assert(M.GetNPdfs() == (unsigned)n && M.GetNDims() == 1, "the manager knows how many distributions it holds"); for (int i = 0; i < n; i++) sx_assert(M.GetOriginalPdf(i).GetName() == dn[i] && M.GetOriginalPdf(i).GetBinContents() == p[i].GetBinContents(), "the original distributions are kept");
}
SX_HARNESS(h_binned_systs) { // systematics: integral change goes to the normalisation according to the mode
  int n = 1 + sx_choice("ndists", 2); std::vector<BinnedED> p; std::vector<NormFittingStatus> m; Vd w, f; BinnedEDManager M; SystematicManager sm; for (int b = 0; b < 3; b++) f.push_back(sx_double(("f" + S(b)).c_str(), 0.5, 2));
  Fix s("s", f); sm.Add(&s); sm.Construct(); ParameterDict d;
  for (int i = 0; i < n; i++) { p.push_back(ed(i)); m.push_back(mode(i)); w.push_back(sx_double(("n" + S(i)).c_str(), 1, 100)); sm.AddDist(p[i], Vs{""}); if (m[i] != FALSE) d[dn[i]] = w[i]; }
  M.AddPdfs(p, &m); int bin = sx_choice("bin", 3);
  for (int k = 0; k < 2; k++) { M.SetParameters(d); M.ReassertNorms(); M.ApplySystematics(sm); double want = 0; for (int i = 0; i < n; i++) want += (m[i] == FALSE ? 1 : w[i]) * p[i].GetBinContent(bin) * f[bin]; sx_close(M.BinProbability(bin), want, "systematics distort every distribution before it is weighted"); }
  Vd nn = M.GetNormalisations(); bool all = true; for (auto x : m) all &= x == DIRECT;
  if (!all) for (int i = 0; i < n; i++) { double in = 0, I = 0; for (int b = 0; b < 3; b++) { in += p[i].GetBinContent(b) * f[b]; I += p[i].GetBinContent(b); } sx_close(nn[i], m[i] == FALSE ? in : m[i] == DIRECT ? w[i] : w[i] * in, "the reported normalisation follows the fitting mode"); }
}
SX_HARNESS(h_binned_shrink) {
  int n = 1 + sx_choice("ndists", 2); std::vector<BinnedED> p; std::vector<NormFittingStatus> m; Vd w; BinnedEDManager M; ParameterDict d;
  for (int i = 0; i < n; i++) { p.push_back(ed(i, 4)); m.push_back(mode(i)); w.push_back(sx_double(("n" + S(i)).c_str(), 1, 100)); if (m[i] != FALSE) d[dn[i]] = w[i]; }
  M.AddPdfs(p, &m); M.SetParameters(d); BinnedEDShrinker s; s.SetBuffer("z", 1, 1); s.SetBinMap(p[0]); M.ReassertNorms(); M.ApplyShrink(s); M.ApplyShrink(s);
  int bin = sx_choice("bin", 2); double want = 0; Vd in; for (int i = 0; i < n; i++) { in.push_back(p[i].GetBinContent(1) + p[i].GetBinContent(2)); want += (m[i] == FALSE ? 1 : m[i] == DIRECT ? w[i] / in[i] : w[i]) * p[i].GetBinContent(bin + 1); }
  sx_close(M.BinProbability(bin), want, "a shrunk bin's probability is the weighted sum of the kept contents"); SX_THROWS_ANY(M.BinProbability(2), "bins cut away are refused");
  for (int i = 0; i < n; i++) if (m[i] == FALSE) sx_close(M.GetNormalisations()[i], in[i], "a fixed distribution's normalisation is its kept content"); else if (m[i] == INDIRECT) sx_close(M.GetNormalisations()[i] * p[i].Integral(), w[i] * in[i], "an indirect normalisation shrinks with its distribution");
}
SX_HARNESS(h_binned_dims) { // distributions are projected onto the observables asked for
  AxisCollection a; a.AddAxis(h_axis("z", 2, 0)); a.AddAxis(h_axis("y", 3, 1)); BinnedED p("p", a), q("q", a); for (int i = 0; i < 6; i++) { p.SetBinContent(i, sx_double(("c" + S(i)).c_str(), 0, 10)); q.SetBinContent(i, sx_double(("d" + S(i)).c_str(), 0, 10)); } p.SetObservables(Vs{"z", "y"}); q.SetObservables(Vs{"z", "y"});
  BinnedEDManager M; M.AddPdf(p); M.AddPdf(q, DIRECT); ParameterDict d; d["p"] = sx_double("n0", -5, 5); d["q"] = sx_double("n1", -5, 5); M.SetParameters(d); sx_assert(M.GetNDims() == 2, "the manager knows its dimensions");
  int ax = sx_choice("axis", 3); M.AssertDimensions(ax == 2 ? Vs{"z", "y"} : Vs{ax ? "y" : "z"}); for (int b = 0; b < (ax == 2 ? 6 : ax ? 3 : 2); b++) { double want = 0; for (int i = 0; i < 6; i++) if ((ax == 2 ? i : ax ? i % 3 : i / 3) == b) want += d["p"] * p.GetBinContent(i) + d["q"] * q.GetBinContent(i); sx_close(M.BinProbability(b), want, "distributions are projected onto the observables asked for"); }
}
SX_HARNESS(h_binned_names) { // renaming and refusals
  std::vector<BinnedED> p{ed(0), ed(1), ed(2)}; std::vector<NormFittingStatus> m{mode(0), INDIRECT, mode(2)}; BinnedEDManager M; M.AddPdfs(p, &m); Vd w; ParameterDict d; for (int i = 0; i < 3; i++) { w.push_back(sx_double(("n" + S(i)).c_str(), -10, 10)); if (m[i] != FALSE) d[dn[i]] = w[i]; } M.SetParameters(d);
  auto total = [&] { double t = 0; for (int i = 0; i < 3; i++) t += (m[i] == FALSE ? 1 : w[i]) * p[i].GetBinContent(1); return t; };
  switch (sx_choice("case", 6)) {
  case 0: M.RenameParameter("c", "x"); d["x"] = d["c"]; d.erase("c"); sx_assert(M.GetParameters() == d, "renaming moves a normalisation to its new name"); w[1] = sx_double("z", -10, 10); M.SetParameter("x", w[1]); sx_close(M.BinProbability(1), total(), "the new name addresses the same distribution"); SX_THROWS(ParameterError, M.SetParameter("c", 1), "the old name is gone"); break;
  case 1: SX_THROWS(ParameterError, M.RenameParameter("nope", "x"), "an unknown normalisation cannot be renamed"); if (m[0] != FALSE) SX_THROWS(ParameterError, M.RenameParameter("c", "b"), "a name in use is refused"); break;
  case 2: SX_THROWS(ParameterError, M.SetParameter("nope", 1), "an unknown normalisation is refused"); SX_THROWS(ParameterError, M.GetParameter("nope"), "an unknown normalisation is refused"); break;
  case 3: { ParameterDict q = d; q.erase("c"); SX_THROWS(ParameterError, M.SetParameters(q), "a missing normalisation is refused"); q = d; q["other"] = 3; M.SetParameters(q); break; }
  case 4: SX_THROWS(LogicError, M.SetNormalisations(Vd{1, 2}), "a wrong number of normalisations is refused"); SX_THROWS(LogicError, M.SetNormalisations(Vd{1, 2, 3, 4}), "a wrong number of normalisations is refused"); break;
  default: { BinnedEDManager E; std::vector<NormFittingStatus> s{DIRECT}; SX_THROWS(DimensionError, E.AddPdfs(p, &s), "a wrong number of fitting modes is refused"); sx_assert(M.GetName() == "norms", "default name"); M.SetName("q"); sx_assert(M.GetName() == "q", "name is kept"); }
  }
  if (m[0] == FALSE) SX_THROWS(ParameterError, M.GetParameter("b"), "a fixed normalisation is no parameter");
  sx_close(M.BinProbability(1), total(), "refused requests change nothing"); sx_assert(M.GetParameters() == ParameterDict(M.GetParameters()) && M.GetParameterCount() == d.size() && M.GetParameterNames().size() == d.size(), "names and counts agree");
}
SX_HARNESS(h_general) { // the manager of general distributions
  int n = 1 + sx_choice("ndists", 3); EDManager M; Vd w, v{sx_double("vx", -5, 8), sx_double("vy", -5, 8)}; Event e(v); Vs on{"z", "y"}; e.SetObservableNames(&on); Vd pr; ParameterDict d; std::vector<EventDistribution *> l; std::vector<std::unique_ptr<BinnedED>> own;
  for (int i = 0; i < n; i++) { own.emplace_back(new BinnedED(ed(i))); if (i % 2) own[i]->SetObservables(Vs{"y"}); double x = v[i % 2]; int b = x < 1 ? 0 : x < 2 ? 1 : 2; pr.push_back(own[i]->GetBinContent(b) / own[i]->Integral()); w.push_back(d[dn[i]] = sx_double(("n" + S(i)).c_str(), -100, 100)); l.push_back(own[i].get()); }
  if (sx_choice("each", 2)) for (auto *x : l) M.AddDist(x); else M.AddDists(l); for (auto &o : own) { o->SetBinContent(0, 99); } own.clear();
  int how = sx_choice("how", 3); if (how == 0) M.SetNormalisations(w); else if (how == 1) M.SetParameters(d); else for (auto &q : d) M.SetParameter(q.first, q.second);
  for (int again = 0; again < 2; again++) {
    double t = 0; for (int i = 0; i < n; i++) t += w[i] * pr[i]; sx_close(M.Probability(e), t, "an event's probability is the normalisation-weighted sum of the distributions'");
    sx_assert(M.GetNormalisations() == w && M.GetParameters() == d && M.GetParameterCount() == d.size() && M.GetParameterNames().size() == d.size() && M.GetNDists() == (size_t)n && M.GetNDims() == 1, "normalisations read back under their distribution's name");
    if (again) break; int k = sx_choice("k", n); w[k] = d[dn[k]] = sx_double("newnorm", -100, 100); M.SetParameter(dn[k], w[k]);
  }
  M.RenameParameter("b", "x"); d["x"] = d["b"]; d.erase("b"); sx_assert(M.GetParameters() == d, "renaming moves a normalisation to its new name"); SX_THROWS(ParameterError, M.GetParameter("b"), "the old name is gone");
  if (n > 1) SX_THROWS(ParameterError, M.RenameParameter("x", "c"), "a name in use is refused"); SX_THROWS(DimensionError, M.SetNormalisations(Vd(n + 1, 1)), "a wrong number of normalisations is refused"); SX_THROWS(DimensionError, M.SetNormalisations(Vd(n - 1, 1)), "a wrong number of normalisations is refused");
  { AxisCollection a; a.AddAxis(h_axis("z", 2, 0)); a.AddAxis(h_axis("y", 3, 1)); BinnedED d2("two", a); SX_THROWS(DimensionError, M.AddDist(&d2), "distributions of another dimension are refused"); }
  sx_assert(M.GetNormalisations() == w && M.GetParameters() == d && M.GetNDists() == (size_t)n, "refused requests change nothing");
}
SX_HARNESS(h_history) { // distributions, normalisations and systematics in any order
  std::vector<BinnedED> p{ed(0), ed(1), ed(2)}; std::vector<NormFittingStatus> m{mode(0), mode(1), INDIRECT}; BinnedEDManager M; SystematicManager none, sm; Vd f{1.5, 0.75, 1.25}; Fix s("s", f); sm.Add(&s); sm.Construct(); for (auto &q : p) { sm.AddDist(q, Vs{""}); none.AddDist(q, Vs{""}); } Vd w; std::vector<bool> dist; 
  auto grow = [&] { size_t i = w.size(); M.AddPdf(p[i], m[i]); w.push_back(0); dist.push_back(false); }; grow();
  for (int k = 0; k < (h_thorough() ? 4 : 3); k++) {
    ParameterDict d; for (size_t i = 0; i < w.size(); i++) if (m[i] != FALSE) d[dn[i]] = w[i]; double v = 2 + k;
    switch (sx_choice(("op" + S(k)).c_str(), 6)) {
    case 0: sx_assume(w.size() < 3); grow(); break;
    case 1: { size_t i = w.size() - 1; if (m[i] != FALSE) { M.SetParameter(dn[i], v); w[i] = v; } else SX_THROWS(ParameterError, M.SetParameter(dn[i], v), "a fixed normalisation is no parameter"); break; }
    case 2: for (auto &q : d) { q.second = v; v += 1; } M.SetParameters(d); for (size_t i = 0; i < w.size(); i++) if (m[i] != FALSE) w[i] = d[dn[i]]; break;
    case 3: { Vd x; for (size_t i = 0; i < w.size(); i++) { x.push_back(v + 3 * i); if (m[i] != FALSE) w[i] = x[i]; } M.SetNormalisations(x); break; }
    case 4: M.ReassertNorms(); M.ApplySystematics(sm); dist.assign(w.size(), true); break;
    default: M.ReassertNorms(); M.ApplySystematics(none); dist.assign(w.size(), false); break;
    }
    ParameterDict now; for (size_t i = 0; i < w.size(); i++) if (m[i] != FALSE) now[dn[i]] = w[i]; sx_assert(M.GetParameters() == now && M.GetParameterCount() == now.size(), "normalisation parameters read back by name");
    for (int b = 0; b < 3; b++) { double want = 0; for (size_t i = 0; i < w.size(); i++) want += (m[i] == FALSE ? 1 : w[i]) * p[i].GetBinContent(b) * (dist[i] ? f[b] : 1); sx_close(M.BinProbability(b), want, "a bin's probability is the normalisation-weighted sum of its contents"); }
  }
}
SX_HARNESS(h_copies) { // a copy keeps what was set and goes on independently
  std::vector<BinnedED> p{ed(0), ed(1)}; std::vector<NormFittingStatus> m{mode(0), mode(1)}; Vd w; ParameterDict d; for (int i = 0; i < 2; i++) { w.push_back(sx_double(("n" + S(i)).c_str(), -100, 100)); if (m[i] != FALSE) d[dn[i]] = w[i]; } std::unique_ptr<BinnedEDManager> o(new BinnedEDManager); o->AddPdfs(p, &m); o->SetName("mine"); if (sx_choice("vector", 2)) o->SetNormalisations(w); else o->SetParameters(d);
  std::unique_ptr<BinnedEDManager> c; switch (sx_choice("how", 3)) { case 0: c.reset(new BinnedEDManager(*o)); break; case 1: c.reset(new BinnedEDManager); c->AddPdf(ed(2), DIRECT); c->AddPdf(ed(3), FALSE); c->SetParameter(dn[2], 5); *c = *o; break; default: c.reset(new BinnedEDManager(*o)); { BinnedEDManager &same = *c; *c = same; } }
  bool gone = sx_choice("gone", 2); if (gone) o.reset(); else { ParameterDict q = d; for (auto &x : q) x.second += 1; o->SetParameters(q); sx_assert(o->GetParameters() == q, "the original keeps its own parameters"); }
  auto total = [&](int b) { double t = 0; for (int i = 0; i < 2; i++) t += (m[i] == FALSE ? 1 : w[i]) * p[i].GetBinContent(b); return t; }; auto ok = [&] { sx_assert(c->GetParameters() == d && c->GetParameterCount() == d.size() && c->GetParameterNames().size() == d.size(), "a copy keeps the normalisation parameters"); int b = sx_choice("bin", 3); sx_close(c->BinProbability(b), total(b), "a copy gives the same probabilities"); }; ok();
  sx_assert(c->GetNPdfs() == 2 && c->GetNDims() == 1 && c->GetName() == "mine", "a copy holds the same distributions"); for (int i = 0; i < 2; i++) sx_assert(c->GetOriginalPdf(i).GetBinContents() == p[i].GetBinContents(), "a copy holds the same distributions"); for (auto &q : d) q.second = q.second * 2 + 1; for (int i = 0; i < 2; i++) if (m[i] != FALSE) w[i] = d[dn[i]]; if (sx_choice("one", 2)) for (auto &q : d) c->SetParameter(q.first, q.second); else c->SetParameters(d); ok();
}
SX_HARNESS(h_general_copies) { // likewise for general distributions
  std::vector<BinnedED> p{ed(0), ed(1)}; std::unique_ptr<EDManager> o(new EDManager), c; Vd w; ParameterDict d; for (int i = 0; i < 2; i++) { o->AddDist(&p[i]); w.push_back(d[dn[i]] = sx_double(("n" + S(i)).c_str(), -100, 100)); } o->SetParameters(d); o->SetName("mine");
  switch (sx_choice("how", 3)) { case 0: c.reset(new EDManager(*o)); break; case 1: { c.reset(new EDManager); BinnedED q = ed(2); c->AddDist(&q); *c = *o; break; } default: c.reset(new EDManager(*o)); { EDManager &same = *c; *c = same; } }
  if (sx_choice("gone", 2)) o.reset(); else { o->SetParameter("b", 7); sx_assert(o->GetParameter("b") == 7, "the original keeps its own parameters"); }
  Event e(Vd{sx_choice("bin", 3) + 0.5}); Vs on{"z"}; e.SetObservableNames(&on); auto ok = [&] { double t = 0; for (int i = 0; i < 2; i++) t += w[i] * p[i].Probability(e); sx_assert(c->GetParameters() == d && c->GetNormalisations() == w && c->GetParameterNames().size() == 2 && c->GetName() == "mine", "a copy keeps the normalisation parameters"); sx_assert(c->GetNDists() == 2 && c->GetNDims() == 1, "a copy holds the same distributions"); sx_close(c->Probability(e), t, "a copy gives the same probabilities"); }; ok();
  w[1] = d[dn[1]] = sx_double("new", -100, 100); c->SetParameter(dn[1], w[1]); ok(); c->SetNormalisations(Vd{1, 2}); w = Vd{1, 2}; d[dn[0]] = 1; d[dn[1]] = 2; ok();
}
SX_HARNESS(h_many) { // twelve distributions, named so that no two orders agree
  int n = 12; std::vector<BinnedED> p; std::vector<NormFittingStatus> m; Vd w; ParameterDict d; std::vector<EventDistribution *> q; bool binned = sx_choice("binned", 2); AxisCollection a; a.AddAxis(h_axis("z", 3, 0));
  for (int i = 0; i < n; i++) { p.push_back(BinnedED(i == 11 ? "n" : i == 3 ? "N_1" : "n_" + S(i), a)); for (int b = 0; b < 3; b++) p[i].SetBinContent(b, sx_double(("c" + S(i) + "_" + S(b)).c_str(), 0.25, 10)); p[i].SetObservables(Vs{"z"}); m.push_back(i % 3 == 0 && binned ? FALSE : i % 2 || !binned ? DIRECT : INDIRECT); w.push_back(sx_double(("w" + S(i)).c_str(), -10, 10)); if (m[i] != FALSE) d[p[i].GetName()] = w[i]; } for (auto &x : p) q.push_back(&x);
  Event e(Vd{1.5}); Vs on{"z"}; e.SetObservableNames(&on); if (binned) { BinnedEDManager M; M.AddPdfs(p, &m); M.SetParameters(d); sx_assert(M.GetParameters() == d && M.GetNPdfs() == 12, "normalisation parameters read back by name"); for (int b = 0; b < 3; b++) { double t = 0; for (int i = 0; i < n; i++) t += (m[i] == FALSE ? 1 : w[i]) * p[i].GetBinContent(b); sx_close(M.BinProbability(b), t, "a bin's probability is the normalisation-weighted sum of its contents"); } int k = sx_choice("k", n); if (m[k] != FALSE) { w[k] = d[p[k].GetName()] = sx_double("new", -10, 10); M.SetParameter(p[k].GetName(), w[k]); sx_assert(M.GetParameters() == d, "normalisation parameters read back by name"); } double t = 0; for (int i = 0; i < n; i++) t += (m[i] == FALSE ? 1 : w[i]) * p[i].GetBinContent(1); sx_close(M.BinProbability(1), t, "a bin's probability is the normalisation-weighted sum of its contents"); for (int i = 0; i < n; i++) sx_assert(M.GetOriginalPdf(i).GetName() == p[i].GetName(), "the original distributions are kept"); return; }
  EDManager M; M.AddDists(q); if (sx_choice("vector", 2)) M.SetNormalisations(w); else M.SetParameters(d); double t = 0; for (int i = 0; i < n; i++) t += w[i] * p[i].Probability(e); sx_close(M.Probability(e), t, "an event's probability is the normalisation-weighted sum of the distributions'"); sx_assert(M.GetParameters() == d && M.GetNDists() == 12, "normalisation parameters read back by name");
}
SX_HARNESS(h_binned_fixed) { // a fixed distribution's normalisation is its own content, whatever was set before
  int n = 1 + sx_choice("ndists", 2); std::vector<BinnedED> p; Vd w; std::vector<NormFittingStatus> m; BinnedEDManager M; for (int i = 0; i < n; i++) { p.push_back(ed(i)); m.push_back(mode(i)); M.AddPdf(p[i], m[i]); w.push_back(sx_grid(("n" + S(i)).c_str(), 1, 100, -6)); } SystematicManager none;
  for (int k = 0; k < 3; k++) { M.SetNormalisations(w); if (k) { M.ReassertNorms(); M.ApplySystematics(none); for (int i = 0; i < n; i++) { if (m[i] == FALSE) sx_close(M.GetNormalisations()[i], p[i].Integral(), "a fixed distribution's normalisation is its content"); else if (m[i] == DIRECT) sx_assert(M.GetNormalisations()[i] == w[i], "normalisations are those set"); } } else sx_assert(M.GetNormalisations() == w, "normalisations are those set"); for (auto &x : w) x += 1; }
}
SX_HARNESS(h_later) { // distributions added later leave the normalisations set before alone, their own start at nothing
  bool binned = sx_choice("binned", 2), many = sx_choice("many", 2); std::vector<BinnedED> p{ed(0), ed(1), ed(2)}; Vd w; ParameterDict d; for (int i = 0; i < 3; i++) { w.push_back(i < 2 ? sx_double(("n" + S(i)).c_str(), 0.5, 100) : 0); d[dn[i]] = w[i]; } Vd w2(w.begin(), w.begin() + 2); ParameterDict d2 = d; d2.erase(dn[2]); bool vec = sx_choice("vector", 2); std::vector<NormFittingStatus> one{DIRECT};
  if (binned) { BinnedEDManager M; M.AddPdf(p[0], DIRECT); M.AddPdf(p[1], DIRECT); if (vec) M.SetNormalisations(w2); else M.SetParameters(d2); if (many) M.AddPdfs(std::vector<BinnedED>{p[2]}, &one); else M.AddPdf(p[2], DIRECT); sx_assert(M.GetNormalisations() == w && M.GetParameters() == d, "normalisations are those set"); for (int b = 0; b < 3; b++) sx_close(M.BinProbability(b), w[0] * p[0].GetBinContent(b) + w[1] * p[1].GetBinContent(b), "a bin's probability is the normalisation-weighted sum of its contents"); }
  else { EDManager M; M.AddDist(&p[0]); M.AddDist(&p[1]); if (vec) M.SetNormalisations(w2); else M.SetParameters(d2); if (many) M.AddDists(std::vector<EventDistribution *>{&p[2]}); else M.AddDist(&p[2]); sx_assert(M.GetNormalisations() == w && M.GetParameters() == d, "normalisations are those set"); Event e(Vd{1.5}); Vs on{"z"}; e.SetObservableNames(&on); sx_close(M.Probability(e), w[0] * p[0].Probability(e) + w[1] * p[1].Probability(e), "an event's probability is the normalisation-weighted sum of the distributions'"); }
}
SX_HARNESS(h_assign_alike) { // a manager takes over another's distributions and normalisations though both look alike
  Vd w, u; for (int i = 0; i < 2; i++) { w.push_back(sx_double(("w" + S(i)).c_str(), 0.5, 100)); u.push_back(sx_double(("u" + S(i)).c_str(), 0.5, 100)); } std::vector<BinnedED> p{ed(0), ed(1)}, q{ed(2), ed(3)}; for (int i = 0; i < 2; i++) q[i].SetName(dn[i]); std::vector<NormFittingStatus> m{DIRECT, DIRECT}; Event e(Vd{1.5}); Vs on{"z"}; e.SetObservableNames(&on); bool set = sx_choice("set", 2);
  if (sx_choice("binned", 2)) { BinnedEDManager a, b; a.AddPdfs(p, &m); b.AddPdfs(q, &m); a.SetNormalisations(w); if (set) b.SetNormalisations(u); b = a; sx_assert(b.GetNormalisations() == w && b.GetParameters() == a.GetParameters(), "a copy keeps the normalisation parameters"); for (int i = 0; i < 3; i++) sx_close(b.BinProbability(i), w[0] * p[0].GetBinContent(i) + w[1] * p[1].GetBinContent(i), "a copy gives the same probabilities"); b.SetNormalisations(u); sx_assert(a.GetNormalisations() == w, "the original keeps its own parameters"); }
  else { EDManager a, b; for (int i = 0; i < 2; i++) { a.AddDist(&p[i]); b.AddDist(&q[i]); } a.SetNormalisations(w); if (set) b.SetNormalisations(u); b = a; sx_assert(b.GetNormalisations() == w && b.GetParameters() == a.GetParameters(), "a copy keeps the normalisation parameters"); sx_close(b.Probability(e), w[0] * p[0].Probability(e) + w[1] * p[1].Probability(e), "a copy gives the same probabilities"); b.SetNormalisations(u); sx_assert(a.GetNormalisations() == w, "the original keeps its own parameters"); }
}
SX_HARNESS(h_empty_shrunk) { // a distribution without content, or with content only where it is cut away
  BinnedED p = ed(0, 4), q = ed(1, 4); bool all = sx_choice("empty", 2), first = sx_choice("first", 2); NormFittingStatus m = sx_choice("mode", 2) ? INDIRECT : FALSE; q.SetBinContent(1, 0); q.SetBinContent(2, 0); if (all) { q.SetBinContent(0, 0); q.SetBinContent(3, 0); } BinnedEDManager M; if (first) M.AddPdf(q, m); M.AddPdf(p, INDIRECT); if (!first) M.AddPdf(q, m); double w = sx_double("w", 1, 100), u = sx_double("u", 1, 100); M.SetParameter("b", w); if (m != FALSE) M.SetParameter("c", u); BinnedEDShrinker s; s.SetBuffer("z", 1, 1); s.SetBinMap(p); M.ReassertNorms(); M.ApplyShrink(s); for (int b = 0; b < 2; b++) sx_close(M.BinProbability(b), w * p.GetBinContent(b + 1), "a shrunk bin's probability is the weighted sum of the kept contents"); sx_assert(M.GetNormalisations()[first ? 0 : 1] == 0, "nothing is left of a distribution that was cut away"); sx_close(M.GetNormalisations()[first ? 1 : 0] * p.Integral(), w * (p.GetBinContent(1) + p.GetBinContent(2)), "an indirect normalisation shrinks with its distribution");
}
