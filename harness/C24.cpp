// C24: fit parameters by name
// SRC: ParameterManager.cpp ComponentManager.cpp ContainerTools.cpp SquareRootScale.cpp Gaussian.cpp GaussianFitter.cpp Rand.cpp JumpPDF.cpp Shift.cpp Scale.cpp ScaleFunction.cpp Shape.cpp Renorm.cpp Convolution.cpp Systematic.cpp EventScale.cpp EventShift.cpp EventReconvolution.cpp EventSystematic.cpp EDManager.cpp BinnedEDManager.cpp AnalyticED.cpp EventDistribution.cpp SpectralFitDist.cpp BinnedED.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ObsSet.cpp Event.cpp SparseMatrix.cpp DenseMatrix.cpp SystematicManager.cpp BinnedEDShrinker.cpp
// BOUNDS: every kind of fittable object, one to four parameters (six for spectra); any values; set all, set one, rename any parameter, read back; component managers of up to three components with shared names; single runs of many items, spectra of 130 bins
// OUTSIDE: writing an unknown parameter of a Gaussian (ignored), values out of a parameter's physical range
// ASSUME: ROOT's and GSL's functions behave as documented (stand-ins in /verif/stubs)
#include "hx.h"
#include <AnalyticED.h>
#include <BinnedEDManager.h>
#include <ComponentManager.h>
#include <Convolution.h>
#include <EDManager.h>
#include <Event.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <Exceptions.h>
#include <functional>
#include <Gaussian.h>
#include <JumpPDF.h>
#include <list>
#include <memory>
#include <ParameterManager.h>
#include <Renorm.h>
#include <Scale.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <Shift.h>
#include <SpectralFitDist.h>
#include <SquareRootScale.h>
typedef std::string S; typedef std::vector<S> Vs; typedef std::vector<double> Vd;
static double val(const S &n, double lo = -20) { return sx_double(n.c_str(), lo, 20); }
template <class T> static bool has(const T &o, const S &n) { auto s = o.GetParameterNames(); return s.count(n); }
template <class T> static void agree(const T &o, const Vs &n, const Vd &v) {
  sx_assert(o.GetParameterCount() == n.size(), "the parameter count"); sx_assert(o.GetParameterNames() == std::set<S>(n.begin(), n.end()), "the parameter names");
  ParameterDict d = o.GetParameters(); sx_assert(d.size() == n.size(), "the dictionary holds each parameter once"); for (size_t i = 0; i < n.size(); i++) { sx_assert(d.count(n[i]), "the dictionary has every name"); sx_assert(d[n[i]] == v[i], "the dictionary holds the values set"); sx_assert(o.GetParameter(n[i]) == v[i], "each value reads back under its own name"); }
}
// the name is a label: it reads back and takes no part in the parameters
template <class T> static auto label(T &o, int) -> decltype(o.SetName("n"), void()) { S was = o.GetName(), to = "other " + was; ParameterDict d = o.GetParameters(); o.SetName(to); sx_assert(o.GetName() == to && o.GetParameters() == d, "the name reads back as set"); o.SetName(was); sx_assert(o.GetName() == was, "the name reads back as set"); }
template <class T> static void label(T &, long) {}
// the contract of every fittable object; act checks the quantity each name denotes
template <class T> static void contract(T &o, Vs n, std::function<void(const Vd &)> act, bool strict = true) {
  Vd v; ParameterDict d; double lo = strict ? -20 : 0.5; S fresh = sx_choice("newname", 2) ? "renamed" : "Aa"; for (auto &s : n) { v.push_back(val("v_" + s, lo)); d[s] = v.back(); } d["foreign"] = 99; o.SetParameters(d); agree(o, n, v); act(v); label(o, 0); agree(o, n, v);
  size_t k = sx_choice("which", n.size()); v[k] = val("new", lo); o.SetParameter(n[k], v[k]); agree(o, n, v); act(v);
  SX_THROWS_ANY(o.GetParameter("nosuch"), "reading an unknown name is refused"); SX_THROWS_ANY(o.RenameParameter("nosuch", "other"), "renaming an unknown name is refused");
  if (strict) { SX_THROWS_ANY(o.SetParameter("nosuch", 1), "setting an unknown name is refused"); if (n.size() > 1) SX_THROWS_ANY(o.RenameParameter(n[k], n[(k + 1) % n.size()]), "a name in use is refused"); } agree(o, n, v);
  S old = n[k]; o.RenameParameter(old, fresh); n[k] = fresh; agree(o, n, v); act(v); SX_THROWS_ANY(o.GetParameter(old), "the old name is gone"); if (strict) SX_THROWS_ANY(o.SetParameter(old, 1), "the old name is gone");
  v[k] = val("last", lo); o.SetParameter(fresh, v[k]); agree(o, n, v); act(v); d.clear(); for (size_t i = 0; i < n.size(); i++) { v[i] = v[i] + 1; d[n[i]] = v[i]; } o.SetParameters(d); agree(o, n, v); act(v);
  if (strict) { d.erase(n[k]); d[old] = 3; SX_THROWS_ANY(o.SetParameters(d), "a missing name is refused"); sx_assert(o.GetParameter(fresh) == v[k], "a refused dictionary does not change the missing parameter"); }
}
static void nothing(const Vd &) {}
SX_HARNESS(h_manager) {
  double a = 1, b = 2; Vd vec{3, 4}; std::list<double> lst{5, 6}; ParameterManager m; sx_assert(m.GetParameterCount() == 0, "a new manager is empty");
  switch (sx_choice("kind", 4)) {
  case 0: m.AddDouble(a, "a"); m.AddDouble(b, "b"); contract(m, Vs{"a", "b"}, [&](const Vd &v) { sx_assert(a == v[0] && b == v[1], "each name acts on its own quantity"); }); break;
  case 1: m.AddContainer(vec, "p"); m.AddDouble(a, "x"); contract(m, Vs{"p_0", "p_1", "x"}, [&](const Vd &v) { sx_assert(vec[0] == v[0] && vec[1] == v[1] && a == v[2], "each name acts on its own quantity"); }); break;
  case 2: m.AddContainer(lst, Vs{"second", "first"}); contract(m, Vs{"second", "first"}, [&](const Vd &v) { sx_assert(lst.front() == v[0] && lst.back() == v[1], "each name acts on its own quantity"); }); break;
  default: m.AddDouble(a, "z"); m.AddDouble(b, "z"); m.SetParameter("z", 7); sx_assert(b == 7 && a == 1 && m.GetParameterCount() == 1, "a name given again denotes the new quantity"); m.Clear(); sx_assert(m.GetParameterCount() == 0, "a cleared manager is empty"); SX_THROWS(DimensionError, m.AddContainer(vec, Vs{"one"}), "too few names are refused"); m.AddContainer(vec, "q"); vec.pop_back(); SX_THROWS_ANY(m.GetParameter("q_1"), "a vanished quantity is refused");
  }
}
SX_HARNESS(h_manager_copy) { double a = 1; ParameterManager m; m.AddDouble(a, "a"); ParameterManager c(m); sx_assert(c.GetParameterCount() == 0 && m.GetParameterCount() == 1, "a copy does not act on the original's quantities"); c = m; m.SetParameter("a", 3); sx_assert(a == 3, "the original still acts"); }
SX_HARNESS(h_sqrt) { SquareRootScale f("f"); double x = sx_double("z", -9, 9); sx_assert(f.GetParameter("grad") == 1, "the gradient starts at one"); contract(f, Vs{"grad"}, [&](const Vd &v) { sx_assert(f.GetGradient() == v[0], "each name acts on its own quantity"); sx_close(f(Vd{x}) * f(Vd{x}), v[0] * v[0] * std::fabs(x), "gradient times square root"); }); Function *c = f.Clone(); sx_assert(c->operator()(Vd{4}) == f(Vd{4}), "copies agree"); delete c; }
static Vs gn(int n) { Vs r; for (int i = 0; i < n; i++) r.push_back("means_" + std::to_string(i)); for (int i = 0; i < n; i++) r.push_back("stddevs_" + std::to_string(i)); return r; }
static void gact(const Gaussian &g, int n, const Vd &v) { for (int i = 0; i < n; i++) sx_assert(g.GetMean(i) == v[i] && g.GetStDev(i) == v[n + i], "each name acts on its own quantity"); }
SX_HARNESS(h_gaussian) { int n = 1 + sx_choice("dims", 3); Gaussian g(n, "g"); if (sx_choice("copied", 2)) { Gaussian o(g); Gaussian p(2); p = o; contract(p, gn(n), [&](const Vd &v) { gact(p, n, v); sx_assert(g.GetMean(0) == 0, "copies are independent"); }, false); } else contract(g, gn(n), [&](const Vd &v) { gact(g, n, v); }, false); }
SX_HARNESS(h_gaussian_shared) { Gaussian g(2); g.RenameParameter("means_1", "m"); g.RenameParameter("means_0", "m"); double v = val("v"); g.SetParameter("m", v); sx_assert(g.GetMean(0) == v && g.GetMean(1) == v, "a shared name acts on every quantity it denotes"); sx_assert(g.GetParameter("m") == v, "a shared name reads back"); g.RenameParameter("m", "m"); sx_assert(g.GetParameter("m") == v, "renaming to the same name changes nothing"); }
SX_HARNESS(h_jump) { Gaussian g(2); JumpPDF j("j", &g); contract(j, gn(2), [&](const Vd &) { sx_assert(g.GetMean(0) == 0 && g.GetStDev(1) == 1, "the original function is left alone"); }, false); JumpPDF e("e"); SX_THROWS(NULLPointerAccessError, e.GetParameters(), "a missing function is refused"); SX_THROWS(NULLPointerAccessError, e.SetParameter("a", 1), "a missing function is refused"); SX_THROWS(NULLPointerAccessError, e.RenameParameter("a", "b"), "a missing function is refused"); SX_THROWS(NULLPointerAccessError, e.GetParameterNames(), "a missing function is refused"); SX_THROWS(NULLPointerAccessError, e.GetParameterCount(), "a missing function is refused"); SX_THROWS(NULLPointerAccessError, e.SetParameters(ParameterDict()), "a missing function is refused"); SX_THROWS(NULLPointerAccessError, e.GetParameter("a"), "a missing function is refused"); }
SX_HARNESS(h_analytic) { Gaussian g(1); AnalyticED d("d", &g); contract(d, gn(1), [&](const Vd &) { sx_assert(g.GetMean(0) == 0, "the original function is left alone"); }, false); }
SX_HARNESS(h_convolution) { Gaussian g(1); Convolution c("c"); c.SetFunction(&g); contract(c, gn(1), nothing, false); }
static double sf(const ParameterDict &d, const double &x) { return d.at("a") * x + d.at("b"); }
static double sh(const ParameterDict &d, const Vd &x) { return d.at("a") + d.at("b") * x[0]; }
SX_HARNESS(h_systematics) {
  switch (sx_choice("kind", 4)) {
  case 0: { Shift s("s"); contract(s, Vs{"shift"}, [&](const Vd &v) { sx_assert(s.GetShift() == v[0], "each name acts on its own quantity"); }); break; }
  case 1: { Scale s("s"); contract(s, Vs{"scaleFactor"}, [&](const Vd &v) { sx_assert(s.GetScaleFactor() == v[0], "each name acts on its own quantity"); }); break; }
  case 2: { ScaleFunction s("s"); s.SetScaleFunction(sf, Vs{"a", "b"}); contract(s, Vs{"a", "b"}, nothing); break; }
  default: { Shape s("s"); s.SetShapeFunction(sh, Vs{"b", "a"}); contract(s, Vs{"a", "b"}, nothing); }
  }
}
SX_HARNESS(h_event_systematics) {
  double x = sx_double("z", -9, 9), t = sx_double("t", -9, 9); Event e(Vd{x, t}); Vs on{"e", "t"}; e.SetObservableNames(&on); Vs in{"t"}, out{"e"};
  switch (sx_choice("kind", 3)) {
  case 0: { EventScale s("s"); s.SetInObservables(out); s.SetOutObservables(out); contract(s, Vs{"scale"}, [&](const Vd &v) { sx_assert(s.GetScale() == v[0], "each name acts on its own quantity"); sx_close(s(e).GetDatum("e"), x * v[0], "the scale acts on the event"); }); break; }
  case 1: { EventShift s("s"); s.SetInObservables(out); s.SetOutObservables(out); contract(s, Vs{"shift"}, [&](const Vd &v) { sx_assert(s.GetShift() == v[0], "each name acts on its own quantity"); sx_close(s(e).GetDatum("e"), x + v[0], "the shift acts on the event"); }); break; }
  default: { EventReconvolution s("s"); s.SetInObservables(in); s.SetOutObservables(out); contract(s, Vs{"correction"}, [&](const Vd &v) { sx_assert(s.GetCorrection() == v[0], "each name acts on its own quantity"); sx_close(s(e).GetDatum("e"), t + v[0] * (x - t), "the correction acts on the event"); }); }
  }
}
static BinnedED bed(const S &n, double c) { BinnedED b(n, h_axes({2})); b.SetBinContents(Vd{c, 1}); b.SetObservables(Vs{"z"}); return b; }
SX_HARNESS(h_norms) { Vs n{"s", "b", "c"}; BinnedED b0 = bed("s", 1), b1 = bed("b", 2), b2 = bed("c", 3); if (sx_choice("binned", 2)) { BinnedEDManager m; m.AddPdf(b0, DIRECT); m.AddPdf(b1, DIRECT); m.AddPdf(b2, DIRECT); contract(m, n, [&](const Vd &v) { for (int i = 0; i < 3; i++) sx_assert(m.GetNormalisations().at(i) == v[i], "each name acts on its own quantity"); }); } else { EDManager m; m.AddDist(&b0); m.AddDist(&b1); m.AddDist(&b2); contract(m, n, [&](const Vd &v) { for (int i = 0; i < 3; i++) sx_assert(m.GetNormalisations().at(i) == v[i], "each name acts on its own quantity"); }); } }
SX_HARNESS(h_spectrum) { SpectralFitDist s("s", h_axes({2, 2})); Vs n; for (int i = 0; i < 4; i++) n.push_back("s_bin_" + std::to_string(i)); contract(s, n, [&](const Vd &v) { for (int i = 0; i < 4; i++) sx_assert(s.GetBinContent(i) == v[i], "each name acts on its own quantity"); }); }
struct Comp : FitComponent { ParameterManager m; double a = 1, b = 2; Comp(const S &x, const S &y) { m.AddDouble(a, x); if (!y.empty()) m.AddDouble(b, y); } void SetParameter(const S &n, double v) override { m.SetParameter(n, v); } double GetParameter(const S &n) const override { return m.GetParameter(n); } void SetParameters(const ParameterDict &d) override { m.SetParameters(d); } ParameterDict GetParameters() const override { return m.GetParameters(); } size_t GetParameterCount() const override { return m.GetParameterCount(); } std::set<S> GetParameterNames() const override { return m.GetParameterNames(); } void RenameParameter(const S &o, const S &n) override { m.RenameParameter(o, n); } S GetName() const override { return "c"; } void SetName(const S &) override {} };
SX_HARNESS(h_components) {
  Comp p("a", "b"), q("b", "c"), r("d", ""); ComponentManager m; sx_assert(m.GetComponentCount() == 0 && m.GetTotalParameterCount() == 0, "a new manager is empty"); Comp *c[] = {&p, &q, &r}; static const int O[][3] = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}}; int o = sx_choice("order", 3); for (int i : O[o]) m.AddComponent(c[i]);
  sx_assert(m.GetComponentCount() == 3 && m.GetTotalParameterCount() == 4, "shared parameters count once"); sx_assert(m.GetParameterNames() == (std::set<S>{"a", "b", "c", "d"}), "the parameter names"); ParameterDict d; for (S n : {"a", "b", "c", "d"}) d[n] = val(n); d["foreign"] = 9; m.SetParameters(d);
  sx_assert(p.a == d["a"] && p.b == d["b"] && q.a == d["b"] && q.b == d["c"] && r.a == d["d"], "every component gets its own and the shared values"); d.erase("foreign"); sx_assert(m.GetParameters() == d, "the values read back"); for (auto &x : d) sx_assert(m.GetParameter(x.first) == x.second, "each value reads back under its own name");
  SX_THROWS(ParameterError, m.GetParameter("nosuch"), "reading an unknown name is refused"); static const char *N[] = {"a", "b", "c", "d"}; S miss = N[sx_choice("miss", 4)]; ParameterDict e = d; e.erase(miss); SX_THROWS(ParameterError, m.SetParameters(e), "a missing name is refused"); SX_NOTHROW(m.SetParameters(ParameterDict()), "an empty dictionary changes nothing"); sx_assert(m.GetParameters() == d, "an empty dictionary changes nothing");
  q.RenameParameter("b", "e"); sx_assert(m.GetTotalParameterCount() == 5, "a renamed parameter is its own"); d["e"] = val("e"); m.SetParameters(d); sx_assert(q.a == d["e"] && p.b == d["b"], "a renamed parameter is its own"); m.Clear(); sx_assert(m.GetComponentCount() == 0 && m.GetParameters().empty(), "a cleared manager is empty");
}
// many parameters: names whose order is not the order of the quantities, prefixes and case variants of one another
static Vs many(const S &p, int n) { Vs r; for (int i = 0; i < n; i++) r.push_back(p + std::to_string(i)); return r; }
SX_HARNESS(h_many) {
  switch (sx_choice("kind", 4)) {
  case 0: { Vd vec(12, 0); double a = 0, b = 0, c = 0; ParameterManager m; m.AddDouble(a, "p"); m.AddContainer(vec, "p"); m.AddDouble(b, "P"); m.AddDouble(c, "p_1 "); Vs n = many("p_", 12); n.push_back("p"); n.push_back("P"); n.push_back("p_1 "); contract(m, n, [&](const Vd &v) { for (int i = 0; i < 12; i++) sx_assert(vec[i] == v[i], "each name acts on its own quantity"); sx_assert(a == v[12] && b == v[13] && c == v[14], "each name acts on its own quantity"); }); break; }
  case 1: { Gaussian g(11, "g"); contract(g, gn(11), [&](const Vd &v) { gact(g, 11, v); }, false); break; }
  case 2: { SpectralFitDist s("s", h_axes({3, 2, 2})); contract(s, many("s_bin_", 12), [&](const Vd &v) { for (int i = 0; i < 12; i++) sx_assert(s.GetBinContent(i) == v[i], "each name acts on its own quantity"); }); break; }
  default: { Vs n = many("b", 12); n.push_back("b"); n.push_back("B1"); BinnedEDManager m; std::vector<BinnedED> b; for (size_t i = 0; i < n.size(); i++) b.push_back(bed(n[i], i + 1)); for (auto &x : b) m.AddPdf(x, DIRECT); contract(m, n, [&](const Vd &v) { for (size_t i = 0; i < n.size(); i++) sx_assert(m.GetNormalisations().at(i) == v[i], "each name acts on its own quantity"); }); }
  }
}
SX_HARNESS(h_many_components) {
  Vs n = many("a", 12); n.push_back("a"); n.push_back("A1");
  std::vector<std::unique_ptr<Comp>> k; ComponentManager m; for (size_t i = 0; i < n.size(); i++) { k.emplace_back(new Comp(n[i], n[(i * 5 + 3) % n.size()])); m.AddComponent(k.back().get()); }
  sx_assert(m.GetComponentCount() == n.size() && m.GetTotalParameterCount() == n.size(), "shared parameters count once"); ParameterDict d; for (auto &s : n) d[s] = val(s); m.SetParameters(d); sx_assert(m.GetParameters() == d, "the values read back");
  for (size_t i = 0; i < n.size(); i++) { sx_assert(m.GetParameter(n[i]) == d[n[i]], "each value reads back under its own name"); sx_assert(k[i]->a == d[n[i]] && (i * 5 + 3) % n.size() != i && k[i]->b == d[n[(i * 5 + 3) % n.size()]], "every component gets its own and the shared values"); }
}
SX_HARNESS(h_components_overlap) { // one component's parameters are all there are
  Comp p("a", "b"), q("b", ""), r("a", "b"); Comp *c[] = {&p, &q, &r}; static const int O[][3] = {{0, 1, 2}, {1, 0, 2}, {2, 0, 1}}; int o = sx_choice("order", 3), n = 2 + sx_choice("three", 2); ComponentManager m; for (int i = 0; i < n; i++) m.AddComponent(c[O[o][i]]); ParameterDict d; for (int k = 0; k < 2; k++) { d["a"] = val("a" + std::to_string(k)); d["b"] = val("b" + std::to_string(k)); m.SetParameters(d); sx_assert(m.GetParameters() == d && m.GetTotalParameterCount() == 2, "the values read back"); for (int i = 0; i < n; i++) sx_assert(c[O[o][i]]->GetParameters() == (c[O[o][i]] == &q ? ParameterDict{{"b", d["b"]}} : d), "every component gets its own and the shared values"); }
}
SX_HARNESS(h_long_spectrum) { // more bins than two digits count
  SpectralFitDist s("s", h_axes({13, 10})); std::set<S> n; for (auto &x : many("s_bin_", 130)) n.insert(x); sx_assert(s.GetParameterNames() == n && s.GetParameterCount() == 130, "the parameter names"); size_t k = sx_choice("bin", 130); double v = val("v"); s.SetParameter("s_bin_" + std::to_string(k), v); for (size_t i = 0; i < 130; i++) sx_assert(s.GetBinContent(i) == (i == k ? v : 0), "each name acts on its own quantity"); sx_assert(s.GetParameter("s_bin_" + std::to_string(k)) == v, "each value reads back under its own name");
}
SX_HARNESS(h_magnitudes) { // values of any size reach their quantity
  static const double T[] = {1. / (1ll << 40), 1ll << 40}; double t = T[sx_choice("size", 2)]; double a = 1, b = 2; Vd vec{3, 4}; ParameterManager m; m.AddDouble(a, "a"); m.AddDouble(b, "b"); m.AddContainer(vec, "v"); Shift sh("s"); Scale sc("s"); ScaleFunction f("f"); f.SetScaleFunction(sf, Vs{"a", "b"}); EventShift es("s"); EventScale ec("c"); Gaussian g(1); BinnedED b0 = bed("s", 1); BinnedEDManager bm; bm.AddPdf(b0, DIRECT); SpectralFitDist sp("s", h_axes({2}));
  for (int k = 0; k < 2; k++) { Vd v; for (int i = 0; i < 4; i++) v.push_back(sx_grid(("v" + std::to_string(i) + std::to_string(k)).c_str(), k ? 0.5 : -50, 50, -6) * t); ParameterDict d; d["a"] = v[0]; d["b"] = v[1]; d["v_0"] = v[2]; d["v_1"] = v[3]; m.SetParameters(d); agree(m, Vs{"a", "b", "v_0", "v_1"}, v); sx_assert(a == v[0] && b == v[1] && vec[0] == v[2] && vec[1] == v[3], "each name acts on its own quantity"); m.SetParameter("b", v[0]); sx_assert(b == v[0], "each name acts on its own quantity");
    sh.SetParameter("shift", v[0]); sc.SetParameter("scaleFactor", v[1]); es.SetParameter("shift", v[0]); ec.SetParameters(ParameterDict{{"scale", v[1]}}); g.SetParameter("means_0", v[2]); bm.SetParameter("s", v[3]); f.SetParameters(d); sp.SetParameter("s_bin_1", v[2]); sx_assert(sh.GetShift() == v[0] && sc.GetScaleFactor() == v[1] && es.GetShift() == v[0] && ec.GetScale() == v[1] && g.GetMean(0) == v[2] && bm.GetNormalisations().at(0) == v[3] && sp.GetBinContent(1) == v[2], "each name acts on its own quantity"); agree(f, Vs{"a", "b"}, Vd{v[0], v[1]}); }
}
