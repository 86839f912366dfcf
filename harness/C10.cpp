// C10: event systematics
// SRC: EventShift.cpp EventScale.cpp EventReconvolution.cpp EventSystematic.cpp EventSystematicManager.cpp Event.cpp ObsSet.cpp ContainerTools.cpp
// BOUNDS: events with 3 observables, any values in [-1000,1000]; any parameter in [-50,50] (factors > 0 through the setters); sequences of up to 2 (thorough 3) systematics of every kind on every observable, in every order; thirteen systematics on twelve observables
#include "hx.h"
#include <Event.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <EventSystematicManager.h>
#include <Exceptions.h>
#include <memory>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
static Vs nm{"z", "y", "x"};
static Vd vals() { Vd v; for (int i = 0; i < 3; i++) v.push_back(sx_double(("v" + std::to_string(i)).c_str(), -1000, 1000)); return v; }
struct Sys { int kind, ob, truth; double p; std::unique_ptr<EventSystematic> s; };
static Sys make(int i, bool neutral = false) {
  Sys r; std::string k = std::to_string(i);
  r.kind = sx_choice("kind", 3); r.ob = sx_choice("ob", 3); r.truth = (r.ob + 1 + (r.kind == 2 ? sx_choice("truth", 2) : 0)) % 3; r.p = 0;
  const char *pn;
  if (r.kind == 0) { r.s.reset(new EventShift("s" + k)); pn = "shift"; r.p = 0; }
  else if (r.kind == 1) { r.s.reset(new EventScale("s" + k)); pn = "scale"; r.p = 1; }
  else { r.s.reset(new EventReconvolution("s" + k)); pn = "correction"; r.p = 1; }
  r.s->SetInObservables(Vs(1, nm[r.kind == 2 ? r.truth : r.ob])); r.s->SetOutObservables(Vs(1, nm[r.ob]));
  if (!neutral) {
    int how = sx_choice("how", i ? 2 : 4); r.p = sx_double(("p" + k).c_str(), how < 3 && r.kind == 1 ? 0.001 : how < 3 && r.kind == 2 ? 0 : -50, 50);
    if (how == 0) { ParameterDict d; d["other"] = 7; d[pn] = r.p; r.s->SetParameters(d); }
    else if (how == 1) { if (r.kind == 0) static_cast<EventShift *>(r.s.get())->SetShift(r.p); else if (r.kind == 1) static_cast<EventScale *>(r.s.get())->SetScale(r.p); else static_cast<EventReconvolution *>(r.s.get())->SetCorrection(r.p); }
    else { if (how == 2) { r.s->RenameParameter(pn, "mine"); pn = "mine"; } r.s->SetParameter(pn, r.p); }
  }
  sx_assert(r.s->GetParameter(pn) == r.p && r.s->GetParameters().size() == 1 && r.s->GetParameters().at(pn) == r.p && r.s->GetParameterCount() == 1, "the parameter in use is the one set by name");
  return r;
}
static void oracle(const Sys &s, Vd &v) {
  if (s.kind == 0) v[s.ob] += s.p; else if (s.kind == 1) v[s.ob] *= s.p; else v[s.ob] = v[s.truth] + s.p * (v[s.ob] - v[s.truth]);
}
static void same(const Event &e, const Vd &v, const std::string &lab) {
  Vd d = e.GetData(); sx_assert(d.size() == v.size(), "number of observables unchanged");
  for (size_t i = 0; i < v.size(); i++) { sx_close(d[i], v[i], lab.c_str()); sx_close(e.GetDatum(nm[i]), v[i], lab.c_str()); }
}
SX_HARNESS(h_single) {
  Vd v = vals(); Event e(v); e.SetObservableNames(&nm); Sys s = make(0);
  Event r = (*s.s)(e); Vd w = v; oracle(s, w);
  for (int i = 0; i < 3; i++) { if (i != s.ob) sx_assert(r.GetDatum(nm[i]) == v[i], "other observables untouched"); sx_assert(e.GetDatum(nm[i]) == v[i], "the input event is untouched"); }
  sx_close(r.GetDatum(nm[s.ob]), w[s.ob], "target observable follows the rule");
}
SX_HARNESS(h_neutral) {
  Vd v = vals(); Event e(v); e.SetObservableNames(&nm); Sys s = make(0, true); Event r = (*s.s)(e); same(r, v, "a neutral parameter changes nothing");
}
SX_HARNESS(h_manager) {
  Vd v = vals(); Event e(v); e.SetObservableNames(&nm); int n = sx_choice("n", h_thorough() ? 4 : 3);
  EventSystematicManager m; std::vector<Sys> S; Vd w = v;
  for (int i = 0; i < n; i++) { S.push_back(make(i + 1)); m.Add(S.back().s.get()); }
  sx_assert(m.GetNSystematics() == (size_t)n && m.GetSystematics().size() == (size_t)n, "the manager holds what was added");
  for (int i = 0; i < n; i++) { oracle(S[i], w); sx_assert(m.GetSystematics()[i] == S[i].s.get(), "kept in the order added"); }
  if (n && sx_choice("again", 2)) { m.Add(S[n - 1].s.get()); oracle(S[n - 1], w); same(m.ApplySystematics(e), w, "a systematic added twice acts twice"); return; }
  EventSystematicManager m2 = m;
  same(m.ApplySystematics(e), w, "the systematics act one after another in the order added");
  if (n) { // parameters changed between events are the ones used
    double p = sx_double("q", S[0].kind == 1 ? 0.001 : -50, 50); S[0].p = p; S[0].s->SetParameter(S[0].kind == 0 ? "shift" : S[0].kind == 1 ? "scale" : "correction", p);
    Vd u = v; for (auto &s : S) oracle(s, u); same(m2.ApplySystematics(e), u, "the current parameters are the ones used");
  }
  m.Clear(); sx_assert(m.GetNSystematics() == 0, "cleared"); same(m.ApplySystematics(e), v, "an empty manager changes nothing");
}
SX_HARNESS(h_refused) {
  Vd v = vals(); Event e(v); e.SetObservableNames(&nm);
  int c = sx_choice("case", 9);
  if (c == 0) { double s = sx_double("s", -1e6, 0); EventScale x("s"); SX_THROWS(ValueError, x.SetScale(s), "a scale that is not positive is refused"); sx_assert(x.GetScale() == 1, "a refused scale changes nothing"); }
  if (c == 1) { double s = sx_double("s", -1e6, -1e-6); EventReconvolution x("s"); SX_THROWS(ValueError, x.SetCorrection(s), "a negative correction is refused"); sx_assert(x.GetParameter("correction") == 1, "a refused correction changes nothing"); }
  std::unique_ptr<EventSystematic> s; int k = c % 3; if (k == 0) s.reset(new EventShift("s")); else if (k == 1) s.reset(new EventScale("s")); else s.reset(new EventReconvolution("s"));
  if (c >= 2 && c < 5) { SX_THROWS_ANY((*s)(e), "no target observable is refused"); s->SetOutObservables(Vs(1, "q")); s->SetInObservables(Vs(1, "q")); SX_THROWS(NotFoundError, (*s)(e), "a missing observable is refused"); }
  if (c >= 5 && c < 8) { double b = s->GetParameters().begin()->second; SX_THROWS(ParameterError, s->SetParameter("q", 1), "an unknown parameter is refused"); SX_THROWS(ParameterError, s->GetParameter("q"), "an unknown parameter is refused"); SX_THROWS(ParameterError, s->RenameParameter("q", "r"), "an unknown parameter is refused"); ParameterDict d; d["q"] = 3; SX_THROWS(ParameterError, s->SetParameters(d), "a missing parameter is refused"); sx_assert(s->GetParameterNames().size() == 1 && s->GetParameters().begin()->second == b, "a refused setting changes nothing"); }
  for (int i = 0; i < 3; i++) sx_assert(e.GetDatum(nm[i]) == v[i], "the input event is untouched");
}
SX_HARNESS(h_many) { // more systematics than names in one digit, on events of twelve observables
  Vs on; for (int i = 0; i < 12; i++) on.push_back("o_" + std::to_string(i)); Vd v; for (int i = 0; i < 12; i++) v.push_back(sx_grid(("v" + std::to_string(i)).c_str(), -100, 100, -4)); Event e(v); e.SetObservableNames(&on); EventSystematicManager m; std::vector<std::unique_ptr<EventSystematic>> s; Vd w = v; double d = sx_grid("d", -50, 50, -4);
  for (int i = 0; i < 13; i++) { int ob = (i * 5 + 3) % 12, tr = (ob + 7) % 12, kind = (i + (i > 5)) % 3; if (kind == 0) { auto *x = new EventShift("s"); x->SetShift(d + i); s.emplace_back(x); w[ob] += d + i; } else if (kind == 1) { auto *x = new EventScale("s"); x->SetScale(i % 2 ? 2 : 0.5); s.emplace_back(x); w[ob] *= i % 2 ? 2 : 0.5; } else { auto *x = new EventReconvolution("s"); x->SetCorrection(2); s.emplace_back(x); w[ob] = w[tr] + 2 * (w[ob] - w[tr]); } s.back()->SetInObservables(Vs{on[kind == 2 ? tr : ob]}); s.back()->SetOutObservables(Vs{on[ob]}); m.Add(s.back().get()); }
  sx_assert(m.GetNSystematics() == 13, "the manager holds what was added"); for (int again = 0; again < 2; again++) { Event r = m.ApplySystematics(e); for (int i = 0; i < 12; i++) { sx_close(r.GetDatum(on[i]), w[i], "the systematics act one after another in the order added"); sx_assert(e.GetDatum(on[i]) == v[i], "the input event is untouched"); } }
}
