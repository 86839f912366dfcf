// C25: data sets keep their events
// SRC: OXSXDataSet.cpp Event.cpp ObsSet.cpp ContainerTools.cpp
// BOUNDS: two data sets of up to 2 (thorough 3) events with 2 observables, any values; appended, copied, assigned and destroyed in every order of the bound; single runs of many items
// OUTSIDE: LazyOXSXDataSet (reads files; its file layer is decided in C32)
#include "hx.h"
#include <Event.h>
#include <Exceptions.h>
#include <ObsSet.h>
#include <OXSXDataSet.h>
#include <memory>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
static int cnt;
static Vd one(int d = 2) { Vd v; for (int i = 0; i < d; i++) v.push_back(sx_double(("v" + std::to_string(cnt++)).c_str(), -1e6, 1e6)); return v; }
static void check(const OXSXDataSet &d, const std::vector<Vd> &w, const Vs &nm, const char *lab) {
  sx_assert(d.GetNEntries() == w.size(), "the entry count is the number added");
  sx_assert(d.GetObservableNames() == nm, "observable names as given");
  for (size_t i = 0; i < w.size(); i++) {
    Event e = d.GetEntry(i); sx_assert(e.GetNObservables() == w[i].size(), lab);
    for (size_t k = 0; k < w[i].size(); k++) { sx_assert(e.GetDatum(k) == w[i][k], lab); sx_assert(e.GetDatum(nm[k]) == w[i][k], "events are readable by name"); }
    ObsSet o(Vs{nm[1], nm[0]}); Vd s = e.ToObsSet(o); sx_assert(s.size() == 2 && s[0] == w[i][1] && s[1] == w[i][0], "events are readable by name");
  }
  uint64_t far = sx_u64("far", w.size(), ~0ull); SX_THROWS(NotFoundError, d.GetEntry(far), "an index past the end is refused");
}
SX_HARNESS(h_add) {
  cnt = 0; int n = sx_choice("n", h_thorough() ? 5 : 4); Vs nm{"p", "q"}; OXSXDataSet d; std::vector<Vd> w; bool late = sx_choice("late", 2);
  if (!late) d.SetObservableNames(nm); if (sx_choice("reserve", 2)) d.Reserve(2);
  for (int i = 0; i < n; i++) { w.push_back(one()); d.AddEntry(Event(w.back())); }
  if (late) d.SetObservableNames(nm);
  check(d, w, nm, "entries come back in order with their values"); sx_assert(d.GetNObservables() == (n ? 2 : 0), "observable count");
  if (n) { SX_THROWS(DimensionError, d.AddEntry(Event(one(1 + 2 * sx_choice("more", 2)))), "an event of another size is refused"); }
  SX_THROWS(DimensionError, d.AddEntry(Event(Vd())), "an empty event is refused"); check(d, w, nm, "a refused event changes nothing");
}
SX_HARNESS(h_event) { // one event: setting a value changes that value only
  cnt = 0; int n = 2 + sx_choice("size", 3); Vs nm{"q", "p", "s", "r"}; nm.resize(n); Vd v = one(n); Event e(v), f(v); e.SetObservableNames(&nm); f.SetObservableNames(&nm); sx_assert(e.GetData() == v && e.GetNObservables() == (unsigned)n, "an event holds its values");
  for (int r = 0; r < 2; r++) { int k = sx_choice(("at" + std::to_string(r)).c_str(), n); double x = one(1)[0]; if (sx_choice("by", 2)) e.SetDatum(nm[k], x); else e.SetDatum(size_t(k), x); v[k] = x; for (int i = 0; i < n; i++) sx_assert(e.GetDatum(i) == v[i] && e.GetDatum(nm[i]) == v[i], "setting a value changes that value only"); } sx_assert(e.GetData() == v, "an event holds its values");
  Event g(e); sx_assert(g.GetData() == v && g.GetDatum(nm[n - 1]) == v[n - 1], "copies hold the same values"); g.SetDatum(nm[0], 1); sx_assert(e.GetDatum(nm[0]) == v[0], "copies are independent"); int a = sx_choice("a", n), b = sx_choice("b", n); Vs ask{nm[a], nm[b]}; Vd got = e.ToObsSet(ObsSet(ask)); sx_assert(got.size() == 2 && got[0] == v[a] && got[1] == v[b], "values come in the order of the observables asked for");
  SX_THROWS(NotFoundError, e.GetDatum("nosuch"), "an unknown name is refused"); SX_THROWS(NotFoundError, e.SetDatum("nosuch", 1), "an unknown name is refused"); SX_THROWS(NotFoundError, e.ToObsSet(ObsSet(Vs{"p", "nosuch"})), "an unknown name is refused"); sx_assert(e.GetData() == v, "a refused request changes nothing");
}
SX_HARNESS(h_append) {
  cnt = 0; int n = sx_choice("n", 3), m = sx_choice("m", 3); Vs nm{"p", "q"}, nb{"p", "q"};
  OXSXDataSet a; a.SetObservableNames(nm); std::vector<Vd> w, u; std::unique_ptr<OXSXDataSet> b(new OXSXDataSet); b->SetObservableNames(nb);
  for (int i = 0; i < n; i++) { w.push_back(one()); a.AddEntry(Event(w.back())); }
  for (int i = 0; i < m; i++) { u.push_back(one()); b->AddEntry(Event(u.back())); }
  std::vector<Vd> both = w; both.insert(both.end(), u.begin(), u.end());
  std::unique_ptr<OXSXDataSet> s(new OXSXDataSet(a + *b)); sx_assert(b->GetNEntries() == (unsigned)m, "the appended set is unchanged");
  check(*b, u, nb, "the appended set is unchanged"); if (sx_choice("kill", 2)) b.reset();
  check(*s, both, nm, "the second set's entries follow the first's");
}
SX_HARNESS(h_append_operands) { // a sum leaves its operands alone
  cnt = 0; Vs nm{"p", "q"}; OXSXDataSet a, b; a.SetObservableNames(nm); b.SetObservableNames(nm); Vd va = one(), vb = one(); a.AddEntry(Event(va)); b.AddEntry(Event(vb));
  OXSXDataSet s = a + b; check(s, {va, vb}, nm, "the second set's entries follow the first's"); check(b, {vb}, nm, "the appended set is unchanged"); check(a, {va}, nm, "a sum leaves its first operand alone");
}
SX_HARNESS(h_append_mismatch) {
  cnt = 0; Vs nm{"p", "q"}; OXSXDataSet a, b; a.SetObservableNames(nm); Vd va = one(); a.AddEntry(Event(va));
  if (sx_choice("what", 2)) { b.SetObservableNames(Vs{"p"}); b.AddEntry(Event(one(1))); SX_THROWS(DimensionError, a + b, "sets of different size are refused"); }
  else { Vd vb = one(); check(a + a, {va, va}, nm, "a set can follow itself"); }
  check(a, {va}, nm, "a refused append changes nothing");
}
SX_HARNESS(h_copy) {
  cnt = 0; int n = 1 + sx_choice("n", 2); Vs nm{"p", "q"}; std::unique_ptr<OXSXDataSet> a(new OXSXDataSet); a->SetObservableNames(nm); std::vector<Vd> w;
  for (int i = 0; i < n; i++) { w.push_back(one()); a->AddEntry(Event(w.back())); }
  OXSXDataSet b; int how = sx_choice("how", 4); std::unique_ptr<OXSXDataSet> c;
  if (how == 0) c.reset(new OXSXDataSet(*a));
  else if (how == 1) { c.reset(new OXSXDataSet); if (sx_choice("full", 2)) { c->SetObservableNames(Vs{"o", "n"}); c->AddEntry(Event(one())); } *c = *a; }
  else if (how == 2) { std::vector<OXSXDataSet> v; v.push_back(*a); v.push_back(*a); c.reset(new OXSXDataSet(v[1])); } // moves inside a container
  else { *a = *static_cast<const OXSXDataSet *>(a.get()); c.reset(new OXSXDataSet(*a)); }
  int after = sx_choice("after", 3);
  if (after == 0) { a.reset(); check(*c, w, nm, "a copy survives its original"); }
  else if (after == 1) { a->SetObservableNames(Vs{"r", "s"}); a->AddEntry(Event(one())); check(*c, w, nm, "a copy does not follow its original"); }
  else { Vd x = one(); c->AddEntry(Event(x)); c->SetObservableNames(Vs{"r", "s"}); check(*a, w, nm, "the original does not follow its copy"); w.push_back(x); a.reset(); check(*c, w, Vs{"r", "s"}, "a copy keeps its own entries"); }
}
SX_HARNESS(h_many) { // data sets longer than any growth step
  cnt = 0; Vs nm{"p", "p_1", "P", "q"}; OXSXDataSet a, b; a.SetObservableNames(nm); b.SetObservableNames(nm); if (sx_choice("reserve", 2)) a.Reserve(7); std::vector<Vd> w, u; for (int i = 0; i < 40; i++) { w.push_back(one(4)); a.AddEntry(Event(w[i])); if (i % 2) { u.push_back(one(4)); b.AddEntry(Event(u.back())); } } check(a, w, nm, "entries come back in order with their values"); OXSXDataSet c(a), s = a + b; b = a; std::vector<Vd> all = w; all.insert(all.end(), u.begin(), u.end()); check(s, all, nm, "the second set's entries follow the first's"); check(c, w, nm, "a copy survives its original"); check(b, w, nm, "a copy survives its original"); check(a, w, nm, "a sum leaves its first operand alone");
}
