// C09: cuts and cut log
// SRC: BoolCut.cpp BoxCut.cpp LineCut.cpp CutCollection.cpp CutLog.cpp Event.cpp ObsSet.cpp ContainerTools.cpp
// BOUNDS: every single cut with symbolic limits and value; collections of up to 3 cuts of any kind; logs over up to 3 events with symbolic values; histories of three uses of two cut collections and a log (added to, copied, assigned, events passed); single runs of many items
#include "hx.h"
#include <BoolCut.h>
#include <BoxCut.h>
#include <CutCollection.h>
#include <CutLog.h>
#include <Event.h>
#include <Exceptions.h>
#include <LineCut.h>
#include <sstream>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
static Vs obs() { return Vs{"z", "y", "x"}; }

SX_HARNESS(h_box) {
  Vs nm = obs(); Vd v; for (int i = 0; i < 3; i++) v.push_back(sx_double(("v" + std::to_string(i)).c_str(), -100, 100));
  Event e(v); e.SetObservableNames(&nm); int k = sx_choice("obs", 3);
  double lo = sx_double("lo", -100, 100), hi = sx_double("hi", -100, 100);
  BoxCut c("c", nm[k], lo, hi); sx_assert(c.GetLowerLimit() == lo && c.GetUpperLimit() == hi && c.GetName() == "c", "limits as given");
  if (sx_choice("set", 2)) { double l2 = sx_double("lo2", -100, 100), h2 = sx_double("hi2", -100, 100); c.SetLowerLimit(l2); c.SetUpperLimit(h2); lo = l2; hi = h2; sx_assert(c.GetLowerLimit() == lo && c.GetUpperLimit() == hi, "limits as set"); }
  bool p = c.PassesCut(e); Cut *cl = c.Clone(); bool p2 = cl->PassesCut(e); std::string n2 = cl->GetName(); delete cl;
  sx_assert(p == (v[k] > lo && v[k] < hi), "box cut passes strictly inside its limits"); sx_assert(p2 == p && n2 == "c", "a clone decides the same");
}
SX_HARNESS(h_line) {
  Vs nm = obs(); Vd v; for (int i = 0; i < 3; i++) v.push_back(sx_double(("v" + std::to_string(i)).c_str(), -100, 100));
  Event e(v); e.SetObservableNames(&nm); int k = sx_choice("obs", 3); bool lower = sx_choice("lower", 2);
  double lim = sx_double("lim", -100, 100);
  LineCut c("c", nm[k], lim, lower ? "lower" : "upper"); sx_assert(c.GetCutValue() == lim && c.GetSidedness() == (lower ? "lower" : "upper") && c.GetName() == "c", "limit and side as given");
  int set = sx_choice("set", 3);
  if (set == 1) { double l2 = sx_double("lim2", -100, 100); c.SetCutValue(l2); lim = l2; sx_assert(c.GetCutValue() == lim, "limit as set"); }
  if (set == 2) { lower = !lower; c.SetSidedness(lower ? "lower" : "upper"); sx_assert(c.GetSidedness() == (lower ? "lower" : "upper"), "side as set"); }
  bool p = c.PassesCut(e); Cut *cl = c.Clone(); bool p2 = cl->PassesCut(e); std::string n2 = cl->GetName(); delete cl;
  sx_assert(p == (lower ? v[k] > lim : v[k] < lim), "line cut passes exactly its side"); sx_assert(p2 == p && n2 == "c", "a clone decides the same");
}
SX_HARNESS(h_bool) {
  Vs nm = obs(); Vd v; for (int i = 0; i < 3; i++) v.push_back(sx_double(("v" + std::to_string(i)).c_str(), -100, 100));
  Event e(v); e.SetObservableNames(&nm); int k = sx_choice("obs", 3); double val = sx_double("val", -100, 100);
  BoolCut c("c", nm[k], val); bool p = c.PassesCut(e); Cut *cl = c.Clone(); bool p2 = cl->PassesCut(e); std::string n2 = cl->GetName(); delete cl;
  sx_assert(p == (v[k] == val), "bool cut passes exactly its value"); sx_assert(p2 == p && n2 == "c" && c.GetName() == "c", "a clone decides the same");
}
SX_HARNESS(h_refused) {
  Vs nm = obs(); Event e(Vd(3, 1)); e.SetObservableNames(&nm);
  switch (sx_choice("case", 6)) {
  case 0: SX_THROWS(ValueError, LineCut("c", "z", 1, "left"), "an unknown side is refused"); break;
  case 1: { LineCut c("c", "z", 1, "upper"); SX_THROWS(ValueError, c.SetSidedness(""), "an unknown side is refused"); sx_assert(c.GetSidedness() == "upper", "a refused side changes nothing"); break; }
  case 2: SX_THROWS(NotFoundError, LineCut("c", "q", 1, "upper").PassesCut(e), "an unknown observable is refused"); break;
  case 3: SX_THROWS(NotFoundError, BoxCut("c", "q", 0, 1).PassesCut(e), "an unknown observable is refused"); break;
  case 4: SX_THROWS(NotFoundError, BoolCut("c", "q", 1).PassesCut(e), "an unknown observable is refused"); break;
  case 5: { CutLog l(Vs{"a", "b"}); size_t i = sx_u64("i", 2, ~0ull); SX_THROWS(NotFoundError, l.LogCut(i), "a missing cut index is refused"); l.CalculateMeta(); sx_assert(l.GetCutCounts() == std::vector<int>(2, 0), "a refused entry counts nothing"); break; }
  }
}
struct Spec { int kind, ob; double a, b; };
static bool decide(const Spec &s, const Vd &v) { double x = v[s.ob]; switch (s.kind) { case 0: return x > s.a && x < s.b; case 1: return x > s.a; case 2: return x < s.a; default: return x == s.a; } }
static void add(CutCollection &c, const Spec &s, const std::string &n) {
  std::string o = h_names[s.ob];
  if (s.kind == 0) c.AddCut(BoxCut(n, o, s.a, s.b)); else if (s.kind == 3) c.AddCut(BoolCut(n, o, s.a)); else c.AddCut(LineCut(n, o, s.a, s.kind == 1 ? "lower" : "upper"));
}
SX_HARNESS(h_collection) {
  bool same = sx_choice("same", 2); int nc = sx_choice("ncuts", h_thorough() ? 4 : 3), nev = 1 + sx_choice("nevents", nc < 2 ? 3 : 2);
  CutCollection c; std::vector<Spec> sp; Vs names;
  for (int i = 0; i < nc; i++) {
    Spec s; s.kind = sx_choice("kind", 4); s.ob = i % 2; s.a = sx_double(("a" + std::to_string(i)).c_str(), -10, 10); s.b = s.kind == 0 ? sx_double(("b" + std::to_string(i)).c_str(), -10, 10) : 0;
    sp.push_back(s); names.push_back(same ? "cut" : "cut" + std::to_string(i)); add(c, s, names.back());
  }
  sx_assert(c.GetCutNames() == names, "cut names in the order added");
  int how = sx_choice("copy", 3); CutCollection d(c); CutCollection e2; if (how == 2) { e2.AddCut(BoolCut("old", "z", 1)); e2 = c; }
  if (how) { CutCollection other; add(c, Spec{1, 0, 1e6, 0}, "never"); } // copies must not see later additions
  const CutCollection &u = how == 0 ? c : how == 1 ? d : e2;
  sx_assert(u.GetCutNames() == names, "a copy has the same cuts");
  CutLog log(names); std::vector<int> cnt(nc, 0); int pass = 0; Vs nm = obs();
  for (int k = 0; k < nev; k++) {
    Vd v; for (int i = 0; i < 2; i++) v.push_back(sx_double(("v" + std::to_string(k) + std::to_string(i)).c_str(), -20, 20)); v.push_back(0);
    Event e(v); e.SetObservableNames(&nm);
    int first = -1; for (int i = 0; i < nc && first < 0; i++) if (!decide(sp[i], v)) first = i;
    bool r = u.PassesCuts(e, log), r2 = u.PassesCuts(e);
    sx_assert(r == (first < 0) && r2 == r, "the collection passes an event exactly if every cut does");
    if (first < 0) pass++; else cnt[first]++;
  }
  log.CalculateMeta();
  sx_assert(log.GetCutCounts() == cnt, "each rejected event is attributed to the first failing cut");
  sx_assert(log.GetCutNames() == names, "log names");
  int rem = nev; std::vector<int> rc = log.GetRemainderCounts(); Vd pc = log.GetCutPercentages(), rp = log.GetRemainderPercentages();
  sx_assert((int)rc.size() == nc && (int)pc.size() == nc && (int)rp.size() == nc, "one entry per cut");
  for (int i = 0; i < nc; i++) { rem -= cnt[i]; sx_assert(rc[i] == rem, "remaining events after each cut"); sx_close(pc[i], 100.0 * cnt[i] / nev, "cut percentage"); sx_close(rp[i], 100.0 * rem / nev, "remaining percentage"); }
  sx_assert(rem == pass, "logged events are the passed plus the rejected");
  if (nc) { // printed table carries the same numbers
    std::istringstream is(log.AsString()); std::string line, w; std::getline(is, line);
    int r = nev;
    for (int i = 0; i < nc; i++) { int a, b; double p, q; is >> w >> a >> p >> b >> q; r -= cnt[i]; sx_assert((bool)is && w == names[i] && a == cnt[i] && b == r, "table shows the counts"); sx_close_tol(p, 100.0 * cnt[i] / nev, 1e-2, "table shows the percentages"); sx_close_tol(q, 100.0 * r / nev, 1e-2, "table shows the percentages"); }
  }
  sx_reach("logged");
}
SX_HARNESS(h_order) { // the decision does not depend on the order of the cuts
  CutCollection a, b; std::vector<Spec> sp;
  for (int i = 0; i < 2; i++) { Spec s; s.kind = sx_choice("kind", 4); s.ob = 0; s.a = sx_double(("a" + std::to_string(i)).c_str(), -10, 10); s.b = s.kind == 0 ? sx_double(("b" + std::to_string(i)).c_str(), -10, 10) : 0; sp.push_back(s); }
  add(a, sp[0], "p"); add(a, sp[1], "q"); add(b, sp[1], "q"); add(b, sp[0], "p");
  Vs nm = obs(); Vd v(3, 0.0); v[0] = sx_double("v", -20, 20); Event e(v); e.SetObservableNames(&nm);
  sx_assert(a.PassesCuts(e) == b.PassesCuts(e), "the decision is the same in either order");
}
SX_HARNESS(h_history) { // cuts added, events tested and logs read in any order; copies go on independently
  CutCollection c; std::vector<Spec> sp; Vs names; CutLog log((Vs())); std::vector<int> cnt; int nev = 0, pass = 0; Vs nm = obs(); Vd v{sx_double("v", -20, 20), sx_double("w", -20, 20), 0}; Event e(v); e.SetObservableNames(&nm); CutCollection twin; std::vector<Spec> tsp; static const Spec Q[] = {{0, 1, -5, 8}, {1, 0, -2, 0}, {2, 0, 10, 0}, {2, 1, 3, 0}, {1, 1, -10, 0}};
  auto first = [&](const std::vector<Spec> &s) { for (size_t i = 0; i < s.size(); i++) if (!decide(s[i], v)) return (int)i; return -1; };
  for (int k = 0; k < (h_thorough() ? 5 : 4); k++) {
    switch (sx_choice(("op" + std::to_string(k)).c_str(), 6)) {
    case 0: add(c, Q[k], "n" + std::to_string(k)); sp.push_back(Q[k]); names.push_back("n" + std::to_string(k)); log = CutLog(names); cnt.assign(names.size(), 0); nev = pass = 0; break; // a new cut, a new log
    case 1: { int f = first(sp); sx_assert(c.PassesCuts(e, log) == (f < 0), "the collection passes an event exactly if every cut does"); nev++; if (f < 0) pass++; else cnt[f]++; break; }
    case 2: { log.CalculateMeta(); CutLog l2(log); Vd p = l2.GetCutPercentages(); std::vector<int> r = log.GetRemainderCounts(); sx_assert(l2.GetRemainderCounts() == r && r.size() == names.size() && p.size() == names.size(), "one entry per cut"); int left = nev; for (size_t i = 0; i < names.size(); i++) { left -= cnt[i]; sx_assert(r[i] == left, "remaining events after each cut"); if (nev) sx_close(p[i], 100. * cnt[i] / nev, "cut percentage"); } break; }
    case 3: twin = c; tsp = sp; break;
    case 4: { CutCollection d(c); c = d; c = c; break; }
    default: { CutCollection t; t = twin; std::swap(t, c); std::swap(tsp, sp); twin = t; names = c.GetCutNames(); log = CutLog(names); cnt.assign(names.size(), 0); nev = pass = 0; break; } // go on with the copy made earlier
    }
    sx_assert(c.PassesCuts(e) == (first(sp) < 0) && twin.PassesCuts(e) == (first(tsp) < 0), "the collection passes an event exactly if every cut does"); sx_assert(c.GetCutNames().size() == sp.size() && twin.GetCutNames().size() == tsp.size(), "cut names in the order added"); sx_assert(log.GetCutCounts() == cnt && log.GetCutNames() == names, "each rejected event is attributed to the first failing cut");
  }
  log.CalculateMeta(); std::vector<int> r = log.GetRemainderCounts(); if (r.size()) sx_assert(r.back() == pass, "logged events are the passed plus the rejected");
}
SX_HARNESS(h_many) { // twelve cuts over observables and names that are alike, forty events
  Vs nm{"e", "E", "ee", "e_1", "e_10"}; CutCollection c; Vs names; Vd lim; for (int i = 0; i < 12; i++) { std::string n = i == 4 ? "cut" : "cut_" + std::to_string((i * 5) % 12); double a = -12 + i % 4; names.push_back(n); lim.push_back(a); if (i % 3 == 0) c.AddCut(LineCut(n, nm[i % 5], a, "lower")); else if (i % 3 == 1) c.AddCut(BoxCut(n, nm[i % 5], a, 12 - i % 4)); else c.AddCut(LineCut(n, nm[i % 5], 12 - i % 4, "upper")); }
  CutCollection d(c); CutLog log(names); std::vector<int> cnt(12, 0); int pass = 0; double x = sx_grid("x", -16, 16, -4);
  for (int k = 0; k < 40; k++) { Vd v; for (int j = 0; j < 5; j++) v.push_back(k == 7 ? (j == 3 ? x : j) : (k * 7 + j * 3) % 27 - 13 + 0.5); Event e(v); e.SetObservableNames(&nm); int f = -1; for (int i = 0; i < 12 && f < 0; i++) { double y = v[i % 5]; bool ok = i % 3 == 0 ? y > lim[i] : i % 3 == 1 ? y > lim[i] && y < 12 - i % 4 : y < 12 - i % 4; if (!ok) f = i; } sx_assert(d.PassesCuts(e, log) == (f < 0) && c.PassesCuts(e) == (f < 0), "the collection passes an event exactly if every cut does"); if (f < 0) pass++; else cnt[f]++; }
  log.CalculateMeta(); sx_assert(log.GetCutCounts() == cnt && log.GetCutNames() == names && c.GetCutNames() == names && d.GetCutNames() == names, "each rejected event is attributed to the first failing cut"); std::vector<int> r = log.GetRemainderCounts(); int rem = 40; for (int i = 0; i < 12; i++) { rem -= cnt[i]; sx_assert(r[i] == rem, "remaining events after each cut"); sx_close(log.GetCutPercentages()[i], 100. * cnt[i] / 40, "cut percentage"); sx_close(log.GetRemainderPercentages()[i], 100. * rem / 40, "remaining percentage"); } sx_assert(rem == pass, "logged events are the passed plus the rejected");
}
SX_HARNESS(h_assign_alike) { // a collection takes over another's cuts though the names are the same
  CutCollection c, d; Spec s{1, 0, sx_double("a", -10, 10), 0}, t{2, 1, sx_double("b", -10, 10), 0}; bool two = sx_choice("two", 2); add(c, s, "cut"); add(d, t, "cut"); if (two) { add(c, t, "other"); add(d, Spec{0, 0, -5, 5}, "other"); } Vd v{sx_double("v0", -20, 20), sx_double("v1", -20, 20), 0}; Vs nm = obs(); Event e(v); e.SetObservableNames(&nm); bool want = decide(t, v) && (!two || decide(Spec{0, 0, -5, 5}, v)); c = d; sx_assert(c.PassesCuts(e) == want && d.PassesCuts(e) == want, "an assigned collection decides as the one it was assigned from");
}
SX_HARNESS(h_long) { // seventy thousand events through one log
  CutCollection c; c.AddCut(LineCut("a", "z", 0, "lower")); c.AddCut(LineCut("b", "z", 10, "upper")); CutLog log(c.GetCutNames()); Vs nm = obs(); double x = sx_grid("x", -16, 16, -4); int n = 70000, cnt[2] = {0, 0}, pass = 0; Event lo(Vd{-1, 0, 0}), hi(Vd{11, 0, 0}), in(Vd{5, 0, 0}), any(Vd{x, 0, 0}); for (Event *e : {&lo, &hi, &in, &any}) e->SetObservableNames(&nm);
  for (int i = 0; i < n; i++) { int k = i == 12345 ? 3 : i % 50 == 7 ? 1 : i % 2 ? 0 : 2; bool p = c.PassesCuts(k == 3 ? any : k == 1 ? hi : k == 0 ? lo : in, log); int f = k == 3 ? (x > 0 ? x < 10 ? 2 : 1 : 0) : k; if (p != (f == 2)) sx_assert(false, "the collection passes an event exactly if every cut does"); if (f == 2) pass++; else cnt[f]++; }
  log.CalculateMeta(); std::vector<int> k = log.GetCutCounts(), r = log.GetRemainderCounts(); sx_assert(k == (std::vector<int>{cnt[0], cnt[1]}), "each rejected event is attributed to the first failing cut"); sx_assert(r == (std::vector<int>{n - cnt[0], pass}), "remaining events after each cut"); for (int i = 0; i < 2; i++) { sx_close(log.GetCutPercentages()[i], 100. * cnt[i] / n, "cut percentage"); sx_close(log.GetRemainderPercentages()[i], 100. * (i ? pass : n - cnt[0]) / n, "remaining percentage"); }
}
