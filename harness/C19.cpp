// C19: systematic groups
// SRC: SystematicManager.cpp Systematic.cpp SparseMatrix.cpp BinnedED.cpp Histogram.cpp AxisCollection.cpp BinAxis.cpp ObsSet.cpp Event.cpp ContainerTools.cpp
// OUTSIDE: the general group listed among other groups while it holds systematics (today refused)
// BOUNDS: two-bin distributions with any contents; up to 4 systematics with any positive 2x2 responses in a global and two named groups; every list of up to three groups for a distribution, one or two distributions, responses rebuilt after changes; histories of up to four uses of one systematic manager (systematics and distributions added, rebuilt, distorted, copied); single runs of many items
#include "hx.h"
#include <BinnedED.h>
#include <Exceptions.h>
#include <Systematic.h>
#include <algorithm>
#include <memory>
#include <SystematicManager.h>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
static std::string S(int i) { return std::to_string(i); }
struct Fix : Systematic { // fixed response given at construction time only
  std::string n; Vd m; int built = 0; Fix(const std::string &s) : n(s) { for (int i = 0; i < 4; i++) m.push_back(sx_double((s + S(i)).c_str(), 0.25, 3)); }
  void Construct() { SparseMatrix r(2, 2); for (int i = 0; i < 4; i++) r.SetComponent(i / 2, i % 2, m[i]); SetResponse(r); built++; }
  void on(Vd &v) const { double a = m[0] * v[0] + m[1] * v[1], b = m[2] * v[0] + m[3] * v[1]; v[0] = a; v[1] = b; }
  void SetParameter(const std::string &, double) {} double GetParameter(const std::string &) const { return 0; } void SetParameters(const ParameterDict &) {} ParameterDict GetParameters() const { return ParameterDict(); } size_t GetParameterCount() const { return 0; } std::set<std::string> GetParameterNames() const { return std::set<std::string>(); } void RenameParameter(const std::string &, const std::string &) {} std::string GetName() const { return n; } void SetName(const std::string &s) { n = s; }
};
static BinnedED ed(const std::string &n) { AxisCollection a; a.AddAxis(h_axis("z", 2)); BinnedED d(n, a); d.SetBinContent(0, sx_double((n + "0").c_str(), 0.5, 10)); d.SetBinContent(1, sx_double((n + "1").c_str(), 0.5, 10)); d.SetObservables(Vs{"z"}); return d; }
static void same(const BinnedED &e, const Vd &v, const char *l) { sx_close(e.GetBinContent(0), v[0], l); sx_close(e.GetBinContent(1), v[1], l); }
static const std::vector<Vs> LISTS{{""}, {"g"}, {"h"}, {"g", "h"}, {"h", "g"}, {"g", ""}, {"", "g"}, {"h", "", "g"}, {}};
SX_HARNESS(h_compose) {
  Fix s1("s1"), s2("s2"), g1("g1"), g2("g2"), h1("h1"); SystematicManager M; bool glob = sx_choice("global", 3), two = sx_choice("two", 2); M.Add(&g1, "g"); if (two) M.Add(&g2, "g"); M.Add(&h1, "h"); int gl = glob ? 1 + two : 0; if (glob) { if (sx_choice("emptyname", 2)) M.Add(&s1, ""); else M.Add(&s1); if (two) M.Add(&s2); }
  const Vs &l = LISTS[sx_choice("list", 9)]; sx_assume(l.size() < 2 || std::find(l.begin(), l.end(), "") == l.end() || !gl); BinnedED a = ed("a"), b = ed("b"); M.AddDist(a, l); bool other = sx_choice("other", 2); if (other) M.AddDist(b, "h");
  std::map<std::string, std::vector<Fix *>> G; G["g"] = {&g1}; if (two) G["g"].push_back(&g2); G["h"] = {&h1}; if (gl) G[""].push_back(&s1); if (gl > 1) G[""].push_back(&s2);
  std::vector<BinnedED> o{a, b}, w{a, b}; bool norms = sx_choice("norms", 2);
  for (int again = 0; again < 2; again++) {
    M.Construct(); Vd n{-1, -1}; M.DistortEDs(o, w, norms ? &n : nullptr);
    Vd va{o[0].GetBinContent(0), o[0].GetBinContent(1)}, vb{o[1].GetBinContent(0), o[1].GetBinContent(1)}; Vs order = l; if (std::find(l.begin(), l.end(), "") == l.end()) order.insert(order.begin(), ""); for (auto &k : order) for (auto *f : G[k]) f->on(va); if (other) { for (auto *f : G[""]) f->on(vb); for (auto *f : G["h"]) f->on(vb); }
    same(w[0], va, "each group acts in the declared order, the general one first"); same(w[1], vb, "a distribution is reached by its own groups only"); if (norms) { sx_close(n[0], va[0] + va[1], "the content before normalisation is reported when asked for"); if (other) sx_close(n[1], vb[0] + vb[1], "the content before normalisation is reported when asked for"); }
    same(o[0], Vd{a.GetBinContent(0), a.GetBinContent(1)}, "the original distribution is left alone"); g1.m[1] = sx_double("new", 0.25, 3); s1.m[2] = sx_double("new2", 0.25, 3);
  }
  sx_assert(M.GetNSystematics() == size_t(2 + two + gl), "the manager counts its systematics");
}
SX_HARNESS(h_response) { // total response of a group
  Fix a("a"), b("b"), c("c"); SystematicManager M; int n = 1 + sx_choice("n", 3); Fix *f[] = {&a, &b, &c}; bool g = sx_choice("named", 2); for (int i = 0; i < n; i++) if (g) M.Add(f[i], "q"); else M.Add(f[i]); M.Construct(); for (int i = 0; i < 3; i++) sx_assert(f[i]->built == (i < n), "each systematic is constructed once");
  Vd v{sx_double("v0", -5, 5), sx_double("v1", -5, 5)}, w = v; for (int i = 0; i < n; i++) f[i]->on(w); Vd r{M.GetTotalResponse(g ? "q" : "").GetComponent(0, 0) * v[0] + M.GetTotalResponse(g ? "q" : "").GetComponent(0, 1) * v[1], M.GetTotalResponse(g ? "q" : "").GetComponent(1, 0) * v[0] + M.GetTotalResponse(g ? "q" : "").GetComponent(1, 1) * v[1]};
  sx_close(r[0], w[0], "a group's response applies its systematics in the order added"); sx_close(r[1], w[1], "a group's response applies its systematics in the order added"); SX_THROWS(NotFoundError, M.GetTotalResponse("zz"), "unknown groups are refused");
  Vs names; for (int i = 0; i < n; i++) names.push_back(f[i]->GetName()); std::string k = g ? "q" : ""; sx_assert(M.GetSystematicsNamesInGroup(k) == names && M.GetGroup(k) == names && M.GetNSystematicsInGroup(k) == (size_t)n && M.GetSystematicsInGroup(k).size() == (size_t)n && M.GetGlobalSystematics().size() == size_t(g ? 0 : n) && M.GetGroupNames().count(k) == 1, "a group lists its systematics in order"); sx_assert(M.GetNGroups() == size_t(g ? 2 : 1), "the manager counts its groups");
}
SX_HARNESS(h_refused) {
  Fix a("a"), b("b"), c("c"), a2("a"); SystematicManager M; M.Add(&a); M.Add(&b, "g"); M.Add(&c, "h"); BinnedED e = ed("e");
  switch (sx_choice("case", 8)) {
  case 0: SX_THROWS(NotFoundError, M.AddDist(e, "nope"), "unknown groups are refused"); SX_THROWS(NotFoundError, M.AddDist(e, Vs{"g", "nope"}), "unknown groups are refused"); break;
  case 1: SX_THROWS(NotFoundError, M.AddDist(e, Vs{"g", "g"}), "duplicated groups are refused"); SX_THROWS(NotFoundError, M.AddDist(e, Vs{"h", "g", "h"}), "duplicated groups are refused"); break;
  case 2: SX_THROWS(NotFoundError, M.Add(&a2), "a systematic cannot be global twice"); sx_assert(M.GetGlobalSystematics().size() == 1, "refused requests change nothing"); break;
  case 3: { Fix b2("b"); SX_THROWS(NotFoundError, M.Add(&b2), "a systematic of another group cannot become global"); sx_assert(M.GetGlobalSystematics().size() == 1, "refused requests change nothing"); break; }
  case 4: M.Add(&c, "g"); SX_THROWS(NotFoundError, M.AddDist(e, Vs{"g", "h"}), "a systematic cannot act twice"); break;
  case 5: M.Add(&a2, "g"); SX_THROWS(NotFoundError, M.AddDist(e, Vs{"g"}), "a global systematic cannot act twice"); break;
  case 6: SX_THROWS(NotFoundError, M.GetNSystematicsInGroup("zz"), "unknown groups are refused"); SX_THROWS(NotFoundError, M.GetGroup("zz"), "unknown groups are refused"); SX_THROWS(NotFoundError, M.GetSystematicsInGroup("zz"), "unknown groups are refused"); SX_THROWS(NotFoundError, M.GetSystematicsNamesInGroup("zz"), "unknown groups are refused"); break;
  default: M.AddDist(e, "g"); M.Construct(); SX_THROWS(NotFoundError, M.AddDist(e, "nope"), "unknown groups are refused"); break;
  }
  std::vector<BinnedED> o{e}, w{e}; try { M.Construct(); M.DistortEDs(o, w); } catch (...) {}
}
SX_HARNESS(h_none) { SystematicManager M; BinnedED e = ed("e"); M.AddDist(e, ""); M.Construct(); std::vector<BinnedED> o{e}, w{e}; Vd n{-1}; M.DistortEDs(o, w, &n); same(w[0], e.GetBinContents(), "without systematics nothing changes"); sx_close(n[0], e.Integral(), "the content before normalisation is reported when asked for"); }
SX_HARNESS(h_history) { // systematics, distributions and changes in any order
  SystematicManager M; BinnedED a = ed("a"), b = ed("b"); std::vector<std::unique_ptr<Fix>> own; std::map<std::string, std::vector<Fix *>> G; Vs la, lb; bool ka = false, kb = false; std::vector<BinnedED> o{a, b}, w{a, b};
  for (int k = 0; k < (h_thorough() ? 5 : 4); k++) {
    int op = sx_choice(("op" + S(k)).c_str(), 7); std::string g = op == 0 ? "g" : op == 1 ? "h" : "";
    if (op < 3) { own.emplace_back(new Fix("s" + S(k))); if (op == 2 && k % 2) M.Add(own.back().get()); else M.Add(own.back().get(), g); G[g].push_back(own.back().get()); }
    else if (op == 3) { Vs l; if (G.count("h")) l.push_back("h"); if (G.count("g")) l.push_back("g"); if (l.empty()) l.push_back(""); M.AddDist(a, l); la = l; ka = true; }
    else if (op == 4) { if (!G.count("g")) { SX_THROWS(NotFoundError, M.AddDist(b, "g"), "unknown groups are refused"); } else { M.AddDist(b, "g"); lb = Vs{"g"}; kb = true; } }
    else if (op == 5) { if (own.size()) own[0]->m[1] = 4; } else { SX_THROWS(NotFoundError, M.AddDist(a, Vs{"g", "g"}), "duplicated groups are refused"); }
    M.Construct(); Vd n{-1, -1}; M.DistortEDs(o, w, &n); Vd va = a.GetBinContents(), vb = b.GetBinContents(); auto act = [&](Vs l, Vd &v) { if (std::find(l.begin(), l.end(), "") == l.end()) l.insert(l.begin(), ""); for (auto &q : l) for (auto *f : G[q]) f->on(v); };
    if (ka) { act(la, va); same(w[0], va, "each group acts in the declared order, the general one first"); sx_close(n[0], va[0] + va[1], "the content before normalisation is reported when asked for"); } if (kb) { act(lb, vb); same(w[1], vb, "a distribution is reached by its own groups only"); }
    if (!G.count("g")) G.erase("g"); size_t cnt = 0; std::set<std::string> names{""}; for (auto &q : G) { cnt += q.second.size(); if (q.second.size()) names.insert(q.first); } sx_assert(M.GetNSystematics() == cnt, "the manager counts its systematics"); sx_assert(M.GetGroupNames().size() == names.size(), "the manager counts its groups");
  }
}
struct Tri : Fix { // parameters s and t of an upper triangular response that does not commute with the others
  int k; double x; Tri(const std::string &s, int K, double X) : Fix(s), k(K), x(X) {} void Construct() { m = Vd{1 + k % 3 * 0.5, k % 2 ? x : 0, k % 2 ? 0 : x, 1}; Fix::Construct(); }
};
SX_HARNESS(h_many) { // twelve systematics in six groups whose names are alike, twelve distributions
  Vs gn{"", "g", "G", "gg", "g_1", "g_10", "g_2"}; SystematicManager M; std::vector<std::unique_ptr<Tri>> own; std::map<std::string, std::vector<Fix *>> G; double x = sx_grid("x", 0.25, 2, -4); bool rev = sx_choice("reversed", 2);
  for (int i = 0; i < 14; i++) { int k = rev ? 13 - i : i; std::string g = gn[(k * 3 + k / 7) % 7]; own.emplace_back(new Tri("s_" + S(k), k, x)); M.Add(own.back().get(), g); G[g].push_back(own.back().get()); }
  AxisCollection a; a.AddAxis(h_axis("z", 2)); std::vector<BinnedED> o, w; std::vector<Vs> L; for (int i = 0; i < 12; i++) { BinnedED d("d_" + S(i), a); d.SetBinContent(0, sx_double(("a" + S(i)).c_str(), 1, 4)); d.SetBinContent(1, sx_double(("b" + S(i)).c_str(), 1, 4)); d.SetObservables(Vs{"z"}); o.push_back(d); Vs l; for (int j = 0; j < i % 4; j++) l.push_back(gn[1 + (i + j * 2) % 6]); if (l.empty()) l.push_back(""); L.push_back(l); }
  w = o; for (int i = 0; i < 12; i++) M.AddDist(o[(i * 5 + 3) % 12], L[(i * 5 + 3) % 12]); sx_assert(M.GetNSystematics() == 14 && M.GetNGroups() == 7, "the manager counts its systematics");
  for (int again = 0; again < 2; again++) { M.Construct(); Vd n(12, -1); M.DistortEDs(o, w, &n); for (int i = 0; i < 12; i++) { Vd v = o[i].GetBinContents(); Vs l = L[i]; if (l[0] != "") l.insert(l.begin(), ""); for (auto &g : l) for (auto *f : G[g]) f->on(v); same(w[i], v, "each group acts in the declared order, the general one first"); sx_close(n[i], v[0] + v[1], "the content before normalisation is reported when asked for"); } own[3]->x = own[8]->x = 3; }
}
SX_HARNESS(h_chain) { // nine systematics in one group, any of the distributions reached through it
  SystematicManager M; std::vector<std::unique_ptr<Fix>> f; bool named = sx_choice("named", 2); int n = 1 + sx_choice("n", 9); for (int i = 0; i < n; i++) { f.emplace_back(new Fix("s")); f[i]->n = "s" + S(i); for (int k = 0; k < 4; k++) f[i]->m[k] = (i * 5 + k * 3) % 7 * 0.25 + 0.25; } int at = sx_choice("at", n); f[at]->m[sx_choice("entry", 4)] = sx_double("any", 0.25, 3); for (auto &x : f) M.Add(x.get(), named ? "g" : ""); BinnedED a = ed("a"); M.AddDist(a, named ? "g" : ""); M.Construct(); std::vector<BinnedED> o{a}, w{a}; Vd v{a.GetBinContent(0), a.GetBinContent(1)}; for (auto &x : f) x->on(v); M.DistortEDs(o, w); same(w[0], v, "every systematic of a group acts, in the order added"); sx_assert(M.GetNSystematics() == (size_t)n && M.GetNSystematicsInGroup(named ? "g" : "") == (size_t)n, "the manager counts its systematics"); }
SX_HARNESS(h_working) { // whatever the working distributions were before
  Fix s("s"); SystematicManager M; M.Add(&s, "g"); BinnedED a = ed("a"), b = ed("b"); M.AddDist(a, "g"); M.AddDist(b, ""); M.Construct(); std::vector<BinnedED> o{a, b}, w; for (int i = 0; i < 2; i++) { AxisCollection c; bool same = sx_choice(("bins" + S(i)).c_str(), 2); c.AddAxis(BinAxis(sx_choice(("name" + S(i)).c_str(), 2) ? "q" : "z", -7, 9, same ? 2 : 5)); w.push_back(BinnedED("old", c)); w[i].SetBinContent(0, 55); w[i].SetObservables(Vs{"q"}); } bool norms = sx_choice("norms", 2); Vd n(2, -1); M.DistortEDs(o, w, norms ? &n : nullptr);
  for (int i = 0; i < 2; i++) { Vd v{o[i].GetBinContent(0), o[i].GetBinContent(1)}; if (!i) s.on(v); sx_assert(w[i].GetName() == o[i].GetName() && w[i].GetAxes() == o[i].GetAxes() && w[i].GetObservables() == o[i].GetObservables() && w[i].GetNBins() == 2, "the distorted distribution has the axes, observables and name of the original"); same(w[i], v, "each group acts in the declared order, the general one first"); } }
