// C08: events deliver stored values in any selection
// SRC: Event.cpp ObsSet.cpp ContainerTools.cpp
// BOUNDS: events with 1..4 observables, arbitrary finite values, every subset and order of observables; twelve observables whose names begin, end or are spelt almost like one another, in three orders
#include "hx.h"
#include <Event.h>
#include <Exceptions.h>
#include <ObsSet.h>
typedef std::vector<std::string> Vs; typedef std::vector<double> Vd;
static std::vector<int> pick(int n) { // any non-empty ordered selection
  std::vector<int> left, r; for (int i = 0; i < n; i++) left.push_back(i);
  int m = 1 + sx_choice("nsel", n);
  for (int k = 0; k < m; k++) { int c = sx_choice("sel", left.size()); r.push_back(left[c]); left.erase(left.begin() + c); }
  return r;
}
SX_HARNESS(h_select) {
  int n = 1 + sx_choice("n", 4); Vs nm; Vd v;
  for (int i = 0; i < n; i++) { nm.push_back(std::string("o") + h_names[i]); v.push_back(sx_double(("v" + std::to_string(i)).c_str(), -1e6, 1e6)); }
  Event e(v); e.SetObservableNames(&nm);
  std::vector<int> s = pick(n); Vs sn; for (int k : s) sn.push_back(nm[k]);
  ObsSet os(sn); Vd got = e.ToObsSet(os);
  sx_assert(got.size() == s.size(), "one value per requested observable");
  for (size_t k = 0; k < s.size(); k++) sx_assert(got[k] == v[s[k]], "values in requested order");
  for (int i = 0; i < n; i++) sx_assert(e.GetDatum(nm[i]) == v[i] && e.GetDatum((size_t)i) == v[i] && e.GetData().at(i) == v[i] && e.GetDataMap().at(nm[i]) == v[i], "value by name and by index");
  sx_assert(e.GetNObservables() == (size_t)n && e.GetData().size() == (size_t)n && e.GetDataMap().size() == (size_t)n, "number of observables");
  sx_assert(e.GetObservableNames() == nm, "names");
  sx_reach("selected");
}
SX_HARNESS(h_set) {
  int n = 1 + sx_choice("n", 4); Vs nm; Vd v;
  for (int i = 0; i < n; i++) { nm.push_back(std::string("o") + h_names[i]); v.push_back(sx_double(("v" + std::to_string(i)).c_str(), -1e6, 1e6)); }
  Event e(v); e.SetObservableNames(&nm); Event c = e;
  for (int rep = 0; rep < 2; rep++) {
    int k = sx_choice("which", n); double w = sx_double(("w" + std::to_string(rep)).c_str(), -1e6, 1e6);
    if (sx_choice("how", 2)) e.SetDatum(nm[k], w); else e.SetDatum((size_t)k, w);
    v[k] = w;
    for (int i = 0; i < n; i++) { sx_assert(e.GetDatum((size_t)i) == v[i] && e.GetDatum(nm[i]) == v[i], "setting changes exactly that value"); }
    if (rep == 0) for (int i = 0; i < n; i++) if (i != k) sx_assert(c.GetDatum(nm[i]) == v[i], "a copy is independent");
  }
}
SX_HARNESS(h_obsset) {
  int n = 1 + sx_choice("n", 4); Vs nm; for (int i = 0; i < n; i++) nm.push_back(h_names[i]);
  std::vector<int> s = pick(n); Vs sn; for (int k : s) sn.push_back(nm[k]);
  ObsSet big(nm), sub(sn);
  std::vector<size_t> r = sub.GetRelativeIndices(big);
  sx_assert(r.size() == s.size() && sub.GetNObservables() == s.size(), "one index per requested name");
  for (size_t k = 0; k < s.size(); k++) { sx_assert(r[k] == (size_t)s[k] && big.GetNames().at(r[k]) == sn[k], "relative index is the position in the other set"); sx_assert(sub.GetIndex(sn[k]) == k, "index of a name"); }
  if ((int)s.size() < n) SX_THROWS_ANY(big.GetRelativeIndices(sub), "a smaller set is refused");
  else { std::vector<size_t> b = big.GetRelativeIndices(sub); for (int i = 0; i < n; i++) sx_assert(r[b[i]] == (size_t)i, "relative indices are inverse"); }
  sx_assert((sub == big) == (sn == nm) && (sub != big) == (sn != nm), "equality is equality of the name lists");
  sub.SetNames(nm); sx_assert(sub == big && sub.GetIndex(nm.back()) == nm.size() - 1, "renaming replaces the list");
  ObsSet one("solo"); sx_assert(one.GetNObservables() == 1 && one.GetIndex("solo") == 0 && one.GetNames().at(0) == "solo", "single name");
}
SX_HARNESS(h_missing) {
  int n = 1 + sx_choice("n", 3); Vs nm; for (int i = 0; i < n; i++) nm.push_back(h_names[i]);
  Vs other = nm; int k = sx_choice("k", n); other[k] = "missing";
  ObsSet a(nm), b(other);
  SX_THROWS_ANY(b.GetRelativeIndices(a), "a missing name is refused"); SX_THROWS_ANY(a.GetRelativeIndices(b), "a missing name is refused");
  SX_THROWS_ANY(a.GetIndex("missing"), "a missing name is refused");
  a.SetNames(other); SX_THROWS_ANY(a.GetIndex(nm[k]), "a replaced name is gone");
  Event e(Vd(n, 1.5)); e.SetObservableNames(&nm);
  SX_THROWS(NotFoundError, e.ToObsSet(b), "a missing name is refused"); SX_THROWS(NotFoundError, e.GetDatum("missing"), "a missing name is refused"); SX_THROWS(NotFoundError, e.SetDatum("missing", 2), "a missing name is refused");
}
static const Vs &lots() { static const Vs v{"e", "E", "ee", "e_1", "e_10", "e_2", "", " e", "e ", "z", "x", "r_e"}; return v; } // names that begin, end or are spelt almost like one another
SX_HARNESS(h_many) {
  const Vs &nm = lots(); size_t n = nm.size(); Vd v; for (size_t i = 0; i < n; i++) v.push_back(sx_double(("v" + std::to_string(i)).c_str(), -1e6, 1e6)); Event e(v); e.SetObservableNames(&nm); Event o = e;
  Vs rev(nm.rbegin(), nm.rend()), odd; for (size_t i = 0; i < n; i++) odd.push_back(nm[(i * 5 + 3) % n]); Vd a = e.ToObsSet(ObsSet(rev)), b = e.ToObsSet(ObsSet(odd)); std::vector<size_t> r = ObsSet(odd).GetRelativeIndices(ObsSet(nm)); ObsSet all(nm); sx_assert(a.size() == n && b.size() == n && r.size() == n, "one value per requested observable");
  for (size_t i = 0; i < n; i++) { sx_assert(e.GetDatum(nm[i]) == v[i] && e.GetDatum(i) == v[i] && e.GetDataMap().at(nm[i]) == v[i], "value by name and by index"); sx_assert(a[i] == v[n - 1 - i] && b[i] == v[(i * 5 + 3) % n] && r[i] == (i * 5 + 3) % n && all.GetIndex(nm[i]) == i, "values in requested order"); Vd one = e.ToObsSet(ObsSet(nm[i])); sx_assert(one.size() == 1 && one[0] == v[i], "values in requested order"); }
  size_t k = sx_choice("which", n); double w = sx_double("w", -1e6, 1e6); e.SetDatum(nm[k], w); for (size_t i = 0; i < n; i++) sx_assert(e.GetDatum(nm[i]) == (i == k ? w : v[i]) && o.GetDatum(nm[i]) == v[i], "setting changes exactly that value");
  for (const char *x : {"e_", "e_11", "ze", "Z", "_e", "  ", "e_1 "}) { SX_THROWS(NotFoundError, e.GetDatum(x), "a missing name is refused"); SX_THROWS(NotFoundError, e.SetDatum(x, 2), "a missing name is refused"); SX_THROWS_ANY(all.GetIndex(x), "a missing name is refused"); SX_THROWS(NotFoundError, e.ToObsSet(ObsSet(Vs{"e", x})), "a missing name is refused"); }
}
SX_HARNESS(h_equal) { // lists are equal exactly if they hold the same names in the same order
  static const char *const W[] = {"z", "Z", "zy"}; Vs a, b; int n = sx_choice("n", 4), m = sx_choice("m", 4); for (int i = 0; i < n; i++) { a.push_back(W[sx_choice(("a" + std::to_string(i)).c_str(), 3)]); for (int j = 0; j < i; j++) sx_assume(a[j] != a[i]); } for (int i = 0; i < m; i++) { b.push_back(W[sx_choice(("b" + std::to_string(i)).c_str(), 3)]); for (int j = 0; j < i; j++) sx_assume(b[j] != b[i]); } ObsSet p(a), q(b); sx_assert((p == q) == (a == b) && (q == p) == (a == b), "lists are equal exactly if they hold the same names in the same order"); ObsSet r = p; sx_assert(r == p && r.GetNames() == a && r.GetNObservables() == (size_t)n, "a copy is equal"); r = q; sx_assert(r == q && r.GetNames() == b, "a copy is equal"); }
