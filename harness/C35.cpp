// C35: container helpers and combinations
// SRC: ContainerTools.cpp Combinations.cpp
// BOUNDS: containers of up to 4 entries (thorough 5), pairs of up to 5 (thorough 6), with any keys, equal or not, and any values; index combinations of up to 3 digits of up to 3 values (thorough 4 of 3), digits without values included; lists of up to 4 (thorough 5) characters split at four delimiters
// OUTSIDE: names and values of different number (stopped by assert); text conversion of numbers
#include "hx.h"
#include <utility>
using std::make_pair; // Combinations.hpp relies on argument-dependent lookup, which plain integers do not have
#include <Combinations.hpp>
#include <ContainerTools.hpp>
#include <list>
using namespace ContainerTools;
typedef std::vector<double> Vd; typedef std::string S; typedef std::vector<uint64_t> Vu; typedef std::vector<S> Vs;
static S N(const char *p, int i) { return p + std::to_string(i); }
static Vu keys(const char *p, int n, uint64_t hi = 7) { Vu v; for (int i = 0; i < n; i++) v.push_back(sx_u64(N(p, i).c_str(), 0, hi)); return v; }
static Vd vals(const char *p, int n) { Vd v; for (int i = 0; i < n; i++) v.push_back(sx_double(N(p, i).c_str(), -10, 10)); return v; }
static int most() { return h_thorough() ? 5 : 4; }
SX_HARNESS(h_create) { int n = sx_choice("n", most()); Vu k = keys("k", n); Vd v = vals("v", n); std::map<uint64_t, double> m = CreateMap(k, v); size_t distinct = 0; for (int i = 0; i < n; i++) { int last = i; bool first = true; for (int j = 0; j < n; j++) if (k[j] == k[i]) { if (j > last) last = j; if (j < i) first = false; } if (first) distinct++; auto it = m.find(k[i]); sx_assert(it != m.end() && it->second == v[last], "names and values are paired by position"); } sx_assert(m.size() == distinct, "nothing else is in the map"); std::set<uint64_t> g = GetKeys(m); sx_assert(g == std::set<uint64_t>(k.begin(), k.end()), "every key is returned"); Vd all = GetValues(m), want; for (uint64_t x : g) want.push_back(m[x]); sx_assert(all == want, "every value is returned in key order"); }
SX_HARNESS(h_create_set) { Vd v = vals("v", 3); std::set<S> k{"b", "a", "c"}; std::list<double> l(v.begin(), v.end()); std::map<S, double> m = CreateMap(k, l); sx_assert(m.size() == 3 && m["a"] == v[0] && m["b"] == v[1] && m["c"] == v[2], "names and values are paired by position"); }
SX_HARNESS(h_values) { int n = 1 + sx_choice("n", 3), q = sx_choice("q", h_thorough() ? 4 : 3); Vu k = keys("k", n); Vd v = vals("v", n); std::map<uint64_t, double> m; for (int i = 0; i < n; i++) m[k[i]] = v[i]; Vu ask = keys("a", q); bool all = true; Vd want; for (uint64_t a : ask) { auto it = m.find(a); if (it == m.end()) all = false; else want.push_back(it->second); } if (!all) { SX_THROWS(std::out_of_range, GetValues(m, ask), "a missing key is refused"); return; } Vd got = GetValues(m, ask); sx_assert(got == want, "values come in the order of the keys asked for"); }
SX_HARNESS(h_set) { int n = 1 + sx_choice("n", 2), q = 1 + sx_choice("q", 2); Vu k = keys("k", n), s = keys("s", q); Vd v = vals("v", n), w = vals("w", q); std::map<uint64_t, double> m; for (int i = 0; i < n; i++) m[k[i]] = v[i]; std::map<uint64_t, double> r = m; for (int i = 0; i < q; i++) r[s[i]] = w[i]; SetValues(m, s, w); sx_assert(m == r, "exactly the keys given are set"); }
SX_HARNESS(h_same) { int n = sx_choice("n", h_thorough() ? 4 : 3), q = sx_choice("q", 4); Vu k = keys("k", n), s = keys("s", q, 6); std::map<uint64_t, double> a; std::map<uint64_t, S> b; for (uint64_t x : k) a[x] = 1; for (uint64_t x : s) b[x] = "z"; bool sub = true, sup = true; for (uint64_t x : k) { bool f = false; for (uint64_t y : s) if (x == y) f = true; if (!f) sub = false; } for (uint64_t x : s) { bool f = false; for (uint64_t y : k) if (x == y) f = true; if (!f) sup = false; } sx_assert(HasSameKeys(a, b) == (sub && sup), "key comparison is exact"); uint64_t x = sx_u64("x", 0, 8); bool has = false; for (uint64_t y : k) if (y == x) has = true; sx_assert(HasKey(a, x) == has, "a key is found exactly when it is there"); }
SX_HARNESS(h_compare) { static const char *const K[] = {"a", "b", "c"}; std::map<S, double> p, q; S miss; int mp = sx_choice("p", 8), mq = sx_choice("q", 8); for (int i = 0; i < 3; i++) { if (mp >> i & 1) p[K[i]] = 1; if (mq >> i & 1) q[K[i]] = 2; if ((mp >> i & 1) && !(mq >> i & 1)) miss += S(K[i]) + ","; } S r = CompareKeys(p, q, "one", "two"); if (mp == mq) sx_assert(r == "one and two have the same keys", "equal keys are reported as equal"); else sx_assert(r == "Keys in one but missing from two : \n" + miss + "\n", "exactly the missing keys are listed"); }
SX_HARNESS(h_text) { int m = sx_choice("m", 8); static const char *const K[] = {"x", "yy", "z"}; Vs v; S want, want2; for (int i = 0; i < 3; i++) if (m >> i & 1) { v.push_back(K[i]); want += S(K[i]) + ", "; want2 += S(K[i]) + "|"; } sx_assert(ToString(v) == want && ToString(v, "|") == want2, "every entry is listed in order"); }
template <class C> static void pairs(const C &c, const Vu &k) { std::set<std::pair<uint64_t, uint64_t>> s = Combinations::AllCombsNoDiag(c); size_t n = k.size(); sx_assert(s.size() == n * (n - 1) / 2, "as many pairs as there are"); for (size_t i = 0; i < n; i++) { sx_assert(!s.count(std::make_pair(k[i], k[i])), "nothing is paired with itself"); for (size_t j = 0; j < i; j++) sx_assert(s.count(std::make_pair(k[i], k[j])) + s.count(std::make_pair(k[j], k[i])) == 1, "each pair occurs once"); } }
SX_HARNESS(h_pairs) { int n = 1 + sx_choice("n", h_thorough() ? 6 : 5); Vu k = keys("k", n, n > 4 ? 63 : ~0ull); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx_assume(k[i] != k[j]); if (sx_choice("set", 2)) pairs(std::set<uint64_t>(k.begin(), k.end()), k); else pairs(k, k); }
SX_HARNESS(h_none) { sx_assert(Combinations::AllCombsNoDiag(Vu()).empty() && Combinations::AllCombsNoDiag(std::set<S>()).empty(), "no pairs of nothing"); }
SX_HARNESS(h_range) { int n = 1 + sx_choice("n", 5), s = sx_choice("s", 5); if (s >= n) return; std::vector<size_t> r = Combinations::Range<size_t>(n, s); bool ok = r.size() == size_t(n - s); for (size_t i = 0; i < r.size() && ok; i++) ok = r[i] == s + i; sx_assert(ok, "every number from start up to the end, in order"); sx_assert(Combinations::Range<int>(n).size() == (size_t)n, "ranges start at zero"); }
SX_HARNESS(h_combinations) { int n = 1 + sx_choice("n", h_thorough() ? 4 : 3); std::vector<size_t> mx; size_t tot = 1; for (int i = 0; i < n; i++) { mx.push_back(sx_choice(N("m", i).c_str(), 4)); tot *= mx[i]; } std::vector<std::vector<size_t>> c; Combinations::RecursiveCombinations(n, c, std::vector<size_t>(n), mx); std::set<std::vector<size_t>> u(c.begin(), c.end()); bool in = true; for (auto &v : c) { if (v.size() != (size_t)n) in = false; else for (int i = 0; i < n; i++) if (v[i] >= mx[i]) in = false; } sx_assert(c.size() == tot && u.size() == tot && in, "the full product, each combination once"); }
SX_HARNESS(h_split) { // a list splits into its non-empty items
  int n = sx_choice("n", h_thorough() ? 5 : 4); char d = ",; |"[sx_choice("delim", 4)]; S s, cur; for (int i = 0; i < n; i++) s.push_back("a ,;|\tb"[sx_choice(N("c", i).c_str(), 7)]); Vs want; for (char c : s) if (c == d) { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur.push_back(c); if (!cur.empty()) want.push_back(cur); sx_assert(Split(s, d) == want, "a list splits into its non-empty items in order");
}
