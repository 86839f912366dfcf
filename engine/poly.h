// Exact Laurent polynomials with rational coefficients over atoms, kept in a
// canonical form (used as ideal-real semantics of floating point code).
#ifndef POLY_H
#define POLY_H
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef std::vector<std::pair<int, int>> Mono; // sorted (atom, exponent != 0)
struct MonoLess { // graded lexicographic order (multiplicative), largest first
  bool operator()(const Mono &a, const Mono &b) const {
    int da = 0, db = 0;
    for (auto &x : a) da += x.second;
    for (auto &x : b) db += x.second;
    if (da != db) return da > db;
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) return a[i].second > 0;
      if (i == a.size() || b[j].first < a[i].first) return b[j].second < 0;
      if (a[i].second != b[j].second) return a[i].second > b[j].second;
      i++; j++;
    }
    return false;
  }
};
typedef std::map<Mono, mpq_class, MonoLess> Poly;

enum AtomKind { A_VAR, A_DEF, A_SQRT, A_UF, A_ERR };
struct Atom {
  AtomKind kind;
  std::string name;   // variable or function name
  Poly arg, arg2;     // DEF: definition (monic), SQRT/UF: argument(s)
  double lo, hi;      // bounds of the (ideal) value
  bool intgrid = false; int gran = -2000;
  int input = -1;
};
extern std::vector<Atom> atoms;

struct Iv { double lo, hi; };
inline double up(double x) { return std::nextafter(x + std::fabs(x) * 1e-15, INFINITY); }
inline double dn(double x) { return std::nextafter(x - std::fabs(x) * 1e-15, -INFINITY); }
inline double mul0(double a, double b) { return (a == 0 || b == 0) ? 0 : a * b; }
inline Iv ivmul(Iv a, Iv b) {
  double c[4] = {mul0(a.lo, b.lo), mul0(a.lo, b.hi), mul0(a.hi, b.lo), mul0(a.hi, b.hi)};
  double l = *std::min_element(c, c + 4), h = *std::max_element(c, c + 4);
  return {l == 0 ? 0 : dn(l), h == 0 ? 0 : up(h)};
}
inline Iv ivadd(Iv a, Iv b) { double l = a.lo + b.lo, h = a.hi + b.hi; return {l == 0 ? 0 : dn(l), h == 0 ? 0 : up(h)}; }
inline Iv ivinv(Iv a) {
  if (a.lo > 0 || a.hi < 0) return {a.hi == INFINITY ? 0 : dn(1 / a.hi), a.lo == -INFINITY ? 0 : up(1 / a.lo)};
  if (a.lo == 0) return {a.hi == INFINITY ? 0 : dn(1 / a.hi), INFINITY};
  if (a.hi == 0) return {-INFINITY, a.lo == -INFINITY ? 0 : up(1 / a.lo)};
  return {-INFINITY, INFINITY};
}
inline Iv ivpow(Iv a, int e) {
  if (e < 0) return ivpow(ivinv(a), -e);
  Iv r{1, 1};
  if (e % 2 == 0) { // even: non-negative
    double m = std::max(std::fabs(a.lo), std::fabs(a.hi)), n = (a.lo <= 0 && a.hi >= 0) ? 0 : std::min(std::fabs(a.lo), std::fabs(a.hi));
    a = {n, m};
  }
  for (int i = 0; i < e; i++) r = ivmul(r, a);
  return r;
}

Poly reducep(const Poly &p);
inline void addTo(Poly &p, const Mono &m, const mpq_class &c) {
  if (sgn(c) == 0) return;
  auto it = p.find(m);
  if (it == p.end()) p.emplace(m, c);
  else { it->second += c; if (sgn(it->second) == 0) p.erase(it); }
}
inline Mono monoMul(const Mono &a, const Mono &b) {
  Mono r; size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); i++; j++; }
  }
  return r;
}
inline Poly pconst(const mpq_class &c) { Poly p; if (sgn(c)) p[Mono()] = c; return p; }
inline Poly patom(int a, int e = 1) { Poly p; p[Mono{{a, e}}] = 1; return p; }
inline bool pisconst(const Poly &p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
inline mpq_class pcval(const Poly &p) { return p.empty() ? mpq_class(0) : p.begin()->second; }
inline Poly padd(const Poly &a, const Poly &b, int s = 1) {
  Poly r = a;
  for (auto &t : b) addTo(r, t.first, s > 0 ? t.second : mpq_class(-t.second));
  return reducep(r);
}
inline Poly pscale(const Poly &a, const mpq_class &c) {
  Poly r; if (sgn(c) == 0) return r;
  for (auto &t : a) r[t.first] = t.second * c;
  return r;
}
inline Poly pmulraw(const Poly &a, const Poly &b) {
  Poly r;
  for (auto &x : a) for (auto &y : b) addTo(r, monoMul(x.first, y.first), x.second * y.second);
  return r;
}
inline Poly pmul(const Poly &a, const Poly &b) { return reducep(pmulraw(a, b)); }
// monomial division a/b with all exponents of b positive atoms; returns false if not divisible
inline bool monoDiv(const Mono &a, const Mono &b, Mono &r) {
  r = a;
  for (auto &x : b) {
    auto it = std::find_if(r.begin(), r.end(), [&](const std::pair<int, int> &y) { return y.first == x.first; });
    if (it == r.end() || it->second < x.second) return false;
    it->second -= x.second;
    if (it->second == 0) r.erase(it);
  }
  return true;
}
// multivariate division of a by monic b: a = q*b + r
inline void pdivmod(const Poly &a, const Poly &b, Poly &q, Poly &r) {
  Poly p = a; q.clear(); r.clear();
  const Mono &lm = b.begin()->first; const mpq_class lc = b.begin()->second;
  int guard = 0;
  while (!p.empty()) {
    Mono d;
    if (monoDiv(p.begin()->first, lm, d) && guard++ < 500) {
      mpq_class c = p.begin()->second / lc;
      addTo(q, d, c);
      for (auto &t : b) addTo(p, monoMul(t.first, d), -c * t.second);
    } else { r.insert(*p.begin()); p.erase(p.begin()); }
  }
}
inline std::string pstr(const Poly &p) {
  std::string s;
  for (auto &t : p) {
    s += t.second.get_str(); 
    for (auto &x : t.first) { char b[40]; snprintf(b, sizeof b, "*a%d^%d", x.first, x.second); s += b; }
    s += '+';
  }
  return s;
}
inline Iv pival(const Poly &p) {
  Iv r{0, 0};
  for (auto &t : p) {
    double c = t.second.get_d();
    Iv m{c, c};
    if (mpq_class(c) != t.second) m = {dn(c), up(c)};
    for (auto &x : t.first) m = ivmul(m, ivpow({atoms[x.first].lo, atoms[x.first].hi}, x.second));
    r = ivadd(r, m);
    if (std::isnan(r.lo)) r.lo = -INFINITY;
    if (std::isnan(r.hi)) r.hi = INFINITY;
  }
  return r;
}
#endif
