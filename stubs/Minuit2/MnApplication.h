// in-memory stand-in for ROOT's Minuit2: holds what it is given and leaves the search to mn_minimise, which the harness defines
#ifndef MN_APPLICATION_STUB_H
#define MN_APPLICATION_STUB_H
#include <cassert>
#include <cstddef>
#include <vector>
namespace ROOT { namespace Minuit2 {
class FCNBase { public: virtual ~FCNBase() {} virtual double operator()(const std::vector<double> &) const = 0; virtual double Up() const = 0; };
class MnStrategy { public: unsigned level; MnStrategy() : level(1) {} explicit MnStrategy(unsigned l) : level(l) {} unsigned Strategy() const { return level; } };
class MnUserParameters {
public:
  struct P { double value, error; bool fixed, lower, upper; double lo, hi; };
  std::vector<P> p;
  MnUserParameters() {}
  MnUserParameters(const std::vector<double> &v, const std::vector<double> &e) { assert(v.size() == e.size()); for (size_t i = 0; i < v.size(); i++) p.push_back(P{v[i], e[i], false, false, false, 0, 0}); }
  void SetLimits(unsigned i, double lo, double hi) { P &q = p.at(i); q.lower = q.upper = true; q.lo = lo < hi ? lo : hi; q.hi = lo < hi ? hi : lo; }
  void SetUpperLimit(unsigned i, double hi) { P &q = p.at(i); q.upper = true; q.lower = false; q.hi = hi; }
  void SetLowerLimit(unsigned i, double lo) { P &q = p.at(i); q.lower = true; q.upper = false; q.lo = lo; }
  void RemoveLimits(unsigned i) { p.at(i).lower = p.at(i).upper = false; }
  void Fix(unsigned i) { p.at(i).fixed = true; }
  void Release(unsigned i) { p.at(i).fixed = false; }
  void SetValue(unsigned i, double v) { p.at(i).value = v; }
  void SetError(unsigned i, double e) { p.at(i).error = e; }
  double Value(unsigned i) const { return p.at(i).value; }
  double Error(unsigned i) const { return p.at(i).error; }
  std::vector<double> Params() const { std::vector<double> r; for (const P &q : p) r.push_back(q.value); return r; }
  std::vector<double> Errors() const { std::vector<double> r; for (const P &q : p) r.push_back(q.error); return r; }
  unsigned VariableParameters() const { unsigned n = 0; for (const P &q : p) n += !q.fixed; return n; }
};
class MnUserCovariance { // lower triangle, row by row
  std::vector<double> d; unsigned n;
public:
  MnUserCovariance() : n(0) {}
  MnUserCovariance(const std::vector<double> &v, unsigned rows) : d(v), n(rows) { assert(v.size() == rows * (rows + 1) / 2); }
  double operator()(unsigned r, unsigned c) const { return r > c ? d.at(c + r * (r + 1) / 2) : d.at(r + c * (c + 1) / 2); }
  unsigned Nrow() const { return n; }
  unsigned size() const { return d.size(); }
  const std::vector<double> &Data() const { return d; }
};
class FunctionMinimum {
public:
  bool valid; double fval; MnUserCovariance cov; int calls; double up;
  FunctionMinimum() : valid(false), fval(0), calls(0), up(1) {}
  bool IsValid() const { return valid; }
  double Fval() const { return fval; }
  int NFcn() const { return calls; }
  double Up() const { return up; }
  const MnUserCovariance &UserCovariance() const { return cov; }
};
class MnApplication {
public:
  enum Kind { kMigrad, kMinimize, kSimplex };
  const FCNBase &fcn; MnUserParameters state; MnStrategy strategy; Kind kind;
  MnApplication(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s, Kind k) : fcn(f), state(p), strategy(s), kind(k) {}
  virtual ~MnApplication() {}
  virtual FunctionMinimum operator()(unsigned maxfcn = 0, double tolerance = 0.1);
  void Fix(unsigned i) { state.Fix(i); }
  void Release(unsigned i) { state.Release(i); }
  void SetLimits(unsigned i, double lo, double hi) { state.SetLimits(i, lo, hi); }
  void RemoveLimits(unsigned i) { state.RemoveLimits(i); }
  void SetValue(unsigned i, double v) { state.SetValue(i, v); }
  double Value(unsigned i) const { return state.Value(i); }
  std::vector<double> Params() const { return state.Params(); }
  std::vector<double> Errors() const { return state.Errors(); }
  unsigned VariableParameters() const { return state.VariableParameters(); }
};
} }
ROOT::Minuit2::FunctionMinimum mn_minimise(ROOT::Minuit2::MnApplication &, unsigned maxfcn, double tolerance);
inline ROOT::Minuit2::FunctionMinimum ROOT::Minuit2::MnApplication::operator()(unsigned m, double t) { return mn_minimise(*this, m, t); }
#endif
