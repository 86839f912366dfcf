// Stand-in for ROOT's generator: every draw is any value the real one could return.
// TRandom3::Rndm yields the multiples of 2^-32 strictly between 0 and 1.
#ifndef SX_TRANDOM3
#define SX_TRANDOM3
#include <sx.h>
#include <string>
#include <vector>
inline std::vector<double> &sx_draws() { static std::vector<double> v; return v; } // the uniform numbers drawn so far
inline std::vector<double> &sx_gauss() { static std::vector<double> v; return v; }
inline std::vector<int> &sx_counts() { static std::vector<int> v; return v; }
inline double &sx_gaussmost() { static double v = 0; return v; } // if set: Gaussian numbers between 1/2 and this, of either sign, in steps of 1/64
inline int &sx_maxcount() { static int n = 3; return n; } // largest Poisson count explored
class TRandom3 {
public:
  TRandom3(unsigned s = 4357) : fSeed(s) {}
  double Rndm() { double t = 2.3283064365386962890625e-10, u = sx_grid(("u" + std::to_string(sx_draws().size())).c_str(), t, 1 - t, -32); sx_draws().push_back(u); return u; }
  double Uniform(double a = 1) { return a * Rndm(); }
  double Uniform(double a, double b) { return a + (b - a) * Rndm(); }
  double Gaus(double m = 0, double s = 1) { double g; if (sx_gaussmost() > 0) { g = sx_grid(("g" + std::to_string(sx_gauss().size())).c_str(), 0.5, sx_gaussmost(), -6); if (sx_choice("gsign", 2)) g = -g; } else g = sx_double(("g" + std::to_string(sx_gauss().size())).c_str(), -8, 8); sx_gauss().push_back(g); return m + s * g; }
  int Poisson(double) { int n = sx_choice("poisson", sx_maxcount() + 1); sx_counts().push_back(n); return n; }
  void SetSeed(unsigned s = 0) { fSeed = s; }
  unsigned GetSeed() const { return fSeed; }
private:
  unsigned fSeed;
};
#endif
