#ifndef MN_Simplex_STUB_H
#define MN_Simplex_STUB_H
#include "MnApplication.h"
namespace ROOT { namespace Minuit2 {
class MnSimplex : public MnApplication { public: MnSimplex(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s = MnStrategy()) : MnApplication(f, p, s, kSimplex) {} MnSimplex(const FCNBase &f, const std::vector<double> &v, const std::vector<double> &e, unsigned s = 1) : MnApplication(f, MnUserParameters(v, e), MnStrategy(s), kSimplex) {} };
} }
#endif
