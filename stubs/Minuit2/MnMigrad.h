#ifndef MN_Migrad_STUB_H
#define MN_Migrad_STUB_H
#include "MnApplication.h"
namespace ROOT { namespace Minuit2 {
class MnMigrad : public MnApplication { public: MnMigrad(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s = MnStrategy()) : MnApplication(f, p, s, kMigrad) {} MnMigrad(const FCNBase &f, const std::vector<double> &v, const std::vector<double> &e, unsigned s = 1) : MnApplication(f, MnUserParameters(v, e), MnStrategy(s), kMigrad) {} };
} }
#endif
