#ifndef MN_Minimize_STUB_H
#define MN_Minimize_STUB_H
#include "MnApplication.h"
namespace ROOT { namespace Minuit2 {
class MnMinimize : public MnApplication { public: MnMinimize(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s = MnStrategy()) : MnApplication(f, p, s, kMinimize) {} MnMinimize(const FCNBase &f, const std::vector<double> &v, const std::vector<double> &e, unsigned s = 1) : MnApplication(f, MnUserParameters(v, e), MnStrategy(s), kMinimize) {} };
} }
#endif
