// Stand-in for ROOT's ntuples: rows of floats.
#ifndef SX_TNTUPLE
#define SX_TNTUPLE
#include <TTree.h>
class TNtuple : public TTree {
public:
  TNtuple(const char *n, const char *t, const char *vars) : TTree(n, t) { std::string s = vars, c; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == ':') { names.push_back(c); c.clear(); } else c += s[i]; args.resize(names.size()); }
  int Fill(const float *x) { std::vector<double> r; for (size_t i = 0; i < names.size(); i++) r.push_back(x[i]); rows.push_back(r); return 1; }
  int GetEntry(long i) { TTree::GetEntry(i); if (i < 0 || i >= (long)rows.size()) return 0; for (size_t k = 0; k < names.size(); k++) args[k] = rows[i][k]; return 1; }
  float *GetArgs() { return &args[0]; }
  int GetNvar() const { return names.size(); }
  int Write() { if (sx_currentfile()) { TNtuple *c = new TNtuple(name.c_str(), title.c_str(), join().c_str()); c->rows = rows; sx_currentfile()->Put(name, c); } return 1; }
private:
  std::string join() const { std::string s; for (size_t i = 0; i < names.size(); i++) s += (i ? ":" : "") + names[i]; return s; }
  std::vector<float> args;
};
#endif
