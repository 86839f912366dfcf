// Stand-in for ROOT's trees: an in-memory table, branches point at the variables they are filled from.
#ifndef SX_TTREE
#define SX_TTREE
#include <cstddef>
#include <map>
#include <string>
#include <vector>
#include <TROOTFile.h>
class TBranch {};
class TLeaf { public: std::string name; double value; TLeaf(const std::string &n = "") : name(n), value(0) {} double GetValue(int = 0) const { return value; } const char *GetName() const { return name.c_str(); } };
class TObjArray { public: std::vector<TLeaf *> v; TLeaf *At(int i) const { return v.at(i); } int GetEntries() const { return v.size(); } int GetEntriesFast() const { return v.size(); } };
class TTree : public TObject {
public:
  TTree(const char *n = "", const char *t = "") : name(n), title(t) {}
  TBranch *Branch(const char *n, void *p, const char *leaf, int = 32000) { addr.push_back(p); names.push_back(n); std::string l = leaf; type.push_back(l[l.size() - 1]); leafname.push_back(l.substr(0, l.size() - 2)); return 0; }
  int Fill() { std::vector<double> r; for (size_t i = 0; i < addr.size(); i++) r.push_back(type[i] == 'D' ? *(double *)addr[i] : type[i] == 'F' ? *(float *)addr[i] : type[i] == 'O' ? *(bool *)addr[i] : *(int *)addr[i]); rows.push_back(r); return 1; }
  long GetEntries() const { return rows.size(); }
  virtual int GetEntry(long i) { if (i < 0 || i >= (long)rows.size()) return 0; Leaves(); for (size_t k = 0; k < leaves.v.size(); k++) leaves.v[k]->value = rows[i][k]; return 1; }
  int GetNbranches() const { return names.size(); }
  TObjArray *GetListOfBranches() { Leaves(); return &leaves; }
  TLeaf *GetLeaf(const char *n) { Leaves(); for (size_t k = 0; k < leaves.v.size(); k++) if (leaves.v[k]->name == n) return leaves.v[k]; return 0; }
  void LoadBaskets(long = 0) {} void DropBaskets() {}
  const char *GetName() const { return name.c_str(); }
  int Write();
  std::vector<std::string> names, leafname; std::vector<std::vector<double> > rows; std::string name, title;
  virtual ~TTree() { for (size_t k = 0; k < leaves.v.size(); k++) delete leaves.v[k]; }
protected:
  TTree(const TTree &);
  void Leaves() { while (leaves.v.size() < names.size()) leaves.v.push_back(new TLeaf(names[leaves.v.size()])); }
  std::vector<void *> addr; std::vector<char> type; TObjArray leaves;
};
#endif
