// Stand-in for ROOT's files: objects kept in memory under the file's path.
#ifndef SX_TROOTFILE
#define SX_TROOTFILE
#include <map>
#include <string>
class TObject { public: virtual ~TObject() {} };
struct sx_rootfile { std::map<std::string, TObject *> obj; }; // the objects live as long as the program
inline std::map<std::string, sx_rootfile> &sx_rootfiles() { static std::map<std::string, sx_rootfile> m; return m; }
class TFile;
inline TFile *&sx_currentfile() { static TFile *f = 0; return f; }
class TFile : public TObject {
public:
  TFile(const char *p, const char *mode = "") : path(p), open(true) { if (std::string(mode) == "RECREATE") sx_rootfiles()[path] = sx_rootfile(); else open = sx_rootfiles().count(path); sx_currentfile() = this; }
  bool IsZombie() const { return !open; }
  TObject *Get(const char *n) { std::map<std::string, TObject *> &o = sx_rootfiles()[path].obj; return o.count(n) ? o[n] : 0; }
  bool cd() { sx_currentfile() = this; return true; }
  void Close() { open = false; }
  void Put(const std::string &n, TObject *o) { sx_rootfiles()[path].obj[n] = o; }
  std::string path; bool open;
};
#endif
