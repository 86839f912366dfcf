// C31: configuration text
// SRC: Formatter.cpp
// BUDGET: 150
// BOUNDS: one line of up to 3 (thorough 4) arbitrary bytes inside a file with a section before and a field after it; whole files of up to 2 (thorough 4) arbitrary bytes; nested sections by choice of up to 4 headings; lists of up to 5 (thorough 6) arbitrary bytes with any delimiter; lookups with keys of up to 2 arbitrary bytes; single runs of many items
// OUTSIDE: NUL bytes; longer lines; numeric conversion beyond the listed texts
// ASSUME: std::getline is replaced by an equivalent over the stream's buffer and the C string functions by byte loops, so that symbolic bytes survive
#ifdef SX_SYMBOLIC
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0 // instantiate strings and streams here, instrumented
#endif
#include "hx.h"
#include <fstream>
#include <unistd.h>
#include <iostream>
#include <list>
#include <sstream>
#ifdef SX_SYMBOLIC
int sx_private_std = 1;
namespace std {
inline istream &sx_getline(istream &s, string &l, char d = '\n') { l.clear(); if (!s.good()) { s.setstate(ios::failbit); return s; } bool got = false; for (;;) { int c = s.rdbuf()->sbumpc(); if (c == EOF) { s.setstate(got ? ios::eofbit : ios::eofbit | ios::failbit); return s; } got = true; if ((char)c == d) return s; l.push_back((char)c); } }
}
#define getline sx_getline
#endif
#define private public
#include <ConfigLoader.hh>
#undef private
#include <ContainerTools.hpp>
#include <Exceptions.h>
#include <ContainerTools.cpp>
#include <ConfigLoader.cpp>
typedef std::string S; typedef std::vector<S> Vs;
static S N(int i) { return std::to_string(i); }
static S bytes(const char *p, int n, bool newline) { S s; for (int i = 0; i < n; i++) { char c = (char)sx_u64((p + N(i)).c_str(), 1, 127); if (!newline) sx_assume(c != '\n'); s.push_back(c); } return s; }
static bool white(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static S cut(const S &s, size_t a, size_t b) { while (a < b && white(s[a])) a++; while (b > a && white(s[b - 1])) b--; S r; for (; a < b; a++) r.push_back(s[a]); return r; }
// an independent reader: a list of (path, key, value) and of section paths
struct Ref { struct Sec { Vs path; }; std::vector<Vs> secs; std::vector<std::pair<Vs, std::pair<S, S>>> vals; bool bad = false; Vs at;
  void line(const S &l) { if (bad) return; if (!l.empty() && (l[0] == '#' || l[0] == ';')) return; S t = cut(l, 0, l.size()); if (t.empty()) return; size_t n = t.size();
    if (t[0] == '[') { size_t d = 0; while (d < n && t[d] == '[') d++; size_t e = d; while (e < n && t[e] != ']') e++; size_t c = e; while (c < n && t[c] == ']') c++; if (c != n || c - e != d || d > at.size() + 1) { bad = true; return; } Vs p(at.begin(), at.begin() + (d - 1)); p.push_back(cut(t, d, e)); for (auto &q : secs) if (q == p) { bad = true; return; } secs.push_back(p); at = p; return; }
    size_t e = 0; while (e < n && t[e] != '=') e++; if (e == n) { bad = true; return; } S k = cut(t, 0, e), v = cut(t, e + 1, n); for (auto &q : vals) if (q.first == at && q.second.first == k) { bad = true; return; } vals.push_back({at, {k, v}}); }
  void text(const S &s) { S l; for (char c : s) if (c == '\n') { line(l); l.clear(); } else l.push_back(c); if (!l.empty()) line(l); }
};
static size_t count(const INI::Level &l, size_t &secs) { size_t n = l.values.size(); for (auto &s : l.sections) { secs++; n += count(s.second, secs); } return n; }
static void compare(const S &text) {
  Ref r; r.text(text); std::istringstream in(text); INI::Parser *p = nullptr; bool bad = false; try { p = new INI::Parser(in); } catch (const std::runtime_error &) { bad = true; } if (r.bad) { sx_assert(bad, "malformed and duplicate lines are refused"); return; } sx_assert(!bad, "well-formed text is accepted"); if (bad) return;
  size_t secs = 0, vals = count(p->top(), secs); sx_assert(secs == r.secs.size(), "exactly the sections written"); sx_assert(vals == r.vals.size(), "exactly the fields written");
  for (auto &v : r.vals) { INI::Level *l = &p->top(); bool ok = true; for (auto &s : v.first) { auto it = l->sections.find(s); if (it == l->sections.end()) { ok = false; break; } l = &it->second; } sx_assert(ok, "every section is found under its trimmed name"); if (!ok) break; auto it = l->values.find(v.second.first); sx_assert(it != l->values.end() && it->second == v.second.second, "every field is found under its trimmed name with its trimmed value"); }
  for (auto &s : r.secs) { INI::Level *l = &p->top(); bool ok = true; for (auto &q : s) { auto it = l->sections.find(q); if (it == l->sections.end()) { ok = false; break; } l = &it->second; } sx_assert(ok, "every section is found under its trimmed name"); }
  delete p;
}
SX_HARNESS(h_line) { int n = 1 + sx_choice("n", h_thorough() ? 6 : 5); compare("[s]\nk=v\n" + bytes("c", n, false) + "\nz=1\n"); }
SX_HARNESS(h_file) { int n = 1 + sx_choice("n", h_thorough() ? 6 : 5); compare(bytes("c", n, true)); }
SX_HARNESS(h_field) { // spaces around name and value
  S k = bytes("k", h_thorough() ? 2 : 1, false), v = bytes("v", 2, false); for (char c : k) sx_assume(c > ' ' && c != '[' && c != '=' && c != '#' && c != ';'); for (char c : v) sx_assume(c > ' '); S pad[] = {"", " ", "\t ", "\r"}; S t = "[s]\n" + pad[sx_choice("p", 3)] + k + pad[sx_choice("q", 3)] + "=" + pad[sx_choice("r", 3)] + v + pad[sx_choice("t", 4)] + "\n"; std::istringstream in(t); INI::Parser p(in); sx_assert(p.top().sections.size() == 1 && p.top().values.empty(), "exactly the sections written"); INI::Level &s = p.top()("s"); sx_assert(s.values.size() == 1 && s.values.count(k) && s[k] == v, "the field is found under its trimmed name with its trimmed value"); }
SX_HARNESS(h_nesting) { // headings of any depth, in any order
  static const char *const H[] = {"[a]", "[b]", "[[a]]", "[[b]]", "[[[a]]]", "[a]]", "[ b ]"}; S t = sx_choice("top", 2) ? "t=0\n" : ""; int n = h_thorough() ? 5 : 4; for (int i = 0; i < n; i++) { t += H[sx_choice(("h" + N(i)).c_str(), i == 0 ? 2 : h_thorough() || i == 2 ? 7 : 5)]; t += i % 2 ? "\nf=" + N(i) + "\n" : "\n# c\n\ng = " + N(i) + "\n"; } compare(t); }
static void use(const S &t) { std::istringstream in(t); ConfigLoader::Close(); ConfigLoader::fParser = new INI::Parser(in); }
SX_HARNESS(h_lookup) { // missing sections and fields are told apart
  use("[ab]\nx = 1\nyz = p,,q , r\n[c]\nx=2\n"); S sec = bytes("s", 1 + sx_choice("ns", 2), false), f = bytes("f", 1 + sx_choice("nf", 2), false), got = "none"; int r = 0; try { ConfigLoader::Load(sec, f, got); } catch (const ConfigSectionMissing &) { r = 1; } catch (const ConfigFieldMissing &) { r = 2; } bool ks = sec == "ab" || sec == "c", kf = f == "x" || (sec == "ab" && f == "yz"); sx_assert(r == (!ks ? 1 : !kf ? 2 : 0), "missing sections and fields are refused"); sx_assert(got == (r ? S("none") : f == "x" ? S(sec == "ab" ? "1" : "2") : S("p,,q , r")), "the value is the field's"); ConfigLoader::Close(); }
SX_HARNESS(h_types) { use("[n]\ni = -12\nd = 2.5e1\nb = 1\nl = p,,q , r\nempty =\nbad = x\n"); int i = 0; double d = 0; bool b = false; unsigned u = 0; ConfigLoader::Load("n", "i", i); ConfigLoader::Load("n", "d", d); ConfigLoader::Load("n", "b", b); sx_assert(i == -12 && d == 25 && b, "numbers are converted"); int k = 7; SX_THROWS(ValueError, ConfigLoader::Load("n", "bad", k), "what is not a number is refused"); SX_THROWS(ValueError, ConfigLoader::Load("n", "empty", u), "what is not a number is refused"); Vs v; std::set<S> s; std::list<S> l; ConfigLoader::Load("n", "l", v); ConfigLoader::Load("n", "l", s); ConfigLoader::Load("n", "l", l); sx_assert(v == (Vs{"p", "q ", " r"}) && s == (std::set<S>{"p", "q ", " r"}) && l.size() == 3, "lists keep their non-empty items in order"); Vs e; ConfigLoader::Load("n", "empty", e); sx_assert(e.empty(), "an empty list has no items"); sx_assert(ConfigLoader::ListSections() == (std::set<S>{"n"}), "sections are listed"); ConfigLoader::Close(); sx_assert(ConfigLoader::ListSections().empty(), "nothing is listed after closing"); SX_THROWS_ANY(ConfigLoader::Load("n", "i", i), "nothing is found after closing"); }
SX_HARNESS(h_split) { int n = sx_choice("n", h_thorough() ? 7 : 6); S s = bytes("c", n, true); char d = sx_choice("delim", 2) ? ',' : (char)sx_u64("d", 1, 127); Vs want; S cur; for (char c : s) if (c == d) { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur.push_back(c); if (!cur.empty()) want.push_back(cur); Vs got = ContainerTools::Split(s, d); sx_assert(got == want, "lists split into their non-empty items in order"); }
SX_HARNESS(h_open) { // refused files leave nothing open
  SX_THROWS(IOError, ConfigLoader::Open("/nonexistent/file"), "a missing file is refused"); use("[a]\nx=1\n"); SX_THROWS(IOError, ConfigLoader::Open("/nonexistent/file"), "a missing file is refused"); ConfigLoader::Close(); ConfigLoader::Close(); int i; SX_THROWS_ANY(ConfigLoader::Load("a", "z", i), "nothing is found after closing"); }
SX_HARNESS(h_many) { // many sections, fields and list items, alike in name, in an order of their own
  Vs nm; for (int i = 0; i < 24; i++) nm.push_back(i == 5 ? "s" : i == 9 ? "S_1" : i == 13 ? "s_1 x" : "s_" + N((i * 7) % 24)); char c = (char)sx_u64("c", 'a', 'z'); auto val = [&](int i, int j) { return "v" + N(i * 100 + j) + (i == 11 && j == 3 ? S(1, c) : S()); }; S t = "top = 1\n"; for (int i = 0; i < 24; i++) { t += "[" + nm[i] + "]\n"; for (int j = 0; j < 14; j++) t += nm[(i + j * 5) % 24] + " = " + val(i, j) + "\n"; t += "list="; for (int j = 0; j < 15; j++) t += (j ? ", " : " ") + N(j * i) + (j % 3 ? "" : ","); t += "\n"; }
  compare(t); use(t); std::set<S> all(nm.begin(), nm.end()); sx_assert(ConfigLoader::ListSections() == all, "sections are listed");
  for (int i = 0; i < 24; i++) { for (int j = 0; j < 14; j++) { S got; ConfigLoader::Load(nm[i], nm[(i + j * 5) % 24], got); sx_assert(got == val(i, j), "the value is the field's"); } S none = "none"; SX_THROWS(ConfigFieldMissing, ConfigLoader::Load(nm[i], nm[(i + 70) % 24], none), "missing sections and fields are refused"); SX_THROWS(ConfigSectionMissing, ConfigLoader::Load(nm[i] + "_", "list", none), "missing sections and fields are refused"); Vs v, w; ConfigLoader::Load(nm[i], "list", v); for (int j = 0; j < 15; j++) w.push_back((j ? " " : "") + N(j * i)); sx_assert(v == w && none == "none", "lists keep their non-empty items in order"); }
  ConfigLoader::Close();
}
SX_HARNESS(h_reopen) { // opening a file replaces whatever was open
  static const char *const T[] = {"", "# nothing\n", "x = 2\n", "[b]\ny=3\n", "[a]\nz=4\n", "[a]\nx=5\n"}; std::string dir = "/tmp/sxXXXXXX"; sx_assert(mkdtemp(&dir[0]) != nullptr, "a scratch directory"); S f0 = dir + "/one", f1 = dir + "/two"; int first = sx_choice("first", 6), k = sx_choice("second", 6), close = sx_choice("close", 2); { std::ofstream o(f0); o << (first ? T[first] : "[a]\nx=1\n[c]\nx=9\n"); } { std::ofstream o(f1); o << T[k]; } bool bad = false; try { ConfigLoader::Open(f0); if (close) ConfigLoader::Close(); ConfigLoader::Open(f1); } catch (...) { bad = true; } remove(f0.c_str()); remove(f1.c_str()); rmdir(dir.c_str()); sx_assert(!bad, "readable files are opened"); std::set<S> want; if (k == 3) want.insert("b"); if (k > 3) want.insert("a"); sx_assert(ConfigLoader::ListSections() == want, "exactly the sections of the file last opened"); S v = "none"; int r = 0; try { ConfigLoader::Load("a", "x", v); } catch (const ConfigSectionMissing &) { r = 1; } catch (const ConfigFieldMissing &) { r = 2; } sx_assert(r == (k < 4 ? 1 : k == 4 ? 2 : 0) && v == (k == 5 ? "5" : "none"), "only the fields of the file last opened are found"); ConfigLoader::Close(); }
