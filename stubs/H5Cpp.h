// Stand-in for HDF5: files kept in memory under their path. Sizes of memory and file selections must match, as in HDF5.
#ifndef SX_H5CPP
#define SX_H5CPP
#include <cstring>
#include <map>
#include <string>
#include <vector>
typedef unsigned long long hsize_t;
enum H5S_class_t { H5S_SCALAR = 0, H5S_SIMPLE = 1 };
enum H5S_seloper_t { H5S_SELECT_SET = 0 };
enum { H5F_ACC_RDONLY = 0, H5F_ACC_TRUNC = 2 };
namespace H5 {
typedef std::string H5std_string;
struct Exception { std::string what; Exception(const std::string &w = "") : what(w) {} };
struct FileIException : Exception { FileIException(const std::string &w = "") : Exception(w) {} };
struct DataSetIException : Exception { DataSetIException(const std::string &w = "") : Exception(w) {} };
struct AttributeIException : Exception { AttributeIException(const std::string &w = "") : Exception(w) {} };
struct DataSpaceIException : Exception { DataSpaceIException(const std::string &w = "") : Exception(w) {} };
struct GroupIException : Exception { GroupIException(const std::string &w = "") : Exception(w) {} };
struct DataType { char kind; size_t size; DataType(char k = 'd', size_t s = 8) : kind(k), size(s) {} };
struct PredType : DataType { PredType(char k, size_t s) : DataType(k, s) {} static const PredType NATIVE_DOUBLE, NATIVE_INT, C_S1; };
inline const PredType PredType::NATIVE_DOUBLE('d', 8); inline const PredType PredType::NATIVE_INT('i', 4); inline const PredType PredType::C_S1('s', 1);
struct StrType : DataType { StrType(const PredType &, size_t n) : DataType('s', n) { if (!n) throw Exception("empty string type"); } };
struct DataSpace {
  std::vector<hsize_t> dims; bool all, sel; hsize_t off, cnt;
  DataSpace() : all(true), sel(false), off(0), cnt(0) {} DataSpace(H5S_class_t) : all(false), sel(false), off(0), cnt(0) {} DataSpace(int r, const hsize_t *d) : dims(d, d + r), all(false), sel(false), off(0), cnt(0) {}
  static const DataSpace ALL;
  hsize_t size() const { hsize_t n = 1; for (hsize_t d : dims) n *= d; return n; } hsize_t points() const { return sel ? cnt : size(); }
  void selectHyperslab(H5S_seloper_t, const hsize_t *count, const hsize_t *start, const hsize_t *stride = 0, const hsize_t *block = 0) { if (dims.size() != 1 || (stride && *stride != 1) || (block && *block != 1)) throw DataSpaceIException("not modelled"); sel = true; cnt = *count; off = *start; }
  int getSimpleExtentDims(hsize_t *d, hsize_t * = 0) const { for (size_t i = 0; i < dims.size(); i++) d[i] = dims[i]; return dims.size(); }
};
inline const DataSpace DataSpace::ALL;
struct sx_attr { DataType type; DataSpace space; std::vector<double> d; std::vector<int> i; std::string s; };
struct sx_set { DataType type; DataSpace space; std::vector<double> d; std::map<std::string, sx_attr> attr; };
struct sx_file { std::map<std::string, sx_set> set; };
inline std::map<std::string, sx_file> &sx_h5files() { static std::map<std::string, sx_file> m; return m; }
struct Attribute {
  sx_attr *a; Attribute(sx_attr *p = 0) : a(p) {}
  void same(const DataType &t) const { if (t.kind != a->type.kind) throw AttributeIException("conversion not modelled"); }
  void write(const DataType &t, const void *p) { same(t); hsize_t n = a->space.size(); if (t.kind == 'd') a->d.assign((const double *)p, (const double *)p + n); else if (t.kind == 'i') { a->i.resize(n); memcpy(&a->i[0], p, 4 * n); } else throw AttributeIException("not modelled"); }
  void write(const DataType &t, const std::string &s) { same(t); a->s = s.substr(0, a->type.size); }
  void read(const DataType &t, void *p) const { same(t); if (t.kind == 'd') for (size_t k = 0; k < a->d.size(); k++) ((double *)p)[k] = a->d[k]; else if (t.kind == 'i') memcpy(p, a->i.data(), 4 * a->i.size()); else throw AttributeIException("not modelled"); }
  void read(const DataType &t, std::string &s) const { same(t); s = a->s; }
  DataType getDataType() const { return a->type; } DataSpace getSpace() const { return a->space; }
};
struct DataSet {
  sx_set *s; DataSet(sx_set *p = 0) : s(p) {}
  void move(double *to, const double *from, const DataType &t, const DataSpace &m, const DataSpace &f, bool out) const { if (t.kind != 'd' || s->type.kind != 'd') throw DataSetIException("conversion not modelled"); hsize_t n = f.all ? s->space.size() : f.points(), o = f.all || !f.sel ? 0 : f.off; if (o + n > s->space.size()) throw DataSetIException("selection outside the data"); if (!m.all && m.points() != n) throw DataSetIException("memory and file selections differ"); hsize_t b = m.all || !m.sel ? 0 : m.off; if (out) for (hsize_t k = 0; k < n; k++) s->d[o + k] = from[b + k]; else for (hsize_t k = 0; k < n; k++) to[b + k] = s->d[o + k]; }
  void write(const void *p, const DataType &t, const DataSpace &m = DataSpace::ALL, const DataSpace &f = DataSpace::ALL) { move(0, (const double *)p, t, m, f, true); }
  void read(void *p, const DataType &t, const DataSpace &m = DataSpace::ALL, const DataSpace &f = DataSpace::ALL) const { move((double *)p, 0, t, m, f, false); }
  Attribute createAttribute(const std::string &n, const DataType &t, const DataSpace &sp) { if (s->attr.count(n)) throw AttributeIException("exists already"); sx_attr &a = s->attr[n]; a.type = t; a.space = sp; return Attribute(&a); }
  Attribute openAttribute(const std::string &n) const { if (!s->attr.count(n)) throw AttributeIException("no such attribute"); return Attribute(&s->attr[n]); }
  bool attrExists(const std::string &n) const { return s->attr.count(n); }
  DataSpace getSpace() const { return s->space; } DataType getDataType() const { return s->type; } void close() {}
};
struct H5File {
  std::string path; H5File() {} H5File(const std::string &p, unsigned f) { if (f == H5F_ACC_TRUNC) { sx_h5files()[p] = sx_file(); path = p; } else openFile(p, f); }
  void openFile(const std::string &p, unsigned) { if (!sx_h5files().count(p)) throw FileIException("no such file"); path = p; }
  DataSet createDataSet(const std::string &n, const DataType &t, const DataSpace &sp) { sx_file &f = sx_h5files()[path]; if (f.set.count(n)) throw DataSetIException("exists already"); sx_set &s = f.set[n]; s.type = t; s.space = sp; s.d.assign(sp.size(), 0); return DataSet(&s); }
  DataSet openDataSet(const std::string &n) const { sx_file &f = sx_h5files()[path]; if (!f.set.count(n)) throw DataSetIException("no such data set"); return DataSet(&f.set[n]); }
  void close() {}
};
}
using H5::H5std_string;
#endif
