// A small stand-in for the parts of casacore that Dysco uses: tables in memory whose columns are either kept in memory (the
// default manager) or handled by a registered data manager, driven through casacore's protocol (create/open, prepare, addRow,
// addColumn, removeColumn, flush, ...).
#pragma once
#include <complex>
#include <cstdint>
#include <exception>
#include <limits>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include <cstring>
#include <iostream>
#include <fstream>
#include <sstream>
#include <unistd.h>
namespace mini { struct Conf { long processors = 1; bool farRows = false; void (*changing)() = nullptr; };   // farRows: scalar columns have the contents of row 0 in rows that do not exist; changing: called before the columns of a table are changed
 inline Conf &conf() { static Conf c; return c; } inline void changing() { if (conf().changing) conf().changing(); }
inline long sysconf(int) { return conf().processors; } inline int unlink(const char *n) { return symio::remove(n) ? 0 : -1; } inline int truncate(const char *n, size_t k) { symio::File *f = symio::lookup(n, false); if (!f || !f->exists) return -1; if (k < f->b.n) f->b.n = k; else if (k > f->b.n) { char z = 0; f->b.put(k - 1, &z, 1); } return 0; } }
#define sysconf(x) mini::sysconf(x)
#define unlink(x) mini::unlink(x)
#define truncate(x, n) mini::truncate(x, n)
namespace casacore {
typedef bool Bool; typedef unsigned char uChar; typedef short Short; typedef unsigned short uShort; typedef int Int; typedef unsigned int uInt; typedef long long Int64; typedef unsigned long long uInt64; typedef float Float; typedef double Double; typedef std::complex<float> Complex; typedef std::complex<double> DComplex; typedef uInt64 rownr_t;
const Bool True = true, False = false;
class String : public std::string { public: String() {} String(const std::string &s) : std::string(s) {} String(const char *s) : std::string(s) {} String(const char *s, size_t n) : std::string(s, n) {} const char *chars() const { return c_str(); } };
enum DataType { TpBool, TpChar, TpUChar, TpShort, TpUShort, TpInt, TpUInt, TpFloat, TpDouble, TpComplex, TpDComplex, TpString, TpTable, TpArrayBool };
template <typename T> struct TypeOf; template <> struct TypeOf<bool> { static const int v = TpBool; }; template <> struct TypeOf<int> { static const int v = TpInt; }; template <> struct TypeOf<float> { static const int v = TpFloat; }; template <> struct TypeOf<double> { static const int v = TpDouble; }; template <> struct TypeOf<Complex> { static const int v = TpComplex; };
class AipsError : public std::exception { public: AipsError() {} AipsError(const String &m) : message(m) {} const char *what() const noexcept override { return message.c_str(); } const String &getMesg() const { return message; } protected: String message; };
class TableError : public AipsError { public: TableError() {} TableError(const String &m) : AipsError(m) {} };
class DataManError : public AipsError { public: DataManError() {} DataManError(const String &m) : AipsError(m) {} };
class IPosition {
  size_t n; ssize_t v[4];
public:
  IPosition() : n(0) {} explicit IPosition(size_t k) : n(k) {} IPosition(size_t k, ssize_t a, ssize_t b = 0, ssize_t c = 0) : n(k) { v[0] = a; if (k > 1) v[1] = b ? b : a; if (k > 2) v[2] = c; }
  size_t nelements() const { return n; } size_t size() const { return n; } bool empty() const { return n == 0; } ssize_t &operator[](size_t i) { return v[i]; } ssize_t operator[](size_t i) const { return v[i]; } ssize_t &operator()(size_t i) { return v[i]; } ssize_t operator()(size_t i) const { return v[i]; }
  ssize_t product() const { ssize_t p = n ? 1 : 0; for (size_t i = 0; i < n; i++) p *= v[i]; return p; } bool isEqual(const IPosition &o) const { if (n != o.n) return false; for (size_t i = 0; i < n; i++) if (v[i] != o.v[i]) return false; return true; } bool operator==(const IPosition &o) const { return isEqual(o); } bool operator!=(const IPosition &o) const { return !isEqual(o); }
};
// an array may be a view with a stride, then getStorage() hands out a copy that putStorage() writes back
template <typename T> class Array {
  struct Rep { T *p; size_t n; int rc; }; Rep *r; IPosition s; size_t stride = 1;
  static Rep *make(size_t n) { Rep *x = new Rep; x->p = n ? new T[n]() : nullptr; x->n = n; x->rc = 1; return x; } void drop() { if (--r->rc == 0) { delete[] r->p; delete r; } }
public:
  typedef T *contiter; typedef const T *const_contiter;
  Array() : r(make(0)) {} explicit Array(const IPosition &sh) : r(make((size_t)sh.product())), s(sh) {} Array(const IPosition &sh, const T &v) : Array(sh) { *this = v; } Array(const Array &o) : r(o.r), s(o.s), stride(o.stride) { r->rc++; } ~Array() { drop(); }
  static Array strided(const IPosition &sh, size_t st) { Array a; a.drop(); a.r = make((size_t)sh.product() * st); a.s = sh; a.stride = st; return a; }
  Array &operator=(const Array &o) { if (this == &o) return *this; if (nelements() == 0) { drop(); r = make(o.nelements()); s = o.s; stride = 1; } else if (s != o.s) throw AipsError("array conformance"); for (size_t i = 0; i < nelements(); i++) at(i) = o.at(i); return *this; }
  Array &operator=(const T &v) { for (size_t i = 0; i < nelements(); i++) at(i) = v; return *this; } void set(const T &v) { *this = v; }
  T &at(size_t i) { return r->p[i * stride]; } const T &at(size_t i) const { return r->p[i * stride]; }
  size_t nelements() const { return (size_t)s.product(); } size_t size() const { return nelements(); } bool empty() const { return nelements() == 0; } const IPosition &shape() const { return s; } bool contiguousStorage() const { return stride == 1; } void resize(const IPosition &sh) { if (sh == s) return; drop(); r = make((size_t)sh.product()); s = sh; stride = 1; }
  T *data() { return r->p; } const T *data() const { return r->p; } T *getStorage(Bool &del) { if (stride == 1) { del = false; return r->p; } del = true; T *q = new T[nelements()]; for (size_t i = 0; i < nelements(); i++) q[i] = at(i); return q; } const T *getStorage(Bool &del) const { return const_cast<Array *>(this)->getStorage(del); }
  void putStorage(T *&p, Bool del) { if (!del) { p = nullptr; return; } for (size_t i = 0; i < nelements(); i++) at(i) = p[i]; delete[] p; p = nullptr; } void freeStorage(const T *&p, Bool del) const { if (del) delete[] p; p = nullptr; }
  contiter cbegin() { return r->p; } contiter cend() { return r->p + r->n; } const_contiter cbegin() const { return r->p; } const_contiter cend() const { return r->p + r->n; } contiter begin() { return r->p; } contiter end() { return r->p + r->n; }
};
class RecordFieldId { public: String n; RecordFieldId(const char *s) : n(s) {} RecordFieldId(const String &s) : n(s) {} RecordFieldId(const std::string &s) : n(s) {} };
class RecordInterface {
public:
  struct Field { String n; int type; long long i; double d; String s; };
  std::vector<Field> f; struct Desc { const RecordInterface *r; Int fieldNumber(const String &n) const { for (size_t i = 0; i < r->f.size(); i++) if (r->f[i].n == n) return (Int)i; return -1; } bool isDefined(const String &n) const { return fieldNumber(n) >= 0; } uInt nfields() const { return (uInt)r->f.size(); } };
  Desc description() const { return Desc{this}; } Int fieldNumber(const String &n) const { return description().fieldNumber(n); } bool isDefined(const String &n) const { return fieldNumber(n) >= 0; } uInt nfields() const { return (uInt)f.size(); }
  Field &put(const String &n, int t) { Int k = fieldNumber(n); if (k < 0) { f.push_back(Field()); k = (Int)f.size() - 1; f[k].n = n; f[k].type = t; } else if (f[k].type != t) throw AipsError("RecordInterface: invalid type for field"); return f[k]; }
  void define(const RecordFieldId &n, Bool v) { put(n.n, TpBool).i = v; } void define(const RecordFieldId &n, Short v) { put(n.n, TpShort).i = v; } void define(const RecordFieldId &n, Int v) { put(n.n, TpInt).i = v; } void define(const RecordFieldId &n, uInt v) { put(n.n, TpUInt).i = v; } void define(const RecordFieldId &n, uChar v) { put(n.n, TpUChar).i = v; } void define(const RecordFieldId &n, float v) { put(n.n, TpFloat).d = v; } void define(const RecordFieldId &n, double v) { put(n.n, TpDouble).d = v; } void define(const RecordFieldId &n, const String &v) { put(n.n, TpString).s = v; } void define(const RecordFieldId &n, const char *v) { put(n.n, TpString).s = v; } void define(const RecordFieldId &n, const std::string &v) { put(n.n, TpString).s = v; }
  const Field &get(const RecordFieldId &n) const { Int k = fieldNumber(n.n); if (k < 0) throw AipsError("RecordInterface: field is unknown"); return f[k]; }
  static bool integral(int t) { return t == TpShort || t == TpInt || t == TpUInt || t == TpUChar; }
  Int asInt(const RecordFieldId &n) const { const Field &x = get(n); if (!integral(x.type)) throw AipsError("RecordInterface::asInt - invalid data type"); return (Int)x.i; } uInt asuInt(const RecordFieldId &n) const { return (uInt)asInt(n); } Bool asBool(const RecordFieldId &n) const { const Field &x = get(n); if (x.type != TpBool) throw AipsError("RecordInterface::asBool - invalid data type"); return x.i; }
  Double asDouble(const RecordFieldId &n) const { const Field &x = get(n); if (x.type == TpFloat || x.type == TpDouble) return x.d; if (!integral(x.type)) throw AipsError("RecordInterface::asDouble - invalid data type"); return (Double)x.i; } float asFloat(const RecordFieldId &n) const { return (float)asDouble(n); } const String &asString(const RecordFieldId &n) const { const Field &x = get(n); if (x.type != TpString) throw AipsError("RecordInterface::asString - invalid data type"); return x.s; }
};
typedef RecordInterface Record;
class AipsIO {};
class Table; class DataManager; struct TableImpl;
class DataManagerColumn {
  int _t; public: explicit DataManagerColumn(int t = TpFloat) : _t(t) {} virtual ~DataManagerColumn() {} int dataType() const { return _t; }
  virtual Bool isWritable() const { return true; } virtual void setShapeColumn(const IPosition &) { throw DataManError("setShapeColumn"); } virtual IPosition shape(uInt) { throw DataManError("shape"); } virtual uInt ndim(uInt r) { return (uInt)shape(r).nelements(); } virtual Bool isShapeDefined(uInt) { return true; } virtual Bool canChangeShape() const { return false; }
  virtual void getArrayComplexV(uInt, Array<Complex> *) { throw DataManError("getArrayComplexV not possible"); } virtual void putArrayComplexV(uInt, const Array<Complex> *) { throw DataManError("putArrayComplexV not possible"); } virtual void getArrayfloatV(uInt, Array<float> *) { throw DataManError("getArrayfloatV not possible"); } virtual void putArrayfloatV(uInt, const Array<float> *) { throw DataManError("putArrayfloatV not possible"); }
  void get(uInt r, Array<Complex> *a) { getArrayComplexV(r, a); } void get(uInt r, Array<float> *a) { getArrayfloatV(r, a); } void put(uInt r, const Array<Complex> *a) { putArrayComplexV(r, a); } void put(uInt r, const Array<float> *a) { putArrayfloatV(r, a); }
  template <typename T> void get(uInt, Array<T> *) { throw DataManError("type"); } template <typename T> void put(uInt, const Array<T> *) { throw DataManError("type"); }
};
typedef DataManagerColumn StManColumn;
typedef DataManager *(*DataManagerCtor)(const String &, const Record &);
class DataManager {
  TableImpl *_tab = nullptr; String _file; Table *_th = nullptr; friend struct TableImpl;
public:
  DataManager() {} virtual ~DataManager(); DataManager(const DataManager &) = delete;
  virtual DataManager *clone() const = 0; virtual String dataManagerName() const { return String(); } virtual String dataManagerType() const = 0; virtual Record dataManagerSpec() const { return Record(); } virtual Bool isStorageManager() const { return true; }
  virtual Bool canReallocateColumns() const { return false; } virtual Bool canAddRow() const { return false; } virtual Bool canRemoveRow() const { return false; } virtual Bool canAddColumn() const { return false; } virtual Bool canRemoveColumn() const { return false; } virtual Bool canRenameColumn() const { return true; }
  virtual Bool flush(AipsIO &, Bool) = 0; virtual void create(uInt) = 0; virtual void open(uInt, AipsIO &) = 0; virtual void resync(uInt) = 0; virtual void prepare() {} virtual void reopenRW() {} virtual void deleteManager() = 0; virtual void addRow(uInt) { throw DataManError("addRow"); } virtual void removeRow(uInt) { throw DataManError("removeRow"); } virtual void addColumn(DataManagerColumn *) { throw DataManError("addColumn"); } virtual void removeColumn(DataManagerColumn *) { throw DataManError("removeColumn"); }
  virtual DataManagerColumn *makeScalarColumn(const String &, int, const String &) = 0; virtual DataManagerColumn *makeDirArrColumn(const String &, int, const String &) = 0; virtual DataManagerColumn *makeIndArrColumn(const String &, int, const String &) = 0;
  DataManagerColumn *createScalarColumn(const String &n, int t, const String &i) { return makeScalarColumn(n, t, i); } DataManagerColumn *createDirArrColumn(const String &n, int t, const String &i) { return makeDirArrColumn(n, t, i); } DataManagerColumn *createIndArrColumn(const String &n, int t, const String &i) { return makeIndArrColumn(n, t, i); }
  String fileName() const { return _file; } Table &table() const { return *_th; }
  struct Reg { String n[4]; DataManagerCtor c[4]; int k = 0; }; static Reg &reg() { static Reg r; return r; }
  static void registerCtor(const String &n, DataManagerCtor c) { Reg &r = reg(); for (int i = 0; i < r.k; i++) if (r.n[i] == n) { r.c[i] = c; return; } r.n[r.k] = n; r.c[r.k++] = c; } static DataManagerCtor getCtor(const String &n) { Reg &r = reg(); for (int i = 0; i < r.k; i++) if (r.n[i] == n) return r.c[i]; throw DataManError("unknown data manager " + n); } static bool isRegistered(const String &n) { Reg &r = reg(); for (int i = 0; i < r.k; i++) if (r.n[i] == n) return true; return false; }
};
// ---- tables
struct ColBase { String name, original, desc = "StandardStMan", group = "StandardStMan"; int type; bool array; IPosition shape; int dm = -1; DataManagerColumn *dmc = nullptr; unsigned long long writes = 0; virtual ~ColBase() {} virtual void resize(size_t) {} virtual ColBase *blank() const = 0; virtual void copyRow(ColBase &from, size_t r) = 0; virtual void copyRow2(size_t) = 0; };
template <typename T> struct ColOf : ColBase {
  std::vector<T *> v; ColOf(const String &n, bool a, const IPosition &s) { name = original = n; type = TypeOf<T>::v; array = a; shape = s; } size_t per() const { return array ? (size_t)shape.product() : 1; }
  void resize(size_t n) override { if (dm >= 0) return; while (v.size() > n) { delete[] v.back(); v.pop_back(); } while (v.size() < n) v.push_back(new T[per()]()); } ~ColOf() { for (T *p : v) delete[] p; } ColBase *blank() const override { return new ColOf<T>(name, array, shape); }
  void get(uInt r, Array<T> &a) { if (dm >= 0) dmc->get(r, &a); else for (size_t i = 0; i < per(); i++) a.at(i) = v[r][i]; } void put(uInt r, const Array<T> &a) { writes++; if (dm >= 0) dmc->put(r, &a); else for (size_t i = 0; i < per(); i++) v[r][i] = a.at(i); }
  void copyRow2(size_t i) override { for (size_t k = 0; k < per(); k++) v[i][k] = v[i + 1][k]; }
  void copyRow(ColBase &from, size_t r) override { ColOf<T> &o = static_cast<ColOf<T> &>(from); if (array) { Array<T> a(shape); o.get((uInt)r, a); put((uInt)r, a); } else v[r][0] = o.v[r][0]; }
};
struct Man { DataManager *dm = nullptr; String type, name, file; bool gone = false; };
struct TableImpl {
  String path; uInt nrow = 0; std::vector<ColBase *> cols; std::vector<Man> mans; int refs = 0; bool live = false, deleteMark = false, exists = true; Table *self = nullptr;
  ColBase *find(const String &n) { for (ColBase *c : cols) if (c->name == n) return c; return nullptr; } ColBase *need(const String &n) { ColBase *c = find(n); if (!c) throw TableError("Table column " + n + " is unknown"); return c; }
  void attach(DataManager *d, const String &f); void makeColumn(ColBase *c) { DataManager *d = mans[c->dm].dm; c->dmc = c->array ? d->createDirArrColumn(c->original, c->type, "") : d->createScalarColumn(c->original, c->type, ""); if (c->array) c->dmc->setShapeColumn(c->shape); }
  void openAll(); void closeAll(); void destroy(); void move(const String &to);
  int newMan(const DataManager &proto) { Man m; m.type = proto.dataManagerType(); m.name = proto.dataManagerName(); for (Man &o : mans) if (!o.gone && o.name == m.name) throw TableError("Data manager name already exists"); char seq[2] = {(char)('0' + mans.size()), 0}; m.file = path + "/table.f" + seq; m.dm = proto.clone(); mans.push_back(m); attach(m.dm, m.file); return (int)mans.size() - 1; }
  void addRow(uInt n) { for (Man &m : mans) if (!m.gone && !m.dm->canAddRow()) throw TableError("rows cannot be added"); for (Man &m : mans) if (!m.gone) m.dm->addRow(n); nrow += n; for (ColBase *c : cols) c->resize(nrow); }
  void removeRow(uInt r) { if (r >= nrow) throw TableError("no such row"); for (Man &m : mans) if (!m.gone) m.dm->removeRow(r); for (ColBase *c : cols) if (c->dm < 0) { for (uInt i = r; i + 1 < nrow; i++) c->copyRow2(i); } nrow--; for (ColBase *c : cols) c->resize(nrow); }
  void addCol(ColBase *c, int dm, bool create) { c->dm = dm; if (dm < 0) { c->resize(nrow); cols.push_back(c); return; } makeColumn(c); cols.push_back(c); if (create) { mans[dm].dm->create(nrow); mans[dm].dm->prepare(); } else try { mans[dm].dm->addColumn(c->dmc); } catch (...) { removeCol(c->name); throw; } }   // (a column that could not be added is removed again, as casacore does)
  void removeCol(const String &n) { ColBase *c = need(n); if (c->dm >= 0) { int others = 0; for (ColBase *o : cols) if (o != c && o->dm == c->dm) others++; Man &m = mans[c->dm]; if (others) { if (!m.dm->canRemoveColumn()) throw TableError("column cannot be removed"); m.dm->removeColumn(c->dmc); } else { m.dm->deleteManager(); delete m.dm; m.dm = nullptr; m.gone = true; } } for (size_t i = 0; i < cols.size(); i++) if (cols[i] == c) { for (size_t k = i; k + 1 < cols.size(); k++) cols[k] = cols[k + 1]; cols.pop_back(); break; } delete c; }
};
}
#include "casacore/mini_table.h"
