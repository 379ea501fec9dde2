#pragma once
namespace casacore {
struct Tables { TableImpl *t[8]; int n = 0; }; inline Tables &tables() { static Tables x; return x; }
class ColumnDesc { public: enum Option { Direct = 1, Undefined = 2, FixedShape = 4 }; String _dm, _group, _name; const String &dataManagerType() const { return _dm; } const String &dataManagerGroup() const { return _group; } const String &name() const { return _name; } };
template <typename T> class ArrayColumnDesc { public: String name, dm = "StandardStMan", group = "StandardStMan"; IPosition shape; int opt; ArrayColumnDesc(const String &n, const String &, const String &m, const String &g, const IPosition &s, int o = 0, int = -1) : name(n), dm(m), group(g), shape(s), opt(o) {} ArrayColumnDesc(const String &n, const IPosition &s, int o = 0) : name(n), shape(s), opt(o) {} ArrayColumnDesc(const String &n, const String &, const IPosition &s, int o = 0) : name(n), shape(s), opt(o) {} void setOptions(int o) { opt = o; } };
template <typename T> class ScalarColumnDesc { public: String name; explicit ScalarColumnDesc(const String &n) : name(n) {} };
class TableDesc { public: std::vector<ColumnDesc> cols; bool isColumn(const String &n) const { for (const ColumnDesc &c : cols) if (c._name == n) return true; return false; } uInt ncolumn() const { return (uInt)cols.size(); } const ColumnDesc &operator[](uInt i) const { return cols[i]; } const ColumnDesc &columnDesc(const String &n) const { for (const ColumnDesc &c : cols) if (c._name == n) return c; throw TableError("no column " + n); } const ColumnDesc &operator[](const String &n) const { return columnDesc(n); } };
// the manager of all columns without another one
class StandardStMan final : public DataManager { public: String dataManagerType() const override { return "StandardStMan"; } String dataManagerName() const override { return "StandardStMan"; } DataManager *clone() const override { return new StandardStMan; } Bool flush(AipsIO &, Bool) override { return false; } void create(uInt) override {} void open(uInt, AipsIO &) override {} void resync(uInt) override {} void deleteManager() override {} DataManagerColumn *makeScalarColumn(const String &, int, const String &) override { return nullptr; } DataManagerColumn *makeDirArrColumn(const String &, int, const String &) override { return nullptr; } DataManagerColumn *makeIndArrColumn(const String &, int, const String &) override { return nullptr; } };
class Table {
  TableImpl *p = nullptr; bool weak = false; void take(TableImpl *q) { p = q; if (p) p->refs++; } void drop() { if (p && !weak && --p->refs == 0) { p->closeAll(); if (p->deleteMark) p->destroy(); } p = nullptr; }
public:
  enum TableOption { Old = 1, New, NewNoReplace, Scratch, Update, Delete };
  Table() {} explicit Table(TableImpl *q, bool w = false) { if (w) { weak = true; p = q; } else take(q); } Table(const Table &o) { take(o.p); } Table &operator=(const Table &o) { if (o.p) o.p->refs++; drop(); p = o.p; weak = false; return *this; } ~Table() { drop(); }
  static TableImpl *lookup(const String &n) { Tables &t = tables(); for (int i = 0; i < t.n; i++) if (t.t[i]->exists && t.t[i]->path == n) return t.t[i]; return nullptr; }
  static String clean(const String &n) { String s(n); while (s.size() > 1 && s[s.size() - 1] == '/') s.resize(s.size() - 1); return s; }
  explicit Table(const String &n, TableOption o = Old) { TableImpl *q = lookup(clean(n)); if (!q) throw TableError("Table " + n + " does not exist"); (void)o; if (!q->live) q->openAll(); take(q); }
  static Table make(const String &n) { TableImpl *q = lookup(clean(n)); if (q) q->destroy(); q = new TableImpl; q->path = clean(n); q->live = true; Tables &t = tables(); t.t[t.n++] = q; return Table(q); }
  TableDesc tableDesc() const { TableDesc d; for (ColBase *c : p->cols) { ColumnDesc k; k._name = c->name; k._dm = c->desc; k._group = c->group; d.cols.push_back(k); } return d; } TableDesc actualTableDesc() const { TableDesc d = tableDesc(); for (size_t i = 0; i < p->cols.size(); i++) { const int k = p->cols[i]->dm; d.cols[i]._dm = k >= 0 ? p->mans[k].type : String("StandardStMan"); d.cols[i]._group = k >= 0 ? p->mans[k].name : String("StandardStMan"); } return d; } template <typename C, typename D> static C *named(C *c, const D &d) { c->desc = d.dm; c->group = d.group; return c; } Bool isNull() const { return !p; }
  uInt nrow() const { return p->nrow; } TableImpl *impl() const { return p; } const String &tableName() const { return p->path; } void addRow(uInt n = 1, Bool = false) { p->addRow(n); } void removeRow(rownr_t r) { p->removeRow((uInt)r); } Bool isWritable() const { return true; } void flush(Bool = false, Bool = true) { AipsIO io; for (Man &m : p->mans) if (!m.gone) m.dm->flush(io, false); }
  template <typename T> void addColumn(const ScalarColumnDesc<T> &d) { fresh(d.name); p->addCol(new ColOf<T>(d.name, false, IPosition()), -1, false); }
  template <typename T> void addColumn(const ArrayColumnDesc<T> &d) { fresh(d.name); p->addCol(new ColOf<T>(d.name, true, d.shape), -1, false); }
  template <typename T> void addColumn(const ArrayColumnDesc<T> &d, const DataManager &m) { fresh(d.name); ColOf<T> *c = named(new ColOf<T>(d.name, true, d.shape), d); int k = p->newMan(m); p->addCol(c, k, true); }
  // several columns with a new manager at once, as when a table is set up
  template <typename T, typename U> void addColumns(const ArrayColumnDesc<T> &d, const ArrayColumnDesc<U> &e, const DataManager &m, bool dPresent = true, bool ePresent = true) { int k = p->newMan(m); if (dPresent) { ColBase *c = named(new ColOf<T>(d.name, true, d.shape), d); c->dm = k; p->makeColumn(c); p->cols.push_back(c); } if (ePresent) { ColBase *c = named(new ColOf<U>(e.name, true, e.shape), e); c->dm = k; p->makeColumn(c); p->cols.push_back(c); } p->mans[k].dm->create(p->nrow); p->mans[k].dm->prepare(); }
  template <typename T> void addColumn(const ArrayColumnDesc<T> &d, const String &dm, Bool byName) { fresh(d.name); for (size_t k = 0; k < p->mans.size(); k++) { Man &m = p->mans[k]; if (!m.gone && (byName ? m.name : m.type) == dm && m.dm->canAddColumn()) { p->addCol(named(new ColOf<T>(d.name, true, d.shape), d), (int)k, false); return; } } throw TableError("no such data manager " + dm); }
  void fresh(const String &n) { mini::changing(); if (p->find(n)) throw TableError("column " + n + " already exists"); }
  void renameColumn(const String &nw, const String &old) { ColBase *c = p->need(old); fresh(nw); c->name = nw; } void removeColumn(const String &n) { mini::changing(); p->removeCol(n); } Bool canRemoveColumn(const String &) const { return true; }
  DataManager *findDataManager(const String &n, Bool byColumn = false) const { if (byColumn) { ColBase *c = p->need(n); static StandardStMan standard; return c->dm < 0 ? &standard : p->mans[c->dm].dm; } for (Man &m : p->mans) if (!m.gone && m.name == n) return m.dm; throw TableError("Data manager " + n + " does not exist"); }
  void deepCopy(const String &n, TableOption, Bool valueCopy = false) const {   // managers are rebuilt from their specification
    mini::changing();     Table t = make(n); TableImpl *q = t.p; q->nrow = p->nrow; (void)valueCopy; for (Man &m : p->mans) { Man c; if (m.gone) c.gone = true; else { Record spec = m.dm->dataManagerSpec(); c.type = m.type; c.name = m.name; c.dm = DataManager::getCtor(m.type)(m.name, spec); } char seq[2] = {(char)('0' + q->mans.size()), 0}; c.file = q->path + "/table.f" + seq; q->mans.push_back(c); if (!c.gone) q->attach(c.dm, c.file); }
    for (ColBase *c : p->cols) { ColBase *d = c->blank(); d->dm = c->dm; if (d->dm >= 0) { d->desc = p->mans[d->dm].type; d->group = p->mans[d->dm].name; } if (d->dm >= 0) q->makeColumn(d); else d->resize(q->nrow); q->cols.push_back(d); } for (Man &m : q->mans) if (!m.gone) { m.dm->create(q->nrow); }
    for (Man &m : q->mans) if (!m.gone) m.dm->prepare(); for (size_t i = 0; i < p->cols.size(); i++) if (p->cols[i]->dm < 0) for (uInt r = 0; r < q->nrow; r++) q->cols[i]->copyRow(*p->cols[i], r); for (size_t i = 0; i < p->cols.size(); i++) if (p->cols[i]->dm >= 0) for (uInt r = 0; r < q->nrow; r++) q->cols[i]->copyRow(*p->cols[i], r); }
  void markForDelete() { p->deleteMark = true; } void rename(const String &n, TableOption) { if (!p->exists) throw TableError("the table to be renamed does not exist"); String to = clean(n); TableImpl *o = lookup(to); if (o && o != p) o->destroy(); p->move(to); }
};
inline DataManager::~DataManager() { delete _th; }
// a manager's own handle does not keep the table open
inline void TableImpl::attach(DataManager *d, const String &f) { d->_tab = this; d->_file = f; delete d->_th; d->_th = new Table(this, true); }
inline void TableImpl::openAll() { live = true; for (Man &m : mans) if (!m.gone) { m.dm = DataManager::getCtor(m.type)(m.type, Record()); attach(m.dm, m.file); } for (ColBase *c : cols) if (c->dm >= 0) makeColumn(c); AipsIO io; for (Man &m : mans) if (!m.gone) { m.dm->open(nrow, io); m.name = m.dm->dataManagerName(); }   /* as casacore does: the manager knows its name */ for (Man &m : mans) if (!m.gone) m.dm->prepare(); }
inline void TableImpl::closeAll() { if (!live) return; AipsIO io; for (Man &m : mans) if (!m.gone && m.dm) m.dm->flush(io, false); for (Man &m : mans) if (!m.gone && m.dm) { DataManager *d = m.dm; m.dm = nullptr; delete d; } for (ColBase *c : cols) c->dmc = nullptr; live = false; }
// a table is a directory: what lies inside goes with it
inline void TableImpl::destroy() { Tables &ts = tables(); const size_t n = path.size(); for (int i = 0; i < ts.n; i++) { TableImpl *o = ts.t[i]; if (o != this && o->exists && o->path.size() > n && o->path[n] == '/' && String(o->path.substr(0, n)) == path) o->destroy(); }
  for (Man &m : mans) if (!m.gone) symio::remove(m.file.c_str()); exists = false; for (ColBase *c : cols) delete c; cols.clear(); mans.clear(); }
inline void TableImpl::move(const String &to) { for (size_t i = 0; i < mans.size(); i++) if (!mans[i].gone) { char seq[2] = {(char)('0' + i), 0}; String f = to + "/table.f" + seq; symio::File *q = symio::lookup(mans[i].file.c_str(), false); symio::remove(f.c_str()); symio::File *old = symio::lookup(f.c_str(), false); if (old) old->name = "(gone)"; if (q) q->name = f; mans[i].file = f; if (mans[i].dm) mans[i].dm->_file = f; } path = to; }
template <typename T> class ScalarColumn { ColOf<T> *c; TableImpl *t; public: ScalarColumn(const Table &tab, const String &n) : t(tab.impl()) { ColBase *b = t->need(n); if (b->array || b->type != TypeOf<T>::v) throw TableError("column " + n + " has another type"); c = static_cast<ColOf<T> *>(b); } T operator()(rownr_t r) const { return at(r); } T get(rownr_t r) const { return at(r); } void get(rownr_t r, T &x) const { x = at(r); } T asT(rownr_t r) const { return at(r); } void put(rownr_t r, const T &x) { if (r >= c->v.size()) throw TableError("no such row"); c->writes++; c->v[r][0] = x; }
  T at(rownr_t r) const { if (r >= c->v.size()) if (mini::conf().farRows) return c->v[0][0]; if (r >= c->v.size()) throw TableError("no such row"); return c->v[r][0]; } };
template <typename T> class ArrayColumn { ColOf<T> *c; TableImpl *t; public: ArrayColumn(const Table &tab, const String &n) : t(tab.impl()) { ColBase *b = t->need(n); if (!b->array || b->type != TypeOf<T>::v) throw TableError("column " + n + " has another type"); c = static_cast<ColOf<T> *>(b); }
  void row(rownr_t r) const { if (r >= t->nrow) throw TableError("no such row"); } void get(rownr_t r, Array<T> &a, Bool resize = false) const { row(r); if (a.shape() != c->shape) { if (resize || a.nelements() == 0) a.resize(c->shape); else throw TableError("array conformance"); } c->get((uInt)r, a); } Array<T> get(rownr_t r) const { Array<T> a; get(r, a); return a; } Array<T> operator()(rownr_t r) const { return get(r); }
  void put(rownr_t r, const Array<T> &a) { row(r); if (a.shape() != c->shape) throw TableError("array conformance"); c->put((uInt)r, a); } IPosition shape(rownr_t r) const { row(r); return c->dm >= 0 ? c->dmc->shape((uInt)r) : c->shape; } Bool isDefined(rownr_t) const { return true; } ColumnDesc columnDesc() const { ColumnDesc d; d._name = c->name; d._dm = c->desc; d._group = c->group; return d; } };
}
