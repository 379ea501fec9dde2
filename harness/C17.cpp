// C17: a stored table reopens with the same configuration and data. C19: a manager's specification recreates an equivalent manager.
#include "store.h"
#ifndef RPB
#define RPB 2
#endif
#ifndef BLOCKS
#define BLOCKS 3
#endif
static bool sameText(const String &a, const String &b) { if (a.size() != b.size()) return false; bool eq = true; for (size_t i = 0; i < a.size(); i++) eq &= a[i] == b[i]; return eq; }
static void sameSpec(const Record &a, const Record &b, const char *m) {
  sym_assert(a.nfields() == b.nfields(), m); static const char *ints[] = {"dataBitCount", "weightBitCount"}, *dbl[] = {"studentTNu", "distributionTruncation"}, *str[] = {"distribution", "normalization"};
  for (const char *n : ints) sym_assert(a.asInt(n) == b.asInt(n), m); for (const char *n : dbl) sym_assert(bits_of(a.asDouble(n)) == bits_of(b.asDouble(n)), m); for (const char *n : str) sym_assert(sameText(a.asString(n), b.asString(n)), m); }
static const char *DN[] = {"Gaussian", "Uniform", "StudentT", "TruncatedGaussian"}, *NN[] = {"AF", "RF", "Row"}; static const Normalization NV[] = {Normalization::kAF, Normalization::kRF, Normalization::kRow};
struct Cfg { unsigned dist, norm; double nu, tr; };
static double anyD(const char *n) { uint64_t u = sym_u64(n); double d; memcpy(&d, &u, 8); return d; }
static void apply(DyscoStMan &m, const Cfg &c) { m.SetStudentsTDistribution(c.nu); m.SetTruncatedGaussianDistribution(c.tr); if (c.dist == 0) m.SetGaussianDistribution(); else if (c.dist == 1) m.SetUniformDistribution(); else if (c.dist == 2) m.SetStudentsTDistribution(c.nu); m.SetNormalization(NV[c.norm]); }
// parameters that the distribution does not use are arbitrary
static Cfg anyCfg(bool table) { Cfg c; c.dist = (unsigned)sym_choice(4, "distribution"); c.norm = (unsigned)sym_choice(3, "normalization"); c.nu = table && c.dist == 2 ? (sym_choice(2, "nu") ? 1.0 : 3.5) : anyD("nu"); c.tr = table && c.dist == 3 ? (sym_choice(2, "truncation") ? 2.5 : 1.5) : anyD("truncation"); return c; }
static void told(const Record &r, unsigned d, unsigned w, const Cfg &c, const char *m) {
  sym_assert((unsigned)r.asInt("dataBitCount") == d && (unsigned)r.asInt("weightBitCount") == w, m); sym_assert(sameText(r.asString("distribution"), DN[c.dist]) && sameText(r.asString("normalization"), NN[c.norm]), m); sym_assert(c.dist != 2 || bits_of(r.asDouble("studentTNu")) == bits_of(c.nu), m); sym_assert(c.dist != 3 || bits_of(r.asDouble("distributionTruncation")) == bits_of(c.tr), m); }
extern "C" void c19_spec() {
  register_dyscostman(); const unsigned d = (unsigned)sym_range(1, 0xffffffffu, "dataBits"), w = (unsigned)sym_range(1, 0xffffffffu, "weightBits"); const Cfg c = anyCfg(false);
  DyscoStMan m(d, w, "somename"); apply(m, c); const Record r = m.dataManagerSpec(); told(r, d, w, c, "the specification tells the settings");
  DyscoStMan n("other", r); sameSpec(n.dataManagerSpec(), r, "a manager made from the specification has the same settings"); sym_assert(sameText(n.dataManagerName(), "other"), "its name");
  DataManager *q = DataManager::getCtor("DyscoStMan")("third", r); sameSpec(q->dataManagerSpec(), r, "the registered constructor uses the specification"); sym_assert(sameText(q->dataManagerType(), "DyscoStMan"), "type"); delete q;
  DataManager *k = m.clone(); sameSpec(k->dataManagerSpec(), r, "a clone has the same settings"); sym_assert(sameText(k->dataManagerName(), "somename") && sameText(k->dataManagerType(), m.dataManagerType()), "a clone has the same name and type"); delete k; sym_reach("spec"); }
// a manager is refused if and only if its specification is invalid
extern "C" void c19_refused() {
  static const char *ds[] = {"Gaussian", "Uniform", "StudentT", "TruncatedGaussian", "", "uniform", "Gauss", "TruncatedGaussianX", "RF"}, *ns[] = {"AF", "RF", "Row", "", "row", "A", "RFX", "Uniform"};
  Record r; const unsigned d = sym_u32("dataBits"), w = sym_u32("weightBits"), i = (unsigned)sym_choice(9, "distribution"), j = (unsigned)sym_choice(8, "normalization"); const double nu = anyD("nu"), tr = anyD("truncation");
  r.define("dataBitCount", (Int)d); r.define("weightBitCount", (Int)w); r.define("distribution", String(ds[i])); r.define("normalization", String(ns[j])); const bool hasNu = sym_choice(2, "hasNu"); if (hasNu) r.define("studentTNu", nu); r.define("distributionTruncation", tr);
  const bool valid = d != 0 && w != 0 && i < 4 && j < 3; DyscoStMan *m = nullptr; const bool threw = throws([&] { m = new DyscoStMan("name", r); });
  if (threw) { sym_assert(!valid, "a valid specification is accepted"); sym_reach("refused"); } else { sym_assert(valid, "an invalid specification is refused"); Record q = m->dataManagerSpec(); sym_assert((unsigned)q.asInt("dataBitCount") == d && (unsigned)q.asInt("weightBitCount") == w && sameText(q.asString("distribution"), ds[i]) && sameText(q.asString("normalization"), ns[j]), "the settings are those of the specification"); sym_assert(!hasNu || bits_of(q.asDouble("studentTNu")) == bits_of(nu), "parameters"); sym_assert(bits_of(q.asDouble("distributionTruncation")) == bits_of(tr), "parameters"); delete m; sym_reach("accepted"); } }
// distribution and normalisation names of arbitrary characters
extern "C" void c19_names() {
  static const unsigned lens[] = {2, 3, 7, 8, 17}; const bool norm = sym_choice(2, "normalization"); const unsigned len = lens[sym_choice(5, "length")]; String s; for (unsigned k = 0; k < len; k++) s.push_back((char)sym_u8("char"));
  Record r; r.define("dataBitCount", (Int)8); r.define("weightBitCount", (Int)12); r.define("distribution", norm ? String("Uniform") : s); r.define("normalization", norm ? s : String("Row")); r.define("studentTNu", 0.0); r.define("distributionTruncation", 2.5);
  bool valid = false; if (norm) for (const char *n : NN) valid |= sameText(s, n); else for (const char *n : DN) valid |= sameText(s, n);
  DyscoStMan *m = nullptr; const bool threw = throws([&] { m = new DyscoStMan("name", r); }); sym_assert(threw == !valid, "exactly the known names are accepted"); if (!threw) { Record q = m->dataManagerSpec(); sym_assert(sameText(norm ? q.asString("normalization") : q.asString("distribution"), s), "the accepted name is the one reported"); delete m; sym_reach("known"); } else sym_reach("unknown"); }
static void fill(Table &t, unsigned rows, bool model) { ArrayColumn<Complex> c(t, "DATA"); ArrayColumn<float> d(t, "WEIGHT_SPECTRUM"); Want w, v; for (unsigned r = 0; r < rows; r++) { put(c, w, r, r == 1 ? anyToken() : fresh()); put(d, v, r, fresh()); } (void)model; }
// the same data stored through a manager, its clone and a manager made from its specification: the same bytes
extern "C" void c19_same() {
  mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; g.chain = 1; const unsigned rows = RPB * 2; const Cfg c = anyCfg(true); const unsigned kind = (unsigned)sym_choice(2, "kind"), lvl = 2;
  DyscoStMan m(BITS, WBITS, "name"); apply(m, c); DataManager *k = kind ? m.clone() : new DyscoStMan("name", m.dataManagerSpec()); symio::Buf first;
  for (unsigned n = 0; n < 2; n++) { { Table t = makeTable(g, rows); const DataManager &dm = n ? *k : m; t.addColumns(dataDesc(), weightDesc(), dm); ArrayColumn<Complex> x(t, "DATA"); ArrayColumn<float> y(t, "WEIGHT_SPECTRUM"); Want w, v; for (unsigned r = 0; r < rows; r++) { put(x, w, r, lvl + r); put(y, v, r, lvl + r); } }
    const symio::Buf &b = symio::lookup("tab/table.f0", false)->b; if (n == 0) first.assign(b); else { sym_assert(b.n == first.n, "the files have the same size"); bool eq = true; for (size_t i = 0; i < b.n; i++) eq &= b.d[i] == first.d[i]; sym_assert(eq, "both managers store the same bytes"); } }
  delete k; sym_reach("same"); }
struct Rows { uint32_t c[MAXR][NE][2], w[MAXR][NE]; };
static void read(Table &t, unsigned rows, Rows &o, unsigned which) { if (which != 1) { ArrayColumn<Complex> c(t, "DATA"); for (unsigned r = 0; r < rows; r++) { Array<Complex> a(shp()); c.get(r, a); for (unsigned e = 0; e < NE; e++) { o.c[r][e][0] = bits_of(a.at(e).real()); o.c[r][e][1] = bits_of(a.at(e).imag()); } } } if (which != 0) { ArrayColumn<float> d(t, "WEIGHT_SPECTRUM"); for (unsigned r = 0; r < rows; r++) { Array<float> a(shp()); d.get(r, a); for (unsigned e = 0; e < NE; e++) o.w[r][e] = bits_of(a.at(e)); } } }
static void same(const Rows &a, const Rows &b, unsigned rows, unsigned which, const char *m) { for (unsigned r = 0; r < rows; r++) for (unsigned e = 0; e < NE; e++) { if (which != 1) sym_assert(a.c[r][e][0] == b.c[r][e][0] && a.c[r][e][1] == b.c[r][e][1], m); if (which != 0) sym_assert(a.w[r][e] == b.w[r][e], m); } }
extern "C" void c17_reopen() {
  mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; g.chain = 1; const unsigned rows = RPB * BLOCKS; const Cfg c = anyCfg(true); const unsigned which = (unsigned)sym_choice(3, "which"); const unsigned stored = RPB + 1 + (unsigned)sym_choice(rows - RPB, "stored");
  Rows a, b; Record spec; String name;
  { Table t = makeTable(g, rows); DyscoStMan m(BITS, WBITS, "aname"); apply(m, c); if (which == 0) t.addColumn(dataDesc(), m); else if (which == 1) t.addColumn(weightDesc(), m); else t.addColumns(dataDesc(), weightDesc(), m); Want w, v;
    if (which != 1) { ArrayColumn<Complex> x(t, "DATA"); for (unsigned r = 0; r < stored; r++) put(x, w, r, r == 1 && which == 0 ? 1 + (unsigned)sym_choice(nlvl - 1, "level") : fresh()); Array<Complex> z(shp()); x.get(0, z); } if (which != 0) { ArrayColumn<float> y(t, "WEIGHT_SPECTRUM"); for (unsigned r = 0; r < stored; r++) put(y, v, r, r == 1 && which == 1 && NCH > 1 ? anyToken() : fresh()); Array<float> z(shp()); y.get(0, z); }
    read(t, rows, a, which); DataManager *dm = t.findDataManager("aname"); spec = dm->dataManagerSpec(); name = dm->dataManagerName(); told(spec, BITS, WBITS, c, "the manager has the settings asked for"); }
  for (unsigned n = 0; n < 2; n++) { Table t(TAB); DataManager *dm = t.findDataManager("aname"); sameSpec(dm->dataManagerSpec(), spec, "the configuration is restored"); sym_assert(sameText(dm->dataManagerName(), name) && sameText(name, "aname"), "the name is restored"); read(t, rows, b, which); same(a, b, rows, which, "all rows decode as before closing"); }
  sym_reach("reopened"); }
// configurations without data, with arbitrary parameters
extern "C" void c17_config() {
  mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; static const unsigned bc[] = {2, 3, 4, 6, 8, 10, 12, 16}; const Cfg c = anyCfg(true); const unsigned di = (unsigned)sym_choice(c.dist == 1 ? 8 : 5, "dataBits"), d = bc[di], w = bc[(di + (sym_choice(2, "weightBits") ? 3 : 7)) % 8]; Record spec;
  { Table t = makeTable(g, 2); DyscoStMan m(d, w, "aname"); apply(m, c); t.addColumns(dataDesc(), weightDesc(), m); spec = t.findDataManager("aname")->dataManagerSpec(); told(spec, d, w, c, "the manager has the settings asked for"); }
  { Table t(TAB); sameSpec(t.findDataManager("aname")->dataManagerSpec(), spec, "the configuration is restored"); } sym_reach("config"); }
