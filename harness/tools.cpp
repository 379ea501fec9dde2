// C21-C23: the command line tools, over tables in memory. Their main functions are called with a command line.
#include "store.h"
#include <cstdlib>
// conversions of numbers in options (the library functions are outside the code under test)
static long toNumber(const char *s) { long v = 0; bool m = *s == '-'; for (s += m; *s >= '0' && *s <= '9'; s++) v = v * 10 + (*s - '0'); return m ? -v : v; }
static double toDouble(const char *s) { double v = 0, f = 1; bool m = *s == '-', p = false; for (s += m; *s; s++) if (*s == '.') p = true; else { v = v * 10 + (*s - '0'); if (p) f *= 10; } v /= f; return m ? -v : v; }
#ifdef SYMX_ENGINE
extern "C" long strtol(const char *s, char **e, int) noexcept { if (e) *e = const_cast<char *>(s + strlen(s)); return toNumber(s); } extern "C" double strtod(const char *s, char **e) noexcept { if (e) *e = const_cast<char *>(s + strlen(s)); return toDouble(s); }
extern "C" unsigned long strtoul(const char *s, char **e, int) noexcept { if (e) *e = const_cast<char *>(s + strlen(s)); return (unsigned long)toNumber(s); }
#endif
#include "stopwatch.h"
Stopwatch::Stopwatch() {} Stopwatch::Stopwatch(bool) {} Stopwatch::~Stopwatch() {} void Stopwatch::Start() {} void Stopwatch::Pause() {} void Stopwatch::Reset() {} std::string Stopwatch::ToString() const { return "0"; }
#ifdef SYMX_ENGINE
int toolMain(int, char **) __asm__("main");
#else
extern "C" int toolMain(int, char **);
#endif
#ifndef RPB
#define RPB 2
#endif
#ifndef BLOCKS
#define BLOCKS 2
#endif
static float f_of(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static const unsigned ROWS = RPB * BLOCKS;
struct Args { char *v[24]; int n = 0; char buf[24][24]; void add(const char *s) { memcpy(buf[n], s, strlen(s) + 1); v[n] = buf[n]; n++; v[n] = nullptr; } };
// true: finished; false: reported an error
static bool tool(int (*f)(int, char **), Args &a) { int rc = 0; const bool threw = throws([&] { rc = f(a.n, a.v); }); return !threw && rc == 0; }
static bool run(Args &a) { return tool(toolMain, a); }
static const char *N[3] = {"DATA", "MODEL_DATA", "WEIGHT_SPECTRUM"};
static unsigned nch[3] = {NCH, NCH, NCH}; static bool have[3]; static IPosition shape(unsigned k) { return IPosition(2, NPOL, nch[k]); } static unsigned ne(unsigned k) { return NPOL * nch[k]; }
static unsigned tok[3][MAXR]; static bool flagged[MAXR][8], isnanv[3][MAXR][8], comp[3]; static uint32_t seen[3][MAXR][8][2];   // seen: last values read
static Complex cval(unsigned k, unsigned r, unsigned e) { return elem(tok[k][r], e); } static float wval(unsigned r, unsigned e) { return welem(tok[2][r], e); }
static void start() { mini::conf().processors = 1; levels(); register_dyscostman(); }
static Table makeMS(unsigned cols, bool values = true) {
  Geo g; g.rpb = RPB; g.chain = 1; Table t = makeTable(g, ROWS); t.addColumn(ArrayColumnDesc<bool>("FLAG", shape(0))); t.addColumn(ArrayColumnDesc<float>("SIGMA", IPosition(1, 1))); t.addColumn(ScalarColumnDesc<int>("SCAN"));
  { ScalarColumn<int> c(t, "SCAN"); for (unsigned r = 0; r < ROWS; r++) c.put(r, (int)r + 40); ArrayColumn<float> s(t, "SIGMA"); for (unsigned r = 0; r < ROWS; r++) { Array<float> a(IPosition(1, 1)); a.at(0) = (float)r + 0.5f; s.put(r, a); } }
  for (unsigned k = 0; k < 3; k++) { have[k] = cols >> k & 1; comp[k] = false; if (!have[k]) continue; if (k < 2) t.addColumn(ArrayColumnDesc<Complex>(N[k], shape(k))); else t.addColumn(ArrayColumnDesc<float>(N[k], shape(k)));
    if (values) for (unsigned r = 0; r < ROWS; r++) { tok[k][r] = fresh(); if (k < 2) { Array<Complex> a(shape(k)); for (unsigned e = 0; e < ne(k); e++) a.at(e) = cval(k, r, e); ArrayColumn<Complex> c(t, N[k]); c.put(r, a); } else { Array<float> a(shape(k)); for (unsigned e = 0; e < ne(k); e++) a.at(e) = wval(r, e); ArrayColumn<float> c(t, N[k]); c.put(r, a); } } }
  return t; }
static void read(Table &t, unsigned k, unsigned r, uint32_t (*o)[2]) { if (k < 2) { ArrayColumn<Complex> c(t, N[k]); Array<Complex> a; c.get(r, a); for (unsigned e = 0; e < ne(k); e++) { o[e][0] = bits_of(a.at(e).real()); o[e][1] = bits_of(a.at(e).imag()); } } else { ArrayColumn<float> c(t, N[k]); Array<float> a; c.get(r, a); for (unsigned e = 0; e < ne(k); e++) { o[e][0] = bits_of(a.at(e)); o[e][1] = 0; } } }
static String manager(Table &t, unsigned k) { return t.findDataManager(N[k], true)->dataManagerType(); }
// the columns, their managers and shapes, the values of columns outside the tools' reach
static void layout(Table &t, const char *m) {
  unsigned n = 8; for (unsigned k = 0; k < 3; k++) n += have[k]; sym_assert(t.tableDesc().ncolumn() == n && t.nrow() == ROWS, m);
  for (unsigned k = 0; k < 3; k++) { sym_assert(t.tableDesc().isColumn(N[k]) == have[k], m); if (!have[k]) continue; const String d = manager(t, k); sym_assert((d == "DyscoStMan") == comp[k], "exactly the columns that were asked for are stored by Dysco"); sym_assert((k < 2 ? ArrayColumn<Complex>(t, N[k]).shape(0) : ArrayColumn<float>(t, N[k]).shape(0)) == shape(k), "shape of the column"); }
  ScalarColumn<int> c(t, "SCAN"), a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), fi(t, "FIELD_ID"), dd(t, "DATA_DESC_ID"); ScalarColumn<double> tm(t, "TIME"); ArrayColumn<float> s(t, "SIGMA"); ArrayColumn<bool> f(t, "FLAG");
  for (unsigned r = 0; r < ROWS; r++) { Array<float> a; s.get(r, a); Array<bool> b; f.get(r, b); bool ok = c(r) == (int)r + 40 && a.at(0) == (float)r + 0.5f && a1(r) == (int)(r % RPB) && a2(r) == (int)(r % RPB) + 1 && fi(r) == 3 && dd(r) == 1 && tm(r) == 10.0 * (r / RPB); for (unsigned e = 0; e < ne(0); e++) ok &= b.at(e) == flagged[r][e]; sym_assert(ok, "other columns keep their values"); } }
static void values(Table &t, const char *m) { for (unsigned k = 0; k < 3; k++) if (have[k]) for (unsigned r = 0; r < ROWS; r++) { uint32_t o[8][2]; read(t, k, r, o); for (unsigned e = 0; e < ne(k); e++) { float x = f_of(o[e][0]), y = f_of(o[e][1]); if (k == 2) sym_assert(x == wval(r, e), m); else if (isnanv[k][r][e]) sym_assert(x != x && y != y, "flagged visibilities are NaN"); else { Complex v = cval(k, r, e); sym_assert(near(x, v.real()) && near(y, v.imag()), m); } } } }
static void remember(Table &t) { for (unsigned k = 0; k < 3; k++) if (have[k]) for (unsigned r = 0; r < ROWS; r++) read(t, k, r, seen[k][r]); }
static void same(Table &t, const char *m) { for (unsigned k = 0; k < 3; k++) if (have[k]) for (unsigned r = 0; r < ROWS; r++) { uint32_t o[8][2]; read(t, k, r, o); for (unsigned e = 0; e < ne(k); e++) { for (unsigned i = 0; i < 2; i++) { float x = f_of(o[e][i]), y = f_of(seen[k][r][e][i]); sym_assert(o[e][i] == seen[k][r][e][i] || (x != x && y != y), m); } } } }
static const char *const PATHS[3] = {"tab", "tab/", "tab//"};   // ways to write the same name
struct Replacing {}; static bool replacing; static void onChange() { replacing = true; throw Replacing(); }
#ifndef TOOL_DECOMPRESS
// ---- C21
#ifndef R21
#define R21 5
#endif
extern "C" void c21_order() {
  start(); Table t = Table::make(TAB); { t.addColumn(ScalarColumnDesc<int>("ANTENNA1")); t.addColumn(ScalarColumnDesc<int>("ANTENNA2")); t.addColumn(ScalarColumnDesc<int>("FIELD_ID")); t.addColumn(ScalarColumnDesc<int>("DATA_DESC_ID")); t.addColumn(ScalarColumnDesc<double>("TIME")); t.addColumn(ArrayColumnDesc<Complex>("DATA", IPosition(2, 1, 1))); t.addColumn(ArrayColumnDesc<bool>("FLAG", IPosition(2, 1, 1))); }
  const unsigned R = 1 + (unsigned)sym_choice(R21, "rows"); t.addRow(R); ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), fi(t, "FIELD_ID"), dd(t, "DATA_DESC_ID"); ScalarColumn<double> tm(t, "TIME"); ArrayColumn<Complex> c(t, "DATA");
  int A[8], B[8], F[8], D[8]; double T[8]; const unsigned which = (unsigned)sym_choice(3, "key");   // what can differ: the time, the field and data description, the antennas alone
  for (unsigned i = 0; i < R; i++) { A[i] = (int)sym_u32("antenna1"); B[i] = (int)sym_u32("antenna2"); F[i] = which == 1 ? (int)sym_u32("field") : 0; D[i] = which == 1 ? (int)sym_u32("dataDesc") : 0; if (which == 2) { T[i] = 5; F[i] = (int)i / 2; } else if (which == 0) { uint64_t u = sym_u64("time"); memcpy(&T[i], &u, 8); sym_assume(T[i] == T[i]); } else T[i] = 5; a1.put(i, A[i]); a2.put(i, B[i]); fi.put(i, F[i]); dd.put(i, D[i]); tm.put(i, T[i]); Array<Complex> x(IPosition(2, 1, 1)); x.at(0) = Complex((float)i, 2); c.put(i, x); }
  // regular: every row has the antennas of the row at the same position in the first block, and all blocks have its length
  bool diff[8]; unsigned n0 = R; for (unsigned i = R; i-- > 1;) { diff[i] = (bool)((T[i] != T[i - 1]) | (F[i] != F[i - 1]) | (D[i] != D[i - 1])); n0 = diff[i] ? i : n0; }
  bool ok = true; unsigned off = 0; for (unsigned i = 1; i < R; i++) { ok &= !diff[i] | (off + 1 == n0); off = diff[i] ? 0 : off + 1; int x = 0, y = 0; for (unsigned j = 0; j <= i; j++) { x = j == off ? A[j] : x; y = j == off ? B[j] : y; } ok &= off < n0; ok &= (x == A[i]) & (y == B[i]); } ok &= off + 1 == n0;
  Args a; a.add("dscompress"); a.add("tab"); mini::conf().changing = onChange; bool done = false; try { done = run(a); } catch (Replacing &) {} mini::conf().changing = nullptr;
  if (replacing) { sym_assert(ok, "an irregular measurement set is refused"); sym_reach("accepted"); } else { sym_assert(!done, "a refused measurement set is reported"); sym_assert(!ok, "a regular measurement set is accepted"); sym_reach("refused"); for (unsigned i = 0; i < R; i++) { Array<Complex> x; c.get(i, x); sym_assert(x.at(0) == Complex((float)i, 2), "the data are left as they were"); } }
  sym_end(); }
// ---- C22
struct Set { int d = 8, w = 12, dist = 3, norm = 0; double tr = 2.5; bool stat = false, reorder = false; };
static const char *DN[] = {"Gaussian", "Uniform", "StudentT", "TruncatedGaussian"}, *NN[] = {"AF", "RF", "Row"};
static void spec(Table &t, unsigned k, const Set &s) { const Record r = t.findDataManager(N[k], true)->dataManagerSpec(); sym_assert(r.asInt("dataBitCount") == s.d && r.asInt("weightBitCount") == s.w, "the bit rates asked for"); sym_assert(r.asString("distribution") == DN[s.dist] && (s.dist != 3 || r.asDouble("distributionTruncation") == s.tr), "the distribution asked for"); sym_assert(r.asString("normalization") == NN[s.norm], "the normalisation asked for"); }
static void exact(Args &a) { a.add("-rownormalization"); a.add("-uniform"); a.add("-data-bit-rate"); a.add(BITS == 4 ? "4" : "8"); a.add("-weight-bit-rate"); a.add(BITS == 4 ? "4" : "8"); }
static Set exactSet() { Set s; s.d = s.w = BITS == 4 ? 4 : 8; s.dist = 1; s.norm = 2; return s; }
// every selection of columns, with flags
static const struct { unsigned n, k[3]; } sel[] = {{0, {}}, {1, {0}}, {1, {1}}, {1, {2}}, {2, {0, 2}}, {2, {2, 0}}, {2, {0, 1}}, {2, {1, 0}}, {3, {2, 1, 0}}, {2, {0, 0}}, {3, {0, 2, 1}}};
extern "C" void c22_columns() {
  start(); const unsigned q = (unsigned)sym_choice(11, "selection"), f = (unsigned)sym_choice(4, "flags"); nch[2] = 1;
  { Table t = makeMS(7); ArrayColumn<bool> fc(t, "FLAG"); for (unsigned r = 0; r < ROWS; r++) { Array<bool> b(shape(0)); for (unsigned e = 0; e < ne(0); e++) { flagged[r][e] = f == 0 ? false : f == 1 ? r < RPB || e == 0 : r == (f == 2 ? 0 : ROWS - 1) ? sym_choice(2, "flag") != 0 : r == 1; b.at(e) = flagged[r][e]; } fc.put(r, b); } }
  Args a; a.add("dscompress"); exact(a); for (unsigned i = 0; i < sel[q].n; i++) { a.add("-column"); a.add(N[sel[q].k[i]]); } const bool reorder = sym_choice(2, "reorder"); if (reorder) a.add("-reorder"); a.add(f == 0 ? PATHS[sym_choice(3, "path")] : "tab"); sym_assert(run(a), "a regular measurement set is compressed");
  if (sel[q].n == 0) comp[0] = true; for (unsigned i = 0; i < sel[q].n; i++) comp[sel[q].k[i]] = true; for (unsigned k = 0; k < 2; k++) if (comp[k]) for (unsigned r = 0; r < ROWS; r++) for (unsigned e = 0; e < ne(k); e++) isnanv[k][r][e] = flagged[r][e];
  Table t(TAB); layout(t, "the same columns and rows as before"); values(t, "all values are those of the original columns"); for (unsigned k = 0; k < 3; k++) if (comp[k]) spec(t, k, exactSet()); sym_reach("columns"); if (reorder) sym_reach("reordered"); }
// columns of different shapes; a second run for further columns
extern "C" void c22_more() {
  start(); nch[0] = nch[1] = 2; nch[2] = 1; const unsigned first = (unsigned)sym_choice(3, "first"); { Table t = makeMS(7); }
  const unsigned kind = (unsigned)sym_choice(3, "kind"); Set s[2]; s[0] = s[1] = exactSet(); const unsigned second = (first + 1 + (unsigned)sym_choice(2, "second")) % 3; Args a; a.add("dscompress"); exact(a); a.add("-column"); a.add(N[first]); comp[first] = true; if (kind == 0) { a.add("-column"); a.add(N[second]); comp[second] = true; } a.add("tab"); sym_assert(run(a), "a regular measurement set is compressed"); { Table t(TAB); layout(t, "the same columns and rows as before"); values(t, "all values are those of the original columns"); spec(t, first, s[0]); if (kind == 0) spec(t, second, s[0]); }
  if (kind) { Args b; b.add("dscompress"); exact(b); b.add("-weight-bit-rate"); b.add("6"); s[1].w = 6; if (kind == 2) { b.add("-column"); b.add(N[first]); } b.add("-column"); b.add(N[second]); b.add("tab"); if (second == 2) for (unsigned r = 0; r < ROWS; r++) { Table t(TAB); Array<float> x(shape(2)); tok[2][r] = 0; for (unsigned e = 0; e < ne(2); e++) x.at(e) = wval(r, e); ArrayColumn<float> c(t, N[2]); c.put(r, x); }
    sym_assert(run(b), "a measurement set with compressed columns is compressed further"); comp[second] = true; Table t(TAB); layout(t, "the same columns and rows as before"); values(t, "all values are those of the original columns"); spec(t, first, s[0]); spec(t, second, s[1]); sym_reach("further"); }
  const unsigned third = 3 - first - second; if (kind && third != 2) { Args b; b.add("dscompress"); exact(b); b.add("-column"); b.add(N[third]); b.add("tab"); sym_assert(run(b), "a measurement set with compressed columns is compressed further"); comp[third] = true; Table t(TAB); layout(t, "the same columns and rows as before"); values(t, "all values are those of the original columns"); spec(t, first, s[0]); spec(t, second, s[1]); spec(t, third, s[0]); }
  sym_reach("more"); }
// every combination of options
extern "C" void c22_options() {
  start(); static const char *rates[] = {"2", "3", "4", "6", "8", "10", "12", "16"}; Set s; { Table t = makeMS(7, false); } Args a; a.add("dscompress"); const bool column = sym_choice(2, "columnFirst"); if (column) { a.add("-column"); a.add(N[0]); a.add("-column"); a.add(N[2]); }
  const unsigned opts = (unsigned)sym_choice(5, "distribution"); const bool twice = column; if (twice) { a.add("-gaussian"); s.dist = 0; a.add("-rfnormalization"); s.norm = 1; }
  switch (opts) { case 1: a.add("-uniform"); s.dist = 1; break; case 2: a.add("-studentt"); s.dist = 2; break; case 3: a.add("-gaussian"); s.dist = 0; break; case 4: { const bool x = sym_choice(2, "sigma"); a.add("-truncgaus"); a.add(x ? "3" : "1.75"); s.dist = 3; s.tr = x ? 3 : 1.75; } }
  switch (sym_choice(4, "normalization")) { case 1: a.add("-afnormalization"); s.norm = 0; break; case 2: a.add("-rfnormalization"); s.norm = 1; break; case 3: a.add("-rownormalization"); s.norm = 2; }
  static const int bc[] = {2, 3, 4, 6, 8, 10, 12, 16}; const unsigned i = (unsigned)sym_choice(opts == 1 ? 9 : 4, "dataBits"), j = (i * 3 + 1) % 9; if (i < 8) { a.add("-data-bit-rate"); a.add(rates[i]); s.d = bc[i]; } if (j < 8) { a.add("-weight-bit-rate"); a.add(rates[j]); s.w = bc[j]; } if (sym_choice(2, "static")) a.add("-static-seed"); if (!column) { a.add("-column"); a.add(N[2]); a.add("-column"); a.add(N[0]); } a.add("tab/");
  sym_assert(run(a), "a regular measurement set is compressed"); Table t(TAB); spec(t, 0, s); spec(t, 2, s); sym_assert(manager(t, 1) != "DyscoStMan", "other columns are not compressed"); sym_reach("options"); }
// options that do not exist, options without their value, no measurement set
extern "C" void c22_refused() {
  start(); { Table t = makeMS(7); } static const char *known[] = {"data-bit-rate", "weight-bit-rate", "reorder", "gaussian", "uniform", "studentt", "truncgaus", "column", "rfnormalization", "afnormalization", "rownormalization", "static-seed"}; Args a; a.add("dscompress"); const unsigned kind = (unsigned)sym_choice(3, "kind"); if (sym_choice(2, "before")) a.add("-uniform");
  if (kind == 0) { const unsigned len = 2 + (unsigned)sym_choice(16, "length"); char b[24]; b[0] = '-'; for (unsigned i = 1; i < len; i++) { b[i] = (char)sym_u8("char"); sym_assume(b[i] != 0); } b[len] = 0; bool eq = false; for (const char *k : known) { bool e = strlen(k) + 1 == len; if (e) for (unsigned i = 1; i < len; i++) e &= b[i] == k[i - 1]; eq |= e; } sym_assume(!eq); a.add("-x"); memcpy(a.buf[a.n - 1], b, len + 1); a.add("tab"); }
  else if (kind == 1) { static const char *v[] = {"-data-bit-rate", "-weight-bit-rate", "-truncgaus", "-column"}; a.add(v[sym_choice(4, "which")]); } else if (sym_choice(2, "options")) a.add("-reorder"); else { a.add("-column"); a.add("DATA"); }
  mini::conf().changing = onChange; bool done = true; try { done = run(a); } catch (Replacing &) {} mini::conf().changing = nullptr; sym_assert(!replacing && !done, "a wrong command line is refused"); Table t(TAB); layout(t, "a refused command line changes nothing"); values(t, "a refused command line changes nothing"); sym_reach("refused"); }
#else
// ---- C23
extern "C" void c23_decompress() {
  start(); nch[1] = 2; const unsigned cols = 1 + (unsigned)sym_choice(7, "columns"); const unsigned kind = (unsigned)sym_choice(3, "managers"); bool first = true;   // one manager, one per column, or one with other settings
  { Table t = makeMS(cols); DyscoStMan m(BITS, BITS, "DyscoStMan"); setUp(m); if (kind == 2) { m.SetNormalization(Normalization::kAF); m.SetGaussianDistribution(); } const unsigned order = (unsigned)sym_choice(2, "order");
    for (unsigned i = 0; i < 3; i++) { const unsigned k = order ? 2 - i : i; if (!have[k] || !sym_choice(2, "compressed")) continue; comp[k] = true; t.removeColumn(N[k]); char name[8] = "man0"; name[3] += (char)k; DyscoStMan o(BITS, BITS, name); setUp(o);
      if (kind == 1) { if (k < 2) t.addColumn(ArrayColumnDesc<Complex>(N[k], "", "DyscoStMan", name, shape(k)), o); else t.addColumn(ArrayColumnDesc<float>(N[k], "", "DyscoStMan", name, shape(k)), o); } else if (first) { if (k < 2) t.addColumn(ArrayColumnDesc<Complex>(N[k], shape(k)), m); else t.addColumn(ArrayColumnDesc<float>(N[k], shape(k)), m); } else { if (k < 2) t.addColumn(ArrayColumnDesc<Complex>(N[k], shape(k)), "DyscoStMan", true); else t.addColumn(ArrayColumnDesc<float>(N[k], shape(k)), "DyscoStMan", true); } first = false; }
    bool any = kind != 2; for (unsigned k = 0; k < 3; k++) if (comp[k]) for (unsigned r = 0; r < ROWS; r++) { if (any && k != 2) { tok[k][r] = 1 + (unsigned)sym_choice(3, "level"); any = false; } if (r + 1 < ROWS || k != 2) { if (k < 2) { ArrayColumn<Complex> c(t, N[k]); Array<Complex> a(shape(k)); for (unsigned e = 0; e < ne(k); e++) a.at(e) = cval(k, r, e); c.put(r, a); } else { ArrayColumn<float> c(t, N[k]); Array<float> a(shape(k)); for (unsigned e = 0; e < ne(k); e++) a.at(e) = wval(r, e); c.put(r, a); } } } }
  { Table t(TAB); layout(t, "compressed columns"); remember(t); }
  const bool dw = comp[0] || comp[2]; Args d; d.add("decompress"); d.add(PATHS[sym_choice(3, "path")]); if (!dw) { replacing = false; mini::conf().changing = onChange; } bool done = false; try { done = run(d); } catch (Replacing &) {} mini::conf().changing = nullptr; sym_assert(done && !replacing, dw ? "a compressed measurement set is decompressed" : "a measurement set that is not compressed is left alone"); const bool model = comp[1]; comp[0] = comp[2] = false;
  Table t(TAB); layout(t, "the same columns and rows as before"); if (model && kind == 2) have[1] = false; same(t, "every row has the values that were read before"); sym_reach(dw ? "decompressed" : "nothing"); }
// any stored content
extern "C" void c23_content() {
  start(); nch[1] = 2; const unsigned norm = (unsigned)sym_choice(3, "normalization"), which = (unsigned)sym_choice(3, "columns"); static const Normalization NV[] = {Normalization::kAF, Normalization::kRF, Normalization::kRow};
  { Table t = makeMS(2); have[0] = have[2] = true; comp[0] = which != 1; comp[2] = which != 0; DyscoStMan m(BITS, WBITS, "man"); m.SetUniformDistribution(); m.SetNormalization(NV[norm]); if (which == 2) t.addColumns(ArrayColumnDesc<Complex>(N[0], shape(0)), ArrayColumnDesc<float>(N[2], shape(2)), m); else if (which == 0) { t.addColumn(ArrayColumnDesc<Complex>(N[0], shape(0)), m); t.addColumn(ArrayColumnDesc<float>(N[2], shape(2))); } else { t.addColumn(ArrayColumnDesc<float>(N[2], shape(2)), m); t.addColumn(ArrayColumnDesc<Complex>(N[0], shape(0))); }
    for (unsigned r = 0; r < ROWS; r++) { tok[0][r] = fresh(); tok[2][r] = fresh(); if (comp[0]) { Array<Complex> a(shape(0)); for (unsigned e = 0; e < ne(0); e++) a.at(e) = cval(0, r, e); ArrayColumn<Complex>(t, N[0]).put(r, a); } if (comp[2]) { Array<float> b(shape(2)); for (unsigned e = 0; e < ne(2); e++) b.at(e) = wval(r, e); ArrayColumn<float>(t, N[2]).put(r, b); } } }
  symio::File *f = symio::lookup("tab/table.f0", false); size_t from = 0; for (unsigned i = 0; i < 4; i++) from |= (size_t)f->b.d[i] << (8 * i); f->b.d[from + sym_choice(f->b.n - from, "position")] = sym_u8("stored");
  { Table t(TAB); layout(t, "compressed columns"); remember(t); } Args d; d.add("decompress"); d.add("tab"); sym_assert(run(d), "a compressed measurement set is decompressed"); comp[0] = comp[2] = false; Table t(TAB); layout(t, "the same columns and rows as before"); same(t, "every row has the values that were read before"); sym_reach("content"); }
#endif
