// C18: damaged files and I/O failures are reported.
#include "store.h"
#ifndef RPB
#define RPB 2
#endif
#ifndef BLOCKS
#define BLOCKS 3
#endif
static const unsigned ROWS = RPB * BLOCKS; static Want w, v;
static symio::File *file() { return symio::lookup("tab/table.f0", false); }
static unsigned le(size_t at, unsigned n) { unsigned x = 0; for (unsigned i = 0; i < n; i++) x |= (unsigned)file()->b.d[at + i] << (8 * i); return x; }
struct Lay { size_t hs, bs, first, used; }; static Lay layout() { Lay l; const size_t nl = le(12, 4); l.hs = le(0, 4); l.bs = le(24 + nl, 4); const size_t c0 = le(4, 4); l.first = le(c0 + 4, 4); l.used = c0 + le(c0, 4); l.used += le(l.used, 4); return l; }   // first: size of the first column's part of a block; used: end of the last column header (the header's size is larger)
static void store(bool both = true) { mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; Table t = makeTable(g, ROWS); DyscoStMan m(BITS, WBITS, "man"); setUp(m); if (both) t.addColumns(dataDesc(), weightDesc(), m); else t.addColumn(dataDesc(), m); ArrayColumn<Complex> c(t, "DATA"); for (unsigned r = 0; r < ROWS; r++) put(c, w, r, fresh()); if (both) { ArrayColumn<float> d(t, "WEIGHT_SPECTRUM"); for (unsigned r = 0; r < ROWS; r++) put(d, v, r, fresh()); } }
static void all(Table &t, const char *m) { ArrayColumn<Complex> c(t, "DATA"); ArrayColumn<float> d(t, "WEIGHT_SPECTRUM"); for (unsigned r = 0; r < ROWS; r++) { expect(c, w, r, m); expect(d, v, r, m); } }
static TableImpl *impl() { return Table::lookup(TAB); }
static void discard() { impl()->live = false; }   // after a failed opening
// a version or column count other than the expected one
extern "C" void c18_header() {
  store(); symio::Buf &b = file()->b; const size_t nl = le(12, 4); const unsigned ver = sym_u32("version"), cols = sym_u32("columns"); for (unsigned i = 0; i < 4; i++) { b.d[28 + nl + i] = (unsigned char)(ver >> (8 * i)); b.d[8 + i] = (unsigned char)(cols >> (8 * i)); }
  const bool ok = ver == 1 && cols == 2; bool threw; { Table t; threw = throws([&] { t = Table(TAB); }); if (!threw) { sym_assert(ok, "a file of another version or with another number of columns is refused"); all(t, "an unchanged file is read"); sym_reach("opened"); } }
  if (threw) { sym_assert(!ok, "a file of this version is opened"); sym_reach("refused"); } sym_end(); }
// a file that ends early
extern "C" void c18_truncated() {
  store(); const Lay l = layout(); symio::Buf &b = file()->b; const size_t full = b.n, len = sym_choice(full, "length"); b.n = len; Table t; const bool threw = throws([&] { t = Table(TAB); });
  if (threw) { sym_assert(len < l.hs, "a file with a complete header is opened"); sym_reach("refused"); sym_end(); }
  sym_assert(len >= l.used, "a file that is too short for its header is refused"); ArrayColumn<Complex> c(t, "DATA"); ArrayColumn<float> d(t, "WEIGHT_SPECTRUM");
  for (unsigned k = 0; k < 2; k++) for (unsigned r = 0; r < ROWS; r++) { const size_t s = l.hs + (r / RPB) * l.bs + (k ? l.first : 0), e = s + (k ? l.bs - l.first : l.first); const bool whole = e <= len, gone = s >= len;
    if (!whole && !gone) { Array<Complex> a(shp()); Array<float> f(shp()); sym_assert(throws([&] { if (k) d.get(r, f); else c.get(r, a); }), "a block of which only a part is left raises an error"); sym_reach("partial"); continue; }
    Want none; const char *m = whole ? "blocks that are left read as written" : "blocks that are gone read as zero"; bool q = throws([&] { if (k) expect(d, whole ? v : none, r, m); else expect(c, whole ? w : none, r, m); }); sym_assert(!q, m); if (whole) sym_reach("whole"); else sym_reach("gone"); }
  sym_end(); }
extern "C" void c18_missing() {
  store(); const unsigned kind = (unsigned)sym_choice(3, "kind"); if (kind == 0) symio::remove("tab/table.f0"); else if (kind == 1) file()->b.n = 0; else file()->readOnly = true; Table t; bool threw = throws([&] { t = Table(TAB); });
  if (kind < 2) { sym_assert(threw, "a missing or empty file is refused"); sym_reach("refused"); sym_end(); }
  sym_assert(!threw, "a file that can only be read is opened"); all(t, "a file that can only be read is read"); sym_reach("readonly");
  ArrayColumn<Complex> c(t, "DATA"); sym_expect_terminate(true); Want z = w; threw = throws([&] { put(c, z, 0, fresh()); put(c, z, RPB, fresh()); Array<Complex> a(shp()); c.get(0, a); c.get(RPB, a); c.get(2 * RPB, a); }); sym_assert(threw, "writing to a file that can only be read is reported"); sym_end(); }
static unsigned nth, at; static bool failed; static symio::Op what; static size_t keep;
static size_t fault(symio::Op op, symio::File &, size_t, size_t n) { if (op != what || nth++ != at) return op == symio::OPEN || op == symio::SEEK ? 1 : n; failed = true; return op == symio::WRITE ? (keep < n ? keep : n ? n - 1 : 0) : 0; }
static void arm(symio::Op op, unsigned k) { what = op; nth = 0; at = k; failed = false; symio::fs().fault = fault; }
// a read, seek or open that fails while an existing table is opened and read: the operation raises an error, later ones are right
extern "C" void c18_reading() {
  store(); static const symio::Op ops[] = {symio::READ, symio::SEEK, symio::OPEN}; const symio::Op op = ops[sym_choice(3, "what")]; arm(op, (unsigned)sym_choice(op == symio::OPEN ? 2 : 64, "which")); keep = 0;
  Table t; const bool threw = throws([&] { t = Table(TAB); }); if (op != symio::OPEN) sym_assert(threw == failed, "a failure while opening is reported"); if (threw) { sym_reach("opening"); sym_end(); }
  ArrayColumn<Complex> c(t, "DATA"); ArrayColumn<float> d(t, "WEIGHT_SPECTRUM");
  for (unsigned n = 0; n < 2; n++) for (unsigned r = 0; r < ROWS; r++) for (unsigned k = 0; k < 2; k++) { failed = false; Array<Complex> a(shp()); Array<float> f(shp()); bool q = throws([&] { if (k) d.get(r, f); else c.get(r, a); }); if (failed) { sym_assert(q, "a failed read raises an error"); sym_reach("reading"); } else { sym_assert(!q, "a read that does not fail raises no error"); bool eq = true; for (unsigned e = 0; e < NE; e++) { if (k) eq &= f.at(e) == welem(v.k[r], e); else { Complex x = elem(w.k[r], e); eq &= near(a.at(e).real(), x.real()) && near(a.at(e).imag(), x.imag()); } } sym_assert(eq, "reads before and after a failed one are right"); } }
  symio::fs().fault = nullptr; sym_end(); }
// a write (or a seek) that fails while a table is created, filled, changed and closed is reported
extern "C" void c18_writing() {
  mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; static const symio::Op ops[] = {symio::WRITE, symio::SEEK}; const symio::Op op = ops[sym_choice(2, "what")]; keep = sym_choice(2, "partial") ? 3 : 0; arm(op, (unsigned)sym_choice(96, "which")); sym_expect_terminate(true); bool threw = false;   // (the background threads report by terminating)
  threw = throws([&] { Table t = makeTable(g, ROWS); DyscoStMan m(BITS, WBITS); setUp(m); t.addColumns(dataDesc(), weightDesc(), m); ArrayColumn<Complex> c(t, "DATA"); ArrayColumn<float> d(t, "WEIGHT_SPECTRUM"); for (unsigned r = 0; r < ROWS; r++) { put(c, w, r, fresh()); put(d, v, r, fresh()); } put(c, w, 0, fresh()); put(c, w, ROWS - 1, fresh()); });
  symio::fs().fault = nullptr; sym_expect_terminate(false);
  if (failed) { sym_assert(threw, "a failed write is reported"); sym_reach("reported"); sym_end(); } sym_assert(!threw, "no error without a failure"); Table t(TAB); all(t, "without a failure everything is stored"); sym_reach("none"); sym_end(); }
