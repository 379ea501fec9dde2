// C14: every access to the file is to the header or to exactly one column's part of one block, as the header lays them out.
#include "store.h"
#ifndef RPB
#define RPB 2
#endif
#ifndef BLOCKS
#define BLOCKS 3
#endif
#ifndef OPS
#define OPS 2
#endif
struct Wr { size_t pos, n; }; static Wr wr[200]; static unsigned nwr; static void logWrite(symio::File &, size_t p, size_t n) { if (nwr < 200) wr[nwr++] = {p, n}; }
struct Lay { size_t hs, bs, rpb, ant; unsigned n; size_t off[4], size[4]; }; static Lay L;
static symio::File *file() { return symio::lookup("tab/table.f0", false); }
static size_t le4(size_t at) { const symio::Buf &b = file()->b; size_t v = 0; sym_assert(at + 4 <= b.n, "the header is complete"); for (unsigned i = 0; i < 4; i++) v |= (size_t)b.d[at + i] << (8 * i); return v; }
// the layout that the header in the file tells
static void layout(unsigned columns) {
  const size_t nl = le4(12); L.hs = le4(0); L.rpb = le4(16 + nl); L.ant = le4(20 + nl); L.bs = le4(24 + nl); L.n = (unsigned)le4(8); size_t at = le4(4); sym_assert(L.n == columns, "the header counts the columns"); sym_assert(at == 52 + nl, "the column headers follow the header");
  size_t sum = 0; for (unsigned c = 0; c < L.n; c++) { size_t sz = le4(at); L.off[c] = sum; L.size[c] = le4(at + 4); sym_assert(L.size[c] > 0, "a column's part is not empty"); sym_assert(le4(at + 8) == L.ant, "the antenna count of the column"); sum += L.size[c]; at += sz; }
  sym_assert(at <= L.hs, "the column headers are within the header"); sym_assert(sum == L.bs, "a block consists of the parts of the columns"); }
static const char *MW = "a write is to the header or to one column's part of one block";
static unsigned slot(size_t pos, size_t n, size_t &block) { unsigned c = 99; block = (pos - L.hs) / L.bs; const size_t in = (pos - L.hs) % L.bs; for (unsigned k = 0; k < L.n; k++) if (in >= L.off[k] && in + n <= L.off[k] + L.size[k]) c = k; return c; }
static bool covered[4][BLOCKS + 2]; static size_t cover[4][BLOCKS + 2];
static void checkWrites(unsigned from) { for (unsigned i = from; i < nwr; i++) { if (wr[i].pos + wr[i].n <= L.hs) continue; sym_assert(wr[i].pos >= L.hs, MW); size_t b; unsigned c = slot(wr[i].pos, wr[i].n, b); sym_assert(c < L.n, MW); sym_assert(b < BLOCKS, "no block beyond the last row is written"); cover[c][b] += wr[i].n; } }
static ArrayColumnDesc<Complex> more() { return dataDesc("MODEL_DATA"); }
extern "C" void c14_layout() {
  mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; g.ant = 2; const unsigned rows = RPB * BLOCKS; Want w[3]; symio::fs().wrote = logWrite;
  const unsigned cols = 1 + (unsigned)sym_choice(3, "columns"); bool wf = cols > 1 && sym_choice(2, "weightFirst");
  Table t = makeTable(g, rows); DyscoStMan m(BITS, WBITS); setUp(m); ArrayColumn<Complex> *c = nullptr, *e = nullptr; ArrayColumn<float> *d = nullptr;
  if (cols == 1) t.addColumn(dataDesc(), m); else if (wf) t.addColumns(weightDesc(), dataDesc(), m); else t.addColumns(dataDesc(), weightDesc(), m); if (cols == 3) t.addColumn(more(), "DyscoStMan", false);
  c = new ArrayColumn<Complex>(t, "DATA"); if (cols > 1) d = new ArrayColumn<float>(t, "WEIGHT_SPECTRUM"); if (cols > 2) e = new ArrayColumn<Complex>(t, "MODEL_DATA");
  auto write = [&](unsigned k, unsigned r, unsigned tok) { if (k == 0) put(*c, w[0], r, tok); else if (k == 1) put(*d, w[1], r, tok); else put(*e, w[2], r, tok); };
  for (unsigned r = 0; r <= RPB; r++) write(0, r, fresh());
  bool touched[3][BLOCKS] = {}; touched[0][0] = touched[0][1] = true;
  for (unsigned n = 0; n < OPS; n++) { unsigned k = (unsigned)sym_choice(cols, "column"), b = (unsigned)sym_choice(BLOCKS, "block"); write(k, b * RPB, BITS < 12 && n == 0 ? anyToken() : fresh()); touched[k][b] = true; }
  for (unsigned r = 0; r < rows; r++) { expect(*c, w[0], r, "contents"); if (d) expect(*d, w[1], r, "contents"); if (e) expect(*e, w[2], r, "contents"); }
  delete c; delete d; delete e; t = Table(); symio::fs().wrote = nullptr;
  layout(cols); sym_assert(L.rpb == RPB && L.ant == (g.chain ? RPB + 1 : RPB == 1 ? 1 : 2), "rows per block and antennas"); checkWrites(0); unsigned order[3] = {0, 1, 2}; if (wf) { order[0] = 1; order[1] = 0; }
  for (unsigned k = 0; k < cols; k++) for (unsigned b = 0; b < BLOCKS; b++) { size_t got = cover[order[k]][b]; sym_assert(touched[k][b] ? got == 0 ? false : got % L.size[order[k]] == 0 : got == 0, "exactly the blocks that hold rows are written, completely"); }
  Table u(TAB); ArrayColumn<Complex> x(u, "DATA"); expectAll(x, w[0], rows, "contents after reopening"); if (cols > 1) { ArrayColumn<float> y(u, "WEIGHT_SPECTRUM"); expectAll(y, w[1], rows, "contents after reopening"); } if (cols > 2) { ArrayColumn<Complex> z(u, "MODEL_DATA"); expectAll(z, w[2], rows, "contents after reopening"); } sym_reach("layout"); }
// any row of a table of up to 2^32 rows: the positions of its block in the file
struct Ac { bool w; size_t pos, n; }; static Ac ac[16]; static unsigned nac; static void logAccess(bool w, size_t p, size_t n) { if (nac < 16) ac[nac++] = {w, p, n}; }
extern "C" void c14_far() {
  mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; g.ant = 2; Want w, v; const bool weight = sym_choice(2, "weight"), wf = sym_choice(2, "weightFirst");
  Table t = makeTable(g, RPB * 3); DyscoStMan m(BITS, WBITS); setUp(m); if (wf) t.addColumns(weightDesc(), dataDesc(), m); else t.addColumns(dataDesc(), weightDesc(), m); ArrayColumn<Complex> c(t, "DATA"); ArrayColumn<float> d(t, "WEIGHT_SPECTRUM");
  for (unsigned r = 0; r <= RPB; r++) { put(c, w, r, fresh()); put(d, v, r, fresh()); } { Array<Complex> a(shp()); Array<float> f(shp()); c.get(0, a); d.get(0, f); c.get(RPB, a); d.get(RPB, f); }   // both blocks are stored now
  layout(2); const unsigned k = weight == wf ? 0 : 1; mini::conf().farRows = true; symio::fs().sparse = true; symio::fs().accessed = logAccess; t.impl()->nrow = 0xffffffffu; t.findDataManager(m.dataManagerName())->addRow(0xffffffffu - RPB * 3);
  const unsigned row = (unsigned)sym_range(2 * RPB, 0xfffffffeu, "row"); const size_t want = L.hs + (size_t)(row / RPB) * L.bs + L.off[k];
  Array<Complex> a(shp()); for (unsigned e = 0; e < NE; e++) a.at(e) = elem(1, e); Array<float> f(shp()); for (unsigned e = 0; e < NE; e++) f.at(e) = welem(1, e); Array<Complex> b(shp()); Array<float> h(shp());
  if (weight) { d.put(row, f); d.get(0, h); d.get(row, h); } else { c.put(row, a); c.get(0, b); c.get(row, b); }   // the last one waits for the write
  bool wrote = false, read = false; for (unsigned i = 0; i < nac; i++) { if (ac[i].pos == want && ac[i].w) { sym_assert(!wrote && ac[i].n == L.size[k], "the block is written once, completely"); wrote = true; } else if (ac[i].pos == want) { sym_assert(wrote && ac[i].n == L.size[k], "the block is read completely"); read = true; } else sym_assert(!ac[i].w && ac[i].pos == L.hs + L.off[k], "no other block is accessed"); }
  sym_assert(wrote, "the block of any row is written at its place"); sym_assert(read, "the block of any row is read from its place"); sym_reach("far"); symio::fs().sparse = false; sym_end(); }
