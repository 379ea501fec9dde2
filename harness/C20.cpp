// C20: rows that were never written read as zero and leave what was written intact.
#include "store.h"
#ifndef OPS
#define OPS 1
#endif
#ifndef RPB
#define RPB 2
#endif
#ifndef BLOCKS
#define BLOCKS 4
#endif
static const char *M = "an unwritten row reads as zero, a written one as written", *MR = "the same after reopening";
static void all(const ArrayColumn<Complex> &c, const Want &w, const ArrayColumn<float> &d, const Want &v, unsigned rows, const char *m) { for (unsigned r = 0; r < rows; r++) { expect(c, w, r, m); expect(d, v, r, m); } }
// nothing, or only part of the first block, written: rows per block not known yet
extern "C" void c20_first() {
  mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; unsigned rows = RPB * BLOCKS; Want w, v; unsigned p = 0, q = 0;
  Table t = makeTable(g, rows); DyscoStMan m(BITS, BITS); setUp(m); t.addColumns(dataDesc(), weightDesc(), m); { ArrayColumn<Complex> c(t, "DATA"); ArrayColumn<float> d(t, "WEIGHT_SPECTRUM");
  all(c, w, d, v, rows, M); p = (unsigned)sym_choice(RPB + 1, "dataRows"); q = (unsigned)sym_choice(RPB + 1, "weightRows");
  for (unsigned r = 0; r < p; r++) put(c, w, r, r == 0 ? 1 + (unsigned)sym_choice(nlvl - 1, "level") : fresh());
  for (unsigned r = 0; r < q; r++) put(d, v, r, fresh());
  all(c, w, d, v, rows, M);
  t.addRow(2); fillRows(t, g, rows, rows + 2); rows += 2; all(c, w, d, v, rows, M);
  if (p == 0 && q == 0) sym_reach("nothing"); else { // a table needs two blocks before it can be closed
    if (p == RPB && (q != RPB || sym_choice(2, "second"))) put(c, w, RPB, fresh()); else if (q == RPB) put(d, v, RPB, fresh()); else sym_end();   /* first blocks are to be written completely by one column */ all(c, w, d, v, rows, M); sym_reach("part"); } }
  t = Table(); Table u(TAB); ArrayColumn<Complex> c(u, "DATA"); ArrayColumn<float> d(u, "WEIGHT_SPECTRUM"); all(c, w, d, v, rows, MR); sym_reach("first"); }
// rows in later blocks
extern "C" void c20_later() {
  mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; unsigned rows = RPB * BLOCKS; Want w, v; const bool first = sym_choice(2, "firstColumn"); const unsigned p = (unsigned)sym_choice(2, "otherRows");
  { Table t = makeTable(g, rows); DyscoStMan m(BITS, BITS); setUp(m); t.addColumns(dataDesc(), weightDesc(), m); ArrayColumn<Complex> *c = new ArrayColumn<Complex>(t, "DATA"); ArrayColumn<float> *d = new ArrayColumn<float>(t, "WEIGHT_SPECTRUM");
    if (first) { for (unsigned r = 0; r < p * (RPB - 1); r++) put(*c, w, r, fresh()); for (unsigned r = 0; r <= RPB; r++) put(*d, v, r, fresh()); } else { for (unsigned r = 0; r < p * (RPB - 1); r++) put(*d, v, r, fresh()); for (unsigned r = 0; r <= RPB; r++) put(*c, w, r, fresh()); }
    for (unsigned n = 0; n < OPS; n++) {
      unsigned op = (unsigned)sym_choice(2 * rows + 2, "op");
      if (op < rows) put(*c, w, op, n == 0 ? anyToken() : fresh()); else if (op < 2 * rows) put(*d, v, op - rows, fresh()); else if (op == 2 * rows) { delete c; delete d; t = Table(); t = Table(TAB, Table::Update); c = new ArrayColumn<Complex>(t, "DATA"); d = new ArrayColumn<float>(t, "WEIGHT_SPECTRUM"); }
      else { t.addRow(RPB); fillRows(t, g, rows, rows + RPB); rows += RPB; }
      if (n + 1 < OPS || sym_choice(2, "read")) all(*c, w, *d, v, rows, M); }
    delete c; delete d; }
  Table t(TAB); ArrayColumn<Complex> c(t, "DATA"); ArrayColumn<float> d(t, "WEIGHT_SPECTRUM"); all(c, w, d, v, rows, MR); sym_reach("later"); }
