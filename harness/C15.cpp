// C15: a column returns what was last written, whatever the history of writes, reads, block switches and reopenings.
#include "store.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef RPB
#define RPB 2
#endif
#ifndef BLOCKS
#define BLOCKS 3
#endif
#ifndef KEY
#define KEY 0
#endif
static const char *M = "a row reads as last written", *MR = "a row reads as last written, after reopening";
#ifdef ONECOL
#ifdef WEIGHTS
typedef float VT; static ArrayColumnDesc<float> desc() { return weightDesc(); } static const char *CN = "WEIGHT_SPECTRUM";
#else
typedef Complex VT; static ArrayColumnDesc<Complex> desc() { return dataDesc(); } static const char *CN = "DATA";
#endif
extern "C" void c15_history() {
  mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; g.ant = 2; g.key = KEY; const unsigned rows = RPB * BLOCKS; Want w;
  { Table t = makeTable(g, rows); DyscoStMan m(BITS, BITS); setUp(m); t.addColumn(desc(), m); ArrayColumn<VT> *c = new ArrayColumn<VT>(t, CN);
    for (unsigned r = 0; r <= RPB; r++) { put(*c, w, r, fresh()); expect(*c, w, r, M); }   // the first block and the row that ends it
    for (unsigned n = 0; n < OPS; n++) {
      unsigned op = (unsigned)sym_choice(2 * rows + 1, "op");
      if (op < rows) put(*c, w, op, n == 0 ? anyToken() : fresh()); else if (op < 2 * rows) expect(*c, w, op - rows, M);
      else { delete c; t = Table(); t = Table(TAB, Table::Update); c = new ArrayColumn<VT>(t, CN); } }
    expectAll(*c, w, rows, M); delete c; }
  Table t(TAB); ArrayColumn<VT> c(t, CN); expectAll(c, w, rows, MR); sym_reach("history"); }
#else
// a data and a weight column (and a second data column) written in turns
extern "C" void c15_columns() {
  mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; g.key = KEY; const unsigned rows = RPB * BLOCKS; Want w, v;
  { Table t = makeTable(g, rows); DyscoStMan m(BITS, BITS); setUp(m); t.addColumns(dataDesc(), weightDesc(), m); ArrayColumn<Complex> *c = new ArrayColumn<Complex>(t, "DATA"); ArrayColumn<float> *d = new ArrayColumn<float>(t, "WEIGHT_SPECTRUM");
    const bool inter = sym_choice(2, "interleaved");   // the columns are filled together or one after the other
    for (unsigned r = 0; r <= RPB; r++) { put(*c, w, r, fresh()); if (inter) put(*d, v, r, fresh()); } if (!inter) for (unsigned r = 0; r <= RPB; r++) put(*d, v, r, fresh());
    for (unsigned n = 0; n < OPS; n++) {
      unsigned op = (unsigned)sym_choice(4 * rows + 1, "op");
      if (op < rows) put(*c, w, op, n == 0 ? anyToken() : fresh()); else if (op < 2 * rows) put(*d, v, op - rows, fresh()); else if (op < 3 * rows) expect(*c, w, op - 2 * rows, M); else if (op < 4 * rows) expect(*d, v, op - 3 * rows, M);
      else { delete c; delete d; t = Table(); t = Table(TAB, Table::Update); c = new ArrayColumn<Complex>(t, "DATA"); d = new ArrayColumn<float>(t, "WEIGHT_SPECTRUM"); } }
    expectAll(*d, v, rows, M); expectAll(*c, w, rows, M); delete c; delete d; }
  Table t(TAB); ArrayColumn<Complex> c(t, "DATA"); ArrayColumn<float> d(t, "WEIGHT_SPECTRUM"); for (unsigned r = 0; r < rows; r++) { expect(c, w, r, MR); expect(d, v, r, MR); } sym_reach("columns"); }
#endif
