// C16: queued blocks are written by background threads; under every schedule (with a bounded number of preemptions) nothing is
// lost, reordered, deadlocked or raced, and closing waits for all blocks.
#include "store.h"
#ifndef PROCS
#define PROCS 2
#endif
#ifndef RPB
#define RPB 1
#endif
#ifndef BLOCKS
#define BLOCKS 4
#endif
static const char *M = "a row reads as last written under every schedule", *MR = "all blocks are stored when the table is closed";
#ifdef STATIC   // a fixed dither seed: one thread, with the queue of several
#define ONE true
#else
#define ONE false
#endif
#ifdef WEIGHTS
typedef float VT; static ArrayColumnDesc<float> desc() { return weightDesc(); } static const char *CN = "WEIGHT_SPECTRUM";
#else
typedef Complex VT; static ArrayColumnDesc<Complex> desc() { return dataDesc(); } static const char *CN = "DATA";
#endif
#ifdef ANYLEVEL
static unsigned symbolic() { return anyToken(); }
#else
static unsigned symbolic() { return fresh(); }
#endif
// blocks written in order, then closed
extern "C" void c16_close() {
  mini::conf().processors = PROCS; levels(); register_dyscostman(); Geo g; g.rpb = RPB; g.chain = 1; const unsigned rows = RPB * BLOCKS; Want w;
  { Table t = makeTable(g, rows); DyscoStMan m(BITS, BITS); setUp(m, ONE); t.addColumn(desc(), m); ArrayColumn<VT> c(t, CN); for (unsigned r = 0; r < rows; r++) put(c, w, r, r == rows - 1 ? symbolic() : fresh()); }
  mini::conf().processors = 1; Table t(TAB); ArrayColumn<VT> c(t, CN); expectAll(c, w, rows, MR); sym_reach("closed"); }
// some blocks, one of them written again or read at once, then closed
extern "C" void c16_back() {
  mini::conf().processors = PROCS; levels(); register_dyscostman(); Geo g; g.rpb = RPB; g.chain = 1; const unsigned rows = RPB * BLOCKS; Want w;
  { Table t = makeTable(g, rows); DyscoStMan m(BITS, BITS); setUp(m, false); t.addColumn(desc(), m); ArrayColumn<VT> c(t, CN); for (unsigned r = 0; r < rows; r++) put(c, w, r, fresh());
    unsigned op = (unsigned)sym_choice(2 * rows, "op"); if (op < rows) { put(c, w, op, symbolic()); unsigned r = (unsigned)sym_choice(rows, "then"); expect(c, w, r, M); } else { expect(c, w, op - rows, M); put(c, w, (unsigned)sym_choice(rows, "then"), symbolic()); } }
  mini::conf().processors = 1; Table t(TAB); ArrayColumn<VT> c(t, CN); expectAll(c, w, rows, MR); sym_reach("back"); }
// two columns whose blocks are written at the same time by the threads of both
extern "C" void c16_both() {
  mini::conf().processors = PROCS; levels(); register_dyscostman(); Geo g; g.rpb = RPB; g.chain = 1; const unsigned rows = RPB * BLOCKS; Want w, v;
  { Table t = makeTable(g, rows); DyscoStMan m(BITS, BITS); setUp(m, false); t.addColumns(dataDesc(), weightDesc(), m); ArrayColumn<Complex> c(t, "DATA"); ArrayColumn<float> d(t, "WEIGHT_SPECTRUM"); for (unsigned r = 0; r < rows; r++) { put(c, w, r, r == rows - 1 ? symbolic() : fresh()); put(d, v, r, fresh()); }
    unsigned r = (unsigned)sym_choice(rows + 1, "read"); if (r < rows) { expect(c, w, r, M); expect(d, v, r, M); } }
  mini::conf().processors = 1; Table t(TAB); ArrayColumn<Complex> c(t, "DATA"); ArrayColumn<float> d(t, "WEIGHT_SPECTRUM"); expectAll(c, w, rows, MR); expectAll(d, v, rows, MR); sym_reach("both"); }
// an existing table: its threads are started when it is opened
extern "C" void c16_reopened() {
  mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; g.chain = 1; const unsigned rows = RPB * BLOCKS; Want w;
  { Table t = makeTable(g, rows); DyscoStMan m(BITS, BITS); setUp(m); t.addColumn(desc(), m); ArrayColumn<VT> c(t, CN); for (unsigned r = 0; r < rows; r++) put(c, w, r, fresh()); }
  mini::conf().processors = PROCS; { Table t(TAB, Table::Update); ArrayColumn<VT> c(t, CN); unsigned a = (unsigned)sym_choice(rows, "a"), b = (unsigned)sym_choice(rows, "b"); put(c, w, a, symbolic()); put(c, w, b, fresh()); expect(c, w, (unsigned)sym_choice(rows, "r"), M); }
  mini::conf().processors = 1; Table t(TAB); ArrayColumn<VT> c(t, CN); expectAll(c, w, rows, MR); sym_reach("reopened"); }
