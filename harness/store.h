// Tables whose columns are stored by the real DyscoStMan, over files in memory (mock/io) and a small casacore (mock/cc).
// Values are chosen so that storing them is exact (Row normalisation, components at levels of the quantisation table, the largest
// component of a visibility always at the top level; weights at multiples of the step): what is read must equal what was written.
#pragma once
#include "sym.h"
#include "dyscostman.h"
#include "stochasticencoder.h"
#include "casacore/mini.h"
using namespace casacore; using namespace dyscostman;
#include <random>
uint64_t (*verifDither)(uint64_t, uint64_t) = [](uint64_t lo, uint64_t) { return lo; };
#ifndef BITS
#define BITS 4
#endif
#ifndef WBITS
#define WBITS BITS
#endif
#ifndef NPOL
#define NPOL 1
#endif
#ifndef NCH
#define NCH 1
#endif
#ifndef NORM
#define NORM kRow
#endif
static const int MAXR = 24; static const unsigned NE = NPOL * NCH;
#ifndef CHAIN
#define CHAIN 0
#endif
struct Geo { unsigned rpb = 2, ant = 2; int key = 0, chain = CHAIN; };   // key: what distinguishes time blocks (0 time, 1 field, 2 data description)
// at most 15 of the levels, and as many weights
static float lvl[16], wgt[16]; static unsigned nlvl; static void levels() { StochasticEncoder<float> u(1 << BITS, 1.0f, false); const unsigned n = (1 << BITS) - 1, m = (1 << WBITS) - 1; nlvl = n < 15 ? n : 15; for (unsigned i = 0; i < nlvl; i++) { lvl[i] = u.Decode(i * (n - 1) / (nlvl - 1)); wgt[i] = (float)(i * m / nlvl); } }
#ifndef TOL
#define TOL 0
#endif
static bool near(float a, float b) { float d = a - b; return TOL == 0 ? d == 0 : (d < 0 ? -d : d) <= TOL; }
static const String TAB("tab");
static void fillRows(Table &t, Geo g, unsigned from, unsigned to) {
  ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), fi(t, "FIELD_ID"), dd(t, "DATA_DESC_ID"); ScalarColumn<double> tm(t, "TIME");
  for (unsigned i = from; i < to; i++) { unsigned b = i / g.rpb, r = i % g.rpb; 
#ifdef PERM   // every second block has the antennas in reverse order
    if (b % 2) r = g.rpb - 1 - r;
#endif
    if (g.chain) { a1.put(i, (int)r); a2.put(i, (int)r + 1); } else { a1.put(i, (int)(r / g.ant % g.ant)); a2.put(i, (int)(r % g.ant)); } tm.put(i, g.key == 0 ? 10.0 * b : 1.0); fi.put(i, g.key == 1 ? (int)b : 3); dd.put(i, g.key == 2 ? (int)b : 1); } }
static Table makeTable(Geo g, unsigned rows) {
  Table t = Table::make(TAB); t.addColumn(ScalarColumnDesc<int>("ANTENNA1")); t.addColumn(ScalarColumnDesc<int>("ANTENNA2")); t.addColumn(ScalarColumnDesc<int>("FIELD_ID")); t.addColumn(ScalarColumnDesc<int>("DATA_DESC_ID")); t.addColumn(ScalarColumnDesc<double>("TIME"));
  t.addRow(rows); fillRows(t, g, 0, rows); return t; }
static IPosition shp() { return IPosition(2, NPOL, NCH); }
static void setUp(DyscoStMan &m, bool staticSeed = true) { m.SetUniformDistribution(); m.SetNormalization(Normalization::NORM); m.SetStaticSeed(staticSeed); }
static ArrayColumnDesc<Complex> dataDesc(const char *n = "DATA") { return ArrayColumnDesc<Complex>(n, shp()); } static ArrayColumnDesc<float> weightDesc() { return ArrayColumnDesc<float>("WEIGHT_SPECTRUM", shp()); }
// what a column should hold
struct Want { bool w[MAXR] = {}; unsigned k[MAXR] = {}; };
static unsigned fresh() { static unsigned n = 0; return n = n % (nlvl - 1) + 1; }   // tokens: 1..nlvl-1 (the lowest level can differ from minus the top level by rounding)
// data: element e of a row of token k: real part at level (k+e) modulo the levels, imaginary part at the top level
static Complex elem(unsigned k, unsigned e) { unsigned i = k + e; while (i >= nlvl) i -= nlvl - 1; return Complex(lvl[i], lvl[nlvl - 1]); }
static void put(ArrayColumn<Complex> &c, Want &w, unsigned r, unsigned k) { Array<Complex> a(shp()); for (unsigned e = 0; e < NE; e++) a.at(e) = elem(k, e); c.put(r, a); w.w[r] = true; w.k[r] = k; }
static void expect(const ArrayColumn<Complex> &c, const Want &w, unsigned r, const char *m) { Array<Complex> a(shp()); for (unsigned e = 0; e < NE; e++) a.at(e) = Complex(77, 77); c.get(r, a); for (unsigned e = 0; e < NE; e++) { Complex x = w.w[r] ? elem(w.k[r], e) : Complex(0, 0); sym_assert(near(a.at(e).real(), x.real()) && near(a.at(e).imag(), x.imag()), m); } }
// weights: channel 0 of every row has the largest weight, the other channels token k
static float welem(unsigned k, unsigned e) { return e / NPOL == 0 ? (float)((1 << WBITS) - 1) : wgt[k]; }
static void put(ArrayColumn<float> &c, Want &w, unsigned r, unsigned k) { Array<float> a(shp()); for (unsigned e = 0; e < NE; e++) a.at(e) = welem(k, e); c.put(r, a); w.w[r] = true; w.k[r] = k; }
static void expect(const ArrayColumn<float> &c, const Want &w, unsigned r, const char *m) { Array<float> a(shp()); for (unsigned e = 0; e < NE; e++) a.at(e) = 77; c.get(r, a); for (unsigned e = 0; e < NE; e++) sym_assert(a.at(e) == (w.w[r] ? welem(w.k[r], e) : 0.0f), m); }
template <typename C> static void expectAll(const C &c, const Want &w, unsigned rows, const char *m) { for (unsigned r = 0; r < rows; r++) expect(c, w, r, m); }
// any token: its level is symbolic
static unsigned anyToken() { return (unsigned)sym_range(1, nlvl - 1, "level"); }
template <typename F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
