// C24: row and column additions and removals keep stored data intact or are refused.
#include "store.h"
#ifndef OPS
#define OPS 2
#endif
#ifndef RPB
#define RPB 2
#endif
#ifndef BLOCKS
#define BLOCKS 3
#endif
static const char *N[3] = {"DATA", "MODEL_DATA", "WEIGHT_SPECTRUM"}, *MI = "the rows and columns that remain read as written", *MR = "the same after reopening";
static Want w[3]; static bool any[3][MAXR], have[3]; static unsigned rows;   // any: rows that were removed and added again
static void putRow(Table &t, unsigned k, unsigned r, unsigned tok) { if (k < 2) { ArrayColumn<Complex> c(t, N[k]); put(c, w[k], r, tok); } else { ArrayColumn<float> c(t, N[k]); put(c, w[k], r, tok); } any[k][r] = false; }
static void check(Table &t, const char *m) {
  sym_assert(t.nrow() == rows, "number of rows"); for (unsigned k = 0; k < 3; k++) { sym_assert((t.impl()->find(N[k]) != nullptr) == have[k], "the columns of the table"); if (!have[k]) continue;
    for (unsigned r = 0; r < rows; r++) if (!any[k][r]) { if (k < 2) { ArrayColumn<Complex> c(t, N[k]); expect(c, w[k], r, m); } else { ArrayColumn<float> c(t, N[k]); expect(c, w[k], r, m); } } } }
static bool addCol(Table &t, unsigned k) { return !throws([&] { if (k < 2) t.addColumn(dataDesc(N[k]), "man", true); else t.addColumn(weightDesc(), "man", true); }); }
// a table with the columns of the mask (at least one), the first of which is "first"
static Table create(unsigned first, bool seed = true) { mini::conf().processors = 1; levels(); register_dyscostman(); Geo g; g.rpb = RPB; rows = RPB * BLOCKS; Table t = makeTable(g, rows); DyscoStMan m(BITS, WBITS, "man"); setUp(m, seed); if (first < 2) t.addColumn(dataDesc(N[first]), m); else t.addColumn(weightDesc(), m); have[first] = true; return t; }
static void reopen(Table &t) { t = Table(); t = Table(TAB, Table::Update); }
// rows: any row number, appended rows, writes
extern "C" void c24_rows() {
  Table t = create(sym_choice(2, "first") ? 2 : 0); const unsigned f = have[0] ? 0 : 2, s = 2 - f; addCol(t, s); have[s] = true;
  for (unsigned r = 0; r < rows; r++) { putRow(t, f, r, fresh()); if (r != 1) putRow(t, s, r, fresh()); }
  for (unsigned n = 0; n < OPS; n++) switch (sym_choice(4, "op")) {
    case 0: { DataManager *d = t.findDataManager("man"); const unsigned r = sym_u32("row"); bool threw; if (r >= rows) { threw = throws([&] { d->removeRow(r); }); sym_assert(threw, "a row that does not exist is refused"); sym_reach("beyond"); break; }
      threw = throws([&] { t.removeRow(r); }); if (threw) { sym_assert(r != rows - 1, "the last row can be removed"); sym_reach("middle"); break; }
      sym_assert(r == rows - 1, "only the last row can be removed"); rows--; for (unsigned k = 0; k < 3; k++) { w[k].w[rows] = false; any[k][rows] = true; } sym_reach("last"); break; }
    case 1: { const unsigned m = 1 + (unsigned)sym_choice(RPB, "count"); t.addRow(m); Geo g; g.rpb = RPB; fillRows(t, g, rows, rows + m); rows += m; break; }
    case 2: { unsigned r = RPB + (unsigned)sym_choice(rows - RPB, "written"), k = sym_choice(2, "column") ? 2 : 0; putRow(t, k, r, fresh()); break; }
    case 3: reopen(t); break; }
  check(t, MI); t = Table(); Table u(TAB); check(u, MR); sym_reach("rows"); }
// a column is added after some rows of the first have been written
extern "C" void c24_add() {
  const unsigned f = (unsigned)sym_choice(3, "first"); Table t = create(f); const unsigned p = (unsigned)sym_choice(RPB * 2 + 1, "rowsBefore"), k = (f + 1 + (unsigned)sym_choice(2, "added")) % 3, o = 3 - f - k; const bool again = p == 0 && sym_choice(2, "reopened");
  for (unsigned r = 0; r < p; r++) putRow(t, f, r, r == 0 ? 1 + (unsigned)sym_choice(nlvl - 1, "level") : fresh()); if (again) reopen(t);
  bool ok = addCol(t, k); if (p <= RPB) sym_assert(ok, "a column can be added while nothing is stored"); else sym_assert(!ok, "a column cannot be added once rows are stored"); have[k] = ok; if (ok) sym_reach("added"); else sym_reach("refused"); check(t, MI);
  if (sym_choice(2, "third")) { ok = addCol(t, o); sym_assert(ok == (p <= RPB), "another column"); have[o] = ok; check(t, MI); }
  for (unsigned r = p; r < rows; r++) putRow(t, f, r, fresh()); for (unsigned c = 0; c < 3; c++) if (c != f && have[c]) for (unsigned r = 0; r < rows; r++) if (r != 1) putRow(t, c, r, fresh());
  check(t, MI); for (unsigned c = 0; c < 3; c++) if (!have[c]) sym_assert(!addCol(t, c), "a column cannot be added once rows are stored"); check(t, MI); reopen(t); check(t, MR); for (unsigned c = 0; c < 3; c++) if (!have[c]) sym_assert(!addCol(t, c), "a column cannot be added to a stored table"); putRow(t, f, RPB, fresh()); check(t, MR); t = Table(); Table u(TAB); check(u, MR); sym_reach("add"); }
// columns are removed, before or after reopening, and the remaining ones are used further
extern "C" void c24_remove() {
  const unsigned f = (unsigned)sym_choice(3, "first"), k = (f + 1 + (unsigned)sym_choice(2, "second")) % 3, o = 3 - f - k; Table t = create(f); have[k] = addCol(t, k); const bool three = sym_choice(2, "three"); if (three) have[o] = addCol(t, o); sym_assert(have[k] && (!three || have[o]), "columns are added to an empty table");
  const unsigned p = (unsigned)sym_choice(4, "rowsBefore") * RPB / 2, q = sym_choice(2, "lastBlock") ? rows : rows - 1; if (p) for (unsigned r = 0; r < p + RPB && r < rows; r++) putRow(t, f, r, fresh());   // nothing, or more than the first block
  if (p) for (unsigned c = 0; c < 3; c++) if (c != f && have[c]) for (unsigned r = c == o ? 0 : RPB; r < q; r++) putRow(t, c, r, c == o && r == 0 ? anyToken() : fresh());
  if (sym_choice(2, "reopened")) reopen(t);
  for (unsigned n = 0; n < (three ? 2u : 1u); n++) { unsigned x = (unsigned)sym_choice(3, "removed"); if (!have[x]) x = have[f] ? f : k; t.removeColumn(N[x]); have[x] = false; w[x] = Want(); check(t, MI); sym_reach("removed"); }
  unsigned l = have[f] ? f : have[k] ? k : o; if (!p) { for (unsigned r = 0; r < RPB; r++) putRow(t, l, r, fresh()); } putRow(t, l, RPB, fresh()); putRow(t, l, rows - 1, fresh()); check(t, MI); reopen(t); check(t, MR); t.addRow(RPB); Geo g; g.rpb = RPB; fillRows(t, g, rows, rows + RPB); rows += RPB; putRow(t, l, rows - 1, fresh()); putRow(t, l, 0, fresh()); check(t, MR); t = Table(); Table u(TAB); check(u, MR); sym_reach("remove"); }
// scalar, indirect and wrongly typed columns are refused and nothing changes
extern "C" void c24_types() {
  Table t = create(0); addCol(t, 2); have[2] = true; const bool stored = sym_choice(2, "stored"); if (stored) for (unsigned r = 0; r < rows; r++) { putRow(t, 0, r, fresh()); if (r != 1) putRow(t, 2, r, fresh()); } else putRow(t, 0, 0, fresh());
  DataManager *d = t.findDataManager("man"); const int type = (int)sym_u32("type"); const unsigned kind = (unsigned)sym_choice(4, "kind"); DataManagerColumn *c = nullptr; const bool threw = throws([&] { c = kind == 0 ? d->createScalarColumn("OTHER", type, "") : kind == 1 ? d->createIndArrColumn("OTHER", type, "") : d->createDirArrColumn(kind == 2 ? "OTHER" : "WEIGHT_SPECTRUM", type, ""); });
  const bool ok = (kind == 2 && type == TpComplex) || (kind == 3 && type == TpFloat); if (threw) { sym_assert(!ok, "direct columns of complex numbers and weights are accepted"); sym_reach("refused"); } else { sym_assert(ok, "scalar, indirect and wrongly typed columns are refused"); sym_reach("accepted"); c->setShapeColumn(shp()); if (throws([&] { d->addColumn(c); })) sym_assert(stored, "a column can be added while nothing is stored"); else sym_assert(!stored, "a column cannot be added once rows are stored"); d->removeColumn(c); }
  sym_assert(throws([&] { DyscoStMan other(BITS, WBITS); DataManagerColumn *x = other.createDirArrColumn("OTHER", TpComplex, ""); d->removeColumn(x); }), "a column of another manager is refused");
  check(t, MI); if (!stored) for (unsigned r = 1; r < rows; r++) { putRow(t, 0, r, fresh()); putRow(t, 2, r, fresh()); } putRow(t, 2, 1, fresh()); putRow(t, 0, RPB, fresh()); check(t, MI); t = Table(); Table u(TAB); check(u, MR); sym_reach("types"); }
