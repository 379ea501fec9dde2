// C04: dithered quantisation: adjacent level, unbiased share, exact on levels, extremes, reserved symbol.
#include "tables.h"
static const double TOL = 1.0 / (1 << 20);   // rounding allowance on the share of dithers
static void share(const Enc &e, size_t Q, bool bias) {
  const unsigned last = (unsigned)(Q - 2);
  float v = sym_float("value", 0, 1e6, SYM_NONFINITE | SYM_ZERO); static const unsigned ds[] = {0, 1, 1u << 30, (1u << 30) + 12345, 0x7ffffffe, 0x7fffffff}; unsigned d = bias ? (unsigned)sym_make(31, "dither") : ds[sym_choice(6, "dither")]; unsigned s = e.EncodeWithDithering(v, d); sym_log("symbol", s);
  if (!fin(v)) { sym_assert(s == Q - 1, "non-finite values get the reserved symbol"); sym_reach("nonfinite"); return; }
  sym_assert(s <= last, "finite values get a regular symbol");
  if (v <= e.Decode(0)) { sym_assert(s == 0, "values below the range get the lowest level"); sym_reach("below"); return; }
  if (v > e.Decode(last)) { sym_assert(s == last, "values above the range get the highest level"); sym_reach("above"); return; }
  unsigned k = 0; while (k < last && !(v <= e.Decode(k + 1))) k++;    // level k < v <= level k+1
  sym_assert(s == k || s == k + 1, "one of the two enclosing levels");
  if (!bias) { sym_reach("between"); return; }
  const double l = e.Decode(k), r = e.Decode(k + 1), up = (double(v) - l), width = r - l; const double x = d * (1.0 / 2147483648.0);
  if (s == k + 1) sym_assert((x - TOL) * width <= up, "upper level for no more dither values than its share");
  else sym_assert((x + TOL) * width >= up, "upper level for no fewer dither values than its share");
  sym_reach("between");
}
static void onlevel(const Enc &e, size_t Q) {
  unsigned k = (unsigned)sym_choice(Q - 1, "level"); unsigned d = (unsigned)sym_make(31, "dither");
  unsigned s = e.EncodeWithDithering(e.Decode(k), d); sym_log("symbol", s); sym_assert(s == k, "a value equal to a level gets that level for every dither"); sym_reach("onlevel");
}
#ifdef SYMTABLE
static const size_t qs[] = {QS};
extern "C" void c04_any() {
  size_t Q = qs[sym_choice(sizeof(qs) / sizeof(qs[0]), "symbols")]; qMax = 1e6; qSep = 1e-6; Enc e = sym_choice(2, "kind") ? Enc::TruncatedGausEncoder(Q, 2.5, 1.0) : Enc::StudentTEncoder(Q, 3.0, 1.0); share(e, Q, false); }
#else
static const size_t qs[] = {QS};
static Enc table(size_t &Q) { unsigned k = (unsigned)sym_choice(8, "distribution"); Q = qs[sym_choice(sizeof(qs) / sizeof(qs[0]), "symbols")]; return concreteTable(k, Q); }
extern "C" void c04_share() { size_t Q; Enc e = table(Q); share(e, Q, true); }
extern "C" void c04_onlevel() { size_t Q; Enc e = table(Q); onlevel(e, Q); }
extern "C" void c04_range() {
  std::uniform_int_distribution<unsigned> d = Enc::GetDitherDistribution(); sym_assert(d.min() == 0 && d.max() == 0x7fffffffu, "dither values are uniform over 31 bits"); sym_reach("range"); }
#endif
