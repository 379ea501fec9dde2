// C03: undithered quantisation: containing interval, monotone, idempotent on levels, reserved symbol for non-finite values.
#include "tables.h"
static float rb(const Enc &e, unsigned s) { return e.RightBoundary(s); }
static void decided(const Enc &e, size_t Q) {
  float v = sym_float("value", 0, 0, SYM_NONFINITE | SYM_ZERO); unsigned s = e.Encode(v);
  sym_log("symbol", s);
  if (!fin(v)) { sym_assert(s == Q - 1, "non-finite values get the reserved symbol"); sym_reach("nonfinite"); return; }
  sym_assert(s < Q - 1, "finite values get a regular symbol");
  if (s > 0) sym_assert(rb(e, s - 1) <= v, "value not below its interval");
  if (s < Q - 2) sym_assert(v <= rb(e, s), "value not above its interval");
  sym_reach("finite");
}
static void levels(const Enc &e, size_t Q) {
  sym_assert(e.QuantizationCount() == Q, "number of symbols");
  unsigned s = (unsigned)sym_choice(Q - 1, "level"); float l = e.Decode(s);
  sym_assert(fin(l), "levels are finite"); sym_assert(e.Encode(l) == s, "encoding a level gives its symbol");
  if (s + 2 < Q) sym_assert(l < e.Decode(s + 1), "decoding is increasing in the symbol");
  float z = e.Decode((unsigned)(Q - 1)); sym_assert(z != z, "the reserved symbol decodes to NaN"); sym_reach("level");
}
static void monotone(const Enc &e, size_t) {
  float a = sym_float("a", 0, 0, 0), b = sym_float("b", 0, 0, 0); sym_assume(a <= b); unsigned s = e.Encode(a), t = e.Encode(b); sym_assert(s <= t, "symbol is monotone in the value"); sym_reach("monotone");
}
#ifdef SYMTABLE
#ifndef QS
#define QS 4, 8
#endif
static const size_t qs[] = {QS};
static Enc any(size_t &Q) { Q = qs[sym_choice(sizeof(qs) / sizeof(qs[0]), "symbols")]; qMax = 1e30; return sym_choice(2, "kind") ? Enc::TruncatedGausEncoder(Q, 2.5, 1.0) : Enc::StudentTEncoder(Q, 3.0, 1.0); }
extern "C" void c03_any_encode() { size_t Q; Enc e = any(Q); decided(e, Q); }
extern "C" void c03_any_levels() { size_t Q; Enc e = any(Q); levels(e, Q); }
extern "C" void c03_any_monotone() { size_t Q; Enc e = any(Q); monotone(e, Q); }
#else
#ifndef QS
#define QS 4, 8, 16, 64, 256
#endif
static const size_t qs[] = {QS};
static Enc table(size_t &Q) { unsigned k = (unsigned)sym_choice(8, "distribution"); Q = qs[sym_choice(sizeof(qs) / sizeof(qs[0]), "symbols")]; return concreteTable(k, Q); }
extern "C" void c03_encode() { size_t Q; Enc e = table(Q); decided(e, Q); }
extern "C" void c03_levels() { size_t Q; Enc e = table(Q); levels(e, Q); }
#endif
