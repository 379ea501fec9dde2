// C05: tables are finite, strictly increasing, antisymmetric, interleaved with the boundaries, for every scale.
#include "tables.h"
#ifndef SYMTABLE
#ifdef SCALED
// gsl_cdf_gaussian_Pinv(p, sigma) is defined as sigma times the unit quantile
extern "C" double gsl_cdf_ugaussian_Pinv(double);
extern "C" double gsl_cdf_gaussian_Pinv(double p, double sigma) { return sigma * gsl_cdf_ugaussian_Pinv(p); }
#endif
#endif
#ifndef QS
#define QS 4, 8
#endif
static const size_t qs[] = {QS};
static void wellformed(const Enc &e, size_t Q, double scale) {
  sym_assert(e.QuantizationCount() == Q, "number of symbols");
  sym_assert(e.MinQuantity() == e.Decode(0) && e.MaxQuantity() == e.Decode((unsigned)(Q - 2)), "smallest and largest level");
  float top = e.Decode((unsigned)(Q - 2));
  for (size_t i = 0; i + 1 < Q; i++) {
    float l = e.Decode((unsigned)i), o = e.Decode((unsigned)(Q - 2 - i));
    sym_assert(fin(l), "levels are finite");
    if (i + 2 < Q) { float n = e.Decode((unsigned)(i + 1)), b = e.RightBoundary((unsigned)i);
      sym_assert(l < n, "levels are strictly increasing"); sym_assert(fin(b) && l < b && b < n, "boundary between its two levels"); }
    if (i <= (Q - 2) / 2) { double d = (double)l + o; sym_assert(d <= 1e-5 * (double)o + 1e-9 * (double)top && -d <= 1e-5 * (double)o + 1e-9 * (double)top, "levels are antisymmetric around zero"); }
  }
  sym_assert(e.RightBoundary((unsigned)(Q - 2)) == std::numeric_limits<float>::max(), "last interval is open-ended");
  sym_assert(top > 0 && e.Decode(0) < 0, "levels on both sides of zero");
  float z = e.Decode((unsigned)(Q - 1)); sym_assert(z != z, "reserved symbol decodes to NaN");
  (void)scale; sym_reach("table");
}
#ifdef SYMTABLE
extern "C" void c05_any() {
  size_t Q = qs[sym_choice(sizeof(qs) / sizeof(qs[0]), "symbols")]; qMin = 1e-3; qMax = 1e3; qSep = 1e-4; qOdd = true; qFloat = false;
  double rms = sym_double("rms", 1e-3, 1e3, SYM_NONNEG); sym_assume(rms > 0);
  if (sym_choice(2, "kind")) { stubTail = sym_double("tail", 1e-6, 0.4, SYM_NONNEG); sym_assume(stubTail > 0); Enc e = Enc::TruncatedGausEncoder(Q, 2.5, rms); wellformed(e, Q, 1); }
  else { Enc e = Enc::StudentTEncoder(Q, 3.0, rms); wellformed(e, Q, 1); } }
#else
static const double nus[] = {1.0, 2.0, 3.0, 6.5, 100.0}, truncs[] = {0.5, 1.0, 1.5, 2.5, 4.0, 7.0};
static Enc table(size_t Q, double s) {
  unsigned k = (unsigned)sym_choice(13, "distribution");
  if (k == 0) return Enc(Q, (float)s, false);
  if (k == 1) return Enc(Q, (float)s, true);
  if (k < 7) return Enc::StudentTEncoder(Q, nus[k - 2], s);
  return Enc::TruncatedGausEncoder(Q, truncs[k - 7], s); }
extern "C" void c05_scale() {
  size_t Q = qs[sym_choice(sizeof(qs) / sizeof(qs[0]), "symbols")]; double s = (double)sym_float("scale", 1e-15, 1e15, SYM_NONNEG); sym_assume(s > 0); Enc e = table(Q, s); wellformed(e, Q, s); }
extern "C" void c05_fixed() {
  size_t Q = qs[sym_choice(sizeof(qs) / sizeof(qs[0]), "symbols")]; static const double ss[] = {1.0, 1e-10, 3e12}; Enc e = table(Q, ss[sym_choice(3, "scale")]); wellformed(e, Q, 1); }
#endif
