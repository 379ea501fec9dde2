// Level tables for the harnesses. With SYMTABLE the GSL quantile functions are replaced by arbitrary strictly increasing
// functions of the probability (their contract), so the encoder's real constructors build arbitrary tables.
#pragma once
#include <random>
#include <cmath>
#include <limits>
#include "sym.h"
#include "stochasticencoder.h"
typedef dyscostman::StochasticEncoder<float> Enc;
static inline bool fin(float f) { return __builtin_isfinite(f); }
#ifdef SYMTABLE
#include <gsl/gsl_cdf.h>
#include <gsl/gsl_sf_erf.h>
struct QPoint { double p, v; };
static QPoint qpts[600]; static int nq = 0;
static double qMin = 0, qMax = 1e6, qSep = 0; static bool qOdd = false; static bool qFloat = true;
static double quantile(double p) {
  for (int i = 0; i < nq; i++) if (qpts[i].p == p) return qpts[i].v;
  sym_assert(p > 0 && p < 1, "quantile asked for a probability in (0,1)");
  double v;
  if (qOdd && std::fabs(p - 0.5) < 1e-12) v = 0.0;
  else {
    bool found = false; if (qOdd) for (int i = 0; i < nq && !found; i++) if (std::fabs(qpts[i].p - (1.0 - p)) < 1e-12) { v = -qpts[i].v; found = true; }
    if (!found) v = qFloat ? (double)sym_float("quantile", qMin, qMax, SYM_ZERO) : sym_double("quantile", qMin, qMax, SYM_ZERO);
    if (!found && qOdd) sym_assume(p < 0.5 ? v < 0 : v > 0);
    if (!found) {   // nearest neighbours suffice: the others follow by transitivity
      int lo = -1, hi = -1; for (int i = 0; i < nq; i++) { if (qpts[i].p < p && (lo < 0 || qpts[i].p > qpts[lo].p)) lo = i; if (qpts[i].p > p && (hi < 0 || qpts[i].p < qpts[hi].p)) hi = i; }
      if (lo >= 0) sym_assume(qpts[lo].v + qSep * (std::fabs(qpts[lo].v) + std::fabs(v)) < v); if (hi >= 0) sym_assume(v + qSep * (std::fabs(qpts[hi].v) + std::fabs(v)) < qpts[hi].v); } }
  qpts[nq].p = p; qpts[nq].v = v; nq++; return v; }
static double stubTail = 0.01;
extern "C" double gsl_cdf_gaussian_P(double, double) { return stubTail; }
#ifndef SCALED
extern "C" double gsl_cdf_gaussian_Pinv(double p, double) { return quantile(p); }
extern "C" double gsl_cdf_tdist_Pinv(double p, double) { return quantile(p); }
#else
extern "C" double gsl_cdf_gaussian_Pinv(double p, double sigma) { return quantile(p) * sigma; }
extern "C" double gsl_cdf_tdist_Pinv(double p, double) { return quantile(p); }
#endif
extern "C" double gsl_sf_erf(double x) { return x; }
#endif
static inline Enc concreteTable(unsigned which, size_t quant) {
  switch (which) {
    case 0: return Enc(quant, 1.0f, false);
    case 1: return Enc(quant, 1.0f, true);
    case 2: return Enc::TruncatedGausEncoder(quant, 2.5, 1.0);
    case 3: return Enc::StudentTEncoder(quant, 3.0, 1.0);
    case 4: return Enc::TruncatedGausEncoder(quant, 4.0, 1.0);
    case 5: return Enc::StudentTEncoder(quant, 1.0, 1.0);
    case 6: return Enc(quant, 0.6f, false);
    default: return Enc(quant, 20.0f, true);
  }
}
