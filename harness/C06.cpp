// C06: weights come back within half a quantisation step of the block maximum; zeros and the maximum are preserved.
#include <vector>
#include <complex>
#include <cstring>
#include "sym.h"
#include "weightblockencoder.h"
#include "weightencoder.h"
#ifndef QS
#define QS 4, 16, 256, 4096, 65536
#endif
static const size_t qs[] = {QS};
static size_t anyQ() { return qs[sym_choice(sizeof(qs) / sizeof(qs[0]), "levels")]; }
static void check(float want, float got, float M, size_t Q, const char *) {
  double step = (double)M / (double)(Q - 1), d = (double)got - (double)want, tol = 0.5 * step + 1e-6 * (double)M;
  sym_assert(d <= tol && -d <= tol, "decoded weight within half a step of the smallest polarisation weight");
  if (want == 0) sym_assert(got == 0, "zero weight stays zero");
  if (want == M) sym_assert(d <= 1e-6 * (double)M && -d <= 1e-6 * (double)M, "largest weight is preserved"); }
static void block(size_t nRow, size_t nCh, size_t nPol, size_t Q, const float *w) {
  WeightBlockEncoder enc(nPol, nCh, Q);
  sym_assert(enc.MetaDataFloatCount() == 1 && enc.SymbolCount(nRow) == nRow * nCh, "advertised sizes");
  TimeBlockBuffer<float> buf(nPol, nCh), out(nPol, nCh);
  for (size_t r = 0; r < nRow; r++) buf.SetData(r, 0, 1, w + r * nCh * nPol);
  float *meta = (float *)malloc(sizeof(float)); unsigned *sym = (unsigned *)malloc(sizeof(unsigned) * nRow * nCh);   // exactly the advertised sizes
  enc.Encode(buf, meta, sym);
  float M = 0; for (size_t c = 0; c < nRow * nCh; c++) { float m = w[c * nPol]; for (size_t p = 1; p < nPol; p++) m = w[c * nPol + p] < m ? w[c * nPol + p] : m; M = m > M ? m : M; }
  WeightBlockEncoder dec(nPol, nCh, Q); dec.InitializeDecode(meta); out.resize(nRow); for (size_t r = 0; r < nRow; r++) dec.Decode(out, sym, r);
  for (size_t c = 0; c < nRow * nCh; c++) sym_assert(sym[c] < Q, "symbol fits the weight bit width");
  size_t f = sym_choice(nRow * nCh, "focus"); float m = w[f * nPol]; for (size_t p = 1; p < nPol; p++) m = w[f * nPol + p] < m ? w[f * nPol + p] : m;
  sym_assert(out[f / nCh].visibilities.size() == nCh * nPol, "row size");
  const float *o = &out[f / nCh].visibilities[(f % nCh) * nPol]; for (size_t p = 1; p < nPol; p++) sym_assert(o[p] == o[0], "all polarisations get the same weight");
  check(m, o[0], M, Q, ""); sym_reach("block"); free(meta); free(sym); }
struct Shape { size_t r, c, p; };
#ifndef SHAPES
#define SHAPES {1, 1, 1}, {1, 1, 2}, {2, 1, 1}, {1, 2, 1}, {2, 1, 2}, {1, 1, 4}
#endif
#ifndef FSHAPES
#define FSHAPES {3, 2, 4}, {2, 5, 2}, {4, 3, 1}
#endif
extern "C" void c06_all() {
  static const Shape sh[] = {SHAPES}; Shape s = sh[sym_choice(sizeof(sh) / sizeof(sh[0]), "shape")]; size_t Q = anyQ(); float w[64];
  for (size_t i = 0; i < s.r * s.c * s.p; i++) w[i] = sym_float("weight", 1e-30, 1e30, SYM_NONNEG | SYM_ZERO);
  block(s.r, s.c, s.p, Q, w); }
// larger blocks: two cells symbolic at every pair of positions (first fixed relative to the second), the others concrete
extern "C" void c06_focus() {
  static const Shape sh[] = {FSHAPES}; Shape s = sh[sym_choice(sizeof(sh) / sizeof(sh[0]), "shape")]; size_t Q = qs[1]; float w[64]; size_t n = s.r * s.c * s.p;
  for (size_t i = 0; i < n; i++) w[i] = 0.5f + 0.25f * (float)((i * 7) % 5);
  size_t k = sym_choice(n, "position"); w[k] = sym_float("weight", 1e-30, 1e30, SYM_NONNEG | SYM_ZERO); size_t j = (k + 1 + s.p) % n; w[j] = sym_float("weight2", 1e-30, 1e30, SYM_NONNEG | SYM_ZERO);
  block(s.r, s.c, s.p, Q, w); }
// bit-precise: every weight up to a given maximum
extern "C" void c06_exact() {
  static const float ms[] = {1.0f, 0.3f, 7e20f, 3.4e38f, 1e-38f, 1e-44f}; float M = ms[sym_choice(6, "maximum")]; size_t Q = anyQ();
  float w[2]; w[0] = M; w[1] = sym_float("weight", 0, 0, SYM_NONNEG | SYM_ZERO); sym_assume(w[1] <= M);
  WeightBlockEncoder enc(1, 1, Q); TimeBlockBuffer<float> buf(1, 1); buf.SetData(0, 0, 1, w); buf.SetData(1, 0, 2, w + 1); float meta; unsigned sym[2]; enc.Encode(buf, &meta, sym);
  sym_assert(sym[0] == Q - 1 && sym[1] < Q, "symbol fits the weight bit width"); sym_assert(meta == M, "scale is the maximum"); if (w[1] == 0) sym_assert(sym[1] == 0, "zero weight has symbol zero"); sym_reach("exact"); }
extern "C" void c06_vector() {
  size_t n = 1 + sym_choice(3, "count"), Q = anyQ(); std::vector<float> in(n), out(n); std::vector<unsigned> sym(n); float M = 0;
  for (size_t i = 0; i < n; i++) { in[i] = sym_float("weight", 1e-30, 1e30, SYM_NONNEG | SYM_ZERO); M = in[i] > M ? in[i] : M; }
  dyscostman::WeightEncoder<float> e((unsigned)Q); float scale; e.Encode(scale, sym, in); e.Decode(out, scale, sym);
  for (size_t i = 0; i < n; i++) sym_assert(sym[i] < Q, "symbol fits the weight bit width");
  size_t f = sym_choice(n, "focus"); check(in[f], out[f], M, Q, ""); sym_reach("vector"); }
