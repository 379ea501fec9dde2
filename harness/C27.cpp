// C27: the block buffer keeps rows apart.
#include <cstring>
#include <cstdlib>
#include "sym.h"
#include "timeblockbuffer.h"
typedef std::complex<float> cf;
#ifndef MAXROW
#define MAXROW 3
#endif
static bool eq(float a, float b) { return bits_of(a) == bits_of(b); }
static bool eq(const cf &a, const cf &b) { return eq(a.real(), b.real()) && eq(a.imag(), b.imag()); }
static void anyv(float &f) { f = sym_float("value", 0, 0, SYM_NONFINITE | SYM_ZERO); }
static void anyv(cf &f) { float a, b; anyv(a); anyv(b); f = cf(a, b); }
template <typename T> static T *anyRow(size_t n) { T *p = (T *)malloc(n * sizeof(T)); for (size_t i = 0; i < n; i++) anyv(p[i]); return p; }
// any sequence of writes to rows (also sparse and repeated), then read everything back
template <typename T> static void rows(unsigned writes) {
  size_t nPol = 1 + sym_choice(2, "polarisations"), nCh = 1 + sym_choice(2, "channels"), n = nPol * nCh; TimeBlockBuffer<T> b(nPol, nCh);
  sym_assert(b.Empty() && b.NRows() == 0, "new buffer is empty");
  T *last[MAXROW + 1] = {nullptr}; size_t a1[MAXROW + 1], a2[MAXROW + 1], size = 0;
  for (unsigned w = 0; w < writes; w++) {
    size_t r = sym_choice(MAXROW + 1, "row"); T *v = anyRow<T>(n); size_t x = sym_u64("antenna1"), y = sym_u64("antenna2"); b.SetData(r, x, y, v);
    last[r] = v; a1[r] = x; a2[r] = y; if (r + 1 > size) size = r + 1;
    sym_assert(b.NRows() == size && !b.Empty(), "number of rows"); }
  size_t mx = 0; bool all = true; for (size_t r = 0; r < size; r++) { if (!last[r]) { all = false; continue; } mx = a1[r] > mx ? a1[r] : mx; mx = a2[r] > mx ? a2[r] : mx; }
  if (all) sym_assert(b.MaxAntennaIndex() == mx, "largest antenna index");
  const TimeBlockBuffer<T> &cb = b; sym_assert(cb.GetVector().size() == size, "row vector size");
  for (size_t r = 0; r < size; r++) { if (!last[r]) continue;
    T *d = (T *)malloc(n * sizeof(T)); cb.GetData(r, d); for (size_t i = 0; i < n; i++) sym_assert(eq(d[i], last[r][i]), "row reads back as written"); free(d);
    sym_assert(b[r].antenna1 == a1[r] && b[r].antenna2 == a2[r] && cb.GetVector()[r].visibilities.size() == n, "row keeps its antennas and size"); }
  b.ResetData(); sym_assert(b.Empty() && b.NRows() == 0, "reset empties the buffer"); sym_reach("rows"); }
extern "C" void c27_visibilities() { rows<cf>(WRITES); }
extern "C" void c27_weights() { rows<float>(WRITES); }
extern "C" void c27_convert() {
  size_t nPol = 1 + sym_choice(2, "polarisations"), nCh = 1 + sym_choice(2, "channels"), n = nPol * nCh, nr = 1 + sym_choice(3, "rows"); TimeBlockBuffer<cf> b(nPol, nCh); cf *v[4]; size_t a1[4], a2[4];
  for (size_t r = 0; r < nr; r++) { v[r] = anyRow<cf>(n); a1[r] = sym_u64("antenna1"); a2[r] = sym_u64("antenna2"); b.SetData(r, a1[r], a2[r], v[r]); }
  std::vector<typename TimeBlockBuffer<std::complex<double>>::DataRow> out; if (sym_choice(2, "reused")) { out.resize(4); out[0].visibilities.resize(7); } b.template ConvertVector<std::complex<double>>(out);
  sym_assert(out.size() == nr, "row count preserved");
  for (size_t r = 0; r < nr; r++) { sym_assert(out[r].antenna1 == a1[r] && out[r].antenna2 == a2[r] && out[r].visibilities.size() == n, "antennas and sizes preserved"); for (size_t i = 0; i < n; i++) { double re = out[r].visibilities[i].real(), im = out[r].visibilities[i].imag(); sym_assert((re == v[r][i].real() || (re != re && v[r][i].real() != v[r][i].real())) && (im == v[r][i].imag() || (im != im && v[r][i].imag() != v[r][i].imag())), "values preserved"); sym_assert(eq(b[r].visibilities[i], v[r][i]), "source unchanged"); } }
  sym_reach("convert"); }
