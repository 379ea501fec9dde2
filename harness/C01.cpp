// C01: symbol packing round trip, layout, exact size; unsupported widths refused.
#include "sym.h"
#include "bytepacker.h"
#include <cstdlib>
#include <stdexcept>
using dyscostman::BytePacker;
static const unsigned widths[] = {2, 3, 4, 6, 8, 10, 12, 16};
static void roundtrip(unsigned b, unsigned n) {
  const size_t bytes = ((size_t)n * b + 7) / 8;
  sym_assert(BytePacker::bufferSize(n, b) == bytes, "bufferSize is ceil(n*b/8)");
  // exactly sized buffers: the memory model reports any access outside them
  unsigned *in = new unsigned[n]; unsigned char *packed = new unsigned char[bytes]; unsigned *out = new unsigned[n];
  for (unsigned i = 0; i != n; i++) in[i] = (unsigned)sym_make(b, "symbol");
  BytePacker::pack(b, packed, in, n);
  sym_assert(sym_is_init(packed, bytes), "every byte of the packed stream is written");
  // symbol i occupies bits [i*b,(i+1)*b), least significant first
  bool layout = true;
  for (unsigned i = 0; i != n; i++) {
    unsigned v = 0; for (unsigned k = 0; k != b; k++) { size_t bit = (size_t)i * b + k; v |= ((packed[bit / 8] >> (bit % 8)) & 1u) << k; }
    layout = layout & (v == in[i]);
  }
  if (n) sym_assert(layout, "symbol i occupies bits [i*b,(i+1)*b) of the stream");
  BytePacker::unpack(b, out, packed, n);
  bool same = true; for (unsigned i = 0; i != n; i++) same = same & (out[i] == in[i]);
  if (n) { sym_assert(sym_is_init(out, n * sizeof(unsigned)), "every symbol is written"); sym_assert(same, "unpack(pack(x)) == x"); }
  for (unsigned i = 0; i < n && i < 3; i++) sym_log("out", out[i]);
  sym_reach("roundtrip");
  delete[] in; delete[] packed; delete[] out;
}
#ifndef MAXN
#define MAXN 19
#endif
extern "C" void c01_roundtrip() { unsigned b = widths[sym_choice(8, "width")]; unsigned n = sym_choice(MAXN + 1, "n"); roundtrip(b, n); }
extern "C" void c01_long() { unsigned b = widths[sym_choice(8, "width")]; static const unsigned ns[] = {31, 32, 33, 48, 63, 64, 65, 66, 67, 68, 69, 70, 71}; unsigned n = ns[sym_choice(13, "n")]; roundtrip(b, n); }
// unpacking any byte stream gives the bits of the stream (no dependence on how it was produced)
extern "C" void c01_unpack() {
  unsigned b = widths[sym_choice(8, "width")]; unsigned n = sym_choice(MAXN + 1, "n"); const size_t bytes = ((size_t)n * b + 7) / 8;
  unsigned char *packed = new unsigned char[bytes]; unsigned *out = new unsigned[n]; for (size_t i = 0; i != bytes; i++) packed[i] = sym_u8("byte");
  BytePacker::unpack(b, out, packed, n); bool ok = true;
  for (unsigned i = 0; i != n; i++) { unsigned v = 0; for (unsigned k = 0; k != b; k++) { size_t bit = (size_t)i * b + k; v |= ((packed[bit / 8] >> (bit % 8)) & 1u) << k; } ok = ok & (v == out[i]); }
  if (n) sym_assert(ok, "unpack reads bits [i*b,(i+1)*b)"); sym_reach("unpack"); delete[] packed; delete[] out;
}
extern "C" void c01_unsupported() {
  unsigned b = (unsigned)sym_u32("width"); for (unsigned w : widths) sym_assume(b != w);
  unsigned in[4] = {0, 0, 0, 0}, out[4] = {7, 7, 7, 7}; unsigned char packed[8] = {9, 9, 9, 9, 9, 9, 9, 9}; bool t1 = false, t2 = false;
  try { BytePacker::pack(b, packed, in, 4); } catch (std::exception &) { t1 = true; }
  try { BytePacker::unpack(b, out, packed, 4); } catch (std::exception &) { t2 = true; }
  sym_assert(t1 && t2, "unsupported width is refused"); bool un = true; for (unsigned char c : packed) un = un & (c == 9); for (unsigned o : out) un = un & (o == 7);
  sym_assert(un, "refused operation writes nothing"); sym_reach("refused");
}
extern "C" void c01_size() {  // bufferSize for arbitrary counts (no overflow region: n*b < 2^60)
  uint64_t n = sym_u64("n"); sym_assume(n < (1ull << 56)); unsigned b = widths[sym_choice(8, "width")]; uint64_t s = BytePacker::bufferSize(n, b);
  sym_assert(s * 8 >= n * b && (s == 0 ? n == 0 : (s - 1) * 8 < n * b), "bufferSize is ceil(n*b/8) for every n"); sym_reach("size");
}
