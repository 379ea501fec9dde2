// Shared by the block encoder harnesses: blocks, encoders, encode/decode through exactly sized buffers.
#pragma once
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <memory>
#include <vector>
#include <complex>
#include <algorithm>
#include "tables.h"
#include "aftimeblockencoder.h"
#include "rftimeblockencoder.h"
#include "rowtimeblockencoder.h"
uint64_t (*verifDither)(uint64_t, uint64_t) = nullptr;
typedef std::complex<float> cf;
enum Kind { ROW, RF, AF };
static inline TimeBlockEncoder *makeEncoder(Kind k, size_t nPol, size_t nCh) {
  if (k == ROW) return new RowTimeBlockEncoder(nPol, nCh); if (k == RF) return new RFTimeBlockEncoder(nPol, nCh); return new AFTimeBlockEncoder(nPol, nCh, true); }
struct Block {
  size_t nRow, nAnt, nPol, nCh; size_t a1[16], a2[16]; float v[512];   // v[(row*nCh*nPol + ch*nPol + pol)*2 + c]
  size_t perRow() const { return nCh * nPol * 2; } size_t count() const { return nRow * perRow(); }
  size_t row(size_t i) const { return i / perRow(); } size_t pol(size_t i) const { return (i / 2) % nPol; } size_t ch(size_t i) const { return i / 2 / nPol % nCh; }
  bool isAuto(size_t r) const { return a1[r] == a2[r]; }
  void fill(TimeBlockBuffer<cf> &b) const { cf row[64]; for (size_t r = 0; r < nRow; r++) { for (size_t i = 0; i < nCh * nPol; i++) row[i] = cf(v[r * perRow() + 2 * i], v[r * perRow() + 2 * i + 1]); b.SetData(r, a1[r], a2[r], row); } } };
// the rows of the block: cross-correlations of nAnt antennas (all pairs), optionally followed by the auto-correlations
static inline void pairs(Block &b, size_t nAnt, size_t maxCross, bool autos) {
  b.nAnt = nAnt; size_t r = 0; for (size_t i = 0; i < nAnt; i++) for (size_t j = i + 1; j < nAnt; j++) if (r < maxCross) { b.a1[r] = i; b.a2[r] = j; r++; }
  if (autos) for (size_t i = 0; i < nAnt; i++) { b.a1[r] = b.a2[r] = i; r++; } b.nRow = r; }
struct Coded { float *meta; unsigned *sym; size_t nMeta, nSym; };
static inline Coded encode(TimeBlockEncoder *e, const Enc &table, const Block &b, bool dither) {
  Coded c; c.nMeta = e->MetaDataCount(b.nRow, b.nPol, b.nCh, b.nAnt); c.nSym = e->SymbolCount(b.nRow); sym_assert(c.nSym == b.count() && e->SymbolCount(b.nRow, b.nPol, b.nCh) == c.nSym && e->SymbolsPerRow() == b.perRow(), "advertised symbol count");
  c.meta = (float *)malloc(c.nMeta * sizeof(float)); c.sym = (unsigned *)malloc(c.nSym * sizeof(unsigned)); TimeBlockBuffer<cf> buf(b.nPol, b.nCh); b.fill(buf); std::mt19937 rnd;
  if (dither) e->EncodeWithDithering(table, buf, c.meta, c.sym, b.nAnt, rnd); else e->EncodeWithoutDithering(table, buf, c.meta, c.sym, b.nAnt);
  return c; }
static inline void release(Coded &c) { free(c.meta); free(c.sym); }
static inline void decodeRow(TimeBlockEncoder *e, const Enc &table, const Block &b, const Coded &c, size_t r, float *out) {
  TimeBlockBuffer<cf> buf(b.nPol, b.nCh); buf.resize(b.nRow); e->Decode(table, buf, c.sym, r, b.a1[r], b.a2[r]); sym_assert(buf[r].visibilities.size() == b.nCh * b.nPol && buf[r].antenna1 == b.a1[r] && buf[r].antenna2 == b.a2[r], "decoded row has its size and antennas");
  cf tmp[64]; buf.GetData(r, tmp); for (size_t i = 0; i < b.nCh * b.nPol; i++) { out[2 * i] = tmp[i].real(); out[2 * i + 1] = tmp[i].imag(); } }
static inline double maxd(double a, double b) { return a > b ? a : b; }
