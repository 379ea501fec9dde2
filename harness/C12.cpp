// C12: exactly the advertised buffers, all of it initialised, symbols in range. C26: no influence of earlier blocks.
#include "enc.h"
#include "weightblockencoder.h"
#ifndef QS
#define QS 4
#endif
static const size_t qs[] = {QS};
#undef sqrt
static bool coarse = false;
extern "C" double verif_sqrt(double x) {
  if (!coarse) return __builtin_sqrt(x); if (sym_decide(x != x)) return x; if (sym_decide(x == 0)) return 0;
  double s = 1e-8; for (double t = 1e-14; t < 1e15; t *= 1e4, s *= 1e2) if (sym_decide(x < t)) return s; return s; }
static float hashed(size_t k) { const uint32_t h = (uint32_t)(k + 1) * 2654435761u; static const float m[] = {1.0f, 0.25f, 31.0f, 0.013f, 5.5f, 3e-3f}; return m[(h >> 9) % 6] * ((h >> 20 & 1) ? -1.0f : 1.0f) * (float)(1 + (h >> 21 & 7)) * 0.125f; }
// contents: 0 ordinary, 1 all zero, 2 all non-finite, 3 zeros and non-finite values in between
static void contents(Block &b, size_t kind, size_t salt) {
  static const float nf[] = {__builtin_nanf(""), __builtin_inff(), -__builtin_inff()};
  for (size_t i = 0; i < b.count(); i++) { const float h = hashed(i + salt * 1000); b.v[i] = kind == 0 ? h : kind == 1 ? (i & 1 ? 0.0f : -0.0f) : kind == 2 ? nf[(i + salt) % 3] : i * 7 % 5 == 1 ? nf[i % 3] : i * 7 % 5 == 3 ? 0.0f : h; } }
static uint64_t draws[256]; static size_t nDraw = 0, atDraw = 0;
// every pass over a block sees the same draws, the first and fourth of which are free
static uint64_t sameDither(uint64_t lo, uint64_t hi) { if (atDraw == nDraw) { draws[nDraw] = nDraw == 0 || nDraw == 3 ? sym_range(lo, hi, "dither") : nDraw % 3 == 1 ? lo : nDraw % 3 == 2 ? hi : (lo + hi) / 2; nDraw++; } return draws[atDraw++]; }
// the first draw is free, the others are extreme and ordinary values
static uint64_t someDither(uint64_t lo, uint64_t hi) { const size_t i = nDraw++; return i == 0 ? sym_range(lo, hi, "dither") : i % 3 == 1 ? lo : i % 3 == 2 ? hi : (lo + hi) / 2; }
static Kind kind() { return (Kind)
#ifdef KIND
  KIND;
#else
  sym_choice(3, "normalisation");
#endif
}
#ifdef SIZES
extern "C" void c12_sizes() {
  const Kind k = kind(); const size_t Q = qs[sym_choice(sizeof(qs) / sizeof(qs[0]), "symbols")]; Enc e = concreteTable(1, Q); Block b;
  b.nPol = 1 + sym_choice(4, "polarisations"); b.nCh = 1 + sym_choice(3, "channels"); const size_t ant = 1 + sym_choice(4, "antennas"), cross = 1 + sym_choice(3, "baselines"); const bool autos = sym_choice(2, "autos");
  pairs(b, ant, cross == 3 ? 16 : cross, autos); sym_assume(b.nRow > 0); b.nAnt += sym_choice(2, "unused"); contents(b, sym_choice(4, "contents"), 0);
  // one free component (for the simpler normalisations): its symbol must be in range whatever it is
  verifDither = someDither; if (k != AF && b.count() <= (k == RF ? 2 : 4) && b.nAnt < 4) b.v[(b.nPol * 7 + b.nCh * 5 + ant) % b.count()] = sym_float("value", 1e-6, 1e6, SYM_ZERO | SYM_NONFINITE);
  std::unique_ptr<TimeBlockEncoder> enc(makeEncoder(k, b.nPol, b.nCh)), dec(makeEncoder(k, b.nPol, b.nCh));
  // the encoder is new, or encoded and decoded a block of more antennas before
  if (sym_choice(2, "used")) { Block o; o.nPol = b.nPol; o.nCh = b.nCh; pairs(o, ant == 4 ? 3 : 4, 16, !autos); contents(o, 0, 3); Coded c = encode(enc.get(), e, o, false); dec->InitializeDecode(c.meta, o.nRow, o.nAnt); float out[64]; for (size_t r = 0; r < o.nRow; r++) decodeRow(dec.get(), e, o, c, r, out); release(c); }
  Coded c = encode(enc.get(), e, b, sym_choice(2, "dithering"));
  sym_assert(c.nMeta == 0 || sym_is_init(c.meta, c.nMeta * sizeof(float)), "every meta-data value is written"); sym_assert(sym_is_init(c.sym, c.nSym * sizeof(unsigned)), "every symbol is written");
  for (size_t i = 0; i < c.nSym; i++) sym_assert(c.sym[i] < Q, "symbol below the symbol count");
  dec->InitializeDecode(c.meta, b.nRow, b.nAnt); float out[64]; for (size_t r = b.nRow; r-- > 0;) decodeRow(dec.get(), e, b, c, r, out);
  sym_reach("sizes"); release(c); }
extern "C" void c12_weights() {
  const size_t nPol = 1 + sym_choice(4, "polarisations"), nCh = 1 + sym_choice(5, "channels"), nRow = 1 + sym_choice(5, "rows"), Q = 16; WeightBlockEncoder enc(nPol, nCh, Q), dec(nPol, nCh, Q);
  TimeBlockBuffer<float> buf(nPol, nCh), out(nPol, nCh); const bool zero = sym_choice(2, "contents"); for (size_t r = 0; r < nRow; r++) { float w[32]; for (size_t i = 0; i < nPol * nCh; i++) { w[i] = hashed(r * 31 + i); if (w[i] < 0) w[i] = -w[i]; if (zero) w[i] = 0; } if (r == nRow - 1) w[nPol * nCh - 1] = sym_float("weight", 1e-6, 1e6, SYM_ZERO | SYM_NONNEG); buf.SetData(r, 0, 1, w); }
  const size_t nMeta = enc.MetaDataFloatCount(), nSym = enc.SymbolCount(nRow); float *meta = (float *)malloc(nMeta * sizeof(float)); unsigned *sym = (unsigned *)malloc(nSym * sizeof(unsigned));
  enc.Encode(buf, meta, sym); sym_assert(sym_is_init(meta, nMeta * sizeof(float)), "every meta-data value is written"); sym_assert(sym_is_init(sym, nSym * sizeof(unsigned)), "every symbol is written"); for (size_t i = 0; i < nSym; i++) sym_assert(sym[i] < Q, "symbol below the symbol count");
  dec.InitializeDecode(meta); out.resize(nRow); for (size_t r = nRow; r-- > 0;) dec.Decode(out, sym, r); sym_reach("sizes"); free(meta); free(sym); }
#endif
#ifdef HISTORY
static bool same(float a, float b) { return bits_of(a) == bits_of(b) || a == b; }
static void use(TimeBlockEncoder *t, Kind, const Enc &e, const Block &a, size_t op, const Coded &other) {
  if (op == 2) { float o[64]; t->InitializeDecode(other.meta, a.nRow, a.nAnt); for (size_t r = 0; r < a.nRow; r += 2) decodeRow(t, e, a, other, r, o); return; }
  nDraw = atDraw = 0; Coded c = encode(t, e, a, op == 1); release(c); nDraw = atDraw = 0; }
// block b is given, the earlier one has a free component: neither the stored form of b nor its decoding may depend on it (decoded) by an object that processed other blocks before and by a fresh one
extern "C" void c26_history() {
  verifDither = sameDither; const Kind k = kind(); Enc e = concreteTable(1, 4); Block a, b; const size_t pc = sym_choice(3, "visibilities"); a.nPol = b.nPol = pc == 1 ? 2 : 1; a.nCh = b.nCh = pc == 2 ? 2 : 1;
  const size_t sh = sym_choice(3, "shapes"); pairs(a, sh == 0 ? 3 : 2, 3, sh != 1); pairs(b, sh == 1 ? 3 : 2, sh == 2 ? 1 : 2, false);
  // the earlier block: ordinary, zero or non-finite contents with one free component
  contents(a, sym_choice(4, "earlier"), 1); const bool heavy = k == AF; const size_t g = a.count() / 2; { const float m = std::fabs(hashed(g ^ 1)); a.v[g ^ 1] = m; const bool free = !heavy || (sh != 0 && pc == 0); if (free) a.v[g] = sym_float("before", 1e-3, 1e3, SYM_ZERO); if (heavy && free) sym_assume(a.v[g] < m && -a.v[g] < m); }
  contents(b, sym_choice(4, "later"), 2);
  std::unique_ptr<TimeBlockEncoder> used(makeEncoder(k, b.nPol, b.nCh)), fresh(makeEncoder(k, b.nPol, b.nCh)), dec(makeEncoder(k, b.nPol, b.nCh)), other(makeEncoder(k, b.nPol, b.nCh));
  coarse = heavy; nDraw = atDraw = 0; Coded ca = encode(other.get(), e, a, false);
  const size_t ops = 1 + sym_choice(2, "operations"); for (size_t i = 0; i < ops; i++) use(used.get(), k, e, a, sym_choice(3, "operation"), ca);
  const bool dither = sym_choice(2, "dithering"); coarse = false;
  nDraw = atDraw = 0; Coded c = encode(fresh.get(), e, b, dither); const size_t n = atDraw; atDraw = 0; Coded d = encode(used.get(), e, b, dither);
  sym_assert(atDraw == n, "the same number of dither values is used"); sym_assert(c.nMeta == d.nMeta && c.nSym == d.nSym, "same sizes");
  for (size_t i = 0; i < c.nMeta; i++) sym_assert(same(c.meta[i], d.meta[i]), "meta data do not depend on earlier blocks"); for (size_t i = 0; i < c.nSym; i++) sym_assert(c.sym[i] == d.sym[i], "symbols do not depend on earlier blocks");
  // decoding: by a fresh object and by the used one, whose last operation was the encoding
  dec->InitializeDecode(c.meta, b.nRow, b.nAnt); used->InitializeDecode(c.meta, b.nRow, b.nAnt); coarse = false;
  for (size_t r = 0; r < b.nRow; r++) { float p[64], q[64]; decodeRow(dec.get(), e, b, c, r, p); decodeRow(used.get(), e, b, c, b.nRow - 1 - r, q); decodeRow(used.get(), e, b, c, r, q); for (size_t i = 0; i < b.perRow(); i++) sym_assert(same(p[i], q[i]), "decoded values do not depend on earlier blocks"); }
  sym_reach("history"); release(c); release(d); release(ca); }
extern "C" void c26_weights() {
  const size_t nPol = 2, nCh = 2, Q = 16; WeightBlockEncoder used(nPol, nCh, Q), fresh(nPol, nCh, Q); float w[2][8]; for (int k = 0; k < 2; k++) for (size_t i = 0; i < 8; i++) w[k][i] = i == 3 ? sym_float("weight", 1e-3, 1e3, SYM_ZERO | SYM_NONNEG) : std::fabs(hashed(i + k * 50));
  TimeBlockBuffer<float> a(nPol, nCh), b(nPol, nCh), o1(nPol, nCh), o2(nPol, nCh); for (size_t r = 0; r < 2; r++) { a.SetData(r, 0, 1, w[0] + 4 * r); b.SetData(r, 0, 1, w[1] + 4 * r); }
  float m0[1], m1[1], m2[1]; unsigned s0[4], s1[4], s2[4]; const size_t op = sym_choice(3, "operation"); o1.resize(2); o2.resize(2);
  used.Encode(a, m0, s0); if (op) { used.InitializeDecode(m0); used.Decode(o1, s0, 1); if (op == 2) used.Encode(a, m0, s0); }
  used.Encode(b, m1, s1); fresh.Encode(b, m2, s2); sym_assert(same(m1[0], m2[0]), "meta data do not depend on earlier blocks"); for (int i = 0; i < 4; i++) sym_assert(s1[i] == s2[i], "symbols do not depend on earlier blocks");
  used.InitializeDecode(m1); fresh.InitializeDecode(m1); for (size_t r = 0; r < 2; r++) { used.Decode(o1, s1, r); fresh.Decode(o2, s1, r); for (size_t i = 0; i < 4; i++) sym_assert(same(o1[r].visibilities[i], o2[r].visibilities[i]), "decoded values do not depend on earlier blocks"); } sym_reach("history"); }
#endif
