// C07-C09: bounded error at the scale of the row, row x channel, antennas x channel.
// C10 (-DPOISON), C11 (-DZEROS): the same with non-finite (zero) components anywhere but at the given largest ones.
#include "enc.h"
#ifndef QS
#define QS 4, 8
#endif
static const size_t qs[] = {QS};
static const double TOL = 1e-6;
struct Shape { size_t ant, cross, autos, pol, ch; };
#ifndef SHAPES
#define SHAPES {2, 1, 0, 1, 1}, {2, 1, 1, 1, 1}, {2, 1, 0, 2, 1}, {2, 1, 0, 1, 2}
#endif
static double absd(double x) { return x < 0 ? -x : x; }
// the component was encoded as symbol s: within one step (undithered: half a step) next to that level, times the scale
static void bound(const Enc &e, size_t Q, float v, float d, unsigned s, double scale, bool dither) {
  const unsigned last = (unsigned)(Q - 2); double gap = 0; const double l = e.Decode(s);
  if (s < last) gap = maxd(gap, (dither ? e.Decode(s + 1) : e.RightBoundary(s)) - l);
  if (s > 0) gap = maxd(gap, l - (dither ? e.Decode(s - 1) : e.RightBoundary(s - 1)));
  if (!dither && (s == 0 || s == last)) gap = maxd(gap, 0);   // the extremes are not clipped: the value is inside the level range
  sym_assert(absd((double)d - (double)v) <= (gap + TOL * e.MaxQuantity()) * scale, "decoded component within one step (half a step undithered) of its value"); }
static Enc table(size_t &Q) { static const unsigned ds[] = {DISTS}; unsigned k = ds[sym_choice(sizeof(ds) / sizeof(ds[0]), "distribution")]; Q = qs[sym_choice(sizeof(qs) / sizeof(qs[0]), "symbols")]; return concreteTable(k, Q); }
static const float tops[] = {1.0f, 3e-4f, 2.5e5f};
static Block anyBlock(const Shape &s) { Block b; b.nPol = s.pol; b.nCh = s.ch; pairs(b, s.ant, s.cross, s.autos); return b; }
#ifndef MAG
#define MAG 1e-6, 1e6   // no intermediate result can overflow
#endif
static void value(float &x) { x = sym_float("value", MAG, SYM_ZERO); }
#if defined(POISON) || defined(ZEROS)
// the focus is free, the rest of the components that are not the largest are fixed
static void values(Block &b, size_t f) { static const float v[] = {1e-5f, -3e-6f, 0, -2e-5f, 7e-6f}; for (size_t i = 0; i < b.count(); i++) if (i == f) value(b.v[i]); else b.v[i] = v[i * 7 % 5]; }
#else
static void values(Block &b, size_t) { for (size_t i = 0; i < b.count(); i++) value(b.v[i]); }
#endif
#ifndef DITHER
#define DITHER sym_choice(2, "dithering")
#endif
static bool flip(size_t k) { return (k * 0x9E3779B9u) >> 7 & 1; }
static bool bad[512], zeroed[512];
static bool wholePart = true;   // also the given largest ones of a visibility, channel or polarisation
#ifdef POISON
// makes components non-finite: a single one, a visibility, all of a row or of a channel, one component of every visibility;
// those in 'keep' (the given largest ones) excepted, unless all of a row (visibility, channel)
static void poison(Block &b, const bool *keep) {
  const size_t kind = sym_choice(3, "nonfinite"), pat = sym_choice(5, "where"), g = sym_choice(b.count(), "which"), n = b.perRow(); static const float val[] = {__builtin_nanf(""), __builtin_inff(), -__builtin_inff()};
  for (size_t i = 0; i < b.count(); i++) { bool in = pat == 0 ? i == g : pat == 1 ? i / 2 == g / 2 : pat == 2 ? i / n == g / n : pat == 3 ? i % n / 2 == g % n / 2 : (i & 1) == (g & 1); if (pat && (pat == 4 ? g > 1 : pat == 3 ? g >= n : pat == 2 ? g % n != 0 : g & 1)) sym_assume(false);
    const bool whole = pat == 2 || ((pat == 1 || pat == 3) && wholePart); bad[i] = in && (whole || !keep[i]); if (bad[i]) b.v[i] = val[(kind + i) % 3]; } }
static size_t pick(size_t n, const char *, size_t h) { return h * 0x9E3779B9u % 1048573 % n; }
#elif defined(ZEROS)
// makes components exactly zero: a single one, a visibility, all of a row, an antenna, a channel, a polarisation, the same
// component of every visibility, the whole block; the given largest ones are kept except in whole rows, antennas, channels, blocks
static void poison(Block &b, const bool *keep) {
  const size_t pat = sym_choice(8, "where"), n = b.perRow(); const size_t cnt[] = {b.count(), b.count() / 2, b.nRow, b.nAnt, n / 2, b.nPol, 2, 1}; const size_t g = sym_choice(cnt[pat], "which");
  for (size_t i = 0; i < b.count(); i++) { const size_t r = i / n; bool in = pat == 0 ? i == g : pat == 1 ? i / 2 == g : pat == 2 ? r == g : pat == 3 ? b.a1[r] == g || b.a2[r] == g : pat == 4 ? i % n / 2 == g : pat == 5 ? b.pol(i) == g : pat == 6 ? (i & 1) == g : true;
    const bool whole = pat == 2 || pat == 3 || pat == 7 || ((pat == 4 || pat == 5 || pat == 1) && wholePart);
    zeroed[i] = in && (whole || !keep[i]); if (zeroed[i]) b.v[i] = i % 3 == 1 ? -0.0f : 0.0f; } }
static size_t pick(size_t n, const char *, size_t h) { return h * 0x9E3779B9u % 1048573 % n; }
#else
static void poison(Block &, const bool *) {}
static size_t pick(size_t n, const char *name, size_t) { return sym_choice(n, name); }
#endif
static void finiteness(const Block &b, size_t r, const float *out) { for (size_t i = 0; i < b.perRow(); i++) { const float o = out[i]; if (zeroed[r * b.perRow() + i]) sym_assert(o == 0, "zero component decodes to zero"); else if (bad[r * b.perRow() + i]) sym_assert(o != o, "non-finite component decodes to NaN"); else sym_assert(o - o == 0, "finite component decodes to a finite value"); } }
#ifdef ROWS
extern "C" void c07_row() {
  wholePart = false;
  static const Shape sh[] = {SHAPES}; Shape s = sh[sym_choice(sizeof(sh) / sizeof(sh[0]), "shape")]; size_t Q; Enc e = table(Q); const bool dither = DITHER;
  Block b = anyBlock(s);
  const size_t f = sym_choice(b.count(), "focus"), R = b.row(f), top = pick(b.perRow(), "largest", f + Q); bool keep[128] = {false};
  values(b, f);
  // every row has a largest component: one path per position of it in the focus row
  float *row = b.v + R * b.perRow(); float m;
#ifdef ANYTOP
  if (sym_choice(2, "sign")) { sym_assume(row[top] < 0); m = -row[top]; } else { sym_assume(row[top] >= 0); m = row[top]; }
  for (size_t i = 0; i < b.perRow(); i++) if (i != top) sym_assume(row[i] <= m && -row[i] <= m);
#else
  for (size_t r = 0; r < b.nRow; r++) { float *q = b.v + r * b.perRow(); const size_t t = r == R ? top : (top + r) % b.perRow(); const float l = tops[(f + top + Q + r) % 3]; if (r == R) m = l; q[t] = flip(r * 64 + f * 16 + top + Q) ? -l : l; keep[r * b.perRow() + t] = true;
    for (size_t i = 0; i < b.perRow(); i++) if (i != t) { if (i < t) sym_assume(q[i] < l && -q[i] < l); else sym_assume(q[i] <= l && -q[i] <= l); } }   // t: the first of the largest
#endif
  poison(b, keep);
  std::unique_ptr<TimeBlockEncoder> enc(makeEncoder(ROW, b.nPol, b.nCh)), dec(makeEncoder(ROW, b.nPol, b.nCh)); Coded c = encode(enc.get(), e, b, dither);
  sym_assert(c.nMeta == b.nRow, "one scale per row");
  dec->InitializeDecode(c.meta, b.nRow, b.nAnt); float out[64]; decodeRow(dec.get(), e, b, c, R, out); finiteness(b, R, out); if (bad[f]) { release(c); sym_reach("bound"); return; }
  if (zeroed[f]) { release(c); sym_reach("zero"); return; }
#ifdef ZEROS
  if (!dither) sym_assert(b.v[f] != 0 || out[f % b.perRow()] == 0, "zero component decodes to zero");
#endif
  const unsigned s0 = (unsigned)sym_concretize(c.sym[f]); sym_assert(s0 + 1 < Q, "finite component has a regular symbol");
  bound(e, Q, b.v[f], out[f % b.perRow()], s0, (double)m / e.MaxQuantity(), dither); sym_reach("bound"); release(c); }
#endif
#ifdef RFS
// rows of the focus polarisation have given largest components (at any position, chosen per row), the focus channel a given
// largest row-scaled component; everything else is free below those, other polarisations are entirely free
extern "C" void c08_rf() {
  wholePart = false;
  static const Shape sh[] = {SHAPES}; Shape s = sh[sym_choice(sizeof(sh) / sizeof(sh[0]), "shape")]; size_t Q; Enc e = table(Q); const bool dither = DITHER;
  Block b = anyBlock(s);
  const size_t f = sym_choice(b.count(), "focus"), R = b.row(f), P = b.pol(f), C = b.ch(f), n = b.perRow();
  values(b, f);
  double M[8], scaled = 0; bool pinned[128] = {false};
  const size_t where = pick(s.ch * 2, "largest", f + Q), chTop = pick(b.nRow * 2 + 1, "channel", f * 3 + Q); static const float fr[] = {1.0f, 0.5f, 1e-4f, 0.07f};
  for (size_t r = 0; r < b.nRow; r++) { const size_t w = (where + r * 3) % (s.ch * 2), i = r * n + ((w / 2) * b.nPol + P) * 2 + w % 2; const float m = tops[(r + f + where) % 3]; M[r] = m; b.v[i] = flip(f * 64 + where * 8 + r) ? -m : m; pinned[i] = true; if (w / 2 == C) scaled = 1; }
  if (scaled == 0 && chTop < b.nRow * 2) { const size_t r = chTop / 2, i = r * n + (C * b.nPol + P) * 2 + chTop % 2; const float t = fr[(chTop + where + f) % 4] * (float)M[r]; b.v[i] = flip(f + chTop * 5) ? -t : t; pinned[i] = true; scaled = (double)t / M[r]; }
  if (scaled == 0) for (size_t r = 0; r < b.nRow; r++) for (size_t k = 0; k < 2; k++) { const size_t i = r * n + (C * b.nPol + P) * 2 + k; b.v[i] = 0; pinned[i] = true; }   // an empty channel
  for (size_t i = 0; i < b.count(); i++) if (!pinned[i] && b.pol(i) == P) { const double lim = (b.ch(i) == C ? scaled : 1.0) * M[b.row(i)] * (1 - 1e-7); sym_assume(b.v[i] <= lim && -b.v[i] <= lim); }
  // other polarisations: free, or much stronger or weaker ones
  if (b.nPol > 1 && sym_choice(2, "others")) for (size_t i = 0; i < b.count(); i++) if (b.pol(i) != P) b.v[i] = (flip(i * 3 + f) ? -1.0f : 1.0f) * (b.row(i) & 1 ? 1e-3f : 200.0f) * (float)(1 + i % 3);
  poison(b, pinned);
#if defined(ZEROS) || defined(POISON)
  if (!zeroed[f] && !bad[f]) { bool left = scaled == 0; for (size_t i = 0; i < b.count(); i++) if (b.pol(i) == P && b.ch(i) == C && pinned[i] && b.v[i] != 0 && !zeroed[i] && !bad[i]) { const double a = absd(b.v[i]) / M[b.row(i)]; if (a > 0.999 * scaled) left = true; } sym_assume(left); }
#endif
  std::unique_ptr<TimeBlockEncoder> enc(makeEncoder(RF, b.nPol, b.nCh)), dec(makeEncoder(RF, b.nPol, b.nCh)); Coded c = encode(enc.get(), e, b, dither);
  dec->InitializeDecode(c.meta, b.nRow, b.nAnt); float out[64]; decodeRow(dec.get(), e, b, c, R, out); finiteness(b, R, out); if (bad[f]) { release(c); sym_reach("bound"); return; }
  if (zeroed[f]) { release(c); sym_reach("zero"); return; }
#ifdef ZEROS
  if (!dither) sym_assert(b.v[f] != 0 || out[f % b.perRow()] == 0, "zero component decodes to zero");
#endif
  const unsigned s0 = (unsigned)sym_concretize(c.sym[f]); sym_assert(s0 + 1 < Q, "finite component has a regular symbol");
  bound(e, Q, b.v[f], out[f % n], s0, M[R] * scaled / e.MaxQuantity(), dither); sym_reach("bound"); release(c); }
#endif
#ifdef AFS
#undef sqrt
static bool coarse = false;
extern "C" double verif_sqrt(double x) {
  if (!coarse) return __builtin_sqrt(x); if (sym_decide(x != x)) return x; if (sym_decide(x == 0)) return 0;
  double s = 1e-8; for (double t = 1e-14; t < 1e15; t *= 1e4, s *= 1e2) if (sym_decide(x < t)) return s; return s; }
// the larger component of every visibility is given (which of the two varies), the smaller one is free
extern "C" void c09_af() {
  static const Shape sh[] = {SHAPES}; Shape s = sh[sym_choice(sizeof(sh) / sizeof(sh[0]), "shape")]; size_t Q; Enc e = table(Q); const bool dither = DITHER;
  Block b = anyBlock(s); for (size_t r = 1; r < b.nRow; r += 2) std::swap(b.a1[r], b.a2[r]);
  const size_t n = b.perRow(), crossN = b.nRow - (s.autos ? s.ant : 0), f = sym_choice(crossN * n, "focus"), R = b.row(f), pat = pick(PATTERNS, "pattern", f); static const float mags[] = {1.0f, 0.25f, 31.0f, 0.013f, 5.5f}; bool keep[128] = {false};
  for (size_t i = 0; i < b.count(); i += 2) {
    const size_t k = i / 2, pin = i + flip(k + pat * 7), oth = pin ^ 1; float m = mags[(k * 3 + pat + k / 5) % 5]; if (b.isAuto(b.row(i))) m *= 40;
    b.v[pin] = flip(k * 5 + pat) ? -m : m; value(b.v[oth]); const double lim = m * (1 - 1e-6); sym_assume(b.v[oth] <= lim && -b.v[oth] <= lim); keep[pin] = true; }
  poison(b, keep);
  std::unique_ptr<TimeBlockEncoder> enc(makeEncoder(AF, b.nPol, b.nCh)), dec(makeEncoder(AF, b.nPol, b.nCh)); coarse = true; Coded c = encode(enc.get(), e, b, dither); coarse = false;
  dec->InitializeDecode(c.meta, b.nRow, b.nAnt); float out[64]; decodeRow(dec.get(), e, b, c, R, out); finiteness(b, R, out); if (bad[f]) { release(c); sym_reach("bound"); return; }
  if (zeroed[f]) { release(c); sym_reach("zero"); return; }
#ifdef ZEROS
  if (!dither) sym_assert(b.v[f] != 0 || out[f % b.perRow()] == 0, "zero component decodes to zero");
#endif
  const unsigned s0 = (unsigned)sym_concretize(c.sym[f]); sym_assert(s0 + 1 < Q, "finite component has a regular symbol");
  // the scale of a baseline, channel and polarisation: what the largest level decodes to
  Coded u = c; u.sym = (unsigned *)malloc(c.nSym * sizeof(unsigned)); for (size_t i = 0; i < c.nSym; i++) u.sym[i] = Q - 2; double full = 0; bool reached = false;
  for (size_t r = 0; r < crossN; r++) { float o[64]; decodeRow(dec.get(), e, b, u, r, o); for (size_t i = 0; i < n; i++) { const size_t j = r * n + i; if (b.pol(j) != b.pol(f) || b.ch(j) != b.ch(f)) continue; if (j == f) full = o[i]; if (bad[j] || zeroed[j]) continue; const double pk = absd(b.v[j]); if (pk > 0.99 * o[i]) reached = true; } }
  sym_assert(full > 0, "positive scale"); sym_assert(reached, "the factors of a channel fit its largest cross-correlation");
  bound(e, Q, b.v[f], out[f % n], s0, full / e.MaxQuantity(), dither); sym_reach("bound"); free(u.sym); release(c); }
#endif
