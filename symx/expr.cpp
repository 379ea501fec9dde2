#include "expr.h"
#include <algorithm>
#include <unordered_set>
#include <cassert>
#include <cstdio>
#include <cstdlib>
const char *opName[] = {"const","var","select","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","fsqrt","fneg","fabs","fround","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","feq","flt","fle","funo","uf"};
std::vector<VarInfo> gVars;
std::map<unsigned, std::function<u128(u128,u128,u128)>> gUFEval;
std::map<unsigned, std::string> gUFName;

namespace {
struct H { size_t operator()(const Expr *e) const {
  u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w * 1315423911u;
  h ^= (u64)e->c * 0xff51afd7ed558ccdull + (u64)(e->c >> 64) * 0xc4ceb9fe1a85ec53ull;
  for (int i = 0; i < 3; i++) { h ^= (h >> 29); h = h * 0xbf58476d1ce4e5b9ull + (e->a[i] ? e->a[i]->id + 1 : 0); }
  return h ^ (h >> 32); } };
struct Q { bool operator()(const Expr *x, const Expr *y) const {
  return x->op == y->op && x->w == y->w && x->c == y->c && x->a[0] == y->a[0] && x->a[1] == y->a[1] && x->a[2] == y->a[2]; } };
std::unordered_set<Expr *, H, Q> tab;
std::vector<Expr *> pool; size_t poolPos = 0; const size_t CH = 4096;
uint32_t nextId = 1;
E intern(Op op, unsigned w, u128 c, E a0 = 0, E a1 = 0, E a2 = 0) {
  Expr t; t.op = op; t.flags = 0; t.w = w; t.c = c; t.a[0] = a0; t.a[1] = a1; t.a[2] = a2;
  auto it = tab.find(&t); if (it != tab.end()) return *it;
  if (pool.empty() || poolPos == CH) { pool.push_back((Expr *)malloc(sizeof(Expr) * CH)); poolPos = 0; }
  Expr *e = pool.back() + poolPos++; *e = t; e->id = nextId++; e->nleaves = 0; e->depth = 0;
  for (int i = 0; i < 3; i++) if (t.a[i] && t.a[i]->depth + 1 > e->depth) e->depth = t.a[i]->depth + 1;
  if (op == CONST) { e->flags = 1; e->nleaves = 1; }
  if (op == ITE && (a1->flags & 1) && (a2->flags & 1)) {
    u64 n = (u64)a1->nleaves + a2->nleaves; if (n <= 70000) { e->flags = 1; e->nleaves = n; } }
  tab.insert(e); return e;
}
inline float asF(u128 x) { uint32_t u = (uint32_t)x; float f; memcpy(&f, &u, 4); return f; }
inline double asD(u128 x) { u64 u = (u64)x; double f; memcpy(&f, &u, 8); return f; }
inline u128 fromF(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline u128 fromD(double f) { u64 u; memcpy(&u, &f, 8); return u; }
inline long double asL(u128 x) { long double r = 0; memcpy(&r, &x, 10); return r; }
inline u128 fromL(long double l) { u128 r = 0; memcpy(&r, &l, 10); return r; }
inline __int128 sx(u128 v, unsigned w) { if (w >= 128) return (__int128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (__int128)((v ^ s) - s); }
template <class T> T fro(T x, unsigned k) { switch (k) { case 0: return std::round(x); case 1: return std::floor(x); case 2: return std::ceil(x); case 3: return std::trunc(x); default: return std::nearbyint(x); } }
template <class T> int fcmp(Op op, T a, T b) { switch (op) { case FEQ: return a == b; case FLT: return a < b; case FLE: return a <= b; default: return std::isnan(a) || std::isnan(b); } }
}  // namespace
size_t exprCount() { return tab.size(); }
bool isFpOp(Op o) { return (o >= FADD && o <= UITOFP); }

u128 foldOp(Op op, unsigned w, u128 c, unsigned aw, u128 x, u128 y, unsigned bw) {
  u128 m = maskw(w);
  switch (op) {
    case ADD: return (x + y) & m;
    case SUB: return (x - y) & m;
    case MUL: return (x * y) & m;
    case UDIV: return y ? (x / y) & m : m;
    case UREM: return y ? (x % y) & m : x;
    case SDIV: { __int128 a = sx(x, aw), b = sx(y, aw); if (!b) return a < 0 ? 1 : m; return (u128)(a / b) & m; }
    case SREM: { __int128 a = sx(x, aw), b = sx(y, aw); if (!b) return x; return (u128)(a % b) & m; }
    case SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
    case LSHR: return y >= w ? 0 : (x >> (unsigned)y) & m;
    case ASHR: { __int128 a = sx(x, aw); return (u128)(a >> (y >= w ? w - 1 : (unsigned)y)) & m; }
    case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
    case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
    case SLT: return sx(x, aw) < sx(y, aw); case SLE: return sx(x, aw) <= sx(y, aw);
    case ZEXT: return x; case SEXT: return (u128)sx(x, aw) & m;
    case EXTRACT: return (x >> (unsigned)c) & m;
    case CONCAT: return (x << bw) | y;
#define FB(op_) (w == 32 ? fromF(asF(x) op_ asF(y)) : w == 64 ? fromD(asD(x) op_ asD(y)) : fromL(asL(x) op_ asL(y)))
    case FADD: return FB(+); case FSUB: return FB(-); case FMUL: return FB(*); case FDIV: return FB(/);
    case FSQRT: return w == 32 ? fromF(std::sqrt(asF(x))) : w == 64 ? fromD(std::sqrt(asD(x))) : fromL(std::sqrt(asL(x)));
    case FNEG: return (w == 80 ? x ^ ((u128)1 << 79) : x ^ ((u128)1 << (w - 1)));
    case FABS: return x & maskw(w - 1);
    case FROUND: return w == 32 ? fromF(fro(asF(x), c)) : w == 64 ? fromD(fro(asD(x), c)) : fromL(fro(asL(x), c));
    case FPEXT: case FPTRUNC: {
      if (aw == 32) return w == 64 ? fromD((double)asF(x)) : w == 80 ? fromL(asF(x)) : x;
      if (aw == 64) return w == 32 ? fromF((float)asD(x)) : w == 80 ? fromL(asD(x)) : x;
      return w == 32 ? fromF((float)asL(x)) : w == 64 ? fromD((double)asL(x)) : x; }
    case SITOFP: { __int128 v = sx(x, aw); return w == 32 ? fromF((float)(long long)v) : w == 64 ? fromD((double)(long long)v) : fromL((long double)(long long)v); }
    case UITOFP: { unsigned long long v = (unsigned long long)x; return w == 32 ? fromF((float)v) : w == 64 ? fromD((double)v) : fromL((long double)v); }
    case FPTOSI: { long double d = aw == 32 ? asF(x) : aw == 64 ? asD(x) : asL(x); if (!(d > -9.3e18L && d < 9.3e18L)) return (u128)1 << (w - 1); return (u128)(__int128)(long long)d & m; }
    case FPTOUI: { long double d = aw == 32 ? asF(x) : aw == 64 ? asD(x) : asL(x); if (!(d > -9.3e18L && d < 1.85e19L)) return m; if (d < 0) return (u128)(__int128)(long long)d & m; return (u128)(unsigned long long)d & m; }
    case FEQ: case FLT: case FLE: case FUNO: return aw == 32 ? fcmp(op, asF(x), asF(y)) : aw == 64 ? fcmp(op, asD(x), asD(y)) : fcmp(op, asL(x), asL(y));
    default: fprintf(stderr, "fold %d\n", op); abort();
  }
}
E mkConst(u128 v, unsigned w) { return intern(CONST, w, v & maskw(w)); }
E mkVar(const std::string &name, unsigned w, bool isfp) {
  gVars.push_back({name, w, isfp}); return intern(VAR, w, gVars.size() - 1);
}
E mkSelect(unsigned arr, E idx, unsigned w) { return intern(SELECT, w, arr, idx); }
E mkUF(unsigned id, E a, E b, E c3, unsigned w) {
  if ((!a || isC(a)) && (!b || isC(b)) && (!c3 || isC(c3)) && gUFEval.count(id)) return mkConst(gUFEval[id](a ? a->c : 0, b ? b->c : 0, c3 ? c3->c : 0), w);
  return intern(UF, w, id, a, b, c3); }
E mapLeaves(E e, const std::function<E(E)> &f) {
  std::unordered_map<E, E> memo;
  std::function<E(E)> go = [&](E x) -> E {
    if (x->op != ITE || !(x->flags & 1)) return f(x);
    auto it = memo.find(x); if (it != memo.end()) return it->second;
    E r = mkIte(x->a[0], go(x->a[1]), go(x->a[2])); memo[x] = r; return r; };
  return go(e);
}
E mkNot(E a) {
  if (isC(a)) return mkConst(~a->c, a->w);
  if (a->op == XOR && isC(a->a[1]) && a->a[1]->c == maskw(a->w)) return a->a[0];
  return intern(XOR, a->w, 0, a, mkConst(maskw(a->w), a->w));
}
static bool comm(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ || o == FADD || o == FMUL || o == FEQ || o == FUNO; }
static bool isCmp(Op o) { return (o >= EQ && o <= SLE) || (o >= FEQ && o <= FUNO); }
static bool pushable(E e) { return e->op == ITE && (e->flags & 1) && e->nleaves <= 8192; }
static int gDepth=0; struct DG{DG(){gDepth++;}~DG(){gDepth--;}};
static unsigned kzl0(E e) {
  switch (e->op) {
    case CONST: { if (!e->c) return e->w; unsigned n = 0; while (!((e->c >> n) & 1)) n++; return n; }
    case SHL: if (isC(e->a[1])) return std::min<unsigned>(e->w, knownZeroLow(e->a[0]) + (unsigned)e->a[1]->c); return 0;
    case MUL: return std::min<unsigned>(e->w, knownZeroLow(e->a[0]) + knownZeroLow(e->a[1]));
    case ADD: case SUB: case OR: case XOR: return std::min(knownZeroLow(e->a[0]), knownZeroLow(e->a[1]));
    case AND: return std::max(knownZeroLow(e->a[0]), knownZeroLow(e->a[1]));
    case ITE: return std::min(knownZeroLow(e->a[1]), knownZeroLow(e->a[2]));
    case ZEXT: case SEXT: { unsigned k = knownZeroLow(e->a[0]); return k == e->a[0]->w ? e->w : k; }
    case CONCAT: { unsigned k = knownZeroLow(e->a[1]); return k == e->a[1]->w ? k + knownZeroLow(e->a[0]) : k; }
    default: return 0;
  }
}
unsigned knownZeroLow(E e) { if (e->op == CONST || e->op == VAR) return kzl0(e); static std::unordered_map<E, unsigned> memo; auto it = memo.find(e); if (it != memo.end()) return it->second; unsigned r = kzl0(e); memo[e] = r; return r; }
u128 umaxBound(E e) {
  u128 m = maskw(e->w);
  if(gDepth>10) return e->op==CONST?e->c:m; DG dg;
  switch (e->op) {
    case CONST: return e->c;
    case ZEXT: return umaxBound(e->a[0]);
    case AND: return std::min(umaxBound(e->a[0]), umaxBound(e->a[1]));
    case ITE: return std::max(umaxBound(e->a[1]), umaxBound(e->a[2]));
    case UREM: if (isC(e->a[1]) && e->a[1]->c) return std::min(umaxBound(e->a[0]), e->a[1]->c - 1); return m;
    case UDIV: if (isC(e->a[1]) && e->a[1]->c) return umaxBound(e->a[0]) / e->a[1]->c; return m;
    case LSHR: if (isC(e->a[1]) && e->a[1]->c < e->w) return umaxBound(e->a[0]) >> (unsigned)e->a[1]->c; return m;
    case SHL: if (isC(e->a[1]) && e->a[1]->c < e->w) { u128 b = umaxBound(e->a[0]); if (e->w < 128 && b <= (m >> (unsigned)e->a[1]->c)) return b << (unsigned)e->a[1]->c; } return m;
    case ADD: if (e->w <= 64) { u128 s = umaxBound(e->a[0]) + umaxBound(e->a[1]); if (s <= m) return s; } return m;
    case MUL: if (e->w <= 64) { u128 s = umaxBound(e->a[0]) * umaxBound(e->a[1]); if (s <= m) return s; } return m;
    default: return m;
  }
}
E mkBin(Op op, E a, E b) {
  bool cmp = isCmp(op); unsigned w = cmp ? 1 : a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch %s %u %u\n", opName[op], a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldOp(op, w, 0, a->w, a->c, b->c, b->w), w);
  if (comm(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  // push into constant-leaf ITEs
  if (isC(b) && pushable(a)) return mapLeaves(a, [&](E x) { return mkBin(op, x, b); });
  if (isC(a) && pushable(b)) return mapLeaves(b, [&](E x) { return mkBin(op, a, x); });
  u128 m = maskw(a->w);
  switch (op) {
    case ADD:
      if (isC(b)) { if (!b->c) return a; if (a->op == ADD && isC(a->a[1])) return mkBin(ADD, a->a[0], mkConst(a->a[1]->c + b->c, w)); }
      else {
        if (a->op == ADD && isC(a->a[1])) return mkBin(ADD, mkBin(ADD, a->a[0], b), a->a[1]);
        if (b->op == ADD && isC(b->a[1])) return mkBin(ADD, mkBin(ADD, a, b->a[0]), b->a[1]);
        if (a->op == SUB && a->a[1] == b) return a->a[0];
        if (b->op == SUB && b->a[1] == a) return b->a[0];
      }
      if (w == 1) return mkBin(XOR, a, b);
      break;
    case SUB:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(ADD, a, mkConst(-b->c, w));
      if (a->op == ADD && isC(a->a[1])) return mkBin(ADD, mkBin(SUB, a->a[0], b), a->a[1]);
      if (b->op == ADD && isC(b->a[1])) return mkBin(ADD, mkBin(SUB, a, b->a[0]), mkConst(-b->a[1]->c, w));
      if (a->op == ADD) { if (a->a[0] == b) return a->a[1]; if (a->a[1] == b) return a->a[0]; }
      if (pushable(a) && pushable(b) && a->nleaves * (u64)b->nleaves <= 256) return mapLeaves(a, [&](E x) { return mkBin(op, x, b); });
      break;
    case MUL:
      if (isC(b)) { if (!b->c) return b; if (b->c == 1) return a;
        if ((b->c & (b->c - 1)) == 0) { unsigned k = 0; while ((b->c >> k) != 1) k++; return mkBin(SHL, a, mkConst(k, w)); }
        if (a->op == MUL && isC(a->a[1])) return mkBin(MUL, a->a[0], mkConst(a->a[1]->c * b->c, w)); }
      break;
    case UDIV:
      if (isC(b)) { if (b->c == 1) return a;
        if (b->c && (b->c & (b->c - 1)) == 0) { unsigned k = 0; while ((b->c >> k) != 1) k++; return mkBin(LSHR, a, mkConst(k, w)); }
        if (umaxBound(a) < b->c) return mkConst(0, w); }
      break;
    case UREM:
      if (isC(b)) { if (b->c == 1) return mkConst(0, w);
        if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(AND, a, mkConst(b->c - 1, w));
        if (umaxBound(a) < b->c) return a; }
      break;
    case SDIV: if (isC(b) && b->c == 1) return a;
      if (isC(b) && b->c && b->c < ((u128)1 << (w - 1)) && umaxBound(a) < ((u128)1 << (w - 1))) return mkBin(UDIV, a, b); break;
    case SREM: if (isC(b) && b->c && b->c < ((u128)1 << (w - 1)) && umaxBound(a) < ((u128)1 << (w - 1))) return mkBin(UREM, a, b); break;
    case SHL: case LSHR: case ASHR:
      if (isC(b)) { if (!b->c) return a;
        if (b->c >= w && op != ASHR) return mkConst(0, w);
        unsigned k = (unsigned)b->c;
        if (op == ASHR && umaxBound(a) < ((u128)1 << (w - 1))) return mkBin(LSHR, a, b);
        if (a->op == op && op != ASHR && isC(a->a[1])) { u128 t = a->a[1]->c + b->c; if (t >= w) return mkConst(0, w); return mkBin(op, a->a[0], mkConst(t, w)); }
        if (op == LSHR) {
          if (umaxBound(a) >> k == 0) return mkConst(0, w);
          if (a->op == ZEXT && a->a[0]->w > k) return mkZext(mkExtract(a->a[0], k, a->a[0]->w - k), w);
          if (a->op == CONCAT && a->a[1]->w <= k) return k == a->a[1]->w ? mkZext(a->a[0], w) : mkZext(mkExtract(a->a[0], k - a->a[1]->w, a->a[0]->w - (k - a->a[1]->w)), w);
          if (a->op == SHL && isC(a->a[1]) && a->a[1]->c == b->c) return mkBin(AND, a->a[0], mkConst(m >> k, w));
        }
        if (op == SHL && a->op == LSHR && isC(a->a[1]) && a->a[1]->c == b->c) return mkBin(AND, a->a[0], mkConst((m << k) & m, w));
      }
      break;
    case AND:
      if (a == b) return a;
      if (isC(b)) { if (!b->c) return b; if (b->c == m) return a;
        if (a->op == AND && isC(a->a[1])) return mkBin(AND, a->a[0], mkConst(a->a[1]->c & b->c, w));
        // low mask -> zext(extract)
        if (w > 1 && ((b->c + 1) & b->c) == 0) { unsigned k = 0; while ((b->c >> k) & 1) k++;
          if (umaxBound(a) <= b->c) return a;
          return mkZext(mkExtract(a, 0, k), w); } }
      if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); 
        if (a->op == AND && (a->a[0] == b || a->a[1] == b)) return a; if (b->op == AND && (b->a[0] == a || b->a[1] == a)) return b; 
        if (a->op == OR && (a->a[0] == b || a->a[1] == b)) return b; if (b->op == OR && (b->a[0] == a || b->a[1] == a)) return a; }
      break;
    case OR:
      if (a == b) return a;
      if (isC(b)) { if (!b->c) return a; if (b->c == m) return b; }
      if (w == 1) { if (a == mkNot(b)) return mkConst(1, 1);
        if (a->op == OR && (a->a[0] == b || a->a[1] == b)) return a; if (b->op == OR && (b->a[0] == a || b->a[1] == a)) return b; }
      // zext(x) | shl(zext(y), wx) -> concat
      { E z = a, s = b; for (int t = 0; t < 2; t++, std::swap(z, s))
          if (z->op == ZEXT && s->op == SHL && isC(s->a[1]) && s->a[0]->op == ZEXT && s->a[1]->c == z->a[0]->w) {
            E y = s->a[0]->a[0]; unsigned room = w - z->a[0]->w; if (y->w > room) y = mkExtract(y, 0, room);
            return mkZext(mkConcat(y, z->a[0]), w); } }
      break;
    case XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b)) { if (!b->c) return a; if (b->c == m) return mkNot(a); }
      break;
    case FMUL: case FDIV:   // exact for every value, up to the payload of NaNs
      if (isC(b)) { u128 one = a->w == 32 ? (u128)0x3f800000u : a->w == 64 ? (u128)0x3ff0000000000000ull : (((u128)0x3fff) << 64 | (u128)1 << 63); if (b->c == one) return a; }
      if (op == FMUL && isC(a)) { u128 one = a->w == 32 ? (u128)0x3f800000u : a->w == 64 ? (u128)0x3ff0000000000000ull : (((u128)0x3fff) << 64 | (u128)1 << 63); if (a->c == one) return b; }
      break;
    case EQ:
      if (a == b) return mkBool(true);
      if (isC(b)) {
        if (w == 1 && a->w == 1) return b->c ? a : mkNot(a);
        if (a->op == ADD && isC(a->a[1])) return mkBin(EQ, a->a[0], mkConst(b->c - a->a[1]->c, a->w));
        if (a->op == ZEXT) { if (b->c > maskw(a->a[0]->w)) return mkBool(false); return mkBin(EQ, a->a[0], mkConst(b->c, a->a[0]->w)); }
        if (a->op == SEXT) { u128 t = b->c & maskw(a->a[0]->w); if (mkSext(mkConst(t, a->a[0]->w), a->w)->c != b->c) return mkBool(false); return mkBin(EQ, a->a[0], mkConst(t, a->a[0]->w)); }
        if (a->op == CONCAT) return mkAnd(mkBin(EQ, a->a[0], mkConst(b->c >> a->a[1]->w, a->a[0]->w)), mkBin(EQ, a->a[1], mkConst(b->c, a->a[1]->w)));
        if (a->op == XOR && isC(a->a[1])) return mkBin(EQ, a->a[0], mkConst(b->c ^ a->a[1]->c, a->w));
        if (umaxBound(a) < b->c) return mkBool(false);
        if (a->op == ITE && (isC(a->a[1]) || isC(a->a[2]))) return mkIte(a->a[0], mkBin(EQ, a->a[1], b), mkBin(EQ, a->a[2], b));
        unsigned kz = knownZeroLow(a); if (kz && kz < a->w && (b->c & maskw(kz))) return mkBool(false);
      }
      if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return mkBin(EQ, a->a[0], b->a[0]);
      if (a->op == SUB && isC(b) && b->c == 0) return mkBin(EQ, a->a[0], a->a[1]);
      if (pushable(a) && pushable(b) && a->nleaves * (u64)b->nleaves <= 64) return mapLeaves(a, [&](E x) { return mkBin(op, x, b); });
      break;
    case ULT: case ULE:
      if (a == b) return mkBool(op == ULE);
      if (isC(b)) { if (op == ULT && !b->c) return mkBool(false); if (op == ULE && b->c == m) return mkBool(true);
        if (op == ULT ? umaxBound(a) < b->c : umaxBound(a) <= b->c) return mkBool(true);
        if (op == ULT && b->c == 1) return mkBin(EQ, a, mkConst(0, a->w));
        if (a->op == ZEXT) { u128 im = maskw(a->a[0]->w); if (b->c > im) return mkBool(true); return mkBin(op, a->a[0], mkConst(b->c, a->a[0]->w)); } }
      if (isC(a)) { if (op == ULE && !a->c) return mkBool(true); if (op == ULT && a->c == m) return mkBool(false);
        if (op == ULT ? umaxBound(b) <= a->c : umaxBound(b) < a->c) return mkBool(false);
        if (b->op == ZEXT) { u128 im = maskw(b->a[0]->w); if (a->c > im) return mkBool(false); return mkBin(op, mkConst(a->c, b->a[0]->w), b->a[0]); } }
      if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return mkBin(op, a->a[0], b->a[0]);
      if (pushable(a) && pushable(b) && a->nleaves * (u64)b->nleaves <= 64) return mapLeaves(a, [&](E x) { return mkBin(op, x, b); });
      break;
    case SLT: case SLE:
      if (a == b) return mkBool(op == SLE);
      { u128 h = (u128)1 << (a->w - 1); if (umaxBound(a) < h && umaxBound(b) < h) return mkBin(op == SLT ? ULT : ULE, a, b); }
      break;
    case FEQ: case FLT: case FLE: case FUNO: {
      // narrow comparisons of extended floats
      auto narrow = [](E x) -> E { if (x->op == FPEXT) return x->a[0]; return nullptr; };
      E na = narrow(a), nb = narrow(b);
      if (na && nb && na->w == nb->w) return mkBin(op, na, nb);
      if (na && isC(b) && a->w == 64 && na->w == 32) { double d = asD(b->c); float f = (float)d; if ((double)f == d || d != d) return mkBin(op, na, mkConst(fromF(f), 32)); }
      if (nb && isC(a) && b->w == 64 && nb->w == 32) { double d = asD(a->c); float f = (float)d; if ((double)f == d || d != d) return mkBin(op, mkConst(fromF(f), 32), nb); }
      if (op == FUNO) { // nan constant test
        E x = a, y = b; if (isC(y) && !foldOp(FUNO, 1, 0, y->w, y->c, y->c, y->w)) return x->op == FABS || x->op == FNEG ? mkBin(FUNO, x->a[0], x->a[0]) : intern(FUNO, 1, 0, x, x);
        if (x == y && (x->op == FABS || x->op == FNEG)) return mkBin(FUNO, x->a[0], x->a[0]);
        if (x == y && (x->op == SITOFP || x->op == UITOFP)) return mkBool(false);
      }
      if (a == b && op == FLT) return mkBool(false);
      if (a == b && (op == FEQ || op == FLE)) return mkNot(mkBin(FUNO, a, a));
      break; }
    default: break;
  }
  return intern(op, w, 0, a, b);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == XOR && isC(c->a[1])) return mkIte(c->a[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->op == ITE && a->a[0] == c) a = a->a[1];
  if (b->op == ITE && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  if (b->op == ITE && b->a[1] == a) return mkIte(mkOr(c, b->a[0]), a, b->a[2]);
  if (a->op == ITE && a->a[2] == b) return mkIte(mkAnd(c, a->a[0]), a->a[1], b);
  return intern(ITE, a->w, 0, c, a, b);
}
E mkZext(E a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return mkConst(a->c, w);
  if (a->op == ZEXT) return mkZext(a->a[0], w);
  if (pushable(a)) return mapLeaves(a, [&](E x) { return mkConst(x->c, w); });
  return intern(ZEXT, w, 0, a);
}
E mkSext(E a, unsigned w) {
  if (a->w == w) return a; if (isC(a)) return mkConst(foldOp(SEXT, w, 0, a->w, a->c, 0, 0), w);
  if (pushable(a)) return mapLeaves(a, [&](E x) { return mkSext(x, w); });
  if (a->op == ZEXT && a->a[0]->w < a->w) return mkZext(a->a[0], w);
  if (a->w > 1 && umaxBound(a) < ((u128)1 << (a->w - 1))) return mkZext(a, w);
  return intern(SEXT, w, 0, a);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (!lo && a->w == w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  if (pushable(a)) return mapLeaves(a, [&](E x) { return mkExtract(x, lo, w); });
  switch (a->op) {
    case EXTRACT: return mkExtract(a->a[0], lo + (unsigned)a->c, w);
    case ZEXT: if (lo >= a->a[0]->w) return mkConst(0, w);
      if (lo + w <= a->a[0]->w) return mkExtract(a->a[0], lo, w);
      return mkZext(mkExtract(a->a[0], lo, a->a[0]->w - lo), w);
    case SEXT: if (lo + w <= a->a[0]->w) return mkExtract(a->a[0], lo, w); break;
    case CONCAT: { unsigned lw = a->a[1]->w; if (lo + w <= lw) return mkExtract(a->a[1], lo, w); if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
      return mkConcat(mkExtract(a->a[0], 0, lo + w - lw), mkExtract(a->a[1], lo, lw - lo)); }
    case AND: case OR: case XOR: if (w <= 64 && (isC(a->a[1]) || lo == 0)) return mkBin(a->op, mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w)); break;
    case ADD: case SUB: case MUL: if (!lo) return mkBin(a->op, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w)); break;
    case SHL: if (isC(a->a[1])) { unsigned k = (unsigned)a->a[1]->c; if (lo >= k) return mkExtract(a->a[0], lo - k, w); if (lo + w <= k) return mkConst(0, w);
        return mkConcat(mkExtract(a->a[0], 0, lo + w - k), mkConst(0, k - lo)); } break;
    case LSHR: if (isC(a->a[1])) { unsigned k = (unsigned)a->a[1]->c; if (lo + k + w <= a->w) return mkExtract(a->a[0], lo + k, w); if (lo + k >= a->w) return mkConst(0, w);
        return mkZext(mkExtract(a->a[0], lo + k, a->w - lo - k), w); } break;
    case ITE: if (isC(a->a[1]) || isC(a->a[2])) return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w)); break;
    default: break;
  }
  return intern(EXTRACT, w, lo, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && !hi->c) return mkZext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a[0] == lo->a[0] && hi->c == lo->c + lo->w) return mkExtract(lo->a[0], (unsigned)lo->c, w);
  if (lo->op == CONCAT && hi->op == EXTRACT && lo->a[0]->op == EXTRACT && hi->a[0] == lo->a[0]->a[0] && hi->c == lo->a[0]->c + lo->a[0]->w)
    return mkConcat(mkExtract(hi->a[0], (unsigned)lo->a[0]->c, hi->w + lo->a[0]->w), lo->a[1]);
  if (hi->op == ZEXT) return mkZext(mkConcat(hi->a[0], lo), w);
  return intern(CONCAT, w, 0, hi, lo);
}
E mkFun(Op op, E a, unsigned w, unsigned c) {
  if (isC(a)) return mkConst(foldOp(op, w, c, a->w, a->c, 0, 0), w);
  if (pushable(a)) return mapLeaves(a, [&](E x) { return mkFun(op, x, w, c); });
  switch (op) {
    case FPEXT: if (a->w == w) return a; break;
    case FPTRUNC: if (a->w == w) return a; if (a->op == FPEXT && a->a[0]->w == w) return a->a[0]; if (a->op == FPEXT && a->a[0]->w < w) return mkFun(FPEXT, a->a[0], w); break;
    case FNEG: if (a->op == FNEG) return a->a[0]; break;
    case FABS: if (a->op == FABS) return a; if (a->op == FNEG) return mkFun(FABS, a->a[0], w); break;
    case UITOFP: if (a->op == ZEXT) return mkFun(UITOFP, a->a[0], w); break;
    case SITOFP: if (a->op == ZEXT) return mkFun(UITOFP, a->a[0], w); break;
    default: break;
  }
  return intern(op, w, c, a);
}
u128 Evaluator::eval(E e) {
  if (e->op == CONST) return e->c;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  u128 r;
  switch (e->op) {
    case VAR: { auto f = as.v.find((unsigned)e->c); r = f == as.v.end() ? 0 : f->second & maskw(e->w); break; }
    case SELECT: { u64 i = (u64)eval(e->a[0]); auto t = as.arr.find((unsigned)e->c); r = 0;
      if (t != as.arr.end() && !t->second.empty()) { auto u = t->second.upper_bound(i); if (u == t->second.begin()) r = u->second; else r = std::prev(u)->second; } break; }
    case ITE: r = eval(e->a[0]) ? eval(e->a[1]) : eval(e->a[2]); break;
    case UF: { u128 x = e->a[0] ? eval(e->a[0]) : 0, y = e->a[1] ? eval(e->a[1]) : 0, z = e->a[2] ? eval(e->a[2]) : 0; r = gUFEval.count((unsigned)e->c) ? gUFEval[(unsigned)e->c](x, y, z) : 0; break; }
    default: {
      u128 x = eval(e->a[0]), y = e->a[1] ? eval(e->a[1]) : 0;
      r = foldOp(e->op, e->w, e->c, e->a[0]->w, x, y, e->a[1] ? e->a[1]->w : 0); } }
  memo[e] = r; return r;
}
static std::unordered_map<E, std::vector<uint32_t>> vmemo;
const std::vector<uint32_t> &varsOf(E e) {
  auto it = vmemo.find(e); if (it != vmemo.end()) return it->second;
  std::vector<uint32_t> r;
  if (e->op == VAR) r.push_back((uint32_t)e->c);
  else { if (e->op == SELECT) r.push_back(0x80000000u | (uint32_t)e->c);
    for (int i = 0; i < 3; i++) if (e->a[i] && e->a[i]->op != CONST) { const auto &v = varsOf(e->a[i]); std::vector<uint32_t> t; std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(t)); r.swap(t); } }
  return vmemo[e] = std::move(r);
}
static std::unordered_map<E, bool> fmemo;
bool nonlinear(E e) { if (e->op == CONST || e->op == VAR) return false; static std::unordered_map<E, bool> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = e->op == FSQRT || (e->op == FMUL && !isC(e->a[0]) && !isC(e->a[1])) || (e->op == FDIV && !isC(e->a[1])); for (int i = 0; i < 3 && !r; i++) if (e->a[i]) r = nonlinear(e->a[i]); memo[e] = r; return r; }
bool hasFpArith(E e) {
  if (e->op == CONST || e->op == VAR) return false;
  auto it = fmemo.find(e); if (it != fmemo.end()) return it->second;
  bool r = false;
  switch (e->op) { case FADD: case FSUB: case FMUL: case FDIV: case FSQRT: case FROUND: case FPEXT: case FPTRUNC: case SITOFP: case UITOFP: case FPTOSI: case FPTOUI: r = true; break; default: break; }
  for (int i = 0; i < 3 && !r; i++) if (e->a[i]) r = hasFpArith(e->a[i]);
  return fmemo[e] = r;
}
std::string str(E e, int d) {
  if (e->op == CONST) { char b[64]; if (e->w <= 64) snprintf(b, 64, "%llu:%u", (unsigned long long)e->c, e->w); else snprintf(b, 64, "0x%llx%016llx:%u", (unsigned long long)(e->c >> 64), (unsigned long long)e->c, e->w); return b; }
  if (e->op == VAR) return gVars[(unsigned)e->c].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + opName[e->op]; if (e->op == EXTRACT || e->op == SELECT || e->op == FROUND || e->op == UF) s += "#" + std::to_string((unsigned)e->c); if (e->op == ZEXT || e->op == EXTRACT || e->op == SEXT) s += ":" + std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->a[i]) s += " " + str(e->a[i], d - 1);
  return s + ")";
}
