#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <unordered_set>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <fstream>
#include <sys/wait.h>
using std::vector;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string ratStr(double d) {  // exact rational of a finite double
  int e; double m = frexp(d, &e); long long n = (long long)ldexp(m, 53); e -= 53;
  if (!n) return "0";
  while (!(n & 1)) { n /= 2; e++; }
  // big powers of two as decimal strings
  auto pow2 = [](int k) { std::string s = "1"; for (int i = 0; i < k; i++) { int c = 0; for (int j = (int)s.size() - 1; j >= 0; j--) { int v = (s[j] - '0') * 2 + c; s[j] = '0' + v % 10; c = v / 10; } if (c) s = "1" + s; } return s; };
  auto mulStr = [](const std::string &a, unsigned long long b) { std::string r; unsigned __int128 c = 0; for (int j = (int)a.size() - 1; j >= 0; j--) { unsigned __int128 v = (unsigned __int128)(a[j] - '0') * b + c; r += (char)('0' + (int)(v % 10)); c = v / 10; } while (c) { r += (char)('0' + (int)(c % 10)); c /= 10; } std::reverse(r.begin(), r.end()); return r; };
  bool neg = n < 0; unsigned long long un = neg ? -n : n;
  std::string r;
  if (e >= 0) r = mulStr(pow2(e), un); else r = std::to_string(un) + "/" + pow2(-e);
  return (neg ? "-" : "") + r;
}
struct RF { z3::expr nan, inf, val; double mn, mx; bool integral; };
static double cD(u128 c, unsigned w) { if (w == 32) { uint32_t u = (uint32_t)c; float f; memcpy(&f, &u, 4); return f; } if (w == 64) { u64 u = (u64)c; double d; memcpy(&d, &u, 8); return d; } long double l = 0; memcpy(&l, &c, 10); return (double)l; }

struct Solver::Impl {
  z3::context c;
  std::unordered_map<E, z3::expr> bm;   // shared memo (bits mode)
  SolverOpts *opt;
  // --- per query (relaxed) ---
  std::unordered_map<E, z3::expr> rbm; std::unordered_map<E, RF> rfm; std::unordered_map<E, z3::expr> rom;
  vector<z3::expr> side, sideInt; vector<E> selects; std::set<E> selSeen; vector<E> fpVars; vector<E> bvVars; std::unordered_set<E> fpv, bvv;
  bool relaxed = false;
  z3::expr zero, tru, fls;
  Impl() : zero(c), tru(c), fls(c) { zero = c.real_val(0); tru = c.bool_val(true); fls = c.bool_val(false); }
  std::unordered_map<E, z3::expr> &memo() { return relaxed ? rbm : bm; }
  void reset() { rbm.clear(); rfm.clear(); rom.clear(); side.clear(); sideInt.clear(); fpVars.clear(); bvVars.clear(); fpv.clear(); bvv.clear(); nfresh = 0; }
  unsigned nfresh = 0;
  z3::expr fresh(const char *p) { return c.real_const((std::string(p) + "!" + std::to_string(nfresh++)).c_str()); }
  z3::expr freshB(const char *p) { return c.bool_const((std::string(p) + "!" + std::to_string(nfresh++)).c_str()); }
  z3::expr bvval(u128 v, unsigned w) {
    if (w <= 64) return c.bv_val((uint64_t)v, w);
    return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
  }
  z3::expr B(E e) { z3::expr r = T(e); return r; }  // w==1 -> Bool
  z3::expr V(E e) {                                  // always BV
    z3::expr r = T(e); if (r.is_bool()) return z3::ite(r, c.bv_val(1, 1), c.bv_val(0, 1)); return r; }
  z3::expr fpOf(E e) { z3::sort s = e->w == 32 ? c.fpa_sort<32>() : c.fpa_sort<64>(); return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, V(e), s)); }
  z3::expr ieee(z3::expr f) { return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, f)); }
  z3::expr rne() { return z3::expr(c, Z3_mk_fpa_rne(c)); }
  z3::expr T(E e) {
    auto &mm = memo(); auto it = mm.find(e); if (it != mm.end()) return it->second;
    z3::expr r = T0(e); mm.emplace(e, r); return r; }
  z3::expr T0(E e) {
    bool b1 = e->w == 1;
    if (relaxed && isFpOp(e->op)) { // bits of an FP result: unconstrained (sound)
      return c.bv_const(("fpbits!" + std::to_string(e->id)).c_str(), e->w); }
    switch (e->op) {
      case CONST: return b1 ? c.bool_val(e->c != 0) : bvval(e->c, e->w);
      case VAR: { std::string n = "v" + std::to_string((unsigned)e->c); if (bvv.insert(e).second) bvVars.push_back(e); return b1 ? c.bool_const(n.c_str()) : c.bv_const(n.c_str(), e->w); }
      case SELECT: {
        z3::sort is = c.bv_sort(64), os = c.bv_sort(e->w); z3::func_decl f = c.function(("arr" + std::to_string((unsigned)e->c)).c_str(), is, os);
        if (selSeen.insert(e).second) selects.push_back(e);
        return f(V(e->a[0])); }
      case ADD: return V(e->a[0]) + V(e->a[1]);
      case SUB: return V(e->a[0]) - V(e->a[1]);
      case MUL: if (b1) return B(e->a[0]) && B(e->a[1]); return V(e->a[0]) * V(e->a[1]);
      case UDIV: return z3::udiv(V(e->a[0]), V(e->a[1]));
      case SDIV: return V(e->a[0]) / V(e->a[1]);
      case UREM: return z3::urem(V(e->a[0]), V(e->a[1]));
      case SREM: return z3::srem(V(e->a[0]), V(e->a[1]));
      case SHL: return z3::shl(V(e->a[0]), V(e->a[1]));
      case LSHR: return z3::lshr(V(e->a[0]), V(e->a[1]));
      case ASHR: return z3::ashr(V(e->a[0]), V(e->a[1]));
      case AND: if (b1) return B(e->a[0]) && B(e->a[1]); return V(e->a[0]) & V(e->a[1]);
      case OR: if (b1) return B(e->a[0]) || B(e->a[1]); return V(e->a[0]) | V(e->a[1]);
      case XOR: if (b1) { if (isTrue(e->a[1])) return !B(e->a[0]); return B(e->a[0]) != B(e->a[1]); } if (isC(e->a[1]) && e->a[1]->c == maskw(e->w)) return ~V(e->a[0]); return V(e->a[0]) ^ V(e->a[1]);
      case EQ: case ULT: case ULE: case SLT: case SLE: {
        if (e->a[0]->w == 1 && e->op == EQ) return B(e->a[0]) == B(e->a[1]);
        if (relaxed) { if (hasReal(e->a[0]) || hasReal(e->a[1])) { z3::expr x(c), y(c); if (realOf(e->a[0], x) && realOf(e->a[1], y)) switch (e->op) { case EQ: return x == y; case ULT: case SLT: return x < y; default: return x <= y; } } }
        z3::expr x = V(e->a[0]), y = V(e->a[1]);
        switch (e->op) { case EQ: return x == y; case ULT: return z3::ult(x, y); case ULE: return z3::ule(x, y); case SLT: return x < y; default: return x <= y; } }
      case ITE: if (b1) return z3::ite(B(e->a[0]), B(e->a[1]), B(e->a[2])); return z3::ite(B(e->a[0]), V(e->a[1]), V(e->a[2]));
      case ZEXT: return z3::zext(V(e->a[0]), e->w - e->a[0]->w);
      case SEXT: return z3::sext(V(e->a[0]), e->w - e->a[0]->w);
      case EXTRACT: { z3::expr x = V(e->a[0]).extract((unsigned)e->c + e->w - 1, (unsigned)e->c); if (b1) return x == c.bv_val(1, 1); return x; }
      case CONCAT: return z3::concat(V(e->a[0]), V(e->a[1]));
      case FEQ: case FLT: case FLE: case FUNO: return relaxed ? fcmpR(e) : fcmpB(e);
      case FNEG: return V(e->a[0]) ^ bvval((u128)1 << (e->w - 1), e->w);
      case FABS: return V(e->a[0]) & bvval(maskw(e->w - 1), e->w);
      case FADD: return ieee(z3::expr(c, Z3_mk_fpa_add(c, rne(), fpOf(e->a[0]), fpOf(e->a[1]))));
      case FSUB: return ieee(z3::expr(c, Z3_mk_fpa_sub(c, rne(), fpOf(e->a[0]), fpOf(e->a[1]))));
      case FMUL: return ieee(z3::expr(c, Z3_mk_fpa_mul(c, rne(), fpOf(e->a[0]), fpOf(e->a[1]))));
      case FDIV: return ieee(z3::expr(c, Z3_mk_fpa_div(c, rne(), fpOf(e->a[0]), fpOf(e->a[1]))));
      case FSQRT: return ieee(z3::expr(c, Z3_mk_fpa_sqrt(c, rne(), fpOf(e->a[0]))));
      case FROUND: { Z3_ast m = e->c == 0 ? Z3_mk_fpa_rna(c) : e->c == 1 ? Z3_mk_fpa_rtn(c) : e->c == 2 ? Z3_mk_fpa_rtp(c) : e->c == 3 ? Z3_mk_fpa_rtz(c) : Z3_mk_fpa_rne(c);
        return ieee(z3::expr(c, Z3_mk_fpa_round_to_integral(c, m, fpOf(e->a[0])))); }
      case FPEXT: case FPTRUNC: { z3::sort s = e->w == 32 ? c.fpa_sort<32>() : c.fpa_sort<64>(); return ieee(z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne(), fpOf(e->a[0]), s))); }
      case SITOFP: { z3::sort s = e->w == 32 ? c.fpa_sort<32>() : c.fpa_sort<64>(); return ieee(z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rne(), V(e->a[0]), s))); }
      case UITOFP: { z3::sort s = e->w == 32 ? c.fpa_sort<32>() : c.fpa_sort<64>(); return ieee(z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), V(e->a[0]), s))); }
      case FPTOSI: case FPTOUI: if (relaxed) return c.bv_const(("fpint!" + std::to_string(e->id)).c_str(), e->w);
        return z3::expr(c, e->op == FPTOSI ? Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fpOf(e->a[0]), e->w) : Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fpOf(e->a[0]), e->w));
      case UF: {
        z3::sort_vector ss(c); z3::expr_vector as(c); for (int i = 0; i < 3; i++) if (e->a[i]) { ss.push_back(c.bv_sort(e->a[i]->w)); as.push_back(V(e->a[i])); }
        return c.function(("uf" + std::to_string((unsigned)e->c)).c_str(), ss, c.bv_sort(e->w))(as); }
    }
    abort();
  }
  z3::expr fcmpB(E e) {
    E a = e->a[0], b = e->a[1]; unsigned w = a->w;
    if (hasFpArith(a) || hasFpArith(b)) {
      z3::expr x = fpOf(a), y = fpOf(b);
      switch (e->op) { case FEQ: return z3::expr(c, Z3_mk_fpa_eq(c, x, y)); case FLT: return z3::expr(c, Z3_mk_fpa_lt(c, x, y)); case FLE: return z3::expr(c, Z3_mk_fpa_leq(c, x, y)); default: return z3::expr(c, Z3_mk_fpa_is_nan(c, x)) || z3::expr(c, Z3_mk_fpa_is_nan(c, y)); } }
    z3::expr x = V(a), y = V(b);
    z3::expr inf = bvval(w == 32 ? (u128)0x7f800000u : (u128)0x7ff0000000000000ull, w), am = bvval(maskw(w - 1), w), z = bvval(0, w);
    auto isnan = [&](E s, const z3::expr &q) { if (isC(s)) { double d = cD(s->c, w); return c.bool_val(d != d); } return z3::ugt(q & am, inf); };
    z3::expr un = (isnan(a, x) || isnan(b, y));
    if (e->op == FUNO) return un;
    z3::expr bz = ((x | y) & am) == z;
    if (e->op == FEQ) return !un && (x == y || bz);
    z3::expr sxn = x.extract(w - 1, w - 1) == c.bv_val(1, 1), syn = y.extract(w - 1, w - 1) == c.bv_val(1, 1);
    // ordering on bits
    z3::expr lt = z3::ite(sxn, z3::ite(syn, z3::ugt(x, y), !bz), z3::ite(syn, fls, z3::ult(x, y)));
    if (e->op == FLT) return !un && lt;
    return !un && (lt || x == y || bz);
  }
  // ---------- relaxed reals ----------
  z3::expr rv(double d) { return c.real_val(ratStr(d).c_str()); }
  static double epsOf(unsigned w) { return w == 32 ? ldexp(1, -24) : w == 64 ? ldexp(1, -53) : ldexp(1, -64); }
  static double maxOf(unsigned w) { return w == 32 ? 3.4028234663852886e38 : 1.7976931348623157e308; }
  static double minOf(unsigned w) { return w == 32 ? ldexp(1, -126) : ldexp(1, -1022); }
  z3::expr rabs(const z3::expr &x) { return z3::ite(x >= zero, x, -x); }
  RF roundTo(unsigned w, z3::expr exact, z3::expr nan, z3::expr inf, z3::expr infval, double mn, double mx, bool isExact, bool addlike) {
    // result of rounding the exact real to format w; nan/inf given by special cases
    z3::expr val = exact, oinf = inf;
    double tiny = 0;
    if (!addlike && mn < minOf(w)) tiny = (w == 32 ? ldexp(1, -149) : ldexp(1, -1074));
    if (!isExact || tiny) {
      z3::expr r = fresh("r"), e = rv(epsOf(w)), one = c.real_val(1);
      z3::expr x = exact;
      if (tiny) { z3::expr t = rv(tiny); side.push_back(z3::ite(x >= zero, r <= x * (one + e) + t && r >= x * (one - e) - t && r >= zero, r >= x * (one + e) - t && r <= x * (one - e) + t && r <= zero)); }
      else side.push_back(z3::ite(x >= zero, r <= x * (one + e) && r >= x * (one - e), r >= x * (one + e) && r <= x * (one - e)));
      val = r;
    }
    if (mx >= maxOf(w)) {
      z3::expr ov = freshB("ovf"); z3::expr M = rv(maxOf(w));
      side.push_back(z3::implies(ov, exact >= M || exact <= -M));
      side.push_back(z3::implies(!ov && !inf && !nan, val <= M && val >= -M));
      oinf = inf || (ov && !nan); mx = maxOf(w);
      // sign of infinity follows the exact value
    }
    if (!inf.is_false()) val = z3::ite(inf, infval, val);
    return RF{nan, oinf.simplify(), val, std::max(mn, tiny ? tiny : mn), mx, false};
  }
  RF F(E e) {
    auto it = rfm.find(e); if (it != rfm.end()) return it->second;
    RF r = F0(e); r.nan = r.nan.simplify(); r.inf = r.inf.simplify(); rfm.emplace(e, r); return r; }
  RF F0(E e) {
    const double BIG = INFINITY; unsigned w = e->w;
    switch (e->op) {
      case CONST: { double d = cD(e->c, w); if (d != d) return RF{tru, fls, zero, 1, 1, false}; if (std::isinf(d)) return RF{fls, tru, rv(d > 0 ? 1 : -1), 1, 1, false};
        return RF{fls, fls, rv(d), d == 0 ? BIG : std::fabs(d), std::fabs(d), d == std::floor(d)}; }
      case VAR: {
        VarInfo &vi = gVars[(unsigned)e->c]; std::string n = "f" + std::to_string((unsigned)e->c); if (fpv.insert(e).second) fpVars.push_back(e);
        z3::expr v = c.real_const(n.c_str()), nan = fls, inf = fls;
        if (!vi.isfp || vi.allowNF) { nan = c.bool_const((n + "n").c_str()); inf = c.bool_const((n + "i").c_str()); side.push_back(!(nan && inf)); }
        double mx = vi.isfp && vi.fmax > 0 ? vi.fmax : maxOf(w), mn = vi.isfp && vi.fmin > 0 ? vi.fmin : (w == 32 ? ldexp(1, -149) : ldexp(1, -1074));
        z3::expr inr = v <= rv(mx) && v >= rv(-mx);
        if (vi.isfp && vi.fmin > 0) { z3::expr big = v >= rv(mn) || v <= rv(-mn); inr = inr && (vi.allowZero ? (big || v == zero) : big); }
        if (vi.isfp && vi.nonneg) inr = inr && v >= zero;
        side.push_back(z3::ite(nan || inf, nan || v != zero, inr));
        return RF{nan, inf, v, mn, mx, false}; }
      case ITE: { z3::expr k = B(e->a[0]); RF a = F(e->a[1]), b = F(e->a[2]); return RF{z3::ite(k, a.nan, b.nan), z3::ite(k, a.inf, b.inf), z3::ite(k, a.val, b.val), std::min(a.mn, b.mn), std::max(a.mx, b.mx), a.integral && b.integral}; }
      case FADD: case FSUB: {
        RF a = F(e->a[0]), b = F(e->a[1]); z3::expr bv = e->op == FADD ? b.val : -b.val;
        z3::expr nan = a.nan || b.nan || (a.inf && b.inf && ((a.val > zero) != (bv > zero)));
        z3::expr inf = (a.inf || b.inf) && !nan; z3::expr iv = z3::ite(a.inf, a.val, bv);
        bool ex = (a.mx == 0 || b.mx == 0);
        double mn = std::min(a.mn, b.mn); if (!ex) mn = mn * epsOf(w) ; if (!ex && mn < ldexp(1, -1074)) mn = ldexp(1, -1074);
        return roundTo(w, a.val + bv, nan.simplify(), inf.simplify(), iv, mn, (a.mx + b.mx) * 1.0000001, ex, true); }
      case FMUL: {
        RF a = F(e->a[0]), b = F(e->a[1]);
        z3::expr nan = a.nan || b.nan || (a.inf && !b.inf && b.val == zero) || (b.inf && !a.inf && a.val == zero);
        z3::expr inf = (a.inf || b.inf) && !nan; z3::expr iv = z3::ite((a.val > zero) == (b.val > zero), c.real_val(1), c.real_val(-1));
        bool ex = false; for (int i = 0; i < 2; i++) if (isC(e->a[i])) { double d = std::fabs(cD(e->a[i]->c, w)); int q; if (d == 0 || frexp(d, &q) == 0.5) ex = true; }
        return roundTo(w, a.val * b.val, nan.simplify(), inf.simplify(), iv, a.mn * b.mn * 0.9999999, a.mx * b.mx * 1.0000001, ex, false); }
      case FDIV: {
        RF a = F(e->a[0]), b = F(e->a[1]);
        z3::expr bz = (!b.inf && !b.nan && b.val == zero), az = (!a.inf && !a.nan && a.val == zero);
        z3::expr nan = a.nan || b.nan || (a.inf && b.inf) || (az && bz);
        z3::expr inf = (a.inf || bz) && !nan;
        z3::expr iv(c);
        z3::expr sg = freshB("sgn"); iv = z3::ite(bz, z3::ite(sg, c.real_val(1), c.real_val(-1)), z3::ite((a.val > zero) == (b.val > zero), c.real_val(1), c.real_val(-1)));
        z3::expr q(c); bool ex = false;
        if (isC(e->a[1]) && !b.nan.is_true() && !b.inf.is_true() && cD(e->a[1]->c, w) != 0) { q = a.val / b.val; int k; ex = frexp(std::fabs(cD(e->a[1]->c, w)), &k) == 0.5; }
        else { q = fresh("q"); side.push_back(z3::implies(b.val != zero && !b.inf && !b.nan, q * b.val == a.val)); }
        if (!b.inf.is_false()) q = z3::ite(b.inf, zero, q);
        double mx = b.mn > 0 ? a.mx / b.mn * 1.0000001 : INFINITY, mn = b.mx > 0 ? a.mn / b.mx * 0.9999999 : 0;
        return roundTo(w, q, nan.simplify(), inf.simplify(), iv, mn, mx, ex, false); }
      case FSQRT: { RF a = F(e->a[0]); z3::expr nan = a.nan || (!a.nan && a.val < zero), inf = a.inf && !nan;
        z3::expr r = fresh("sq"), ee = rv(4 * epsOf(w)), one = c.real_val(1); side.push_back(r >= zero); side.push_back(z3::implies(a.val >= zero && !a.inf, r * r <= a.val * (one + ee) && r * r >= a.val * (one - ee)));
        return RF{nan, inf, z3::ite(inf, one, r), std::sqrt(a.mn) * 0.999999, std::sqrt(a.mx) * 1.000001, false}; }
      case FNEG: { RF a = F(e->a[0]); return RF{a.nan, a.inf, -a.val, a.mn, a.mx, a.integral}; }
      case FABS: { RF a = F(e->a[0]); return RF{a.nan, a.inf, rabs(a.val), a.mn, a.mx, a.integral}; }
      case FPEXT: return F(e->a[0]);
      case FPTRUNC: { RF a = F(e->a[0]); if (a.integral && a.mx <= 16777216.0) return a; return roundTo(w, a.val, a.nan, a.inf, a.val, a.mn, a.mx, false, false); }
      case FROUND: { RF a = F(e->a[0]); if (a.integral) return a; z3::expr r = fresh("rnd"), h = rv(0.5), one = c.real_val(1);
        switch ((unsigned)e->c) { case 1: side.push_back(r <= a.val && r > a.val - one); break; case 2: side.push_back(r >= a.val && r < a.val + one); break;
          case 3: side.push_back(z3::ite(a.val >= zero, r <= a.val && r > a.val - one && r >= zero, r >= a.val && r < a.val + one && r <= zero)); break;
          default: side.push_back(r <= a.val + h && r >= a.val - h); side.push_back(z3::implies(a.val > -h && a.val < h, r == zero)); }
        sideInt.push_back(z3::is_int(r));
        return RF{a.nan, a.inf, z3::ite(a.inf || a.nan, a.val, r), 1, a.mx + 1, true}; }
      case UITOFP: case SITOFP: {
        z3::expr x(c);
        double mx = (double)(umaxBound(e->a[0])) + 1; if (e->op == SITOFP && umaxBound(e->a[0]) >> (e->a[0]->w - 1)) mx = ldexp(1, e->a[0]->w - 1);
        if (!realOf(e->a[0], x)) {
          if (e->op == SITOFP && umaxBound(e->a[0]) >> (e->a[0]->w - 1)) { x = z3::to_real(z3::expr(c, Z3_mk_bv2int(c, V(e->a[0]), true))); }
          else x = z3::to_real(z3::expr(c, Z3_mk_bv2int(c, V(e->a[0]), false))); }
        bool ex = mx <= (w == 32 ? 16777216.0 : 9007199254740992.0);
        RF r = roundTo(w, x, fls, fls, x, 1, mx, ex, true); r.integral = true; return r; }
      case FADD + 100: default: {
        // bits reinterpretation of something else: unconstrained value
        std::string n = "u" + std::to_string(e->id); z3::expr nan = c.bool_const((n + "n").c_str()), inf = c.bool_const((n + "i").c_str()), v = c.real_const(n.c_str());
        side.push_back(!(nan && inf)); side.push_back(z3::implies(inf, v != zero));
        z3::expr M = rv(maxOf(w)); side.push_back(v <= M && v >= -M);
        return RF{nan, inf, v, w == 32 ? ldexp(1, -149) : ldexp(1, -1074), maxOf(w), false}; }
    }
  }
  bool hasReal(E e) { int n = 0; while (n++ < 8) { if (e->op == FPTOUI || e->op == FPTOSI) return true; if (e->op == ZEXT || e->op == SEXT) { e = e->a[0]; continue; } if (e->op == ITE) return hasReal(e->a[1]) || hasReal(e->a[2]); return false; } return false; }
  bool realOf(E e, z3::expr &out) {
    auto it = rom.find(e); if (it != rom.end()) { out = it->second; return true; }
    switch (e->op) {
      case CONST: out = c.real_val(std::to_string((unsigned long long)e->c).c_str()); if (e->w > 64) return false; break;
      case ZEXT: if (!realOf(e->a[0], out)) return false; break;
      case SEXT: if (e->a[0]->op != FPTOSI || !realOf(e->a[0], out)) return false; break;
      case ITE: { z3::expr x(c), y(c); if (!realOf(e->a[1], x) || !realOf(e->a[2], y)) return false; out = z3::ite(B(e->a[0]), x, y); break; }
      case FPTOUI: case FPTOSI: {
        RF a = F(e->a[0]); z3::expr r = fresh("ti"), one = c.real_val(1);
        z3::expr lo = e->op == FPTOUI ? zero : rv(-ldexp(1, e->w - 1)), hi = rv(ldexp(1, e->op == FPTOUI ? e->w : e->w - 1));
        z3::expr ok = !a.nan && !a.inf && a.val > lo - one && a.val < hi;
        if (a.integral) side.push_back(z3::implies(ok, r == a.val));
        else { side.push_back(z3::implies(ok, z3::ite(a.val >= zero, r <= a.val && r > a.val - one && r >= zero, r >= a.val && r < a.val + one && r <= zero))); sideInt.push_back(z3::is_int(r)); }
        side.push_back(r >= lo && r < hi); out = r; break; }
      default: return false;
    }
    rom.emplace(e, out); return true;
  }
  z3::expr fcmpR(E e) {
    RF a = F(e->a[0]), b = F(e->a[1]); z3::expr un = a.nan || b.nan;
    if (e->op == FUNO) return un;
    z3::expr anyInf = (a.inf || b.inf).simplify();
    z3::expr cmp = e->op == FEQ ? a.val == b.val : e->op == FLT ? a.val < b.val : a.val <= b.val;
    if (!anyInf.is_false()) {
      z3::expr ap = a.val > zero, bp = b.val > zero, one = c.real_val(1), two = c.real_val(1);
      z3::expr ic = e->op == FEQ ? (a.inf && b.inf && ap == bp)
                  : e->op == FLT ? z3::ite(a.inf, !ap && !(b.inf && !bp), bp)
                                 : z3::ite(a.inf, !ap || (b.inf && bp), bp);
      cmp = z3::ite(anyInf, ic, cmp); }
    return !un && cmp;
  }
};
Solver::Solver() { im = new Impl; im->opt = &opt; }

static bool subInter(const vector<uint32_t> &a, const std::unordered_set<uint32_t> &s) { for (auto x : a) if (s.count(x)) return true; return false; }
static std::string runCmd(const std::string &cmd) { std::string out; FILE *p = popen(cmd.c_str(), "r"); if (!p) return out; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n); pclose(p); return out; }

struct CacheKey { vector<uint32_t> ids; bool operator==(const CacheKey &o) const { return ids == o.ids; } };
struct CKH { size_t operator()(const CacheKey &k) const { u64 h = 1469598103934665603ull; for (auto x : k.ids) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<CacheKey, std::pair<Res, Model>, CKH> qcache;

static double num2d(const z3::expr &v) {
  z3::expr x = v; if (x.is_algebraic()) { Z3_ast lo = Z3_get_algebraic_number_lower(x.ctx(), x, 40); x = z3::expr(x.ctx(), lo); }
  std::string s = x.get_decimal_string(60); if (!s.empty() && s.back() == '?') s.pop_back(); return strtod(s.c_str(), nullptr); }

Res Solver::check(const vector<E> &pc, E cond, Model *m) {
  if (isFalse(cond)) return UNSAT;
  // slice
  std::unordered_set<uint32_t> vs(varsOf(cond).begin(), varsOf(cond).end()); vector<E> sl; sl.push_back(cond);
  vector<char> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i] && subInter(varsOf(pc[i]), vs)) { used[i] = 1; sl.push_back(pc[i]); for (auto x : varsOf(pc[i])) if (vs.insert(x).second) ch = true; } }
  CacheKey k; for (auto e : sl) k.ids.push_back(e->id); std::sort(k.ids.begin(), k.ids.end()); k.ids.erase(std::unique(k.ids.begin(), k.ids.end()), k.ids.end());
  auto ci = qcache.find(k); if (ci != qcache.end()) { st.cacheHits++; if (m) *m = ci->second.second; return ci->second.first; }
  double t0 = now(); st.queries++;
  if (vs.size() == 1 && !(*vs.begin() & 0x80000000u)) {  // single variable compared with constants only: interval reasoning
    unsigned id = *vs.begin(); unsigned w = gVars[id].w; bool ok = w <= 63; u128 lo = 0, hi = maskw(w); std::set<u128> ne;
    for (E e : sl) { if (!ok) break; bool neg = false; E c = e; while (c->op == XOR && isTrue(c->a[1])) { neg = !neg; c = c->a[0]; }
      if (c->op != ULT && c->op != ULE && c->op != EQ) { ok = false; break; }
      auto core = [&](E x) { while (x->op == ZEXT) x = x->a[0]; return x; }; E l = core(c->a[0]), r = core(c->a[1]); bool lv = l->op == VAR && isC(c->a[1]), rv = r->op == VAR && isC(c->a[0]); if (!lv && !rv) { ok = false; break; }
      u128 k = lv ? c->a[1]->c : c->a[0]->c;
      if (c->op == EQ) { if (neg) ne.insert(k); else { lo = std::max(lo, k); hi = std::min(hi, k); } continue; }
      bool strict = c->op == ULT; // v<k / v<=k / k<v / k<=v, possibly negated
      bool less = lv; if (neg) { less = !less; strict = !strict; }
      if (less) { if (strict) { if (!k) { lo = 1; hi = 0; break; } hi = std::min(hi, k - 1); } else hi = std::min(hi, k); } else lo = std::max(lo, strict ? k + 1 : k); if (lo > hi) break; }
    if (ok) { while (lo <= hi && ne.count(lo)) lo++; Res r = lo <= hi ? SAT : UNSAT; Model mm; if (r == SAT) mm.as.v[id] = lo; (r == SAT ? st.sat : st.unsat)++; st.time += now() - t0; qcache[k] = {r, mm}; if (m) *m = mm; return r; } }
  Impl &I = *im; I.relaxed = opt.relaxed; I.reset(); I.selects.clear(); I.selSeen.clear();
  Res res = UNKNOWN; Model mod;
  try {
    vector<z3::expr> fs;
    if (!I.relaxed) { // variables: collect from varsOf, selects by walk
      std::unordered_set<E> seen; std::function<void(E)> walk = [&](E e) { if (!e || e->op == CONST || !seen.insert(e).second) return; if (e->op == VAR) I.bvVars.push_back(e); if (e->op == SELECT) I.selects.push_back(e); for (int i = 0; i < 3; i++) walk(e->a[i]); };
      for (E e : sl) { walk(e); I.bvv.clear(); } 
      std::sort(I.bvVars.begin(), I.bvVars.end()); I.bvVars.erase(std::unique(I.bvVars.begin(), I.bvVars.end()), I.bvVars.end());
    }
    auto selCopy = I.selects; auto bvCopy = I.bvVars;
    for (E e : sl) fs.push_back(I.B(e));
    if (!I.relaxed) { I.selects = selCopy; I.bvVars = bvCopy; }
    // sortedness of array reads
    std::set<E> sset(I.selects.begin(), I.selects.end()); vector<E> sels(sset.begin(), sset.end());
    for (size_t i = 0; i < sels.size(); i++) for (size_t j = 0; j < sels.size(); j++) if (i != j && sels[i]->c == sels[j]->c) {
      E le = mkBin(ULE, sels[i]->a[0], sels[j]->a[0]); E ax = mkOr(mkNot(le), mkBin(FLE, sels[i], sels[j])); if (!isTrue(ax)) fs.push_back(I.B(ax)); }
    for (E s : sels) fs.push_back(I.B(mkBin(FLT, mkFun(FABS, s, s->w), mkConst(s->w == 32 ? (u128)0x7f800000u : (u128)0x7ff0000000000000ull, s->w))));
    int phases = I.relaxed && !I.sideInt.empty() ? 2 : 1;
    if (I.relaxed && sl.size() > 1) {  // first without the nonlinear path constraints
      vector<E> lin; for (size_t i = 0; i < sl.size(); i++) if (i == 0 || !nonlinear(sl[i])) lin.push_back(sl[i]);
      if (lin.size() < sl.size() && !nonlinear(sl[0])) {
        auto sv = I.side, svi = I.sideInt; I.side.clear(); I.sideInt.clear(); I.rfm.clear(); I.rbm.clear(); I.rom.clear(); I.fpv.clear(); I.bvv.clear(); I.fpVars.clear(); I.bvVars.clear(); unsigned nf = I.nfresh; I.nfresh += 100000;
        z3::solver s(I.c); z3::params p(I.c); p.set("timeout", 3000u); s.set(p); for (E e : lin) s.add(I.B(e)); for (auto &f : I.side) s.add(f); for (auto &f : I.sideInt) s.add(f);
        bool un = s.check() == z3::unsat;
        if (un) { double dt = now() - t0; st.time += dt; st.unsat++; qcache[k] = {UNSAT, Model()}; return UNSAT; }
        I.reset(); I.nfresh = nf + 200000; fs.clear(); for (E e : sl) fs.push_back(I.B(e)); } }
    for (int ph = 0; ph < phases; ph++) {
      bool fpa = false; if (!I.relaxed) for (E e : sl) if (hasFpArith(e)) fpa = true;
      z3::solver s = (!I.relaxed && !fpa && I.selects.empty()) ? z3::solver(I.c, "QF_BV") : z3::solver(I.c);
      z3::params p(I.c); p.set("timeout", opt.timeoutMs); s.set(p);
      for (auto &f : fs) s.add(f); for (auto &f : I.side) s.add(f); if (ph) for (auto &f : I.sideInt) s.add(f);
      static bool dbg = getenv("SYMX_DUMP") != nullptr;
      if (dbg) { static int n = 0; std::ofstream o(std::string(getenv("SYMX_DUMP")) + "/q" + std::to_string(n++) + ".smt2"); o << s.to_smt2(); }
      z3::check_result r = s.check();
      if (r == z3::unknown && opt.fallbackMs >= 1000) {
        st.fallback++;
        char fn[64]; snprintf(fn, 64, "/tmp/symx_%d.smt2", getpid()); { std::ofstream o(fn); o << "(set-logic ALL)\n" << s.to_smt2(); }
        std::string secs = std::to_string(opt.fallbackMs / 1000);
        // two other configurations / solvers; first definite unsat answer counts
        std::string out = runCmd("( timeout " + secs + " cvc5 " + fn + " > " + fn + ".1 2>&1 & timeout " + secs + " z3-new smt.arith.solver=2 " + fn + " > " + fn + ".2 2>&1 & wait ); cat " + fn + ".1; echo ===; cat " + fn + ".2; rm -f " + fn + " " + fn + ".1 " + fn + ".2");
        if (out.find("(error") == std::string::npos || true) {
          size_t sep = out.find("==="); std::string o1 = out.substr(0, sep), o2 = out.substr(sep + 3);
          auto has = [](const std::string &o, const char *w) { return o.find("(error") == std::string::npos && o.find(w) != std::string::npos; };
          bool u1 = has(o1, "unsat"), u2 = has(o2, "unsat");
          if (u1 || u2) r = z3::unsat; }
      } else if (opt.cross && r == z3::unsat) {
        char fn[64]; snprintf(fn, 64, "/tmp/symx_%d.smt2", getpid()); { std::ofstream o(fn); o << "(set-logic ALL)\n" << s.to_smt2(); }
        std::string out = runCmd(std::string("timeout 20 cvc5 ") + fn + " 2>&1; rm -f " + fn);
        if (out.find("(error") == std::string::npos && out.compare(0, 5, "unsat") == 0) st.crossChecked++;
        else if (out.find("(error") == std::string::npos && out.compare(0, 3, "sat") == 0) { fprintf(stderr, "SOLVER DISAGREEMENT\n"); lastError = "solver disagreement"; r = z3::unknown; }
      }
      if (r == z3::unsat) { res = UNSAT; break; }
      if (r == z3::unknown) { if (res != SAT) res = UNKNOWN; continue; }
      res = SAT;
      z3::model zm = s.get_model(); mod.as = Assignment();
      for (E v : I.bvVars) { z3::expr x = zm.eval(I.T(v), true); u128 val = 0; if (x.is_bool()) val = x.is_true(); else { if (v->w <= 64) val = x.get_numeral_uint64(); else { val = ((u128)zm.eval(I.T(v).extract(v->w - 1, 64), true).get_numeral_uint64() << 64) | zm.eval(I.T(v).extract(63, 0), true).get_numeral_uint64(); } } mod.as.v[(unsigned)v->c] = val; }
      for (E v : I.fpVars) { RF f = I.F(v); u128 bits; z3::expr nn = zm.eval(f.nan, true), ii = zm.eval(f.inf, true); double d = num2d(zm.eval(f.val, true));
        if (nn.is_true()) d = NAN; else if (ii.is_true()) d = d > 0 ? INFINITY : -INFINITY;
        if (v->w == 32) { float g = (float)d; uint32_t u; memcpy(&u, &g, 4); bits = u; } else { u64 u; memcpy(&u, &d, 8); bits = u; }
        mod.as.v[(unsigned)v->c] = bits; }
      for (E q : sels) { z3::expr iv = zm.eval(I.V(q->a[0]), true), vv = zm.eval(I.V(q), true); mod.as.arr[(unsigned)q->c][iv.get_numeral_uint64()] = vv.get_numeral_uint64(); }
      if (ph + 1 < phases) { /* try the integral phase: may still be unsat */ continue; }
      break;
    }
  } catch (z3::exception &ex) { lastError = ex.msg(); fprintf(stderr, "z3: %s\n", ex.msg()); res = UNKNOWN; }
  double dt = now() - t0; st.time += dt; st.maxTime = std::max(st.maxTime, dt);
  if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) fprintf(stderr, "[slow %.2fs %d] %s\n", dt, res, str(cond, 8).substr(0, 600).c_str());
  (res == SAT ? st.sat : res == UNSAT ? st.unsat : st.unknown)++;
  if (res != UNKNOWN) qcache[k] = {res, mod};
  if (m) *m = mod;
  return res;
}
