// symx: symbolic executor for LLVM IR (path forking + region merging), memory model, exceptions, threads.
#include "state.h"
#include <atomic>
#include <gsl/gsl_cdf.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_sf_erf.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <unistd.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <pthread.h>
#include <chrono>
#include <fstream>
#include <algorithm>
#include <regex>
#include <random>
#include <cstdio>
using namespace llvm;
using std::string; using std::vector;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
E UNINIT;

// ------------------------------------------------------------------ options
static struct Opts {
  string bc, out = ".", entry; double timeLimit = 300; u64 maxSteps = 20000000, maxPaths = 1000000; int preempt = 2; bool merge = true; string noMerge; unsigned traces = 20;
  bool relaxed = false, lazy = false, resolveSel = false; unsigned long seed = 1; bool verbose = false; double ceSearch = 2.0; unsigned mergeLimit = 400; bool strictUninit = false; u64 maxVio = 24; unsigned spurious = 0; bool dumpPaths = false; size_t memMB = 3000;
} O;
static Solver *S; static Module *M; static const DataLayout *DL;
static std::mt19937_64 rng;

// ------------------------------------------------------------------ decoded code
struct Opnd { int slot = -1; Val k; };
struct FuncInfo;
typedef void (*BuiltinFn)(State &, struct Inst &);
enum Builtin : int { B_NONE = 0, B_NOP, B_RET0, B_EXT };
struct Inst {
  unsigned opc = 0; Instruction *I = nullptr; int dst = -1; unsigned w = 0, aw = 0; Type *ty = nullptr, *aty = nullptr;
  vector<Opnd> o; int64_t off = 0; vector<std::pair<int, int64_t>> gidx; unsigned pred = 0;
  int b0 = -1, b1 = -1; vector<std::pair<u128, int>> cases;
  vector<int> phiBB; Function *callee = nullptr; FuncInfo *fi = nullptr; int bi = 0; unsigned intr = 0; u64 size = 0; bool allocaDyn = false;
};
struct FuncInfo {
  Function *F = nullptr; string name; bool decoded = false; int nslots = 0; vector<vector<Inst>> bb; vector<BasicBlock *> bbp; vector<int> rpo; vector<int> ipdom; vector<char> executed; vector<int> noMergeCnt; vector<char> cand; bool noMerge = false; u64 addr = 0; int nargs = 0;
  std::unordered_map<const BasicBlock *, int> bbIdx; std::unordered_map<const Value *, int> slot; u64 calls = 0;
};
static std::unordered_map<Function *, FuncInfo *> funcs;
static std::unordered_map<u64, FuncInfo *> funcByAddr;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<u64, string> addrName;

// ------------------------------------------------------------------ results
struct Violation { string kind, msg, where, file; };
static vector<Violation> vios; static std::set<string> vioKeys;
static std::map<string, u64> incompl;   // reason -> count
static std::set<string> reachedAll; static std::map<string, u64> assertCount;
static u64 nPaths = 0, nForks = 0, nMerges = 0, nSteps = 0, nAsserts = 0, nMergeAborts = 0, nStates = 0, nKilled = 0, nSched = 0, nThreadsMax = 1; static vector<string> traceFiles; static vector<string> samples;
struct PathEnd { string why; };           // terminates the current path
struct MergeAbort {};
struct Unsupported { string what; };

static FuncInfo *fiOf(Function *F) { auto &p = funcs[F]; if (!p) { p = new FuncInfo; p->F = F; p->name = F->getName().str(); } return p; }
static unsigned wOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80; return 0; }
static bool isAggTy(Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned aggN(Type *t) { if (auto *s = dyn_cast<StructType>(t)) return s->getNumElements(); if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
static Type *aggT(Type *t, unsigned i) { if (auto *s = dyn_cast<StructType>(t)) return s->getElementType(i); if (auto *a = dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<VectorType>(t)->getElementType(); }
static u64 aggOff(Type *t, unsigned i) { if (auto *s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i); Type *e = aggT(t, 0); return t->isVectorTy() ? i * (DL->getTypeSizeInBits(e) / 8) : i * DL->getTypeAllocSize(e); }
static Val mkAgg(vector<Val> v) { Agg *a = new Agg; a->v = std::move(v); Val r; r.agg = AggP(a); return r; }
static Val zeroVal(Type *t) { if (isAggTy(t)) { vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(zeroVal(aggT(t, i))); return mkAgg(v); } unsigned w = wOf(t); if (w > 64) return fromE(mkConst(0, w)); return Val(0); }
static Val mkV(u128 c, unsigned w) { c &= maskw(w); if (w <= 64) return Val((u64)c); Val v; v.e = mkConst(c, w); return v; }

// ------------------------------------------------------------------ constants
static Val constVal(const Constant *c) {
  Type *t = c->getType();
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() <= 64) return Val(i->getZExtValue()); APInt a = i->getValue(); u128 v = a.extractBitsAsZExtValue(64, 0); v |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64; return mkV(v, i->getBitWidth()); }
  if (auto *f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return Val(a.getZExtValue()); u128 v = a.extractBitsAsZExtValue(64, 0); v |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64; return mkV(v, a.getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroVal(t);
  if (auto *g = dyn_cast<GlobalValue>(c)) { if (auto *al = dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee()); auto it = gaddr.find(g); if (it == gaddr.end()) throw Unsupported{"global " + g->getName().str()}; return Val(it->second); }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { vector<Val> v; for (unsigned i = 0; i < d->getNumElements(); i++) v.push_back(constVal(d->getElementAsConstant(i))); return mkAgg(v); }
  if (isa<ConstantAggregate>(c)) { vector<Val> v; for (unsigned i = 0; i < c->getNumOperands(); i++) v.push_back(constVal(cast<Constant>(c->getOperand(i)))); return mkAgg(v); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto op = [&](unsigned i) { return constVal(cast<Constant>(ce->getOperand(i))).c; };
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto *g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"}; return Val(op(0) + off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return Val(op(0) & (u64)maskw(wOf(t)));
      case Instruction::Trunc: return Val(op(0) & (u64)maskw(wOf(t)));
      case Instruction::Add: return mkV(op(0) + op(1), wOf(t)); case Instruction::Sub: return mkV(op(0) - op(1), wOf(t));
      case Instruction::ICmp: { u64 a = op(0), b = op(1); return Val(ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b); }
      default: throw Unsupported{string("constexpr ") + ce->getOpcodeName()}; } }
  throw Unsupported{"constant"};
}
static void writeConst(Obj *o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy(&o->b[off], r.data(), r.size()); return; }
  if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) writeConst(o, off + aggOff(t, i), cast<Constant>(c->getOperand(i))); return; }
  Val v = constVal(c); unsigned n = DL->getTypeStoreSize(t); u128 x = v.e ? v.e->c : v.c; for (unsigned i = 0; i < n; i++) o->b[off + i] = (uint8_t)(x >> (8 * i));
}

// ------------------------------------------------------------------ decoding
static void decode(FuncInfo *f);
static int builtinOf(const string &n);
static Opnd mkOp(FuncInfo *f, Value *v) {
  Opnd o; if (auto *c = dyn_cast<Constant>(v)) { o.k = constVal(c); return o; }
  if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
  auto it = f->slot.find(v); if (it == f->slot.end()) throw Unsupported{"operand"}; o.slot = it->second; return o; }
static void decode(FuncInfo *f) {
  if (f->decoded) return; f->decoded = true; Function *F = f->F; int n = 0; f->nargs = F->arg_size();
  for (auto &a : F->args()) f->slot[&a] = n++;
  ReversePostOrderTraversal<Function *> rpot(F); vector<BasicBlock *> order(rpot.begin(), rpot.end());
  for (auto *B : order) { f->bbIdx[B] = f->bbp.size(); f->bbp.push_back(B); for (auto &I : *B) if (!I.getType()->isVoidTy()) f->slot[&I] = n++; }
  f->nslots = n; size_t nb = order.size(); f->bb.resize(nb); f->executed.assign(nb, 0); f->noMergeCnt.assign(nb, 0); f->cand.assign(nb, 2); f->ipdom.assign(nb, -1);
  { // immediate post-dominators, ignoring blocks that only lead to 'unreachable' (failed assertions)
    vector<vector<int>> su(nb), pr(nb + 1); vector<char> live(nb, 0); vector<int> wl; int X = (int)nb;
    for (size_t i = 0; i < nb; i++) { for (auto *q : successors(order[i])) su[i].push_back(f->bbIdx[q]); if (su[i].empty() && !isa<UnreachableInst>(order[i]->getTerminator())) { live[i] = 1; wl.push_back(i); } }
    for (size_t i = 0; i < nb; i++) for (int q : su[i]) pr[q].push_back(i);
    while (!wl.empty()) { int x = wl.back(); wl.pop_back(); for (int q : pr[x]) if (!live[q]) { live[q] = 1; wl.push_back(q); } }
    vector<int> po, num(nb + 1, -1), id(nb + 1, -1); vector<vector<int>> rp(nb + 1); for (size_t i = 0; i < nb; i++) if (live[i]) { if (su[i].empty()) rp[X].push_back(i); for (int q : su[i]) if (live[q]) rp[q].push_back(i); }
    vector<char> seen(nb + 1, 0); vector<std::pair<int, size_t>> st; st.push_back({X, 0}); seen[X] = 1;
    while (!st.empty()) { auto &t = st.back(); if (t.second < rp[t.first].size()) { int q = rp[t.first][t.second++]; if (!seen[q]) { seen[q] = 1; st.push_back({q, 0}); } } else { num[t.first] = po.size(); po.push_back(t.first); st.pop_back(); } }
    id[X] = X; bool ch = true; auto meet = [&](int a, int b) { while (a != b) { while (num[a] < num[b]) a = id[a]; while (num[b] < num[a]) b = id[b]; } return a; };
    while (ch) { ch = false; for (size_t k = po.size(); k-- > 0;) { int x = po[k]; if (x == X) continue; int m = -1; auto add = [&](int q) { if (id[q] < 0) return; m = m < 0 ? q : meet(m, q); }; if (su[x].empty()) add(X); for (int q : su[x]) if (live[q]) add(q); if (m >= 0 && id[x] != m) { id[x] = m; ch = true; } } }
    for (size_t i = 0; i < nb; i++) f->ipdom[i] = (id[i] >= 0 && id[i] != X) ? id[i] : -1; }
  if (!O.noMerge.empty()) { static std::regex re(O.noMerge); f->noMerge = std::regex_search(demangle(f->name), re); }
  for (size_t bi = 0; bi < nb; bi++) for (auto &I : *order[bi]) {
    if (isa<DbgInfoIntrinsic>(&I)) continue;
    Inst d; d.I = &I; d.opc = I.getOpcode(); d.ty = I.getType(); d.w = wOf(d.ty); if (!d.ty->isVoidTy()) d.dst = f->slot[&I];
    if (I.getNumOperands()) { d.aty = I.getOperand(0)->getType(); d.aw = wOf(d.aty); }
    switch (d.opc) {
      case Instruction::PHI: { auto *p = cast<PHINode>(&I); for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { auto it = f->bbIdx.find(p->getIncomingBlock(i)); d.phiBB.push_back(it == f->bbIdx.end() ? -2 : it->second); Opnd o; if (it != f->bbIdx.end()) o = mkOp(f, p->getIncomingValue(i)); d.o.push_back(o); } break; }
      case Instruction::Br: { auto *b = cast<BranchInst>(&I); d.b0 = f->bbIdx[b->getSuccessor(0)]; if (b->isConditional()) { d.b1 = f->bbIdx[b->getSuccessor(1)]; d.o.push_back(mkOp(f, b->getCondition())); } break; }
      case Instruction::Switch: { auto *s = cast<SwitchInst>(&I); d.o.push_back(mkOp(f, s->getCondition())); d.b0 = f->bbIdx[s->getDefaultDest()]; for (auto &c : s->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), f->bbIdx[c.getCaseSuccessor()]}); break; }
      case Instruction::GetElementPtr: {
        auto *g = cast<GetElementPtrInst>(&I); d.o.push_back(mkOp(f, g->getPointerOperand())); if (d.ty->isVectorTy()) throw Unsupported{"vector gep"};
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value *ix = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { int64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto *c = dyn_cast<ConstantInt>(ix)) d.off += sz * c->getSExtValue(); else { d.gidx.push_back({wOf(ix->getType()), sz}); d.o.push_back(mkOp(f, ix)); } } }
        break; }
      case Instruction::Alloca: { auto *a = cast<AllocaInst>(&I); d.size = DL->getTypeAllocSize(a->getAllocatedType()); d.o.push_back(mkOp(f, a->getArraySize())); break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto *c = cast<CallBase>(&I); for (auto &a : c->args()) d.o.push_back(mkOp(f, a.get())); Value *cv = c->getCalledOperand()->stripPointerCasts(); if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
        if (auto *cf = dyn_cast<Function>(cv)) { d.callee = cf; if (cf->isIntrinsic()) d.intr = cf->getIntrinsicID(); else { d.bi = builtinOf(cf->getName().str()); if (d.bi && !cf->isDeclaration() && cf->getName().starts_with("gsl_")) d.bi = 0; if (!d.bi) d.fi = fiOf(cf); } }
        else d.o.push_back(mkOp(f, cv));
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { d.b0 = f->bbIdx[iv->getNormalDest()]; d.b1 = f->bbIdx.count(iv->getUnwindDest()) ? f->bbIdx[iv->getUnwindDest()] : -1; }
        break; }
      case Instruction::LandingPad: break;
      case Instruction::ICmp: case Instruction::FCmp: d.pred = cast<CmpInst>(&I)->getPredicate(); for (auto &u : I.operands()) d.o.push_back(mkOp(f, u.get())); break;
      case Instruction::ShuffleVector: { for (auto &u : I.operands()) d.o.push_back(mkOp(f, u.get())); for (int m : cast<ShuffleVectorInst>(&I)->getShuffleMask()) d.phiBB.push_back(m); break; }
      case Instruction::ExtractValue: d.o.push_back(mkOp(f, I.getOperand(0))); for (unsigned x : cast<ExtractValueInst>(&I)->indices()) d.phiBB.push_back(x); break;
      case Instruction::InsertValue: d.o.push_back(mkOp(f, I.getOperand(0))); d.o.push_back(mkOp(f, I.getOperand(1))); for (unsigned x : cast<InsertValueInst>(&I)->indices()) d.phiBB.push_back(x); break;
      default: for (auto &u : I.operands()) if (!isa<BasicBlock>(u.get())) d.o.push_back(mkOp(f, u.get()));
    }
    f->bb[bi].push_back(std::move(d));
  }
}

// ------------------------------------------------------------------ worklist / path handling
static vector<State *> work; static u64 verCtr = 1; static double tStart; static State *cur;
static std::map<string, u64> forkAt; static string where(State &s); static bool forkDbg = getenv("SYMX_FORKS") != nullptr;
static State *cloneState(State &s) { if (forkDbg) forkAt[where(s).substr(0, 400)]++; State *n = new State(s); n->asVer = ++verCtr; nForks++; return n; }
struct EvCache { u64 ver = 0; Assignment as; Evaluator ev{as}; } static evc;
static Evaluator &evOf(State &s) { if (evc.ver != s.asVer) { evc.as = s.as; evc.ev.memo.clear(); evc.ver = s.asVer; } return evc.ev; }
static u128 evalW(State &s, E e) { if (isC(e)) return e->c; return evOf(s).eval(e); }
static void setVar(State &s, E v, u128 val) { s.as.v[(unsigned)v->c] = val; if (evc.ver == s.asVer) evc.as.v[(unsigned)v->c] = val; }
static E newVar(State &s, const string &name, unsigned w, bool fp, u128 def) { E v = mkVar(name, w, fp); setVar(s, v, def); return v; }
static void addPc(State &s, E c) {
  if (isC(c)) return; if (!s.pcSet.insert(c).second) return;
  if (c->op == AND && c->w == 1) { s.pcSet.erase(c); addPc(s, c->a[0]); addPc(s, c->a[1]); s.pcSet.insert(c); return; }
  s.pc.push_back(c); }
static int known(State &s, E c) { if (isC(c)) return c->c ? 1 : 0; if (s.pcSet.count(c)) return 1; if (s.pcSet.count(mkNot(c))) return 0;
  if (c->op == AND) { int a = known(s, c->a[0]), b = known(s, c->a[1]); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
  if (c->op == OR) { int a = known(s, c->a[0]), b = known(s, c->a[1]); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
  return -1; }
static bool witnessOk(State &s) { for (E c : s.pc) if (!evalW(s, c)) return false; return true; }
static void applyModel(State &s, const Model &m) { for (auto &k : m.as.v) s.as.v[k.first] = k.second; for (auto &k : m.as.arr) s.as.arr[k.first] = k.second; s.asVer = ++verCtr; s.wit = true; if (S->opt.relaxed || !m.as.arr.empty()) s.wit = witnessOk(s); }
static Res query(State &s, E cond, Model *m) {
  Res r = S->check(s.pc, cond, m); return r; }
static void inconclusive(const string &w) { incompl[w]++; }
static string where(State &s);

// table objects: sorted uninterpreted tables (arr < 1000) and step tables (values[k] for thresholds[k-1] <= index < thresholds[k])
struct StepTab { vector<E> thr, val; }; static vector<StepTab> stepTabs;
static E tabRead(int arr, E idx, unsigned w) { if (arr < 1000) return mkSelect(arr, idx, w); StepTab &t = stepTabs[arr - 1000]; E r = t.val.back(); for (size_t k = t.thr.size(); k-- > 0;) r = mkIte(mkBin(ULT, idx, t.thr[k]), t.val[k], r); return r; }
// local search for a concrete witness of cond under pc, from the current assignment (relaxed mode)
static bool localSearch(State &s, E cond, double budget) {
  vector<E> cs; std::unordered_set<uint32_t> vs(varsOf(cond).begin(), varsOf(cond).end()); vector<char> used(s.pc.size(), 0); cs.push_back(cond); bool ch = true;
  for (size_t i = 0; i < s.pc.size(); i++) if (!evalW(s, s.pc[i])) { used[i] = 1; cs.push_back(s.pc[i]); for (auto x : varsOf(s.pc[i])) vs.insert(x); }
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { auto &v = varsOf(s.pc[i]); bool hit = false; for (auto x : v) if (vs.count(x)) hit = true; if (hit) { used[i] = 1; cs.push_back(s.pc[i]); for (auto x : v) if (vs.insert(x).second) ch = true; } } }
  vector<unsigned> ids; for (auto x : vs) if (!(x & 0x80000000u)) ids.push_back(x); std::sort(ids.begin(), ids.end());
  Assignment base = s.as, as = base; double t0 = now(); int bestScore = -1; Assignment best = base;
  auto score = [&](const Assignment &a) { Evaluator ev(a); int n = 0; for (E c : cs) n += ev.eval(c) ? 1 : 0; if (ev.eval(cond)) n += 2; return n; };
  int full = (int)cs.size() + 2; bestScore = score(base);
  if (bestScore == full) { s.as = base; s.asVer = ++verCtr; s.wit = true; return true; }
  auto val = [&](unsigned id) -> u128 { auto it = best.v.find(id); return it == best.v.end() ? 0 : it->second; };
  auto rnd = [&](unsigned id) -> u128 { VarInfo &vi = gVars[id]; unsigned w = vi.w; u128 old = val(id);
    if (vi.isfp || w == 32 || w == 64) { double d; if (w == 32) { float f; uint32_t u = (uint32_t)old; memcpy(&f, &u, 4); d = f; } else { u64 u = (u64)old; memcpy(&d, &u, 8); }
      int k = rng() % 10; if (k < 4) return (old + (rng() % 17) - 8) & maskw(w); if (k < 5) return (old + (int64_t)(rng() % 4097) - 2048) & maskw(w);
      if (k < 6) d = d * (0.5 + (rng() % 1000) / 1000.0); else if (k < 7) { double lo = vi.fmin > 0 ? log2(vi.fmin) : -126, hi = vi.fmax > 0 ? log2(vi.fmax) : 127; d = ldexp(1 + (rng() % 100000) / 100000.0, 0) * exp2(lo + (hi - lo) * ((rng() % 10001) / 10001.0)); if (!vi.nonneg && rng() % 2) d = -d; }
      else if (k < 8 && !ids.empty()) { unsigned o = ids[rng() % ids.size()]; if (gVars[o].w == w) return val(o); } else if (k < 9) d = (double)(int)(rng() % 9) - 4; else d = -d;
      if (vi.isfp) { if (vi.fmax > 0 && std::fabs(d) > vi.fmax) d = d > 0 ? vi.fmax : -vi.fmax; if (vi.fmin > 0 && std::fabs(d) < vi.fmin && d != 0) d = vi.fmin; if (vi.nonneg) d = std::fabs(d); }
      if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } u64 u; memcpy(&u, &d, 8); return u; }
    int k = rng() % 4; if (k == 0) return rng() & maskw(w); if (k == 1) return rng() % 8; return (old + (rng() % 5) - 2) & maskw(w); };
  if (ids.empty()) return false;
  u64 it = 0; while (now() - t0 < budget) { it++; as = best; int nch = 1 + rng() % 3; for (int i = 0; i < nch; i++) { unsigned id = ids[rng() % ids.size()]; as.v[id] = rnd(id); }
    int sc = score(as); if (sc == full) { s.as = as; s.asVer = ++verCtr; s.wit = true; return true; } if (sc >= bestScore) { bestScore = sc; best = as; } else if (rng() % 200 == 0) { best = base; bestScore = score(base); } }
  return false;
}

static string jstr(const string &s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static string hex128(u128 v) { char b[40]; if (v >> 64) snprintf(b, 40, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 40, "0x%llx", (unsigned long long)v); return b; }
static string dumpInputs(State &s, bool logs) {
  string r; char buf[256];
  for (auto &i : s.inputs) {
    if (i.arr >= 0) { snprintf(buf, 256, "a %s %u %llu", i.name.c_str(), i.w, (unsigned long long)i.arrN); r += buf; for (u64 k = 0; k < i.arrN; k++) { u128 v = evalW(s, tabRead(i.arr, mkConst(k, 64), i.w)); r += " " + hex128(v); } r += "\n"; continue; }
    u128 v = i.e ? evalW(s, i.e) : (u128)i.c; r += string(1, i.kind) + " " + i.name + " " + std::to_string(i.w) + " " + hex128(v);
    if (gVars.size() && i.e && i.e->op == VAR && gVars[(unsigned)i.e->c].isfp) { double d; if (i.w == 32) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); d = f; } else { u64 u = (u64)v; memcpy(&d, &u, 8); } snprintf(buf, 256, " # %.9g", d); r += buf; }
    r += "\n"; }
  if (logs) for (auto &l : s.logs) {  // logs that depend on uninitialised data are not comparable
    bool un = false; for (auto v : varsOf(l.e)) if (!(v & 0x80000000u) && gVars[v].name.compare(0, 3, "un!") == 0) un = true;
    r += "l " + l.name + " " + std::to_string(l.e->w) + " " + (un ? string("?") : hex128(evalW(s, l.e))) + "\n"; }
  return r;
}
static string locOf(const Instruction *I) {
  string r; if (auto dl = I->getDebugLoc()) { DILocation *l = dl.get(); if (auto *sc = l->getScope()) { if (auto *sp = sc->getSubprogram()) r = demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()); r += " " + l->getFilename().str() + ":" + std::to_string(l->getLine()); } }
  else r = demangle(I->getFunction()->getName().str()); return r; }
static string where(State &s) {
  string r; auto &t = s.th[s.cur]; int k = 0;
  for (int i = (int)t.st.size() - 1; i >= 0 && k < 6; i--) { auto &f = t.st[i]; if (f.bb < (int)f.f->bb.size() && f.ip < (int)f.f->bb[f.bb].size()) { string l = locOf(f.f->bb[f.bb][f.ip].I); if (k++) r += " <- "; r += l; } }
  return r; }
static void report(State &s, const string &kind, const string &msg) {
  auto &t = s.th[s.cur]; string key = kind + "|" + msg; if (!t.st.empty() && kind != "assert") { auto &f = t.st.back(); if (f.ip < (int)f.f->bb[f.bb].size()) key += "|" + locOf(f.f->bb[f.bb][f.ip].I); }
  string wh = where(s); if (O.verbose) fprintf(stderr, "VIOLATION %s: %s at %s%s\n", kind.c_str(), msg.c_str(), wh.c_str(), s.wit ? "" : " (no concrete witness)");
  if (!s.wit) { inconclusive("possible violation without concrete witness: " + kind + ": " + msg); return; }
  static std::map<string, int> cnt; if (cnt[key]++ >= 3 || vios.size() >= O.maxVio) return;
  string fn = O.out + "/ce" + std::to_string(vios.size()) + ".txt"; std::ofstream o(fn); o << "entry " << O.entry << "\npreempt " << O.preempt << "\nspurious " << O.spurious << "\nkind " << kind << "\nmsg " << msg << "\nwhere " << wh << "\n" << dumpInputs(s, true);
  vios.push_back({kind, msg, wh, fn});
}

// decide the truth of a 1-bit expression in state s; forks when both are possible
static bool decide(State &s, E c) {
  int k = known(s, c); if (k >= 0) return k;
  if (O.lazy && nonlinear(c)) {   // both sides explored without asking the solver; infeasible ones only make the result weaker
    bool side = s.wit ? evalW(s, c) & 1 : true; State *n = cloneState(s); addPc(*n, side ? mkNot(c) : c); n->wit = false; work.push_back(n); addPc(s, side ? c : mkNot(c)); return side; }
  if (s.wit) {
    bool side = evalW(s, c) & 1; E lit = side ? c : mkNot(c), oth = side ? mkNot(c) : c; Model m; Res r = query(s, oth, &m);
    if (r == UNSAT) { s.pcSet.insert(lit); return side; }
    State *n = cloneState(s); addPc(*n, oth); if (r == SAT) applyModel(*n, m); else { n->wit = false; inconclusive("branch feasibility unknown (both sides explored)"); }
    work.push_back(n); addPc(s, lit); return side; }
  Model mt, mf; Res rt = query(s, c, &mt), rf = query(s, mkNot(c), &mf);
  if (rt == UNSAT && rf == UNSAT) { nKilled++; throw PathEnd{"infeasible"}; }
  if (rt == UNSAT || rf == UNSAT) { bool side = rf == UNSAT; Res r = side ? rt : rf; if (r == SAT) { applyModel(s, side ? mt : mf); } s.pcSet.insert(side ? c : mkNot(c)); return side; }
  State *n = cloneState(s); addPc(*n, mkNot(c)); if (rf == SAT) applyModel(*n, mf); work.push_back(n);
  addPc(s, c); if (rt == SAT) applyModel(s, mt); return true;
}
// is c determined by the path condition? (short solver query; -1: no, or not known)
static int determined(State &s, E c) {
  bool side = evalW(s, c) & 1; E lit = side ? c : mkNot(c); unsigned t = S->opt.timeoutMs, fb = S->opt.fallbackMs; S->opt.timeoutMs = std::min(t, 700u); S->opt.fallbackMs = 0;
  Res r = query(s, mkNot(lit), nullptr); S->opt.timeoutMs = t; S->opt.fallbackMs = fb; if (r != UNSAT) { if (forkDbg) fprintf(stderr, "UNDET %s %s\n", where(s).substr(0, 150).c_str(), str(c, 6).substr(0, 300).c_str()); return -1; } s.pcSet.insert(lit); return side; }
// may cond hold? (no forking)
static bool mayHold(State &s, E c, Model *m) {
  int k = known(s, c); if (k == 0) return false; if (k == 1) { return true; }
  if (s.wit && evalW(s, c)) return true;
  Res r = query(s, c, m); return r != UNSAT; }
static void doAssume(State &s, E c) {
  int k = known(s, c); if (k == 1) return; if (k == 0) { nKilled++; throw PathEnd{"assume"}; }
  if (s.wit && evalW(s, c)) { addPc(s, c); return; }
  Model m; Res r = query(s, c, &m); if (r == UNSAT) { nKilled++; throw PathEnd{"assume"}; }
  addPc(s, c); if (r == SAT) applyModel(s, m); else { s.wit = false; }
  if (!s.wit && S->opt.relaxed) localSearch(s, c, 0.3);
}
static void doAssert(State &s, E c, const string &msg, const string &kind = "assert") {
  nAsserts++; assertCount[msg]++; int k = known(s, c); if (k == 1) return;
  E nc = mkNot(c); S->st.assertQueries++;
  if (k == 0) { report(s, kind, msg); throw PathEnd{"violated"}; }
  if (s.wit && !evalW(s, c)) { State *v = cloneState(s); nForks--; addPc(*v, nc); report(*v, kind, msg); delete v; }
  else {
    Model m; Res r = query(s, nc, &m);
    if (r == UNSAT) { s.pcSet.insert(c); return; }
    State *v = cloneState(s); nForks--; addPc(*v, nc);
    if (r == SAT) { applyModel(*v, m); if (!v->wit) localSearch(*v, nc, O.ceSearch); }
    else { if (!localSearch(*v, nc, O.ceSearch)) { v->wit = false; } }
    if (r == UNKNOWN && !v->wit) inconclusive("assertion not decided by the solver: " + msg);
    else report(*v, kind, msg);
    delete v; if (r == UNKNOWN) { return; }
  }
  Model m2; if (s.wit && evalW(s, c)) { addPc(s, c); return; }
  Res r2 = query(s, c, &m2); if (r2 == UNSAT) throw PathEnd{"violated"}; addPc(s, c); if (r2 == SAT) applyModel(s, m2); else s.wit = false;
}

// ------------------------------------------------------------------ registers
static inline Val &reg(Frame &f, int i) { return f.r[i]; }
static inline const Val &getv(Frame &f, const Opnd &o) { return o.slot >= 0 ? f.r[o.slot] : o.k; }
static inline E gete(Frame &f, const Opnd &o, unsigned w) { return toE(getv(f, o), w); }

// ------------------------------------------------------------------ memory
static bool inMerge = false;   // evaluating a merged region: abort instead of forking or reporting
static void memViolation(State &s, const string &what) { if (inMerge) throw MergeAbort{}; report(s, "memory", what); throw PathEnd{"violated"}; }
static void ensureSym(Obj *o) { if (o->s.empty()) o->s.resize(o->size); }
static bool multi(State &s) { return s.th.size() > 1; }
static void raceCheck(State &s, Obj *ro, u64 off, u64 n, bool write) {
  if (!ro->shared || ro->kind == Obj::FUNC) return; auto &t = s.th[s.cur]; int me = s.cur;
  Obj *o = s.mem.mut(ro->id); if (o->race.empty()) o->race.resize(o->size);
  for (u64 i = off; i < off + n; i++) { RaceCell &c = o->race[i];
    if (c.wt != 255 && (int)c.wt != me && c.wc > t.vc[c.wt]) { report(s, "race", string("data race: ") + (write ? "write" : "read") + " after unsynchronised write to " + o->name); throw PathEnd{"violated"}; }
    if (write) { for (int j = 0; j < (int)s.th.size() && j < 24; j++) if (j != me && c.rc[j] > t.vc[j]) { report(s, "race", "data race: write after unsynchronised read of " + o->name); throw PathEnd{"violated"}; } c.wt = me; c.wc = t.vc[me]; }
    else c.rc[me] = t.vc[me]; } }
static Obj *findObj(State &s, u64 addr, u64 n, u64 &off, bool write, bool check = true) {
  u64 id; int64_t o; if (!objOf(addr, id, o)) { if (check) memViolation(s, addr < 4096 ? "null pointer access" : "access through invalid pointer"); return nullptr; }
  Obj *ob = s.mem.get(id);
  if (!ob || ob->kind == Obj::FUNC) { if (check) memViolation(s, "access through invalid pointer"); return nullptr; }
  if (!ob->alive) { if (check) memViolation(s, "use after free of " + ob->name); return nullptr; }
  if (o < 0 || (u64)o + n > ob->size) { if (check) memViolation(s, string("out-of-bounds ") + (write ? "write to " : "read of ") + (ob->kind == Obj::HEAP ? "heap block" : ob->kind == Obj::STACK ? "stack object" : "global") ); return nullptr; }
  if (write && ob->ro) { if (check) memViolation(s, "write to constant " + ob->name); return nullptr; }
  off = o; return ob; }
static E freshUninit(State &s, unsigned w) { static u64 n = 0; return newVar(s, "un!" + std::to_string(n++), w, false, 0); }
// raw load of n bytes as a w-bit value from a known object/offset
static Val loadAt(State &s, Obj *ob, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (ob->s.empty()) { u128 v = 0; memcpy(&v, &ob->b[off], n); return mkV(v, w); }
  const SymByte *sb = &ob->s[off]; bool any = false, allUn = true; for (unsigned i = 0; i < n; i++) { if (sb[i].e) any = true; if (sb[i].e != UNINIT) allUn = false; }
  if (!any) { u128 v = 0; memcpy(&v, &ob->b[off], n); return mkV(v, w); }
  if (allUn) { E f = freshUninit(s, n * 8); Obj *m = s.mem.mut(ob->id); for (unsigned i = 0; i < n; i++) m->s[off + i] = SymByte{f, i}; return fromE(mkExtract(f, 0, w)); }
  E e0 = sb[0].e; if (e0 && e0 != UNINIT && sb[0].idx == 0) { bool same = true; for (unsigned i = 1; i < n; i++) if (sb[i].e != e0 || sb[i].idx != i) same = false; if (same) { if (e0->w >= w) return fromE(e0->w == w ? e0 : mkExtract(e0, 0, w)); } }
  E r = nullptr; for (unsigned i = 0; i < n;) {  // group maximal runs
    unsigned j = i; E part; const SymByte &x = ob->s[off + i];
    if (!x.e) { u128 v = 0; while (j < n && !ob->s[off + j].e) { v |= (u128)ob->b[off + j] << (8 * (j - i)); j++; } part = mkConst(v, 8 * (j - i)); }
    else if (x.e == UNINIT) { part = freshUninit(s, 8); Obj *m = s.mem.mut(ob->id); m->s[off + i] = SymByte{part, 0}; ob = m; j = i + 1; }
    else { E e = x.e; unsigned k0 = x.idx; while (j < n && ob->s[off + j].e == e && ob->s[off + j].idx == k0 + (j - i)) j++; unsigned lo = 8 * k0, ww = std::min<unsigned>(8 * (j - i), e->w - lo); part = mkExtract(e, lo, ww); if (ww < 8 * (j - i)) part = mkZext(part, 8 * (j - i)); }
    r = r ? mkConcat(part, r) : part; i = j; }
  return fromE(r->w > w ? mkExtract(r, 0, w) : r);
}
static void storeAt(State &s, Obj *ro, u64 off, const Val &v, unsigned w) {
  Obj *ob = s.mem.mut(ro->id); unsigned n = (w + 7) / 8;
  if (!v.e || isC(v.e)) { u128 c = v.e ? v.e->c : v.c; memcpy(&ob->b[off], &c, n); if (!ob->s.empty()) for (unsigned i = 0; i < n; i++) ob->s[off + i].e = nullptr; return; }
  ensureSym(ob); E e = v.e; if (w & 7) e = mkZext(e, n * 8);
  if (isC(e)) { u128 c = e->c; memcpy(&ob->b[off], &c, n); for (unsigned i = 0; i < n; i++) ob->s[off + i].e = nullptr; return; }
  for (unsigned i = 0; i < n; i++) ob->s[off + i] = SymByte{e, i}; }
static Val iteVal(E c, const Val &a, const Val &b, unsigned w) { return fromE(mkIte(c, toE(a, w), toE(b, w))); }
static Val loadScalar(State &s, const Val &addr, unsigned w, E guard);
static void collectLeaves(E e, E g, vector<std::pair<u64, E>> &out) { std::function<void(E, E)> go = [&](E x, E gg) { if (x->op == ITE) { go(x->a[1], mkAnd(gg, x->a[0])); go(x->a[2], mkAnd(gg, mkNot(x->a[0]))); } else out.push_back({(u64)x->c, gg}); }; go(e, g); }
// resolve a symbolic address to a single object; forks when it may point elsewhere. returns object and 64-bit offset expression
static Obj *resolve(State &s, E addr, unsigned n, bool write, E &offE, E guard) {
  if (!s.wit) { // need a concrete candidate
    Model m; Res r = query(s, mkBool(true), &m); (void)r; if (!localSearch(s, mkBool(true), 0.3)) { inconclusive("symbolic address without a concrete witness"); throw PathEnd{"incomplete"}; } }
  bool gw = !guard || evalW(s, guard); u64 a = (u64)evalW(s, addr);
  if (!gw) { Model m; if (known(s, guard) == 0) return nullptr; Res r = query(s, guard, &m); if (r == UNSAT) return nullptr; if (r != SAT) throw MergeAbort{};
    Assignment t = s.as; for (auto &k : m.as.v) t.v[k.first] = k.second; for (auto &k : m.as.arr) t.arr[k.first] = k.second; Evaluator ev(t); if (!ev.eval(guard)) throw MergeAbort{}; a = (u64)ev.eval(addr); }
  u64 off; Obj *ob = nullptr;
  { u64 id; int64_t o; bool arr = false; if (objOf(a, id, o)) { Obj *q = s.mem.get(id); if (q && q->alive && q->arr >= 0) { arr = true; if (o < 0) memViolation(s, "out-of-bounds access to table"); E offx = mkBin(SUB, addr, mkConst(objAddr(id), 64)); E sz = q->symSize ? q->symSize : mkConst(q->size, 64); E ok = mkAnd(mkBin(ULE, mkConst(n, 64), sz), mkBin(ULE, offx, mkBin(SUB, sz, mkConst(n, 64)))); E bad = mkNot(ok); if (guard) bad = mkAnd(guard, bad);
        int k = known(s, bad); if (k != 0) { Model m; Res r = (k == 1 || (s.wit && evalW(s, bad))) ? SAT : query(s, bad, &m); if (r != UNSAT) { if (inMerge) throw MergeAbort{}; State *v = cloneState(s); nForks--; addPc(*v, bad); if (r == SAT && !(s.wit && evalW(s, bad))) applyModel(*v, m); if (r == UNKNOWN) v->wit = false; report(*v, "memory", "out-of-bounds read of table"); delete v; doAssume(s, ok); } else s.pcSet.insert(ok); }
        offE = offx; return q; } } if (arr) return nullptr; }
  ob = findObj(s, a, n, off, write);
  E rel = mkBin(SUB, addr, mkConst(objAddr(ob->id), 64)); E in = mkBin(ULE, rel, mkConst(ob->size - n, 64));
  int k = known(s, in); if (k != 1) {
    E out = mkNot(in); if (guard) out = mkAnd(guard, out); Model m; Res r = query(s, out, &m);
    if (r != UNSAT) { if (inMerge) throw MergeAbort{}; State *nst = cloneState(s); addPc(*nst, mkNot(in)); if (r == SAT) applyModel(*nst, m); else { nst->wit = false; } work.push_back(nst); addPc(s, in); }
    else if (!guard) s.pcSet.insert(in); }
  offE = rel; return ob; }
static void candidates(E off, u64 size, unsigned n, vector<u64> &c) {
  unsigned z = std::min(knownZeroLow(off), 12u); u64 step = 1ull << z; u128 ub = umaxBound(off); for (u64 k = 0; k + n <= size && k <= ub; k += step) c.push_back(k); }
static Val concretise(State &s, E e);
static Val loadScalar(State &s, const Val &addr, unsigned w, E guard) {
  unsigned n = (w + 7) / 8;
  if (!addr.e) {
    u64 off; Obj *ob;
    if (guard) { ob = findObj(s, addr.c, n, off, false, false); if (!ob) { Model m; if (known(s, guard) != 0 && query(s, guard, &m) != UNSAT) throw MergeAbort{}; return Val(0).c ? Val() : mkV(0, w); } }
    else ob = findObj(s, addr.c, n, off, false);
    if (ob->arr >= 0) { E idx = mkConst(off / (ob->arrW / 8), 64); E oo; resolve(s, mkConst(addr.c, 64), n, false, oo, guard); if (w != ob->arrW || off % (ob->arrW / 8)) throw Unsupported{"table access"}; return fromE(tabRead(ob->arr, idx, w)); }
    if (multi(s)) raceCheck(s, ob, off, n, false);
    return loadAt(s, ob, off, w); }
  E a = addr.e;
  if (a->op == ITE) {
    if ((a->flags & 1) && a->nleaves <= 70000) {
      // all leaves are constants: read each distinct address once
      std::unordered_map<E, E> memo; std::function<E(E, E)> go = [&](E x, E g) -> E {
        if (x->op == ITE) { auto it = memo.find(x); if (it != memo.end()) return it->second; E g1 = a->nleaves > 64 ? guard : (g ? mkAnd(g, x->a[0]) : x->a[0]), g2 = a->nleaves > 64 ? guard : (g ? mkAnd(g, mkNot(x->a[0])) : mkNot(x->a[0])); E r = mkIte(x->a[0], go(x->a[1], g1), go(x->a[2], g2)); memo[x] = r; return r; }
        u64 off; Obj *ob = findObj(s, (u64)x->c, n, off, false, false);
        if (!ob) { E bad = mkBin(EQ, a, x); if (guard) bad = mkAnd(guard, bad); Model m; int k = known(s, bad); if (k == 0) return mkConst(0, w); Res r = (s.wit && evalW(s, bad)) ? SAT : query(s, bad, &m); if (r == UNSAT) return mkConst(0, w); if (inMerge) throw MergeAbort{};
          State *v = cloneState(s); nForks--; addPc(*v, bad); if (!(s.wit && evalW(s, bad))) { if (r == SAT) applyModel(*v, m); else v->wit = false; } try { findObj(*v, (u64)x->c, n, off, false); } catch (PathEnd &) {} delete v; doAssume(s, mkNot(bad)); return mkConst(0, w); }
        if (ob->arr >= 0) return tabRead(ob->arr, mkConst(off / (ob->arrW / 8), 64), w);
        return toE(loadAt(s, ob, off, w), w); };
      return fromE(go(a, guard)); }
    E c = a->a[0]; int k = known(s, c); if (k >= 0) return loadScalar(s, fromE(a->a[k ? 1 : 2]), w, guard);
    if (!inMerge && !guard) { // split on the selector: keeps each side's address simple
      bool sd = decide(s, c); return loadScalar(s, fromE(a->a[sd ? 1 : 2]), w, guard); }
    Val x = loadScalar(s, fromE(a->a[1]), w, guard ? mkAnd(guard, c) : c), y = loadScalar(s, fromE(a->a[2]), w, guard ? mkAnd(guard, mkNot(c)) : mkNot(c)); return iteVal(c, x, y, w); }
  E off; Obj *ob = resolve(s, a, n, false, off, guard); if (!ob) return mkV(0, w);
  if (ob->arr >= 0) { if (w != ob->arrW || knownZeroLow(off) < (unsigned)__builtin_ctz(ob->arrW / 8)) throw Unsupported{"table access"}; return fromE(tabRead(ob->arr, mkBin(LSHR, off, mkConst(__builtin_ctz(ob->arrW / 8), 64)), w)); }
  if (multi(s)) { Val c = concretise(s, a); return loadScalar(s, c, w, guard); }
  vector<u64> cs; candidates(off, ob->size, n, cs);
  if (cs.size() > 5000) { Val c = concretise(s, a); return loadScalar(s, c, w, guard); }
  vector<E> vals; u64 id = ob->id; for (u64 k : cs) { vals.push_back(toE(loadAt(s, s.mem.get(id), k, w), w)); }
  std::function<E(size_t, size_t)> build = [&](size_t lo, size_t hi) -> E { if (lo + 1 == hi) return vals[lo]; bool same = true; for (size_t i = lo + 1; i < hi && same; i++) if (vals[i] != vals[lo]) same = false; if (same) return vals[lo]; size_t mid = (lo + hi) / 2; return mkIte(mkBin(ULT, off, mkConst(cs[mid], 64)), build(lo, mid), build(mid, hi)); };
  return fromE(build(0, vals.size())); }
static void storeScalar(State &s, const Val &addr, const Val &v, unsigned w, E guard) {
  unsigned n = (w + 7) / 8;
  if (!addr.e) {
    u64 off; Obj *ob;
    if (guard) { ob = findObj(s, addr.c, n, off, true, false); if (!ob) { Model m; if (known(s, guard) != 0 && query(s, guard, &m) != UNSAT) throw MergeAbort{}; return; }
      Val old = loadAt(s, ob, off, w); storeAt(s, s.mem.get(ob->id), off, iteVal(guard, v, old, w), w); return; }
    ob = findObj(s, addr.c, n, off, true); if (ob->arr >= 0) throw Unsupported{"store to table"}; if (multi(s)) raceCheck(s, ob, off, n, true);
    storeAt(s, s.mem.get(ob->id), off, v, w); return; }
  E a = addr.e;
  if (a->op == ITE) { E c = a->a[0]; int k = known(s, c); if (k >= 0) { storeScalar(s, fromE(a->a[k ? 1 : 2]), v, w, guard); return; }
    if (!inMerge && !guard) { bool sd = decide(s, c); storeScalar(s, fromE(a->a[sd ? 1 : 2]), v, w, guard); return; }
    storeScalar(s, fromE(a->a[1]), v, w, guard ? mkAnd(guard, c) : c); storeScalar(s, fromE(a->a[2]), v, w, guard ? mkAnd(guard, mkNot(c)) : mkNot(c)); return; }
  E off; Obj *ob = resolve(s, a, n, true, off, guard); if (!ob) return; if (ob->arr >= 0) throw Unsupported{"store to table"};
  if (multi(s)) { Val c = concretise(s, a); storeScalar(s, c, v, w, guard); return; }
  vector<u64> cs; candidates(off, ob->size, n, cs); if (cs.size() > 600) { Val c = concretise(s, a); storeScalar(s, c, v, w, guard); return; }
  u64 id = ob->id; for (u64 k : cs) { E g = mkBin(EQ, off, mkConst(k, 64)); if (guard) g = mkAnd(guard, g); if (isFalse(g)) continue; Val old = loadAt(s, s.mem.get(id), k, w); storeAt(s, s.mem.get(id), k, iteVal(g, v, old, w), w); } }
static Val loadVal(State &s, const Val &addr, Type *t, E guard) {
  if (!isAggTy(t)) return loadScalar(s, addr, wOf(t), guard);
  vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) { Val a = addr.e ? fromE(mkBin(ADD, addr.e, mkConst(aggOff(t, i), 64))) : Val(addr.c + aggOff(t, i)); v.push_back(loadVal(s, a, aggT(t, i), guard)); } return mkAgg(v); }
static void storeVal(State &s, const Val &addr, const Val &v, Type *t, E guard) {
  if (!isAggTy(t)) { storeScalar(s, addr, v, wOf(t), guard); return; }
  for (unsigned i = 0; i < aggN(t); i++) { Val a = addr.e ? fromE(mkBin(ADD, addr.e, mkConst(aggOff(t, i), 64))) : Val(addr.c + aggOff(t, i)); storeVal(s, a, v.agg->v[i], aggT(t, i), guard); } }
// pick one concrete value for e, forking the other possibilities off
static Val concretise(State &s, E e) {
  if (isC(e)) return fromE(e); if (inMerge) throw MergeAbort{};
  if (!s.wit) { Model m; if (query(s, mkBool(true), &m) == SAT) applyModel(s, m); if (!s.wit && !localSearch(s, mkBool(true), 0.3)) { inconclusive("value without a concrete witness"); throw PathEnd{"incomplete"}; } }
  u128 v = evalW(s, e); E k = mkConst(v, e->w); bool r = decide(s, mkBin(EQ, e, k)); if (!r) throw PathEnd{"concretise"}; return fromE(k); }
static u64 conc(State &s, const Val &v, unsigned w = 64) { if (!v.e) return v.c; return concretise(s, v.e).c; }

static u64 allocObj(State &s, u64 size, Obj::Kind k, const string &name, bool uninit) {
  Obj *o = s.mem.alloc(size, k); o->name = name; o->b.resize(size); if (uninit) { o->s.resize(size); for (auto &x : o->s) x.e = UNINIT; } return objAddr(o->id); }
static u64 heapLive(State &s) { u64 n = 0; for (u64 i = 1; i < s.mem.n; i++) { Obj *o = s.mem.get(i); if (o && o->kind == Obj::HEAP && o->alive) n++; } return n; }
static void freeObj(State &s, u64 addr, int fn) {
  if (!addr) return; u64 id; int64_t off; if (!objOf(addr, id, off)) { report(s, "memory", "free of invalid pointer"); throw PathEnd{"violated"}; }
  Obj *o = s.mem.get(id); if (!o || o->kind != Obj::HEAP || off != 0) { report(s, "memory", "free of non-heap or interior pointer"); throw PathEnd{"violated"}; }
  if (!o->alive) { report(s, "memory", "double free"); throw PathEnd{"violated"}; }
  if (o->allocFn != fn) { report(s, "memory", "mismatched allocation and release functions"); throw PathEnd{"violated"}; }
  if (multi(s) && o->size) raceCheck(s, o, 0, o->size, true);
  o = s.mem.mut(id); o->alive = false; if (o->arr < 0) { o->b.clear(); o->b.shrink_to_fit(); o->s.clear(); o->s.shrink_to_fit(); o->race.clear(); } }
static void copyMem(State &s, u64 d, u64 sr, u64 n) {
  if (!n) return; u64 so, dof; Obj *a = findObj(s, sr, n, so, false); if (a->arr >= 0) throw Unsupported{"copy of table"}; Obj *b = findObj(s, d, n, dof, true); if (multi(s)) { raceCheck(s, a, so, n, false); raceCheck(s, b, dof, n, true); a = s.mem.get(a->id); }
  u64 bid = b->id; ObjP keep(a); // keeps the source alive while the destination may be copied
  b = s.mem.mut(bid); if (keep.p->id == bid) a = b; else a = keep.p;
  memmove(&b->b[dof], &a->b[so], n);
  if (a->s.empty()) { if (!b->s.empty()) for (u64 i = 0; i < n; i++) b->s[dof + i].e = nullptr; }
  else { ensureSym(b); if (a == b) { vector<SymByte> t(a->s.begin() + so, a->s.begin() + so + n); std::copy(t.begin(), t.end(), b->s.begin() + dof); } else std::copy(a->s.begin() + so, a->s.begin() + so + n, b->s.begin() + dof); } }
static void setMem(State &s, u64 d, const Val &v, u64 n) {
  if (!n) return; u64 dof; Obj *b = findObj(s, d, n, dof, true); if (multi(s)) raceCheck(s, b, dof, n, true); b = s.mem.mut(b->id);
  if (!v.e) { memset(&b->b[dof], (int)v.c, n); if (!b->s.empty()) for (u64 i = 0; i < n; i++) b->s[dof + i].e = nullptr; }
  else { ensureSym(b); for (u64 i = 0; i < n; i++) b->s[dof + i] = SymByte{v.e, 0}; } }
static string cstr(State &s, u64 a) { string r; for (;;) { u64 off; Obj *o = findObj(s, a, 1, off, false); Val v = loadAt(s, o, off, 8); u64 c = conc(s, v, 8); if (!c) return r; r += (char)c; a++; if (r.size() > 100000) throw Unsupported{"string"}; } }

// ------------------------------------------------------------------ pure instruction evaluation
static E fpClass(E x, unsigned mask) {
  unsigned w = x->w; u128 infb = w == 32 ? (u128)0x7f800000u : w == 64 ? (u128)0x7ff0000000000000ull : (((u128)0x7fff) << 64 | (u128)1 << 63), minn = w == 32 ? (u128)0x00800000u : (u128)0x0010000000000000ull;
  E ab = mkFun(FABS, x, w), inf = mkConst(infb, w), z = mkConst(0, w), mn = mkConst(minn, w); E r = mkBool(false); E sg = mkExtract(x, w - 1, 1);
  E nan = mkBin(FUNO, x, x), isInf = mkBin(FEQ, ab, inf), zero = mkBin(FEQ, x, z), fin = mkBin(FLT, ab, inf);
  // common whole-class masks first, so that the relaxed encoding sees comparisons only
  auto both = [&](unsigned neg, unsigned pos, E cls) { bool n = mask & neg, p = mask & pos; if (n && p) r = mkOr(r, cls); else if (n) r = mkOr(r, mkAnd(cls, sg)); else if (p) r = mkOr(r, mkAnd(cls, mkNot(sg))); };
  if ((mask & 0x1f8) == 0x1f8) r = mkOr(r, fin);
  else { both(0x8, 0x100, mkAnd(fin, mkNot(mkBin(FLT, ab, mn)))); both(0x10, 0x80, mkAnd(mkBin(FLT, ab, mn), mkNot(zero))); both(0x20, 0x40, zero); }
  both(0x4, 0x200, isInf); if ((mask & 3) == 3) r = mkOr(r, nan); else if (mask & 3) { E q = mkExtract(x, w == 32 ? 22 : 51, 1); r = mkOr(r, mkAnd(nan, (mask & 2) ? q : mkNot(q))); }
  return r; }
static E icmp(unsigned p, E a, E b) {
  switch (p) { case CmpInst::ICMP_EQ: return mkBin(EQ, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(EQ, a, b)); case CmpInst::ICMP_ULT: return mkBin(ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(ULE, a, b); case CmpInst::ICMP_UGT: return mkBin(ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(ULE, b, a);
    case CmpInst::ICMP_SLT: return mkBin(SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(SLE, a, b); case CmpInst::ICMP_SGT: return mkBin(SLT, b, a); default: return mkBin(SLE, b, a); } }
static E fcmp(unsigned p, E a, E b) {
  switch (p) { case CmpInst::FCMP_FALSE: return mkBool(false); case CmpInst::FCMP_TRUE: return mkBool(true); case CmpInst::FCMP_OEQ: return mkBin(FEQ, a, b); case CmpInst::FCMP_OGT: return mkBin(FLT, b, a); case CmpInst::FCMP_OGE: return mkBin(FLE, b, a); case CmpInst::FCMP_OLT: return mkBin(FLT, a, b); case CmpInst::FCMP_OLE: return mkBin(FLE, a, b);
    case CmpInst::FCMP_ONE: return mkAnd(mkNot(mkBin(FUNO, a, b)), mkNot(mkBin(FEQ, a, b))); case CmpInst::FCMP_ORD: return mkNot(mkBin(FUNO, a, b)); case CmpInst::FCMP_UNO: return mkBin(FUNO, a, b); case CmpInst::FCMP_UEQ: return mkOr(mkBin(FUNO, a, b), mkBin(FEQ, a, b));
    case CmpInst::FCMP_UGT: return mkNot(mkBin(FLE, a, b)); case CmpInst::FCMP_UGE: return mkNot(mkBin(FLT, a, b)); case CmpInst::FCMP_ULT: return mkNot(mkBin(FLE, b, a)); case CmpInst::FCMP_ULE: return mkNot(mkBin(FLT, b, a)); default: return mkNot(mkBin(FEQ, a, b)); } }
static void divCheck(State &s, E b, E guard) {
  if (isC(b) && b->c) return; E z = mkBin(EQ, b, mkConst(0, b->w)); if (guard) z = mkAnd(guard, z); int k = known(s, z); if (k == 0) return;
  if (inMerge) { Model m; if (query(s, z, &m) != UNSAT) throw MergeAbort{}; return; }
  doAssert(s, mkNot(z), "integer division by zero", "ub"); }
static Val binop(State &s, unsigned opc, const Val &a, const Val &b, unsigned w, E guard) {
  if (!a.e && !b.e && w <= 64) { u64 m = (u64)maskw(w), x = a.c, y = b.c; int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
    switch (opc) { case Instruction::Add: return Val((x + y) & m); case Instruction::Sub: return Val((x - y) & m); case Instruction::Mul: return Val((x * y) & m); case Instruction::And: return Val(x & y); case Instruction::Or: return Val(x | y); case Instruction::Xor: return Val(x ^ y);
      case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return Val(y >= w ? 0 : x >> y); case Instruction::AShr: return Val((u64)(sx >> (y >= w ? w - 1 : y)) & m);
      case Instruction::UDiv: if (y) return Val(x / y); break; case Instruction::URem: if (y) return Val(x % y); break; case Instruction::SDiv: if (y && !(sy == -1)) return Val((u64)(sx / sy) & m); if (sy == -1) return Val((u64)(-(u64)sx) & m); break; case Instruction::SRem: if (y) return Val(sy == -1 ? 0 : (u64)(sx % sy) & m); break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
        if (w == 32) { float p, q, r; uint32_t u = (uint32_t)x, v = (uint32_t)y; memcpy(&p, &u, 4); memcpy(&q, &v, 4); r = opc == Instruction::FAdd ? p + q : opc == Instruction::FSub ? p - q : opc == Instruction::FMul ? p * q : p / q; memcpy(&u, &r, 4); return Val(u); }
        else { double p, q, r; memcpy(&p, &x, 8); memcpy(&q, &y, 8); r = opc == Instruction::FAdd ? p + q : opc == Instruction::FSub ? p - q : opc == Instruction::FMul ? p * q : p / q; u64 u; memcpy(&u, &r, 8); return Val(u); } } }
  static const std::map<unsigned, Op> mp = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::FAdd, FADD}, {Instruction::FSub, FSUB}, {Instruction::FMul, FMUL}, {Instruction::FDiv, FDIV}};
  auto it = mp.find(opc); if (it == mp.end()) throw Unsupported{"binary operation"}; E y = toE(b, w);
  if (O.resolveSel && (opc == Instruction::FMul || opc == Instruction::FDiv) && (w == 32 || w == 64)) {   // zero times (over) a value known to be positive and finite is that zero
    bool az = !a.e && (a.c << (65 - w)) == 0, bz = opc == Instruction::FMul && !b.e && (b.c << (65 - w)) == 0;
    if (az != bz) { E o = az ? y : toE(a, w); double mx = w == 32 ? 3.4028234663852886e38 : 1.7976931348623157e308; u64 mb; float mf = (float)mx; uint32_t mu; memcpy(&mu, &mf, 4); memcpy(&mb, &mx, 8); E zero = mkConst(0, w), big = mkConst(w == 32 ? mu : mb, w);
      E pos = mkAnd(mkBin(FLT, zero, o), mkBin(FLE, o, big)); if (isC(pos) ? pos->c != 0 : query(s, mkNot(pos), nullptr) == UNSAT) return az ? a : b; } }
  if (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) { divCheck(s, y, guard); if (isC(y) && !y->c) return mkV(0, w); }
  return fromE(mkBin(it->second, toE(a, w), y)); }
static bool constLeaf(const Val &v) { return !v.e || (v.e->op == ITE && (v.e->flags & 1)); }
static bool isFpTy(Type *t) { return t->isFloatingPointTy(); }
static Val castop(unsigned opc, const Val &a, unsigned aw, unsigned w) {
  E x = toE(a, aw);
  switch (opc) { case Instruction::Trunc: if (!a.e) return Val(a.c & (u64)maskw(w)); return fromE(mkExtract(x, 0, w)); case Instruction::ZExt: if (!a.e && w <= 64) return a; return fromE(mkZext(x, w)); case Instruction::SExt: return fromE(mkSext(x, w));
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a; case Instruction::PtrToInt: case Instruction::IntToPtr: return fromE(w <= aw ? mkExtract(x, 0, w) : mkZext(x, w));
    case Instruction::FPExt: return fromE(mkFun(FPEXT, x, w)); case Instruction::FPTrunc: return fromE(mkFun(FPTRUNC, x, w)); case Instruction::SIToFP: return fromE(mkFun(SITOFP, x, w)); case Instruction::UIToFP: return fromE(mkFun(UITOFP, x, w)); case Instruction::FPToSI: return fromE(mkFun(FPTOSI, x, w)); case Instruction::FPToUI: return fromE(mkFun(FPTOUI, x, w)); }
  throw Unsupported{"cast"}; }
static Val elemwise1(const Val &a, Type *t, const std::function<Val(const Val &)> &f) { vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(f(a.agg->v[i])); return mkAgg(v); }
static Val selVal(E c, const Val &a, const Val &b, Type *t) {
  if (isAggTy(t)) { vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(selVal(c, a.agg->v[i], b.agg->v[i], aggT(t, i))); return mkAgg(v); }
  return iteVal(c, a, b, wOf(t)); }
static E ctz(E x, bool lead, unsigned w) { E r = mkConst(w, w); for (unsigned k = 0; k < w; k++) { unsigned bit = lead ? k : w - 1 - k; r = mkIte(mkExtract(x, bit, 1), mkConst(lead ? w - 1 - bit : bit, w), r); } return r; }
// intrinsics without side effects; returns false when not handled
static bool pureIntrinsic(State &s, Frame &f, Inst &d, E guard, Val &out) {
  auto A = [&](unsigned i) { return gete(f, d.o[i], wOf(d.I->getOperand(i)->getType())); };
  if (d.ty->isVectorTy()) {
    Type *et = aggT(d.ty, 0); unsigned w = wOf(et); auto el = [&](unsigned i, unsigned k) { return toE(getv(f, d.o[i]).agg->v[k], w); }; vector<Val> v;
    for (unsigned k = 0; k < aggN(d.ty); k++) switch (d.intr) {
      case Intrinsic::fabs: v.push_back(fromE(mkFun(FABS, el(0, k), w))); break; case Intrinsic::sqrt: v.push_back(fromE(mkFun(FSQRT, el(0, k), w))); break;
      case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { E x = el(0, k), y = el(1, k); bool sg = d.intr == Intrinsic::smax || d.intr == Intrinsic::smin; E lt = mkBin(sg ? SLT : ULT, x, y); bool mx = d.intr == Intrinsic::umax || d.intr == Intrinsic::smax; v.push_back(fromE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y))); break; }
      default: return false; }
    out = mkAgg(v); return true; }
  unsigned w = d.w;
  switch (d.intr) {
    case Intrinsic::fabs: out = fromE(mkFun(FABS, A(0), w)); return true;
    case Intrinsic::sqrt: out = fromE(mkFun(FSQRT, A(0), w)); return true;
    case Intrinsic::round: out = fromE(mkFun(FROUND, A(0), w, 0)); return true; case Intrinsic::floor: out = fromE(mkFun(FROUND, A(0), w, 1)); return true; case Intrinsic::ceil: out = fromE(mkFun(FROUND, A(0), w, 2)); return true; case Intrinsic::trunc: out = fromE(mkFun(FROUND, A(0), w, 3)); return true; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: out = fromE(mkFun(FROUND, A(0), w, 4)); return true;
    case Intrinsic::is_fpclass: out = fromE(fpClass(A(0), (unsigned)getv(f, d.o[1]).c)); return true;
    case Intrinsic::umax: { E x = A(0), y = A(1); out = fromE(mkIte(mkBin(ULT, x, y), y, x)); return true; } case Intrinsic::umin: { E x = A(0), y = A(1); out = fromE(mkIte(mkBin(ULT, x, y), x, y)); return true; }
    case Intrinsic::smax: { E x = A(0), y = A(1); out = fromE(mkIte(mkBin(SLT, x, y), y, x)); return true; } case Intrinsic::smin: { E x = A(0), y = A(1); out = fromE(mkIte(mkBin(SLT, x, y), x, y)); return true; }
    case Intrinsic::abs: { E x = A(0); out = fromE(mkIte(mkBin(SLT, x, mkConst(0, w)), mkBin(SUB, mkConst(0, w), x), x)); return true; }
    case Intrinsic::ctlz: out = fromE(ctz(A(0), true, w)); return true; case Intrinsic::cttz: out = fromE(ctz(A(0), false, w)); return true;
    case Intrinsic::ctpop: { E x = A(0), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(x, i, 1), w)); out = fromE(r); return true; }
    case Intrinsic::bswap: { E x = A(0), r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, 8 * i, 8); r = r ? mkConcat(r, b) : b; } out = fromE(r); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { E x = A(0), y = A(1), z = mkBin(UREM, A(2), mkConst(w, w)); E cc = mkConcat(x, y); E zz = mkZext(z, 2 * w); if (2 * w > 128) throw Unsupported{"fshl"}; E r = d.intr == Intrinsic::fshl ? mkExtract(mkBin(SHL, cc, zz), w, w) : mkExtract(mkBin(LSHR, cc, zz), 0, w); out = fromE(r); return true; }
    case Intrinsic::uadd_sat: { E x = A(0), y = A(1), r = mkBin(ADD, x, y); out = fromE(mkIte(mkBin(ULT, r, x), mkConst(maskw(w), w), r)); return true; }
    case Intrinsic::usub_sat: { E x = A(0), y = A(1); out = fromE(mkIte(mkBin(ULT, x, y), mkConst(0, w), mkBin(SUB, x, y))); return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned aw = d.aw; if (aw > 64) return false; E x = A(0), y = A(1); bool sg = d.intr == Intrinsic::sadd_with_overflow || d.intr == Intrinsic::ssub_with_overflow || d.intr == Intrinsic::smul_with_overflow;
      Op op = (d.intr == Intrinsic::uadd_with_overflow || d.intr == Intrinsic::sadd_with_overflow) ? ADD : (d.intr == Intrinsic::usub_with_overflow || d.intr == Intrinsic::ssub_with_overflow) ? SUB : MUL; unsigned ew = op == MUL ? 2 * aw : aw + 1;
      E xx = sg ? mkSext(x, ew) : mkZext(x, ew), yy = sg ? mkSext(y, ew) : mkZext(y, ew), rr = mkBin(op, xx, yy), r = mkExtract(rr, 0, aw); E ov = mkNot(mkBin(EQ, sg ? mkSext(r, ew) : mkZext(r, ew), rr)); vector<Val> v; v.push_back(fromE(r)); v.push_back(fromE(ov)); out = mkAgg(v); return true; }
    case Intrinsic::copysign: { E x = A(0), y = A(1); u128 m = maskw(w - 1); out = fromE(mkBin(OR, mkBin(AND, x, mkConst(m, w)), mkBin(AND, y, mkConst(~m, w)))); return true; }
    case Intrinsic::maxnum: case Intrinsic::minnum: { E x = A(0), y = A(1); E lt = mkBin(FLT, x, y); E r = d.intr == Intrinsic::maxnum ? mkIte(lt, y, x) : mkIte(mkBin(FLT, y, x), y, x); out = fromE(mkIte(mkBin(FUNO, x, x), y, mkIte(mkBin(FUNO, y, y), x, r))); return true; }
    case Intrinsic::fma: case Intrinsic::fmuladd: { if (d.intr == Intrinsic::fmuladd) { out = fromE(mkBin(FADD, mkBin(FMUL, A(0), A(1)), A(2))); return true; } return false; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: out = getv(f, d.o[0]); return true;
    case Intrinsic::objectsize: out = Val(~0ull); return true; case Intrinsic::is_constant: out = Val(0); return true;
    case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::stackrestore: out = Val(0); return true;
    case Intrinsic::stacksave: out = Val(0); return true;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: { auto &v = getv(f, d.o[0]).agg->v; E r = toE(v[0], w); for (size_t i = 1; i < v.size(); i++) r = mkBin(d.intr == Intrinsic::vector_reduce_add ? ADD : d.intr == Intrinsic::vector_reduce_or ? OR : AND, r, toE(v[i], w)); out = fromE(r); return true; }
  }
  return false; }
// evaluates an instruction that neither branches nor calls; guard is the condition under which it is executed in a merged region
static bool evalPure(State &s, Frame &f, Inst &d, E guard) {
  Val r;
  switch (d.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
      if (d.w) r = binop(s, d.opc, getv(f, d.o[0]), getv(f, d.o[1]), d.w, guard);
      else { const Val &a = getv(f, d.o[0]), &b = getv(f, d.o[1]); vector<Val> v; unsigned w = wOf(aggT(d.ty, 0)); for (unsigned i = 0; i < aggN(d.ty); i++) v.push_back(binop(s, d.opc, a.agg->v[i], b.agg->v[i], w, guard)); r = mkAgg(v); }
      break;
    case Instruction::FNeg: if (d.w) r = fromE(mkFun(FNEG, gete(f, d.o[0], d.w), d.w)); else { unsigned w = wOf(aggT(d.ty, 0)); r = elemwise1(getv(f, d.o[0]), d.ty, [&](const Val &x) { return fromE(mkFun(FNEG, toE(x, w), w)); }); } break;
    case Instruction::ICmp: case Instruction::FCmp: {
      const Val &a = getv(f, d.o[0]), &b = getv(f, d.o[1]);
      if (d.ty->isVectorTy()) { unsigned w = wOf(aggT(d.aty, 0)); vector<Val> v; for (unsigned i = 0; i < aggN(d.ty); i++) v.push_back(fromE(d.opc == Instruction::ICmp ? icmp(d.pred, toE(a.agg->v[i], w), toE(b.agg->v[i], w)) : fcmp(d.pred, toE(a.agg->v[i], w), toE(b.agg->v[i], w)))); r = mkAgg(v); break; }
      if (!a.e && !b.e && d.opc == Instruction::ICmp) { u64 x = a.c, y = b.c; unsigned w = d.aw; int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w); bool t; switch (d.pred) { case CmpInst::ICMP_EQ: t = x == y; break; case CmpInst::ICMP_NE: t = x != y; break; case CmpInst::ICMP_ULT: t = x < y; break; case CmpInst::ICMP_ULE: t = x <= y; break; case CmpInst::ICMP_UGT: t = x > y; break; case CmpInst::ICMP_UGE: t = x >= y; break; case CmpInst::ICMP_SLT: t = sx < sy; break; case CmpInst::ICMP_SLE: t = sx <= sy; break; case CmpInst::ICMP_SGT: t = sx > sy; break; default: t = sx >= sy; } r = Val(t); break; }
      r = fromE(d.opc == Instruction::ICmp ? icmp(d.pred, toE(a, d.aw), toE(b, d.aw)) : fcmp(d.pred, toE(a, d.aw), toE(b, d.aw))); break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
      const Val &a = getv(f, d.o[0]); bool va = isAggTy(d.aty), vd = isAggTy(d.ty);
      if (d.opc == Instruction::BitCast && (va || vd)) {
        if (va && vd && aggN(d.aty) == aggN(d.ty)) { r = a; break; }
        // through a flat integer
        E x; if (va) { unsigned w = wOf(aggT(d.aty, 0)); x = nullptr; for (unsigned i = 0; i < aggN(d.aty); i++) { E e = toE(a.agg->v[i], w); x = x ? mkConcat(e, x) : e; } } else x = toE(a, d.aw);
        if (vd) { unsigned w = wOf(aggT(d.ty, 0)); vector<Val> v; for (unsigned i = 0; i < aggN(d.ty); i++) v.push_back(fromE(mkExtract(x, i * w, w))); r = mkAgg(v); } else r = fromE(x);
        break; }
      if (vd) { unsigned aw = wOf(aggT(d.aty, 0)), w = wOf(aggT(d.ty, 0)); r = elemwise1(a, d.ty, [&](const Val &x) { return castop(d.opc, x, aw, w); }); break; }
      r = castop(d.opc, a, d.aw, d.w); break; }
    case Instruction::Select: {
      const Val &c = getv(f, d.o[0]);
      if (c.agg) { vector<Val> v; unsigned w = wOf(aggT(d.ty, 0)); const Val &a = getv(f, d.o[1]), &b = getv(f, d.o[2]); for (unsigned i = 0; i < aggN(d.ty); i++) v.push_back(iteVal(toE(c.agg->v[i], 1), a.agg->v[i], b.agg->v[i], w)); r = mkAgg(v); break; }
      if (!c.e) { r = getv(f, d.o[c.c ? 1 : 2]); break; }
      int k = known(s, c.e); if (k < 0 && O.resolveSel && !inMerge && isFpTy(d.ty) && s.wit) { k = determined(s, c.e); Val a = getv(f, d.o[1]), b = getv(f, d.o[2]); if (k < 0 && d.w == 64 && constLeaf(a) && constLeaf(b) && (a.e != b.e || a.c != b.c)) k = decide(s, c.e); }
      if (k >= 0) { r = getv(f, d.o[k ? 1 : 2]); break; }
      r = selVal(c.e, getv(f, d.o[1]), getv(f, d.o[2]), d.ty); break; }
    case Instruction::GetElementPtr: {
      Val a = getv(f, d.o[0]); if (d.off) a = a.e ? fromE(mkBin(ADD, a.e, mkConst((u64)d.off, 64))) : Val(a.c + d.off);
      for (size_t i = 0; i < d.gidx.size(); i++) { const Val &x = getv(f, d.o[i + 1]); unsigned w = d.gidx[i].first; int64_t sz = d.gidx[i].second; 
        if (!x.e) { u64 xi = w < 64 ? (u64)((int64_t)(x.c << (64 - w)) >> (64 - w)) : x.c; a = a.e ? fromE(mkBin(ADD, a.e, mkConst(xi * sz, 64))) : Val(a.c + xi * sz); }
        else { E e = mkSext(x.e, 64); if (sz != 1) e = mkBin(MUL, e, mkConst((u64)sz, 64)); a = fromE(mkBin(ADD, toE(a, 64), e)); } }
      r = a; break; }
    case Instruction::Load: r = loadVal(s, getv(f, d.o[0]), d.ty, guard); break;
    case Instruction::Store: storeVal(s, getv(f, d.o[1]), getv(f, d.o[0]), d.aty, guard); return true;
    case Instruction::ExtractValue: { Val a = getv(f, d.o[0]); for (int i : d.phiBB) { Val t = a.agg->v[i]; a = t; } r = a; break; }
    case Instruction::InsertValue: { const Val &a = getv(f, d.o[0]); std::function<Val(const Val &, size_t)> ins = [&](const Val &x, size_t k) -> Val { if (k == d.phiBB.size()) return getv(f, d.o[1]); vector<Val> v = x.agg->v; v[d.phiBB[k]] = ins(x.agg->v[d.phiBB[k]], k + 1); return mkAgg(v); }; r = ins(a, 0); break; }
    case Instruction::ExtractElement: { const Val &a = getv(f, d.o[0]), &i = getv(f, d.o[1]); if (i.e) throw Unsupported{"vector index"}; r = a.agg->v[i.c]; break; }
    case Instruction::InsertElement: { const Val &a = getv(f, d.o[0]), &i = getv(f, d.o[2]); if (i.e) throw Unsupported{"vector index"}; vector<Val> v = a.agg->v; v[i.c] = getv(f, d.o[1]); r = mkAgg(v); break; }
    case Instruction::ShuffleVector: { const Val &a = getv(f, d.o[0]), &b = getv(f, d.o[1]); unsigned n = aggN(d.aty); vector<Val> v; for (int m : d.phiBB) v.push_back(m < 0 ? Val(0) : (unsigned)m < n ? a.agg->v[m] : b.agg->v[m - n]); r = mkAgg(v); break; }
    case Instruction::Freeze: r = getv(f, d.o[0]); break;
    case Instruction::Call: if (d.intr && pureIntrinsic(s, f, d, guard, r)) break; return false;
    default: return false;
  }
  if (d.dst >= 0) f.r[d.dst] = r; return true; }

// ------------------------------------------------------------------ region merging
static bool pureKind(Inst &d) {
  switch (d.opc) {
    case Instruction::Call: switch (d.intr) { case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::round: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::is_fpclass: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::abs: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::copysign: case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::expect: case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::experimental_noalias_scope_decl: return true; default: return false; }
    case Instruction::Invoke: case Instruction::LandingPad: case Instruction::Resume: case Instruction::Ret: case Instruction::Unreachable: case Instruction::Alloca: case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: case Instruction::Fence: case Instruction::VAArg: case Instruction::IndirectBr: case Instruction::CallBr: return false;
    default: return true; } }
static bool mergeable(FuncInfo *f, int b) {
  char &c = f->cand[b]; if (c != 2) return c; c = 0; int j = f->ipdom[b]; if (j <= b) return false; unsigned n = 0;
  vector<char> in(f->bb.size(), 0); vector<int> st; auto succs = [&](int x, vector<int> &o) { Inst &t = f->bb[x].back(); if (t.opc == Instruction::Br) { o.push_back(t.b0); if (t.b1 >= 0) o.push_back(t.b1); } else if (t.opc == Instruction::Switch) { o.push_back(t.b0); for (auto &k : t.cases) o.push_back(k.second); } else o.push_back(-1); };
  vector<int> o; succs(b, o); for (int x : o) st.push_back(x);
  while (!st.empty()) { int x = st.back(); st.pop_back(); if (x < 0) return false; if (x == j) continue; if (x <= b || x > j) return false; if (in[x]) continue; in[x] = 1; if (f->bb[x].back().opc == Instruction::Unreachable) continue; n += f->bb[x].size(); if (n > O.mergeLimit) return false; for (auto &d : f->bb[x]) if (d.opc != Instruction::PHI && !d.I->isTerminator() && !pureKind(d)) return false; o.clear(); succs(x, o); for (int y : o) { if (y != j && y <= x) return false; st.push_back(y); } }
  c = 1; return true; }
// executes everything between block b (whose branch condition is symbolic) and its immediate post-dominator under guards
static bool tryMerge(State &s, Frame &f0, Inst &term) {
  FuncInfo *f = f0.f; int b = f0.bb; if (!O.merge || f->noMerge || multi(s) || f->noMergeCnt[b] > 3 || !mergeable(f, b)) return false;
  int j = f->ipdom[b]; State *snap = new State(s); u64 forks = nForks; bool ok = true; inMerge = true;
  try {
    Frame &f1 = s.th[s.cur].st.back(); std::map<int, vector<std::pair<int, E>>> in;  // block -> (pred, guard)
    auto flow = [&](int from, Inst &t, E g) {
      if (t.opc == Instruction::Br) { if (t.b1 < 0) in[t.b0].push_back({from, g}); else { E c = gete(f1, t.o[0], 1); int k = known(s, c); if (k >= 0) c = mkBool(k); E g0 = mkAnd(g, c), g1 = mkAnd(g, mkNot(c)); if (!isFalse(g0)) in[t.b0].push_back({from, g0}); if (!isFalse(g1)) in[t.b1].push_back({from, g1}); } }
      else { Val v = getv(f1, t.o[0]); unsigned w = wOf(t.I->getOperand(0)->getType()); E x = toE(v, w), rest = g; for (auto &k : t.cases) { E c = mkBin(EQ, x, mkConst(k.first, w)); E gc = mkAnd(g, c); if (!isFalse(gc)) in[k.second].push_back({from, gc}); rest = mkAnd(rest, mkNot(c)); } if (!isFalse(rest)) in[t.b0].push_back({from, rest}); } };
    flow(b, term, mkBool(true));
    auto doPhis = [&](int x, vector<std::pair<int, E>> &edges) {
      vector<std::pair<int, Val>> upd; for (auto &d : f->bb[x]) { if (d.opc != Instruction::PHI) break; bool first = true; Val r; 
        for (size_t k = edges.size(); k-- > 0;) { int p = edges[k].first; Val v; bool found = false; for (size_t q = 0; q < d.phiBB.size(); q++) if (d.phiBB[q] == p) { v = getv(f1, d.o[q]); found = true; break; } if (!found) throw MergeAbort{}; if (first) { r = v; first = false; } else if (O.resolveSel && !v.agg && d.w == 64 && isFpTy(d.ty) && constLeaf(v) && constLeaf(r) && (v.e != r.e || v.c != r.c)) throw MergeAbort{}; else r = selVal(edges[k].second, v, r, d.ty); } upd.push_back({d.dst, r}); }
      for (auto &u : upd) f1.r[u.first] = u.second; };
    while (!in.empty()) {
      auto it = in.begin(); int x = it->first; auto edges = it->second; in.erase(it);
      if (x == j) { doPhis(x, edges); f1.prev = -1; f1.bb = j; f1.ip = 0; while (f1.ip < (int)f->bb[j].size() && f->bb[j][f1.ip].opc == Instruction::PHI) f1.ip++; f->executed[j] = 1; break; }
      E g = mkBool(false); for (auto &e : edges) g = mkOr(g, e.second); if (known(s, g) == 0) continue; doPhis(x, edges); f->executed[x] = 1;
      if (f->bb[x].back().opc == Instruction::Unreachable) { Model m; if ((s.wit && evalW(s, g)) || query(s, g, &m) != UNSAT) throw MergeAbort{}; continue; }
      E gg = isTrue(g) ? nullptr : g;
      for (auto &d : f->bb[x]) { if (d.opc == Instruction::PHI) continue; if (d.I->isTerminator()) { flow(x, d, g); break; } s.steps++; nSteps++; if (!evalPure(s, f1, d, gg)) throw MergeAbort{}; } }
  } catch (MergeAbort &) { ok = false; }
  inMerge = false;
  if (!ok) { nForks = forks; u64 v = snap->asVer; State *cs = &s; *cs = *snap; cs->asVer = v; if (evc.ver == v) evc.ver = 0; f->noMergeCnt[b]++; nMergeAborts++; }
  else nMerges++;
  delete snap; return ok; }

// ------------------------------------------------------------------ control flow
static void enterBlock(State &s, Frame &f, int to, int from) {
  FuncInfo *fi = f.f; fi->executed[to] = 1; auto &blk = fi->bb[to]; size_t i = 0;
  if (!blk.empty() && blk[0].opc == Instruction::PHI) { Val tmp[64]; vector<Val> big; size_t n = 0; while (n < blk.size() && blk[n].opc == Instruction::PHI) n++; Val *p = tmp; if (n > 64) { big.resize(n); p = big.data(); }
    for (i = 0; i < n; i++) { bool found = false; for (size_t q = 0; q < blk[i].phiBB.size(); q++) if (blk[i].phiBB[q] == from) { p[i] = getv(f, blk[i].o[q]); found = true; break; } if (!found) throw Unsupported{"phi"}; }
    for (i = 0; i < n; i++) f.r[blk[i].dst] = p[i]; }
  f.prev = from; f.bb = to; f.ip = (int)i; }
static void pushCall(State &s, FuncInfo *fi, vector<Val> args) {
  if (fi->F->isDeclaration()) throw Unsupported{"call to undefined function " + demangle(fi->name)};
  decode(fi); fi->calls++; auto &t = s.th[s.cur]; if (t.st.size() > 2000) { report(s, "ub", "unbounded recursion"); throw PathEnd{"violated"}; }
  t.st.emplace_back(); Frame &f = t.st.back(); f.f = fi; f.r.resize(fi->nslots); int n = fi->nargs; for (int i = 0; i < n && i < (int)args.size(); i++) f.r[i] = args[i]; for (size_t i = n; i < args.size(); i++) f.varargs.push_back(args[i]);
  fi->executed[0] = 1;
  // by-value struct arguments get their own copy
  if (fi->F->arg_size()) for (auto &a : fi->F->args()) if (a.hasByValAttr()) { Type *bt = a.getParamByValType(); u64 sz = DL->getTypeAllocSize(bt); u64 na = allocObj(s, sz, Obj::STACK, "byval", true); u64 src = conc(s, f.r[a.getArgNo()]); copyMem(s, na, src, sz); Frame &ff = s.th[s.cur].st.back(); ff.allocas.push_back(na); ff.r[a.getArgNo()] = Val(na); } }
static void killFrame(State &s, Frame &f) { for (u64 a : f.allocas) { u64 id; int64_t o; objOf(a, id, o); Obj *ob = s.mem.mut(id); ob->alive = false; ob->b.clear(); ob->b.shrink_to_fit(); ob->s.clear(); ob->s.shrink_to_fit(); ob->race.clear(); } }
static void advance(State &s) { auto &t = s.th[s.cur]; Frame &f = t.st.back(); Inst &d = f.f->bb[f.bb][f.ip]; if (d.opc == Instruction::Invoke) enterBlock(s, f, d.b0, f.bb); else f.ip++; }
static void setRet(State &s, const Val &v) { Frame &f = s.th[s.cur].st.back(); Inst &d = f.f->bb[f.bb][f.ip]; if (d.dst >= 0) f.r[d.dst] = v; }

// ---- exceptions
static std::map<u64, unsigned> typeIds;
static unsigned typeIdOf(u64 ti) { if (!ti) return 1; auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; unsigned k = typeIds.size() + 2; typeIds[ti] = k; return k; }
static u64 rd64(State &s, u64 a) { u64 off; Obj *o = findObj(s, a, 8, off, false); return conc(s, loadAt(s, o, off, 64)); }
static u64 rd32(State &s, u64 a) { u64 off; Obj *o = findObj(s, a, 4, off, false); return conc(s, loadAt(s, o, off, 32)); }
static bool upcast(State &s, u64 ti, u64 want, int64_t &off, u64 obj, int depth = 0) {  // find base 'want' of class 'ti'
  if (ti == want) return true; if (depth > 20) return false; u64 id; int64_t o; if (!objOf(ti, id, o)) return false; Obj *ob = s.mem.get(id); if (!ob || ob->size < 16) return false;
  u64 vt = rd64(s, ti); u64 vid; int64_t vo; objOf(vt, vid, vo); Obj *v = s.mem.get(vid); if (!v) return false;
  if (v->name.find("__si_class_type_info") != string::npos) return upcast(s, rd64(s, ti + 16), want, off, obj, depth + 1);
  if (v->name.find("__vmi_class_type_info") != string::npos) { unsigned n = rd32(s, ti + 20); for (unsigned i = 0; i < n; i++) { u64 bt = rd64(s, ti + 24 + 16 * i); int64_t fl = (int64_t)rd64(s, ti + 32 + 16 * i); int64_t bo = fl >> 8; if (fl & 1) { if (!obj) continue; u64 vp = rd64(s, obj + off); bo = (int64_t)rd64(s, vp + bo); } int64_t save = off; off += bo; if (upcast(s, bt, want, off, obj, depth + 1)) return true; off = save; } }
  return false; }
static void terminateV(State &s, const string &why) { if (s.expectTerm) { s.reached.insert("terminated"); reachedAll.insert("terminated"); throw PathEnd{"done"}; } report(s, "terminate", why); throw PathEnd{"violated"}; }
static string tiName(u64 ti) { auto it = addrName.find(ti); return it == addrName.end() ? "?" : demangle(it->second); }
static void unwind(State &s, Exc e) {
  auto &t = s.th[s.cur];
  // phase 1: is there a handler at all?
  bool handled = false; for (int i = (int)t.st.size() - 1; i >= 0 && !handled; i--) { Frame &f = t.st[i]; Inst &d = f.f->bb[f.bb][f.ip]; if (d.opc == Instruction::Invoke && d.b1 >= 0) { auto *lp = cast<InvokeInst>(d.I)->getLandingPadInst(); for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) { u64 ti = constVal(lp->getClause(k)).c; int64_t off = 0; if (!ti || upcast(s, e.ti, ti, off, e.obj)) handled = true; } else handled = true; } }
  if (!handled) terminateV(s, "uncaught exception of type " + tiName(e.ti));
  while (true) {
    Frame &f = t.st.back(); Inst &d = f.f->bb[f.bb][f.ip];
    if (d.opc == Instruction::Invoke && d.b1 >= 0) {
      auto *lp = cast<InvokeInst>(d.I)->getLandingPadInst(); bool enter = lp->isCleanup(); unsigned sel = 0; u64 adj = e.obj;
      for (unsigned k = 0; k < lp->getNumClauses() && !sel; k++) { if (!lp->isCatch(k)) { sel = 0; enter = true; continue; } u64 ti = constVal(lp->getClause(k)).c; int64_t off = 0; if (!ti || upcast(s, e.ti, ti, off, e.obj)) { sel = typeIdOf(ti); enter = true; adj = e.obj + off; } }
      if (enter) { t.cur = e; int from = f.bb; int to = d.b1; enterBlock(s, f, to, from); Inst &l = f.f->bb[f.bb][f.ip]; if (l.opc != Instruction::LandingPad) throw Unsupported{"landingpad"}; vector<Val> v; v.push_back(Val(e.obj)); v.push_back(Val(sel)); f.r[l.dst] = mkAgg(v); f.ip++; t.cur.obj = e.obj; (void)adj; s.th[s.cur].cur = e; s.th[s.cur].cvSeq = adj; return; } }
    killFrame(s, f); t.st.pop_back(); if (t.st.empty()) terminateV(s, "uncaught exception"); } }
static std::map<u64, u64> dummy;
// ---- threads
static void vcJoin(vector<uint32_t> &a, const vector<uint32_t> &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void acquire(State &s, u64 o) { auto &t = s.th[s.cur]; auto it = s.sync.find(o); if (it != s.sync.end()) vcJoin(t.vc, it->second.vc); }
static void release(State &s, u64 o) { auto &t = s.th[s.cur]; if (t.vc.size() < s.th.size()) t.vc.resize(s.th.size()); vcJoin(s.sync[o].vc, t.vc); t.vc[s.cur]++; }
static bool runnable(State &s, int i) { auto &t = s.th[i]; switch (t.s) { case Thread::RUN: return true; case Thread::MUTEX: return s.sync[t.waitObj].owner < 0; case Thread::JOIN: return s.th[t.joinTid].s == Thread::DONE; default: return false; } }
static void recordChoice(State &s, const string &name, unsigned v, unsigned n, char kind) { static u64 k = 0; E x = newVar(s, name + "!" + std::to_string(k++), 8, false, v); addPc(s, mkBin(EQ, x, mkConst(v, 8))); Input in; in.name = name; in.w = 8; in.e = x; in.c = v; in.kind = kind; s.inputs.push_back(in); (void)n; }
static void switchTo(State &s, int i) { s.cur = i; auto &t = s.th[i]; if (t.s == Thread::MUTEX || t.s == Thread::JOIN) t.s = Thread::RUN; t.granted = true; }
// choose the next thread to run; cont: the current thread could continue
static void schedule(State &s, bool cont) {
  vector<int> R; if (cont) R.push_back(s.cur); for (int i = 0; i < (int)s.th.size(); i++) if (!(cont && i == s.cur) && s.th[i].s != Thread::DONE && runnable(s, i)) R.push_back(i);
  if (R.empty()) { string w; for (size_t i = 0; i < s.th.size(); i++) { w += " T" + std::to_string(i) + (s.th[i].s == Thread::MUTEX ? ":mutex" : s.th[i].s == Thread::CV ? ":condvar" : s.th[i].s == Thread::JOIN ? ":join" : ":done"); } report(s, "deadlock", "deadlock: no thread can run (" + w + " )"); throw PathEnd{"violated"}; }
  if (cont && (s.preempt >= O.preempt || R.size() == 1)) { s.th[s.cur].granted = true; return; }
  if (R.size() > 1) { nSched++;
    if (O.preempt >= 0) for (size_t k = 1; k < R.size(); k++) { State *n = cloneState(s); recordChoice(*n, "sched", k, R.size(), 's'); if (cont) n->preempt++; switchTo(*n, R[k]); work.push_back(n); }
    recordChoice(s, "sched", 0, R.size(), 's'); }
  switchTo(s, R[0]); }
// scheduling point before a synchronisation operation; returns true when the operation may proceed now
static bool schedPoint(State &s) { auto &t = s.th[s.cur]; if (t.granted) { t.granted = false; return true; } if (s.th.size() == 1) return true; unsigned live = 0; for (auto &x : s.th) if (x.s != Thread::DONE) live++; if (live == 1) return true; schedule(s, true); if (s.th[s.cur].granted && &s.th[s.cur] == &t) { t.granted = false; return true; } return false; }

// ------------------------------------------------------------------ builtins (library and harness functions)
typedef std::function<void(State &, Inst &)> BF;   // must call setRet/advance themselves
static vector<std::pair<string, BF>> bfs; static std::unordered_map<string, int> bfIdx;
static int builtinOf(const string &n) { auto it = bfIdx.find(n); return it == bfIdx.end() ? 0 : it->second; }
static void def(const string &n, BF f) { bfs.push_back({n, f}); bfIdx[n] = bfs.size(); }
static Val arg(State &s, Inst &d, unsigned i) { return getv(s.th[s.cur].st.back(), d.o[i]); }
static unsigned argW(Inst &d, unsigned i) { return wOf(cast<CallBase>(d.I)->getArgOperand(i)->getType()); }
static E argE(State &s, Inst &d, unsigned i) { return toE(arg(s, d, i), argW(d, i)); }
static u64 argC(State &s, Inst &d, unsigned i) { return conc(s, arg(s, d, i), argW(d, i)); }
static void ret(State &s, const Val &v) { setRet(s, v); advance(s); }
static u64 doAlloc(State &s, u64 n, int fn) { if (n > (1ull << 28)) { inconclusive("allocation of more than 256 MiB not modelled"); throw PathEnd{"incomplete"}; } u64 a = allocObj(s, n, Obj::HEAP, "heap", true); u64 id; int64_t o; objOf(a, id, o); s.mem.mut(id)->allocFn = fn; return a; }
static std::unordered_map<string, unsigned> ufIds;
static thread_local const char *gslError;   // the library's default handler aborts the program
static void defMath(const string &n, unsigned w, std::function<double(double, double)> f, int nargs) {
  unsigned id = ufIds.size() + 1; ufIds[n] = id; gUFName[id] = n;
  gUFEval[id] = [w, f](u128 a, u128 b, u128) -> u128 { if (w == 32) { float x, y; uint32_t u = (uint32_t)a, v = (uint32_t)b; memcpy(&x, &u, 4); memcpy(&y, &v, 4); float r = (float)f(x, y); memcpy(&u, &r, 4); return u; } double x, y; u64 u = (u64)a, v = (u64)b; memcpy(&x, &u, 8); memcpy(&y, &v, 8); double r = f(x, y); memcpy(&u, &r, 8); return u; };
  def(n, [id, w, nargs](State &s, Inst &d) { E a = argE(s, d, 0), b = nargs > 1 ? argE(s, d, 1) : nullptr; gslError = nullptr; E r = mkUF(id, a, b, nullptr, w); if (gslError) terminateV(s, string("GSL error: ") + gslError); ret(s, fromE(r)); }); }
static E newInput(State &s, const string &name, unsigned w, bool fp, char kind, u128 def) { E v = newVar(s, name, w, fp, def); Input in; in.name = name; in.w = w; in.e = v; in.c = 0; in.kind = kind; s.inputs.push_back(in); return v; }
static void memTarget(State &s, u64 &a) { (void)s; (void)a; }
static void defAll() {
  gsl_set_error_handler([](const char *why, const char *, int, int) { gslError = why; });
  bfs.push_back({"", nullptr}); bfs.clear();
  // --- harness API
  def("sym_make", [](State &s, Inst &d) { unsigned bits = argC(s, d, 0); string n = cstr(s, argC(s, d, 1)); E v = newInput(s, n, bits, false, 'i', 0); ret(s, fromE(mkZext(v, 64))); });
  def("sym_range", [](State &s, Inst &d) { u64 lo = argC(s, d, 0), hi = argC(s, d, 1); string n = cstr(s, argC(s, d, 2)); if (lo == hi) { Input in; in.name = n; in.w = 64; in.e = nullptr; in.c = lo; in.kind = 'i'; s.inputs.push_back(in); ret(s, Val(lo)); return; } unsigned w = 1; while (w < 64 && (hi >> w)) w++; E v = newInput(s, n, w, false, 'i', lo); if (lo) addPc(s, mkBin(ULE, mkConst(lo, w), v)); if (hi != (u64)maskw(w)) addPc(s, mkBin(ULE, v, mkConst(hi, w))); ret(s, fromE(mkZext(v, 64))); });
  auto fpIn = [](unsigned w) { return [w](State &s, Inst &d) {
    string n = cstr(s, argC(s, d, 0)); auto dbl = [&](unsigned i) { u64 c = argC(s, d, i); double x; memcpy(&x, &c, 8); return x; }; double mn = dbl(1), mx = dbl(2); unsigned fl = argC(s, d, 3);
    double defv = mx > 0 ? std::min(std::max(mn, 1.0), mx) : 1.0; u128 db; if (w == 32) { float f = (float)defv; uint32_t u; memcpy(&u, &f, 4); db = u; } else { u64 u; memcpy(&u, &defv, 8); db = u; }
    E v = newInput(s, n, w, true, 'f', db); VarInfo &vi = gVars[(unsigned)v->c]; vi.fmin = mn; vi.fmax = mx; vi.allowNF = fl & 1; vi.allowZero = (fl & 2) || mn == 0; vi.nonneg = fl & 4;
    auto cst = [&](double x) { u128 b; if (w == 32) { float f = (float)x; uint32_t u; memcpy(&u, &f, 4); b = u; } else { u64 u; memcpy(&u, &x, 8); b = u; } return mkConst(b, w); };
    E ab = mkFun(FABS, v, w); E nf = mkNot(mkBin(FLT, ab, cst(INFINITY))); E c = mkBool(true);
    if (mx > 0) c = mkBin(FLE, ab, cst(mx)); else c = mkNot(nf); if (mn > 0) { E big = mkBin(FLE, cst(mn), ab); c = mkAnd(c, vi.allowZero ? mkOr(big, mkBin(FEQ, v, cst(0))) : big); } if (vi.nonneg) c = mkAnd(c, mkBin(FLE, cst(0), v)); if (vi.allowNF) c = mkOr(c, nf);
    addPc(s, c); ret(s, fromE(v)); }; };
  def("sym_float", fpIn(32)); def("sym_double", fpIn(64));
  def("sym_choice", [](State &s, Inst &d) { u64 n = argC(s, d, 0); string nm = cstr(s, argC(s, d, 1)); if (n == 0) throw PathEnd{"assume"};
    for (u64 k = n - 1; k >= 1; k--) { State *c = cloneState(s); recordChoice(*c, nm, k, n, 'c'); ret(*c, Val(k)); work.push_back(c); }
    recordChoice(s, nm, 0, n, 'c'); ret(s, Val(0)); });
  def("sym_assume", [](State &s, Inst &d) { E c = argE(s, d, 0); c = mkNot(mkBin(EQ, c, mkConst(0, c->w))); doAssume(s, c); advance(s); });
  def("sym_assert", [](State &s, Inst &d) { E c = argE(s, d, 0); c = mkNot(mkBin(EQ, c, mkConst(0, c->w))); string m = cstr(s, argC(s, d, 1)); doAssert(s, c, m); advance(s); });
  def("sym_reach", [](State &s, Inst &d) { string m = cstr(s, argC(s, d, 0)); s.reached.insert(m); reachedAll.insert(m); advance(s); });
  def("sym_log", [](State &s, Inst &d) { string m = cstr(s, argC(s, d, 0)); s.logs.push_back({m, argE(s, d, 1)}); advance(s); });
  def("sym_concretize", [](State &s, Inst &d) { Val v = arg(s, d, 0); u64 c = conc(s, v); ret(s, Val(c)); });
  def("sym_decide", [](State &s, Inst &d) { E c = argE(s, d, 0); c = mkNot(mkBin(EQ, c, mkConst(0, c->w))); bool b = decide(s, c); ret(s, Val(b)); });
  def("sym_is_engine", [](State &s, Inst &d) { ret(s, Val(1)); });
  def("sym_heap_live", [](State &s, Inst &d) { ret(s, Val(heapLive(s))); });
  def("sym_is_init", [](State &s, Inst &d) { u64 a = argC(s, d, 0), n = argC(s, d, 1); bool ok = true; u64 off; if (n) { Obj *o = findObj(s, a, n, off, false); if (!o->s.empty()) for (u64 i = 0; i < n && ok; i++) { E e = o->s[off + i].e; if (e == UNINIT) ok = false; else if (e) for (auto v : varsOf(e)) if (!(v & 0x80000000u) && gVars[v].name.compare(0, 3, "un!") == 0) { ok = false; break; } } } ret(s, Val(ok)); });
  def("sym_sorted_table", [](State &s, Inst &d) { // (elemBits, n (possibly symbolic), maxN, name) -> pointer to a sorted table of finite values
    unsigned w = argC(s, d, 0); E n = argE(s, d, 1); u64 mx = argC(s, d, 2); string nm = cstr(s, argC(s, d, 3)); static unsigned arrId = 0; u64 a = allocObj(s, 0, Obj::HEAP, nm, false); u64 id; int64_t o; objOf(a, id, o); Obj *ob = s.mem.mut(id); ob->arr = arrId++; ob->arrW = w; ob->size = mx * (w / 8); ob->symSize = mkBin(MUL, n, mkConst(w / 8, 64)); ob->allocFn = 2; Input in; in.name = nm; in.w = w; in.e = nullptr; in.c = 0; in.kind = 'a'; in.arr = ob->arr; in.arrN = mx; s.inputs.push_back(in); ret(s, Val(a)); });
  def("sym_step_table", [](State &s, Inst &d) { // (elemBits, n, maxN, k, thresholds[k-1] (u64), values[k], name)
    unsigned w = argC(s, d, 0); E n = argE(s, d, 1); u64 mx = argC(s, d, 2), k = argC(s, d, 3), ta = argC(s, d, 4), va = argC(s, d, 5); string nm = cstr(s, argC(s, d, 6)); StepTab t; u64 off;
    for (u64 i = 0; i + 1 < k; i++) { Obj *o = findObj(s, ta + 8 * i, 8, off, false); t.thr.push_back(toE(loadAt(s, o, off, 64), 64)); } for (u64 i = 0; i < k; i++) { Obj *o = findObj(s, va + w / 8 * i, w / 8, off, false); t.val.push_back(toE(loadAt(s, o, off, w), w)); }
    u64 a = allocObj(s, 0, Obj::HEAP, nm, false); u64 id; int64_t o; objOf(a, id, o); Obj *ob = s.mem.mut(id); ob->arr = 1000 + stepTabs.size(); stepTabs.push_back(t); ob->arrW = w; ob->size = mx * (w / 8); ob->symSize = mkBin(MUL, n, mkConst(w / 8, 64)); ob->allocFn = 2; ret(s, Val(a)); });
  def("sym_steps", [](State &s, Inst &d) { ret(s, Val(s.steps)); });
  def("sym_expect_terminate", [](State &s, Inst &d) { s.expectTerm = argC(s, d, 0) & 1; advance(s); });
  def("sym_end", [](State &s, Inst &d) { throw PathEnd{"done"}; });
  def("sym_fresh_double", [](State &s, Inst &d) { string n = cstr(s, argC(s, d, 0)); E v = newInput(s, n, 64, true, 'f', 0); ret(s, fromE(v)); });
  // --- allocation
  def("sym_plant", [](State &s, Inst &d) { s.planted = argC(s, d, 0); advance(s); });
  auto alloc = [](int fn, bool al) { return [fn](State &s, Inst &d) { if (s.planted && fn == 2) { u64 a = s.planted; s.planted = 0; ret(s, Val(a)); return; } u64 n = argC(s, d, 0); ret(s, Val(doAlloc(s, n, fn))); }; };
  def("malloc", alloc(1, false)); def("_Znwm", alloc(2, false)); def("_Znam", alloc(3, false)); def("_ZnwmRKSt9nothrow_t", alloc(2, false)); def("_ZnamRKSt9nothrow_t", alloc(3, false)); def("_ZnwmSt11align_val_t", alloc(2, true)); def("_ZnamSt11align_val_t", alloc(3, true));
  def("calloc", [](State &s, Inst &d) { u64 n = argC(s, d, 0) * argC(s, d, 1); u64 a = doAlloc(s, n, 1); if (n) setMem(s, a, Val(0), n); ret(s, Val(a)); });
  def("realloc", [](State &s, Inst &d) { u64 p = argC(s, d, 0), n = argC(s, d, 1); u64 a = doAlloc(s, n, 1); if (p) { u64 off; u64 id; int64_t o; objOf(p, id, o); Obj *ob = s.mem.get(id); u64 k = std::min(n, ob->size); (void)off; copyMem(s, a, p, k); freeObj(s, p, 1); } ret(s, Val(a)); });
  auto fr = [](int fn) { return [fn](State &s, Inst &d) { freeObj(s, argC(s, d, 0), fn); advance(s); }; };
  def("free", fr(1)); def("_ZdlPv", fr(2)); def("_ZdlPvm", fr(2)); def("_ZdaPv", fr(3)); def("_ZdaPvm", fr(3)); def("_ZdlPvSt11align_val_t", fr(2)); def("_ZdlPvmSt11align_val_t", fr(2)); def("_ZdaPvSt11align_val_t", fr(3)); def("_ZdlPvRKSt9nothrow_t", fr(2)); def("_ZdaPvRKSt9nothrow_t", fr(3));
  // --- memory / strings
  auto mcpy = [](State &s, Inst &d) { u64 n = argC(s, d, 2); u64 a = argC(s, d, 0), b = argC(s, d, 1); copyMem(s, a, b, n); ret(s, Val(a)); }; def("memcpy", mcpy); def("memmove", mcpy);
  def("memset", [](State &s, Inst &d) { u64 n = argC(s, d, 2), a = argC(s, d, 0); Val v = arg(s, d, 1); if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255; setMem(s, a, v, n); ret(s, Val(a)); });
  auto mcmp = [](State &s, Inst &d) { u64 n = argC(s, d, 2), a = argC(s, d, 0), b = argC(s, d, 1); E r = mkConst(0, 32); for (u64 i = n; i-- > 0;) { u64 o1, o2; Obj *x = findObj(s, a + i, 1, o1, false); E p = toE(loadAt(s, x, o1, 8), 8); Obj *y = findObj(s, b + i, 1, o2, false); E q = toE(loadAt(s, y, o2, 8), 8); r = mkIte(mkBin(EQ, p, q), r, mkIte(mkBin(ULT, p, q), mkConst(-1, 32), mkConst(1, 32))); } ret(s, fromE(r)); };
  def("memcmp", mcmp); def("bcmp", mcmp);
  def("memchr", [](State &s, Inst &d) { u64 a = argC(s, d, 0), c = argC(s, d, 1) & 255, n = argC(s, d, 2); u64 r = 0; for (u64 i = 0; i < n; i++) { u64 o; Obj *x = findObj(s, a + i, 1, o, false); if (conc(s, loadAt(s, x, o, 8), 8) == c) { r = a + i; break; } } ret(s, Val(r)); });
  def("strlen", [](State &s, Inst &d) { u64 a = argC(s, d, 0), n = 0; for (;;) { u64 o; Obj *x = findObj(s, a + n, 1, o, false); Val v = loadAt(s, x, o, 8); bool z = v.e ? decide(s, mkBin(EQ, v.e, mkConst(0, 8))) : v.c == 0; if (z) break; n++; } ret(s, Val(n)); });
  def("strcmp", [](State &s, Inst &d) { u64 a = argC(s, d, 0), b = argC(s, d, 1), i = 0; for (;; i++) { u64 o1, o2; Obj *x = findObj(s, a + i, 1, o1, false); E p = toE(loadAt(s, x, o1, 8), 8); Obj *y = findObj(s, b + i, 1, o2, false); E q = toE(loadAt(s, y, o2, 8), 8); if (!decide(s, mkBin(EQ, p, q))) { ret(s, Val(decide(s, mkBin(ULT, p, q)) ? 0xffffffffu : 1)); return; } if (decide(s, mkBin(EQ, p, mkConst(0, 8)))) { ret(s, Val(0)); return; } } });
  // --- math
  auto un = [](Op op, unsigned w, unsigned c) { return [op, w, c](State &s, Inst &d) { ret(s, fromE(mkFun(op, argE(s, d, 0), w, c))); }; };
  def("sqrt", un(FSQRT, 64, 0)); def("sqrtf", un(FSQRT, 32, 0)); def("fabs", un(FABS, 64, 0)); def("fabsf", un(FABS, 32, 0)); def("round", un(FROUND, 64, 0)); def("roundf", un(FROUND, 32, 0)); def("floor", un(FROUND, 64, 1)); def("floorf", un(FROUND, 32, 1)); def("ceil", un(FROUND, 64, 2)); def("ceilf", un(FROUND, 32, 2)); def("trunc", un(FROUND, 64, 3)); def("truncf", un(FROUND, 32, 3)); def("rint", un(FROUND, 64, 4)); def("rintf", un(FROUND, 32, 4)); def("nearbyint", un(FROUND, 64, 4));
  auto lround_ = [](unsigned w) { return [w](State &s, Inst &d) { E r = mkFun(FROUND, argE(s, d, 0), w, 0); ret(s, fromE(mkFun(FPTOSI, r, 64))); }; }; def("lround", lround_(64)); def("lroundf", lround_(32)); def("llround", lround_(64));
  defMath("gsl_cdf_ugaussian_Pinv", 64, [](double x, double) { return gsl_cdf_ugaussian_Pinv(x); }, 1); defMath("gsl_cdf_ugaussian_P", 64, [](double x, double) { return gsl_cdf_ugaussian_P(x); }, 1);
  defMath("gsl_sf_erf", 64, [](double x, double) { return gsl_sf_erf(x); }, 1); defMath("gsl_cdf_tdist_Pinv", 64, [](double x, double y) { return gsl_cdf_tdist_Pinv(x, y); }, 2); defMath("gsl_cdf_gaussian_P", 64, [](double x, double y) { return gsl_cdf_gaussian_P(x, y); }, 2); defMath("gsl_cdf_gaussian_Pinv", 64, [](double x, double y) { return gsl_cdf_gaussian_Pinv(x, y); }, 2);
  defMath("exp", 64, [](double x, double) { return std::exp(x); }, 1); defMath("log", 64, [](double x, double) { return std::log(x); }, 1); defMath("pow", 64, [](double x, double y) { return std::pow(x, y); }, 2); defMath("sin", 64, [](double x, double) { return std::sin(x); }, 1); defMath("cos", 64, [](double x, double) { return std::cos(x); }, 1); defMath("erf", 64, [](double x, double) { return std::erf(x); }, 1); defMath("expf", 32, [](double x, double) { return std::exp(x); }, 1); defMath("logf", 32, [](double x, double) { return std::log(x); }, 1); defMath("log2", 64, [](double x, double) { return std::log2(x); }, 1); defMath("log10", 64, [](double x, double) { return std::log10(x); }, 1); defMath("powf", 32, [](double x, double y) { return std::pow((float)x, (float)y); }, 2); defMath("hypot", 64, [](double x, double y) { return std::hypot(x, y); }, 2); defMath("hypotf", 32, [](double x, double y) { return std::hypot((float)x, (float)y); }, 2); defMath("tgamma", 64, [](double x, double) { return std::tgamma(x); }, 1); defMath("lgamma", 64, [](double x, double) { return std::lgamma(x); }, 1); defMath("atan", 64, [](double x, double) { return std::atan(x); }, 1); defMath("tan", 64, [](double x, double) { return std::tan(x); }, 1);
  // --- C++ runtime
  def("__cxa_allocate_exception", [](State &s, Inst &d) { u64 a = allocObj(s, argC(s, d, 0), Obj::GLOBAL, "exception", true); ret(s, Val(a)); });
  def("__cxa_free_exception", [](State &s, Inst &d) { advance(s); });
  def("__cxa_init_primary_exception", [](State &s, Inst &d) { ret(s, arg(s, d, 0)); });
  def("__cxa_throw", [](State &s, Inst &d) { Exc e; e.obj = argC(s, d, 0); e.ti = argC(s, d, 1); unwind(s, e); });
  def("__cxa_rethrow", [](State &s, Inst &d) { auto &t = s.th[s.cur]; if (t.caught.empty()) terminateV(s, "rethrow without exception"); Exc e = t.caught.back(); unwind(s, e); });
  def("__cxa_begin_catch", [](State &s, Inst &d) { auto &t = s.th[s.cur]; t.caught.push_back(t.cur); u64 adj = argC(s, d, 0); if (t.cur.obj == adj && t.cvSeq && (t.cvSeq >> OBJ_SHIFT) == (adj >> OBJ_SHIFT)) adj = t.cvSeq; ret(s, Val(adj)); });
  def("__cxa_end_catch", [](State &s, Inst &d) { auto &t = s.th[s.cur]; if (!t.caught.empty()) t.caught.pop_back(); if (!t.caught.empty()) t.cur = t.caught.back(); advance(s); });
  def("__cxa_get_exception_ptr", [](State &s, Inst &d) { ret(s, arg(s, d, 0)); });
  def("_ZSt18uncaught_exceptionv", [](State &s, Inst &d) { ret(s, Val(0)); }); def("_ZSt19uncaught_exceptionsv", [](State &s, Inst &d) { ret(s, Val(0)); });
  def("_Unwind_Resume", [](State &s, Inst &d) { unwind(s, s.th[s.cur].cur); });
  def("_ZSt9terminatev", [](State &s, Inst &d) { terminateV(s, "std::terminate called"); }); def("abort", [](State &s, Inst &d) { terminateV(s, "abort called"); }); def("__cxa_pure_virtual", [](State &s, Inst &d) { terminateV(s, "pure virtual call"); }); def("__assert_fail", [](State &s, Inst &d) { terminateV(s, "assertion in code: " + cstr(s, argC(s, d, 0))); }); def("__stack_chk_fail", [](State &s, Inst &d) { terminateV(s, "stack smashed"); });
  def("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](State &s, Inst &d) { terminateV(s, "libstdc++ assertion"); });
  def("exit", [](State &s, Inst &d) { throw PathEnd{"exit"}; }); def("_exit", [](State &s, Inst &d) { throw PathEnd{"exit"}; });
  def("__cxa_atexit", [](State &s, Inst &d) { ret(s, Val(0)); }); def("atexit", [](State &s, Inst &d) { ret(s, Val(0)); });
  def("__cxa_guard_acquire", [](State &s, Inst &d) { u64 a = argC(s, d, 0); u64 off; Obj *o = findObj(s, a, 1, off, false); Val v = loadAt(s, o, off, 8); ret(s, Val(v.c ? 0 : 1)); });
  def("__cxa_guard_release", [](State &s, Inst &d) { u64 a = argC(s, d, 0); u64 off; Obj *o = findObj(s, a, 1, off, true); storeAt(s, o, off, Val(1), 8); advance(s); }); def("__cxa_guard_abort", [](State &s, Inst &d) { advance(s); });
  def("__dynamic_cast", [](State &s, Inst &d) { u64 p = argC(s, d, 0), dst = argC(s, d, 2); u64 vp = rd64(s, p); u64 top = p + (int64_t)rd64(s, vp - 16), ti = rd64(s, vp - 8); int64_t off = 0; bool ok = upcast(s, ti, dst, off, top); ret(s, Val(ok ? top + off : 0)); });
  def("__cxa_bad_cast", [](State &s, Inst &d) { terminateV(s, "bad_cast"); }); def("__cxa_throw_bad_array_new_length", [](State &s, Inst &d) { terminateV(s, "bad_array_new_length"); });
  def("__errno_location", [](State &s, Inst &d) { static u64 dummyAddr = 0; (void)dummyAddr; u64 a = allocObj(s, 4, Obj::GLOBAL, "errno", false); ret(s, Val(a)); });
  for (const char *n : {"printf", "puts", "putchar", "fprintf", "fputs", "fputc", "fflush", "perror", "fwrite"}) def(n, [](State &s, Inst &d) { ret(s, Val(0)); });
  // --- threads
  def("pthread_mutex_lock", [](State &s, Inst &d) { u64 m = argC(s, d, 0); if (!schedPoint(s)) return; auto &so = s.sync[m]; auto &t = s.th[s.cur];
    if (so.owner == s.cur) { report(s, "deadlock", "mutex locked again by the thread holding it"); throw PathEnd{"violated"}; }
    if (so.owner >= 0) { t.s = Thread::MUTEX; t.waitObj = m; schedule(s, false); return; } so.owner = s.cur; acquire(s, m); ret(s, Val(0)); });
  def("pthread_mutex_trylock", [](State &s, Inst &d) { u64 m = argC(s, d, 0); if (!schedPoint(s)) return; auto &so = s.sync[m]; if (so.owner >= 0) { ret(s, Val(16)); return; } so.owner = s.cur; acquire(s, m); ret(s, Val(0)); });
  def("pthread_mutex_unlock", [](State &s, Inst &d) { u64 m = argC(s, d, 0); auto &so = s.sync[m]; if (so.owner != s.cur) { report(s, "ub", "unlock of a mutex not held"); throw PathEnd{"violated"}; } release(s, m); so.owner = -1; ret(s, Val(0)); });
  def("pthread_mutex_destroy", [](State &s, Inst &d) { ret(s, Val(0)); }); def("pthread_mutex_init", [](State &s, Inst &d) { ret(s, Val(0)); });
  def("_ZNSt18condition_variableC1Ev", [](State &s, Inst &d) { advance(s); }); def("_ZNSt18condition_variableC2Ev", [](State &s, Inst &d) { advance(s); });
  auto cvd = [](State &s, Inst &d) { u64 c = argC(s, d, 0); for (auto &t : s.th) if (t.s == Thread::CV && t.waitObj == c) { report(s, "ub", "condition variable destroyed while waited on"); throw PathEnd{"violated"}; } advance(s); }; def("_ZNSt18condition_variableD1Ev", cvd); def("_ZNSt18condition_variableD2Ev", cvd);
  def("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", [](State &s, Inst &d) { u64 c = argC(s, d, 0), ul = argC(s, d, 1); u64 m = rd64(s, ul); auto &t = s.th[s.cur]; auto &so = s.sync[m];
    if (t.notified) { if (so.owner >= 0) { t.s = Thread::MUTEX; t.waitObj = m; t.granted = false; schedule(s, false); return; } t.granted = false; t.notified = false; so.owner = s.cur; acquire(s, m); advance(s); return; }
    t.granted = false; if (so.owner != s.cur) { report(s, "ub", "wait without holding the mutex"); throw PathEnd{"violated"}; }
    if (s.spurious < (int)O.spurious) { State *n = cloneState(s); n->spurious++; recordChoice(*n, "spurious", 1, 2, 's'); auto &nt = n->th[n->cur]; { auto &no = n->sync[m]; vcJoin(no.vc, nt.vc); nt.vc[n->cur]++; no.owner = -1; } nt.s = Thread::MUTEX; nt.waitObj = m; nt.notified = true; schedule(*n, false); work.push_back(n); recordChoice(s, "spurious", 0, 2, 's'); }
    release(s, m); s.sync[m].owner = -1; auto &t2 = s.th[s.cur]; t2.s = Thread::CV; t2.waitObj = c; t2.cvSeq = m; schedule(s, false); });
  auto notify = [](bool all) { return [all](State &s, Inst &d) { u64 c = argC(s, d, 0); vector<int> w; for (int i = 0; i < (int)s.th.size(); i++) if (s.th[i].s == Thread::CV && s.th[i].waitObj == c) w.push_back(i);
    auto wake = [](State &x, int i) { auto &t = x.th[i]; t.s = Thread::MUTEX; t.waitObj = t.cvSeq; t.notified = true; };
    if (all) for (int i : w) wake(s, i); else if (w.size() == 1) wake(s, w[0]); else if (w.size() > 1) { for (size_t k = 1; k < w.size(); k++) { State *n = cloneState(s); recordChoice(*n, "notify", k, w.size(), 's'); wake(*n, w[k]); advance(*n); work.push_back(n); } recordChoice(s, "notify", 0, w.size(), 's'); wake(s, w[0]); }
    advance(s); }; };
  def("_ZNSt18condition_variable10notify_oneEv", notify(false)); def("_ZNSt18condition_variable10notify_allEv", notify(true));
  def("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", [](State &s, Inst &d) {
    u64 th = argC(s, d, 0), up = argC(s, d, 1); u64 st = rd64(s, up); u64 off; Obj *o = findObj(s, up, 8, off, true); storeAt(s, o, off, Val(0), 64); int id = s.th.size(); if (id >= 24) throw Unsupported{"more than 23 threads"};
    for (auto &t : s.th) t.vc.resize(id + 1); Thread n; n.vc = s.th[s.cur].vc; n.vc.resize(id + 1); n.vc[id] = 1; s.th[s.cur].vc[s.cur]++; o = findObj(s, th, 8, off, true); storeAt(s, o, off, Val(id + 1), 64); advance(s);
    s.th.push_back(n); nThreadsMax = std::max<u64>(nThreadsMax, s.th.size()); int save = s.cur; s.cur = id; Function *F = M->getFunction("symx_thread_main"); if (!F) throw Unsupported{"symx_thread_main"}; pushCall(s, fiOf(F), {Val(st)}); s.cur = save; });
  def("_ZNSt6thread4joinEv", [](State &s, Inst &d) { u64 th = argC(s, d, 0); u64 tid = rd64(s, th); if (!tid) terminateV(s, "join of non-joinable thread"); auto &t = s.th[s.cur]; t.granted = false; if (s.th[tid - 1].s != Thread::DONE) { t.s = Thread::JOIN; t.joinTid = tid - 1; schedule(s, false); return; } vcJoin(t.vc, s.th[tid - 1].vc); u64 off; Obj *o = findObj(s, th, 8, off, true); storeAt(s, o, off, Val(0), 64); advance(s); });
  def("_ZNSt6thread20hardware_concurrencyEv", [](State &s, Inst &d) { ret(s, Val(2)); });
  def("pthread_self", [](State &s, Inst &d) { ret(s, Val(s.cur + 1)); });
  def("sched_yield", [](State &s, Inst &d) { ret(s, Val(0)); });
}

// ------------------------------------------------------------------ main step
static void step(State &s) {
  Thread &t = s.th[s.cur]; Frame &f = t.st.back(); Inst &d = f.f->bb[f.bb][f.ip]; s.steps++; nSteps++;
  switch (d.opc) {
    case Instruction::Br: {
      if (d.b1 < 0) { enterBlock(s, f, d.b0, f.bb); return; }
      const Val &c = getv(f, d.o[0]); if (!c.e) { enterBlock(s, f, (c.c & 1) ? d.b0 : d.b1, f.bb); return; }
      E ce = c.e; int k = known(s, ce); if (k < 0 && O.resolveSel && O.merge && !f.f->noMerge && s.wit && mergeable(f.f, f.bb)) k = determined(s, ce); if (k >= 0) { enterBlock(s, f, k ? d.b0 : d.b1, f.bb); return; }
      if (tryMerge(s, f, d)) return;
      Frame &ff = s.th[s.cur].st.back(); bool r = decide(s, ce); enterBlock(s, ff, r ? d.b0 : d.b1, ff.bb); return; }
    case Instruction::Switch: {
      Val v = getv(f, d.o[0]); unsigned w = wOf(d.I->getOperand(0)->getType());
      if (!v.e) { for (auto &c : d.cases) if ((u64)c.first == v.c) { enterBlock(s, f, c.second, f.bb); return; } enterBlock(s, f, d.b0, f.bb); return; }
      if (tryMerge(s, f, d)) return;
      Frame &ff = s.th[s.cur].st.back(); std::map<int, E> tg; E rest = mkBool(true); for (auto &c : d.cases) { E e = mkBin(EQ, v.e, mkConst(c.first, w)); auto it = tg.find(c.second); if (it == tg.end()) tg[c.second] = e; else it->second = mkOr(it->second, e); rest = mkAnd(rest, mkNot(e)); }
      for (auto &x : tg) if (x.first != d.b0) if (decide(s, x.second)) { enterBlock(s, ff, x.first, ff.bb); return; }
      enterBlock(s, ff, d.b0, ff.bb); return; }
    case Instruction::Ret: {
      Val v; if (!d.o.empty()) v = getv(f, d.o[0]); killFrame(s, f); t.st.pop_back();
      if (t.st.empty()) { t.s = Thread::DONE; if (s.cur == 0) throw PathEnd{"done"}; schedule(s, false); return; }
      setRet(s, v); advance(s); return; }
    case Instruction::Unreachable: report(s, "ub", "unreachable code reached (undefined behaviour)"); throw PathEnd{"violated"};
    case Instruction::Resume: { Exc e = t.cur; const Val &v = getv(f, d.o[0]); u64 o = conc(s, v.agg->v[0]); if (o != e.obj) { for (auto &c : t.caught) if (c.obj == o) e = c; } unwind(s, e); return; }
    case Instruction::Alloca: { u64 n = conc(s, getv(f, d.o[0])); u64 a = allocObj(s, n * d.size, Obj::STACK, "stack", true); Frame &ff = s.th[s.cur].st.back(); ff.allocas.push_back(a); ff.r[d.dst] = Val(a); ff.ip++; return; }
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: {
      auto *a = cast<AtomicRMWInst>(d.I); Val p = getv(f, d.o[0]); u64 ad = conc(s, p); Frame &ff = s.th[s.cur].st.back(); u64 off; Obj *o = findObj(s, ad, d.w / 8, off, true); Val old = loadAt(s, o, off, d.w); E x = toE(old, d.w), y = gete(ff, d.o[1], d.w), r;
      switch (a->getOperation()) { case AtomicRMWInst::Add: r = mkBin(ADD, x, y); break; case AtomicRMWInst::Sub: r = mkBin(SUB, x, y); break; case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Or: r = mkBin(OR, x, y); break; case AtomicRMWInst::And: r = mkBin(AND, x, y); break; default: throw Unsupported{"atomicrmw"}; }
      if (multi(s)) { acquire(s, ad); release(s, ad); } storeAt(s, s.mem.get(o->id), off, fromE(r), d.w); ff.r[d.dst] = old; ff.ip++; return; }
    case Instruction::AtomicCmpXchg: {
      u64 ad = conc(s, getv(f, d.o[0])); Frame &ff = s.th[s.cur].st.back(); unsigned w = wOf(d.I->getOperand(1)->getType()); u64 off; Obj *o = findObj(s, ad, w / 8, off, true); Val old = loadAt(s, o, off, w); E eq = mkBin(EQ, toE(old, w), gete(ff, d.o[1], w)); if (multi(s)) { acquire(s, ad); release(s, ad); } storeAt(s, s.mem.get(o->id), off, iteVal(eq, getv(ff, d.o[2]), old, w), w); vector<Val> v; v.push_back(old); v.push_back(fromE(eq)); ff.r[d.dst] = mkAgg(v); ff.ip++; return; }
    case Instruction::VAArg: throw Unsupported{"va_arg"};
    case Instruction::Call: case Instruction::Invoke: break;
    case Instruction::Load: if (multi(s) && cast<LoadInst>(d.I)->isAtomic()) { u64 ad = conc(s, getv(f, d.o[0])); acquire(s, ad); u64 off; Obj *o = findObj(s, ad, (d.w + 7) / 8, off, false); Frame &ff = s.th[s.cur].st.back(); ff.r[d.dst] = loadAt(s, o, off, d.w); ff.ip++; return; } // fallthrough
    default: { if (!evalPure(s, f, d, nullptr)) throw Unsupported{string("instruction ") + d.I->getOpcodeName()}; Frame &ff = s.th[s.cur].st.back(); ff.ip++; return; }
  }
  // calls
  if (d.intr) {
    if (d.opc == Instruction::Call && evalPure(s, f, d, nullptr)) { s.th[s.cur].st.back().ip++; return; }
    switch (d.intr) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = argC(s, d, 2), a = argC(s, d, 0), b = argC(s, d, 1); copyMem(s, a, b, n); advance(s); return; }
      case Intrinsic::memset: { u64 n = argC(s, d, 2), a = argC(s, d, 0); setMem(s, a, arg(s, d, 1), n); advance(s); return; }
      case Intrinsic::eh_typeid_for: { u64 ti = argC(s, d, 0); ret(s, Val(typeIdOf(ti))); return; }
      case Intrinsic::trap: terminateV(s, "trap"); return;
      case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::log2: case Intrinsic::log10: { string n = d.intr == Intrinsic::pow ? "pow" : d.intr == Intrinsic::exp ? "exp" : d.intr == Intrinsic::log ? "log" : d.intr == Intrinsic::sin ? "sin" : d.intr == Intrinsic::cos ? "cos" : d.intr == Intrinsic::log2 ? "log2" : "log10"; if (d.w == 32) n += "f"; int b = builtinOf(n); if (!b) throw Unsupported{n}; bfs[b - 1].second(s, d); return; }
      default: throw Unsupported{"intrinsic " + d.callee->getName().str()}; } }
  if (d.bi) { bfs[d.bi - 1].second(s, d); return; }
  FuncInfo *fi = d.fi; size_t n = d.o.size();
  if (!fi) { const Val &fp = getv(f, d.o[n - 1]); u64 a = conc(s, fp); n--; auto it = funcByAddr.find(a); if (it == funcByAddr.end()) { report(s, "memory", a < 4096 ? "call through null pointer" : "call through invalid pointer"); throw PathEnd{"violated"}; } fi = it->second; int b = builtinOf(fi->name); if (b) { bfs[b - 1].second(s, d); return; } }
  vector<Val> args; args.reserve(n); { Frame &ff = s.th[s.cur].st.back(); for (size_t i = 0; i < n; i++) args.push_back(getv(ff, d.o[i])); }
  pushCall(s, fi, std::move(args));
}

static void endPath(State &s, const string &why) {
  if (why == "done" || why == "exit") { nPaths++; nStates++;
    if (s.wit && traceFiles.size() < O.traces) { // spread the traces over the run: keep the first ones and then every 2^k-th
      string fn = O.out + "/trace" + std::to_string(traceFiles.size()) + ".txt"; std::ofstream o(fn); o << "entry " << O.entry << "\npreempt " << O.preempt << "\nspurious " << O.spurious << "\n" << dumpInputs(s, true); traceFiles.push_back(fn); }
    else if (s.wit && O.traces && (nPaths & (nPaths - 1)) == 0) { string fn = traceFiles[rng() % traceFiles.size()]; std::ofstream o(fn); o << "entry " << O.entry << "\npreempt " << O.preempt << "\nspurious " << O.spurious << "\n" << dumpInputs(s, true); } }
  else nStates++;
  if (O.dumpPaths) { fprintf(stderr, "path %s steps=%llu pc=%zu\n", why.c_str(), (unsigned long long)s.steps, s.pc.size()); if (getenv("SYMX_PC")) for (E c : s.pc) fprintf(stderr, "   %s\n", str(c, 5).c_str()); }
}
static size_t rssMB() { FILE *f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return (size_t)b * 4096 / 1048576; }
static void runPath(State *sp) {
  cur = sp; State &s = *sp; string why;
  try {
    for (;;) { step(s); if (s.steps > O.maxSteps) { inconclusive("step bound per path reached"); why = "bound"; break; } if ((nSteps & 0xfff) == 0 && now() - tStart > O.timeLimit) { inconclusive("time limit reached"); why = "time"; break; } }
  } catch (PathEnd &e) { why = e.why; } catch (Unsupported &u) { string w = "not encodable: " + u.what; inconclusive(w); if (O.verbose) fprintf(stderr, "%s at %s\n", w.c_str(), where(s).c_str()); why = "unsupported"; } catch (MergeAbort &) { inconclusive("merge abort outside region"); why = "merge"; }
  inMerge = false; endPath(s, why); if (evc.ver == s.asVer) evc.ver = 0; delete sp; }

static std::atomic<bool> finished{false};
static void writeResult() {
  if (forkDbg) { vector<std::pair<u64, string>> v; for (auto &k : forkAt) v.push_back({k.second, k.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 15; i++) fprintf(stderr, "FORK %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  if (finished.exchange(true)) for (;;) pause();
  // ---- functions encoded (by debug information of the executed blocks)
  std::map<string, std::pair<string, u64>> fns;
  for (auto &k : funcs) { FuncInfo *fi = k.second; if (!fi->decoded) continue; for (size_t b = 0; b < fi->bb.size(); b++) if (fi->executed[b]) for (auto &d : fi->bb[b]) if (auto dl = d.I->getDebugLoc()) { auto *sc = dl->getScope(); if (!sc) continue; auto *sp = sc->getSubprogram(); if (!sp) continue; string fl = sp->getFile() ? (sp->getDirectory() + "/" + sp->getFilename()).str() : ""; if (sp->getFilename().starts_with("/")) fl = sp->getFilename().str(); string n = demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()); auto &e = fns[n]; e.first = fl; e.second++; } }
  string fn = O.out + "/result.json"; std::ofstream o(fn);
  o << "{\n \"entry\": " << jstr(O.entry) << ",\n \"paths\": " << nPaths << ", \"ended\": " << nStates << ", \"killed\": " << nKilled << ", \"forks\": " << nForks << ", \"merges\": " << nMerges << ", \"merge_aborts\": " << nMergeAborts << ", \"steps\": " << nSteps << ", \"asserts\": " << nAsserts << ", \"sched_points\": " << nSched << ", \"max_threads\": " << nThreadsMax << ",\n";
  auto &q = S->st; o << " \"queries\": " << q.queries << ", \"assert_queries\": " << q.assertQueries << ", \"sat\": " << q.sat << ", \"unsat\": " << q.unsat << ", \"unknown\": " << q.unknown << ", \"cache_hits\": " << q.cacheHits << ", \"fallback\": " << q.fallback << ", \"cross_checked\": " << q.crossChecked << ", \"solver_time\": " << q.time << ", \"max_query_time\": " << q.maxTime << ", \"exprs\": " << exprCount() << ", \"wall\": " << now() - tStart << ", \"rss_mb\": " << rssMB() << ",\n";
  o << " \"relaxed\": " << (O.relaxed ? "true" : "false") << ",\n \"violations\": ["; for (size_t i = 0; i < vios.size(); i++) o << (i ? ",\n  " : "\n  ") << "{\"kind\": " << jstr(vios[i].kind) << ", \"msg\": " << jstr(vios[i].msg) << ", \"where\": " << jstr(vios[i].where) << ", \"file\": " << jstr(vios[i].file) << "}";
  o << "],\n \"incomplete\": {"; bool fst = true; for (auto &k : incompl) { o << (fst ? "" : ", ") << jstr(k.first) << ": " << k.second; fst = false; }
  o << "},\n \"reached\": ["; fst = true; for (auto &k : reachedAll) { o << (fst ? "" : ", ") << jstr(k); fst = false; }
  o << "],\n \"assertions\": {"; fst = true; for (auto &k : assertCount) { o << (fst ? "" : ", ") << jstr(k.first) << ": " << k.second; fst = false; }
  o << "},\n \"traces\": ["; fst = true; for (auto &k : traceFiles) { o << (fst ? "" : ", ") << jstr(k); fst = false; }
  o << "],\n \"functions\": ["; fst = true; for (auto &k : fns) if (k.second.first.compare(0, 5, "/usr/") != 0) { o << (fst ? "\n  " : ",\n  ") << "[" << jstr(k.first) << ", " << jstr(k.second.first) << ", " << k.second.second << "]"; fst = false; }
  o << "]\n}\n"; o.close(); fflush(stdout); 
}
static void *watchdog(void *) { for (;;) { usleep(200000); if (now() - tStart > O.timeLimit + 20 && !finished) { inconclusive("time limit reached inside a solver call"); writeResult(); _exit(0); } } }
static void *mainThread(void *) {
  tStart = now();
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(O.bc, err, ctx); if (!mod) { err.print("symx", errs()); exit(3); }
  M = mod.get(); DL = &M->getDataLayout(); UNINIT = mkVar("UNINIT", 8); defAll();
  State *st = new State; st->asVer = ++verCtr; st->th.resize(1); st->th[0].vc = {1};
  try {
    for (auto &F : *M) { if (F.isIntrinsic()) continue; Obj *o = st->mem.alloc(16, Obj::FUNC); o->name = F.getName().str(); gaddr[&F] = objAddr(o->id); funcByAddr[objAddr(o->id)] = fiOf(&F); addrName[objAddr(o->id)] = o->name; }
    for (auto &G : M->globals()) { if (G.getName().starts_with("llvm.")) continue; u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 16; if (G.isDeclaration()) sz = std::max<u64>(sz, 64); Obj *o = st->mem.alloc(sz, Obj::GLOBAL); o->name = G.getName().str(); o->b.resize(sz); gaddr[&G] = objAddr(o->id); addrName[objAddr(o->id)] = o->name; }
    for (auto &G : M->globals()) { if (G.getName().starts_with("llvm.")) continue; u64 id; int64_t off; objOf(gaddr[&G], id, off); Obj *o = st->mem.mut(id); if (G.hasInitializer()) writeConst(o, 0, G.getInitializer()); if (G.isConstant() && !G.isDeclaration()) o->ro = true; }
    // static constructors
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) { auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()); vector<std::pair<u64, Function *>> cs; if (ca) for (auto &o : ca->operands()) { auto *cst = cast<ConstantStruct>(o); if (auto *F = dyn_cast<Function>(cst->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cst->getOperand(0))->getZExtValue(), F}); }
      std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &c : cs) { pushCall(*st, fiOf(c.second), {}); try { for (;;) step(*st); } catch (PathEnd &e) { if (e.why != "done") { fprintf(stderr, "static constructor failed: %s\n", e.why.c_str()); exit(3); } } st->th[0].s = Thread::RUN; } }
    Function *E_ = M->getFunction(O.entry); if (!E_ || E_->isDeclaration()) { fprintf(stderr, "no entry %s\n", O.entry.c_str()); exit(3); }
    st->steps = 0; pushCall(*st, fiOf(E_), {});
  } catch (Unsupported &u) { fprintf(stderr, "setup: %s\n", u.what.c_str()); exit(3); }
  { pthread_t w; pthread_create(&w, nullptr, watchdog, nullptr); }
  work.push_back(st);
  while (!work.empty()) {
    State *s = work.back(); work.pop_back();
    if (now() - tStart > O.timeLimit) { inconclusive("time limit reached: states not explored"); incompl["time limit reached: states not explored"] += work.size(); break; }
    if (nPaths >= O.maxPaths) { inconclusive("path limit reached"); break; }
    if ((nPaths & 15) == 0 && rssMB() > O.memMB) { inconclusive("memory limit reached: states not explored"); break; }
    runPath(s); }
  writeResult(); _exit(0);
}
int main(int argc, char **argv) {
  SolverOpts so;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") O.entry = nx(); else if (a == "--out") O.out = nx(); else if (a == "--time") O.timeLimit = stod(nx()); else if (a == "--max-steps") O.maxSteps = stoull(nx()); else if (a == "--max-paths") O.maxPaths = stoull(nx()); else if (a == "--preempt") O.preempt = stoi(nx()); else if (a == "--no-merge") O.merge = false; else if (a == "--nomerge") O.noMerge = nx(); else if (a == "--traces") O.traces = stoul(nx()); else if (a == "--relaxed") O.relaxed = true; else if (a == "--lazy") O.lazy = true; else if (a == "--resolve-selects") O.resolveSel = true; else if (a == "--seed") O.seed = stoul(nx()); else if (a == "-v") O.verbose = true; else if (a == "--timeout-ms") so.timeoutMs = stoul(nx()); else if (a == "--fallback-ms") so.fallbackMs = stoul(nx()); else if (a == "--cross") so.cross = true; else if (a == "--ce-search") O.ceSearch = stod(nx()); else if (a == "--spurious") O.spurious = stoul(nx()); else if (a == "--paths") O.dumpPaths = true; else if (a == "--mem") O.memMB = stoul(nx()); else if (a == "--merge-limit") O.mergeLimit = stoul(nx()); else if (a[0] == '-') { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; } else O.bc = a; }
  so.relaxed = O.relaxed; S = new Solver; S->opt = so; rng.seed(O.seed);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ull << 30); pthread_t th; if (pthread_create(&th, &at, mainThread, nullptr)) { perror("thread"); return 3; } pthread_join(th, nullptr); return 0;
}
