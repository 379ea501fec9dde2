// symx: path state of the symbolic executor (memory objects, frames, threads).
#pragma once
#include "expr.h"
#include "solver.h"
#include <memory>
#include <set>
#include <unordered_set>

struct Val;
struct Agg { int rc = 0; std::vector<Val> v; };
struct AggP {
  Agg *p = nullptr;
  AggP() {} AggP(Agg *q); AggP(const AggP &o); AggP(AggP &&o) : p(o.p) { o.p = nullptr; }
  AggP &operator=(const AggP &o); AggP &operator=(AggP &&o) { std::swap(p, o.p); return *this; }
  ~AggP() { drop(); }
  inline void drop();
  Agg *operator->() const { return p; } explicit operator bool() const { return p; }
};
struct Val { u64 c = 0; E e = nullptr; AggP agg; Val() {} Val(u64 x) : c(x) {} };
inline AggP::AggP(Agg *q) : p(q) { if (p) p->rc++; }
inline AggP::AggP(const AggP &o) : p(o.p) { if (p) p->rc++; }
inline AggP &AggP::operator=(const AggP &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
inline void AggP::drop() { if (p && --p->rc == 0) delete p; p = nullptr; }

inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
inline Val fromE(E e) { Val v; if (isC(e) && e->w <= 64) v.c = (u64)e->c; else v.e = e; return v; }

struct SymByte { E e = nullptr; unsigned idx = 0; };
extern E UNINIT;
struct RaceCell { uint32_t wt = 255, wc = 0; uint32_t rc[24] = {0}; };
struct Obj {
  int rc = 0;
  u64 id = 0, size = 0; E symSize = nullptr;
  enum Kind : uint8_t { HEAP, STACK, GLOBAL, FUNC } kind = HEAP;
  bool alive = true, ro = false; uint8_t allocFn = 0; // 1 malloc 2 new 3 new[]
  bool shared = true;
  int arr = -1; unsigned arrW = 0;   // array-backed
  std::vector<uint8_t> b; std::vector<SymByte> s;
  std::vector<RaceCell> race;
  std::string name;
};
struct ObjP {
  Obj *p = nullptr; ObjP() {} ObjP(Obj *q) : p(q) { if (p) p->rc++; } ObjP(const ObjP &o) : p(o.p) { if (p) p->rc++; } ObjP(ObjP &&o) : p(o.p) { o.p = nullptr; }
  ObjP &operator=(ObjP o) { std::swap(p, o.p); return *this; } ~ObjP() { if (p && --p->rc == 0) delete p; }
  Obj *operator->() const { return p; }
};
const u64 MEM_BASE = 0x100000000000ull, OBJ_SHIFT = 32, OBJ_OFF = 0x10000000ull;
inline u64 objAddr(u64 id) { return MEM_BASE + (id << OBJ_SHIFT) + OBJ_OFF; }
inline bool objOf(u64 addr, u64 &id, int64_t &off) { if (addr < MEM_BASE) return false; id = (addr - MEM_BASE) >> OBJ_SHIFT; off = (int64_t)((addr - MEM_BASE) & ((1ull << OBJ_SHIFT) - 1)) - (int64_t)OBJ_OFF; return true; }

struct Chunk { int rc = 0; ObjP o[64]; };
struct ChunkP { Chunk *p = nullptr; ChunkP() {} ChunkP(Chunk *q) : p(q) { if (p) p->rc++; } ChunkP(const ChunkP &o) : p(o.p) { if (p) p->rc++; } ChunkP(ChunkP &&o) : p(o.p) { o.p = nullptr; } ChunkP &operator=(ChunkP o) { std::swap(p, o.p); return *this; } ~ChunkP() { if (p && --p->rc == 0) delete p; } };
struct Memory {
  std::vector<ChunkP> ch; u64 n = 1;   // object 0 is never used
  Obj *get(u64 id) { return id < n && (id >> 6) < ch.size() ? ch[id >> 6].p->o[id & 63].p : nullptr; }
  ObjP &slot(u64 id) { ChunkP &c = ch[id >> 6]; if (c.p->rc > 1) { Chunk *k = new Chunk; for (int i = 0; i < 64; i++) k->o[i] = c.p->o[i]; c = ChunkP(k); } return c.p->o[id & 63]; }
  Obj *mut(u64 id) { ObjP &o = slot(id); if (o.p->rc > 1) { Obj *q = new Obj(*o.p); q->rc = 0; o = ObjP(q); } return o.p; }
  Obj *alloc(u64 size, Obj::Kind k) {
    u64 id = n++; while ((id >> 6) >= ch.size()) ch.push_back(ChunkP(new Chunk));
    Obj *o = new Obj; o->id = id; o->size = size; o->kind = k; slot(id) = ObjP(o); return o; }
};
struct FuncInfo;
struct Frame {
  FuncInfo *f = nullptr; int bb = 0, ip = 0, prev = -1; std::vector<Val> r; std::vector<u64> allocas;
  std::vector<Val> varargs;
};
struct Exc { u64 obj = 0, ti = 0; };
struct Thread {
  std::vector<Frame> st; enum S { RUN, MUTEX, CV, JOIN, DONE } s = RUN; u64 waitObj = 0; int joinTid = -1;
  std::vector<Exc> caught;
  Exc cur; std::vector<uint32_t> vc; uint64_t cvSeq = 0; bool notified = false, granted = false;
};
struct SyncObj { std::vector<uint32_t> vc; int owner = -1; int depth = 0; };
struct Input { std::string name; unsigned w; E e; u64 c; char kind; int arr = -1; u64 arrN = 0; };
struct LogE { std::string name; E e; };
struct State {
  Memory mem; std::vector<Thread> th; int cur = 0;
  std::vector<E> pc; std::unordered_set<E> pcSet; bool wit = true; Assignment as; u64 asVer = 0;
  std::vector<Input> inputs; std::vector<LogE> logs;
  std::map<u64, SyncObj> sync; int preempt = 0; u64 steps = 0; unsigned depth = 0; uint64_t seq = 0;
  std::set<std::string> reached; int skipSched = -1; int spurious = 0; u64 planted = 0; bool expectTerm = false;
};
