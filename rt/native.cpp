// Native side of the harness interface: replays a recorded input file against the real code.
// Exit codes: 0 completed, 1 assertion violated, 4 replay diverged, 5 assumption not met, 6 observed value differs.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <exception>
#include <new>
struct Rec { char kind; std::string name; unsigned w; std::vector<unsigned long long> v; bool any = false; };
static std::vector<Rec> ins, logs; static size_t pi = 0, pl = 0; static bool checkLogs = false; static long gLive = 0; std::string symEntry; int symPreempt = 0; unsigned symSpurious = 0;
[[noreturn]] static void fin(int code, const std::string &m) { fprintf(stdout, "%s\n", m.c_str()); fflush(stdout); _exit(code); }
Rec *symNext(char kind, const char *name) {
  if (pi >= ins.size()) { if (kind == 's') return nullptr; fin(4, std::string("DIVERGED: no more inputs, wanted ") + name); }
  Rec &r = ins[pi++]; if (r.kind != kind || (r.name != name)) fin(4, std::string("DIVERGED: wanted ") + name + " got " + r.name); return &r; }
bool symPeekSched() { return pi < ins.size() && ins[pi].kind == 's'; }
[[noreturn]] void symFin(int code, const char *m) { fin(code, m); }
static Rec *get(char kind, const char *name) { return symNext(kind, name); }
static volatile bool expectTerm = false; static thread_local void *planted = nullptr;
void *operator new(size_t n) { if (planted) { void *p = planted; planted = nullptr; return p; } void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" {
uint64_t sym_make(unsigned, const char *n) { return get('i', n)->v[0]; }
uint64_t sym_range(uint64_t, uint64_t, const char *n) { return get('i', n)->v[0]; }
float sym_float(const char *n, double, double, unsigned) { uint32_t u = (uint32_t)get('f', n)->v[0]; float f; memcpy(&f, &u, 4); return f; }
double sym_double(const char *n, double, double, unsigned) { uint64_t u = get('f', n)->v[0]; double f; memcpy(&f, &u, 8); return f; }
unsigned long sym_choice(unsigned long, const char *n) { return get('c', n)->v[0]; }
void sym_assume(bool c) { if (!c) fin(5, "ASSUME not satisfied"); }
void sym_assert(bool c, const char *m) { if (!c) fin(1, std::string("ASSERT ") + m); }
void sym_reach(const char *) {}
void sym_log(const char *n, uint64_t v) { if (!checkLogs) return; if (pl >= logs.size()) fin(6, std::string("LOG unexpected ") + n); Rec &r = logs[pl++]; if (r.name != n || (!r.any && r.v[0] != v)) { char b[300]; snprintf(b, 300, "LOG differs: %s native %llx engine %s %llx", n, (unsigned long long)v, r.name.c_str(), r.any ? 0ull : r.v[0]); fin(6, b); } }
uint64_t sym_concretize(uint64_t v) { return v; }
bool sym_decide(bool c) { return c; }
int sym_is_engine(void) { return 0; }
uint64_t sym_heap_live(void) { return 0; }
bool sym_is_init(const void *p, size_t n) { unsigned long long h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ull; printf("INIT %llu\n", h); return true; }   // compared between runs with different fill bytes
void *sym_sorted_table(unsigned bits, uint64_t n, uint64_t, const char *name) {
  Rec *r = get('a', name); char *p = (char *)malloc(n * (bits / 8)); for (uint64_t i = 0; i < n; i++) memcpy(p + i * (bits / 8), &r->v[i], bits / 8); return p; }
void *sym_step_table(unsigned bits, uint64_t n, uint64_t, uint64_t k, const uint64_t *t, const void *v, const char *) { unsigned w = bits / 8; char *p = (char *)malloc(n * w); for (uint64_t i = 0; i < n; i++) { uint64_t j = 0; while (j + 1 < k && !(i < t[j])) j++; memcpy(p + i * w, (const char *)v + j * w, w); } return p; }
void sym_plant(void *p) { planted = p; }
void sym_expect_terminate(bool e) { expectTerm = e; }
void sym_end(void) { fin(0, "DONE"); }
}
struct EntryReg { const char *n; void (*f)(); };
extern EntryReg symEntries[]; extern int symEntryCount;
int main(int argc, char **argv) {
  if (argc < 2) return 3; FILE *f = fopen(argv[1], "r"); if (!f) return 3; char *line = nullptr; size_t cap = 0; checkLogs = argc > 2 && !strcmp(argv[2], "logs");   // no streams here: harnesses may replace them
  while (getline(&line, &cap, f) >= 0) {
    char *sv = nullptr; const char *k = strtok_r(line, " \t\n", &sv), *t = nullptr; auto next = [&] { return t = strtok_r(nullptr, " \t\n", &sv); }; if (!k) continue; const std::string key = k;
    if (key == "entry") { if (next()) symEntry = t; continue; } if (key == "preempt") { if (next()) symPreempt = atoi(t); continue; } if (key == "spurious") { if (next()) symSpurious = atoi(t); continue; } if (key.size() != 1 || !strchr("iscfal", key[0])) continue;
    Rec r; r.kind = key[0]; r.w = 0; if (next()) r.name = t; if (next()) r.w = atoi(t); if (key == "a") next(); while (next()) { if (!strcmp(t, "#")) break; if (!strcmp(t, "?")) { r.any = true; r.v.push_back(0); continue; } r.v.push_back(strtoull(t, nullptr, 16)); } if (r.v.empty()) r.v.push_back(0); (key == "l" ? logs : ins).push_back(r); }
  fclose(f); free(line);
  std::set_terminate([] { if (expectTerm) fin(0, "DONE"); auto e = std::current_exception(); if (e) { try { std::rethrow_exception(e); } catch (std::exception &x) { fin(1, std::string("TERMINATE uncaught exception: ") + x.what()); } catch (...) { fin(1, "TERMINATE uncaught exception"); } } fin(1, "TERMINATE"); });
  for (int i = 0; i < symEntryCount; i++) if (symEntry == symEntries[i].n) { symEntries[i].f(); if (checkLogs && pl != logs.size()) fin(6, "LOG missing"); fin(0, "DONE"); }
  printf("no entry %s\n", symEntry.c_str()); return 3; }
