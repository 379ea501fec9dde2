// Harness interface. The same harness source is executed symbolically by symx (on LLVM IR) and
// compiled natively to replay concrete inputs against the real code.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_make(unsigned bits, const char *name);                         // any value of that many bits
uint64_t sym_range(uint64_t lo, uint64_t hi, const char *name);             // any value in [lo,hi]
// floating point: zero/magnitude in [minMag,maxMag] (0: no limit); flags below
float sym_float(const char *name, double minMag, double maxMag, unsigned flags);
double sym_double(const char *name, double minMag, double maxMag, unsigned flags);
unsigned long sym_choice(unsigned long n, const char *name);                // forks: one path per value < n
void sym_assume(bool c);
void sym_assert(bool c, const char *msg);
void sym_reach(const char *label);                                          // reachability witness
void sym_log(const char *name, uint64_t v);                                 // compared between engine and native replay
uint64_t sym_concretize(uint64_t v);
bool sym_decide(bool c);                                                    // force a fork on c
int sym_is_engine(void);
uint64_t sym_heap_live(void);
bool sym_is_init(const void *p, size_t n);                                  // natively: true
void *sym_sorted_table(unsigned bits, uint64_t n, uint64_t maxN, const char *name);  // ascending finite values
// table of n elements (n may be symbolic, at most maxN): element i is values[j] for the first j with i < thresholds[j] (values[k-1] if none)
void *sym_step_table(unsigned bits, uint64_t n, uint64_t maxN, uint64_t k, const uint64_t *thresholds, const void *values, const char *name);
void sym_plant(void *p);                                                    // the next operator new returns p
void sym_end(void);
void sym_expect_terminate(bool e);                                           // while set, std::terminate ends the path as accepted
}
enum { SYM_NONFINITE = 1, SYM_ZERO = 2, SYM_NONNEG = 4 };
static inline uint32_t sym_u32(const char *n) { return (uint32_t)sym_make(32, n); }
static inline uint64_t sym_u64(const char *n) { return sym_make(64, n); }
static inline uint8_t sym_u8(const char *n) { return (uint8_t)sym_make(8, n); }
static inline uint32_t bits_of(float f) { uint32_t u; __builtin_memcpy(&u, &f, 4); return u; }
static inline uint64_t bits_of(double f) { uint64_t u; __builtin_memcpy(&u, &f, 8); return u; }
