#ifndef _GLIBCXX_BITS_UNIFORM_INT_DIST_H
#define _GLIBCXX_BITS_UNIFORM_INT_DIST_H 1
// Part of the stand-in for <random>: every number drawn is an arbitrary value of its range (symbolic), or, when
// verifDither is set, comes from that function.
#include <cstdint>
#include <limits>
#include <cstddef>
#include <type_traits>
extern "C" uint64_t sym_range(uint64_t lo, uint64_t hi, const char *name);
extern uint64_t (*verifDither)(uint64_t lo, uint64_t hi);
namespace std {
inline uint64_t verif_draw(uint64_t lo, uint64_t hi) { return verifDither ? verifDither(lo, hi) : sym_range(lo, hi, "random"); }
template <typename T = int> struct uniform_int_distribution {
  typedef T result_type; struct param_type { T l, h; param_type(T a = 0, T b = numeric_limits<T>::max()) : l(a), h(b) {} }; T lo, hi; explicit uniform_int_distribution(T a = 0, T b = numeric_limits<T>::max()) : lo(a), hi(b) {}
  T a() const { return lo; } T b() const { return hi; } T min() const { return lo; } T max() const { return hi; } void reset() {}
  template <typename G> T operator()(G &, const param_type &p) { return (T)verif_draw((uint64_t)p.l, (uint64_t)p.h); }
  template <typename G> T operator()(G &) { return (T)verif_draw((uint64_t)lo, (uint64_t)hi); } };
}
#endif
