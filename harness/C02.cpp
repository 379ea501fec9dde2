// C02: level lookup returns the first level not less than the value, inside the table.
#include <algorithm>
#include <bit>
#include "sym.h"
#include "dictionary.h"
using dyscostman::Dictionary;
static bool finite(float f) { return (bits_of(f) & 0x7f800000u) != 0x7f800000u; }
static float anyFinite(const char *n) { return sym_float(n, 0, 0, 0); }
static const float *lookup(const Dictionary &d, unsigned v, float x) {
  switch (v) {
    case 0: return d.lower_bound(x);
    case 1: return d.lower_bound_branchless_two_minimum(x);
    case 2: return d.lower_bound_branchless(x);
    case 3: return d.lower_bound_two_minimum(x);
    case 4: return d.lower_bound_one_minimum(x);
    default: return d.lower_bound_slow(x);
  }
}
static const size_t minSize[6] = {2, 2, 1, 2, 1, 1};
#ifndef MAXN
#define MAXN 12
#endif
// small tables filled through the public interface, ties allowed
extern "C" void c02_small() {
  unsigned v = (unsigned)sym_choice(6, "variant"); size_t n = sym_choice(MAXN, "size") + 1; if (n < minSize[v]) sym_assume(false);
  Dictionary d(n); size_t k = 0; for (float &f : d) { f = anyFinite("level"); if (k) sym_assume(d.value(k - 1) <= f); ++k; }
  sym_assert(k == n, "iteration covers the table");
  float x = anyFinite("value"); const float *r = lookup(d, v, x); size_t pos = r - d.begin();
  sym_assert(pos <= n, "position inside the table or one past the end");
  size_t expect = n; for (size_t i = n; i-- > 0;) if (!(d.value(i) < x)) expect = i;
  // the variants that probe with <= may return any of several equal levels only if the value equals them
  if (v < 3) sym_assert(pos == expect, "first level not less than the value");
  else sym_assert(pos == expect || (pos < n && d.value(pos) == x), "a level equal to the value, or the first level above it");
  sym_log("pos", pos); sym_reach("small");
}
// tables of every size: any number of levels below the value, the others not below. A search that only compares
// levels with the value sees nothing else of a sorted table.
#ifndef ALLN
#define ALLN 2
#endif
#ifndef SIZES
#define SIZES 4095
#endif
static void big(unsigned v) {
  static const uint64_t sizes[] = {SIZES}; const uint64_t ns = sizeof(sizes) / sizeof(sizes[0]), c = sym_choice(ALLN - 1 + ns, "size"), n = c < ns ? sizes[c] : c - ns + 2;
  const uint64_t below = sym_range(0, 65535, "below"); sym_assume(below <= n);   // number of levels below the value
  static const float pairs[4][3] = {{-1.0f, 0.0f, 0.0f}, {-3.4028234e38f, -7.5f, -7.25f}, {0.1f, 1e-3f + 0.1f, 3.4028234e38f}, {-2.0f, -0.0f, 0.0f}}; const float *t = pairs[sym_choice(4, "values")]; const float val[2] = {t[0], t[2]}, x = t[1];
  const float *tab = (const float *)sym_step_table(32, n, 65535, 2, &below, val, "levels");
  sym_plant((void *)tab); Dictionary d(n); sym_assert(d.begin() == tab && d.size() == n, "table in place");
  const float *r = lookup(d, v, x); uint64_t pos = r - d.begin();
  sym_assert(pos <= n, "position inside the table or one past the end");
  sym_assert(pos == below, "first level not less than the value");
  sym_log("pos", pos); sym_reach("big"); sym_end();   // the table is not owned by the dictionary
}
extern "C" void c02_big() { big(0); }
extern "C" void c02_big_branchless() { big(2); }
