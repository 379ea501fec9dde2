// C25: UVector against a reference sequence, every operation sequence of a bounded length from every small start state.
#include <cstdlib>
#include <new>
#include <complex>
#include "sym.h"
#include "uvector.h"
using aocommon::UVector;
#ifndef DEPTH
#define DEPTH 2
#endif
static long gAllocs = 0;
// stateful allocator: checks that storage is returned to the allocator it came from, with the size it was asked with
template <typename T, bool Prop> struct Tracking {
  typedef T value_type; typedef std::false_type propagate_on_container_copy_assignment; typedef std::integral_constant<bool, Prop> propagate_on_container_move_assignment, propagate_on_container_swap; typedef std::false_type is_always_equal;
  int id; explicit Tracking(int i = 0) : id(i) {} template <typename U> Tracking(const Tracking<U, Prop> &o) : id(o.id) {}
  T *allocate(size_t n) { size_t *p = (size_t *)malloc(2 * sizeof(size_t) + n * sizeof(T)); p[0] = n; p[1] = (size_t)id; gAllocs++; return (T *)(p + 2); }
  void deallocate(T *q, size_t n) { size_t *p = (size_t *)q - 2; sym_assert(p[0] == n, "storage released with the size it was allocated with"); sym_assert(p[1] == (size_t)id, "storage released by the allocator it came from"); gAllocs--; free(p); }
  size_t max_size() const { return size_t(-1) / sizeof(T); }
  friend bool operator==(const Tracking &a, const Tracking &b) { return a.id == b.id; } friend bool operator!=(const Tracking &a, const Tracking &b) { return a.id != b.id; } };
template <typename T> struct Model {   // reference sequence; unknown elements are unspecified
  T v[64]; bool known[64]; size_t n = 0;
  void insertAt(size_t p, size_t c, const T *src, bool k) { for (size_t i = n; i > p; i--) { v[i - 1 + c] = v[i - 1]; known[i - 1 + c] = known[i - 1]; } for (size_t i = 0; i < c; i++) { if (k) v[p + i] = src[i]; known[p + i] = k; } n += c; }
  void erase(size_t p, size_t c) { for (size_t i = p; i + c < n; i++) { v[i] = v[i + c]; known[i] = known[i + c]; } n -= c; } };
static bool same(unsigned a, unsigned b) { return a == b; }
static unsigned fresh(unsigned) { return sym_u32("element"); }
template <typename V, typename T> static void compare(V &v, const Model<T> &m) {
  sym_assert(v.size() == m.n, "size"); sym_assert(v.size() <= v.capacity(), "size does not exceed capacity"); sym_assert(v.empty() == (m.n == 0), "empty");
  const V &c = v;
  for (size_t i = 0; i < m.n; i++) if (m.known[i]) sym_assert(same(v[i], m.v[i]), "element");
  if (m.n) { if (m.known[0]) sym_assert(same(c.front(), m.v[0]) && same(*c.begin(), m.v[0]) && same(*c.data(), m.v[0]), "front"); if (m.known[m.n - 1]) sym_assert(same(c.back(), m.v[m.n - 1]) && same(*v.rbegin(), m.v[m.n - 1]) && same(c.at(m.n - 1), m.v[m.n - 1]), "back"); }
  sym_assert((size_t)(v.end() - v.begin()) == m.n && (size_t)(c.cend() - c.cbegin()) == m.n && (size_t)(c.rend() - c.rbegin()) == m.n, "iterator range");
  bool thrown = false; try { (void)c.at(m.n); } catch (std::out_of_range &) { thrown = true; } sym_assert(thrown, "at() refuses an index past the end"); }
template <typename T, typename A> static void start(UVector<T, A> *&v, Model<T> &m, int id, const char *what) {
  // sizes 0..2 with 0, 1 or 2 elements of spare capacity
  size_t n = sym_choice(3, what), extra = sym_choice(3, "spare"); T e[8]; for (size_t i = 0; i < n; i++) e[i] = fresh(T());
  v = new UVector<T, A>(A(id)); if (n + extra) v->reserve(n + extra); for (size_t i = 0; i < n; i++) v->push_back(e[i]); m.n = 0; m.insertAt(0, n, e, true); }
template <typename T, typename A> static void op(UVector<T, A> *&v, Model<T> &m, int id) {
  typedef UVector<T, A> V; T e[8]; auto pos = [&]() { return sym_choice(m.n + 1, "position"); }; auto cnt = [&]() { size_t c = sym_choice(4, "count"); return c == 3 ? (size_t)5 : c; };
  auto vals = [&](size_t c) { for (size_t i = 0; i < c; i++) e[i] = fresh(T()); };
  typename V::iterator it = nullptr; size_t p = 0; bool chk = false;
  switch (sym_choice(31, "operation")) {
    case 0: vals(1); v->push_back((const T &)e[0]); m.insertAt(m.n, 1, e, true); break;
    case 1: vals(1); { T t = e[0]; v->push_back(std::move(t)); } m.insertAt(m.n, 1, e, true); break;
    case 2: if (!m.n) sym_end(); v->pop_back(); m.n--; break;
    case 3: p = pos(); vals(1); it = v->insert(v->begin() + p, (const T &)e[0]); chk = true; m.insertAt(p, 1, e, true); break;
    case 4: p = pos(); vals(1); { T t = e[0]; it = v->insert(v->cbegin() + p, std::move(t)); } chk = true; m.insertAt(p, 1, e, true); break;
    case 5: { p = pos(); size_t c = cnt(); vals(1); for (size_t i = 1; i < c; i++) e[i] = e[0]; it = v->insert(v->cbegin() + p, c, (const T &)e[0]); chk = true; m.insertAt(p, c, e, true); break; }
    case 6: { p = pos(); size_t c = cnt(); vals(c); it = v->insert(v->cbegin() + p, e, e + c); chk = true; m.insertAt(p, c, e, true); break; }
    case 7: { p = pos(); vals(2); it = v->insert(v->cbegin() + p, {e[0], e[1]}); chk = true; m.insertAt(p, 2, e, true); break; }
    case 8: { p = pos(); size_t c = cnt(); it = v->insert_uninitialized(v->cbegin() + p, c); chk = true; m.insertAt(p, c, e, false); break; }
    case 9: { if (!m.n) sym_end(); p = sym_choice(m.n, "position"); it = v->erase(v->cbegin() + p); chk = true; m.erase(p, 1); break; }
    case 10: { p = pos(); size_t q = p + sym_choice(m.n - p + 1, "count"); it = v->erase(v->cbegin() + p, v->cbegin() + q); chk = true; m.erase(p, q - p); break; }
    case 11: { size_t c = cnt(); v->resize(c); if (c < m.n) m.n = c; else m.insertAt(m.n, c - m.n, e, false); break; }
    case 12: { size_t c = cnt(); vals(1); for (size_t i = 1; i < 8; i++) e[i] = e[0]; v->resize(c, e[0]); if (c < m.n) m.n = c; else m.insertAt(m.n, c - m.n, e, true); break; }
    case 13: { size_t c = cnt(); v->reserve(c); sym_assert(v->capacity() >= c, "reserved capacity"); break; }
    case 14: v->shrink_to_fit(); sym_assert(v->capacity() == m.n, "shrunk capacity"); break;
    case 15: { size_t c = cnt(); vals(1); for (size_t i = 1; i < c; i++) e[i] = e[0]; v->assign(c, (const T &)e[0]); m.n = 0; m.insertAt(0, c, e, true); break; }
    case 16: { size_t c = cnt(); vals(c); v->assign(e, e + c); m.n = 0; m.insertAt(0, c, e, true); break; }
    case 17: { vals(3); v->assign({e[0], e[1], e[2]}); m.n = 0; m.insertAt(0, 3, e, true); break; }
    case 18: v->clear(); m.n = 0; break;
    case 19: { p = pos(); vals(1); it = v->emplace(v->cbegin() + p, e[0]); chk = true; m.insertAt(p, 1, e, true); break; }
    case 20: { vals(1); T &r = v->emplace_back(e[0]); sym_assert(same(r, e[0]), "emplace_back returns the new element"); m.insertAt(m.n, 1, e, true); break; }
    case 21: { size_t c = cnt(); vals(c); v->push_back(e, e + c); m.insertAt(m.n, c, e, true); break; }
    case 22: { size_t c = cnt(); vals(1); for (size_t i = 1; i < c; i++) e[i] = e[0]; v->push_back(c, (const T &)e[0]); m.insertAt(m.n, c, e, true); break; }
    case 23: { vals(2); v->push_back({e[0], e[1]}); m.insertAt(m.n, 2, e, true); break; }
    case 24: { size_t c = cnt(); v->push_back_uninitialized(c); m.insertAt(m.n, c, e, false); break; }
    case 25: { V *o = new V(*v); compare(*v, m); delete v; v = o; break; }                                          // copy construction
    case 26: { V *o = new V(std::move(*v)); sym_assert(v->size() == 0 && v->capacity() == 0, "moved-from vector is empty"); delete v; v = o; break; }
    case 27: { V *o; Model<T> mo; start<T, A>(o, mo, 1 - id, "other_size"); bool mv = sym_choice(2, "move"); if (mv) *v = std::move(*o); else { *v = *o; compare(*o, mo); } m = mo; if (!mv) compare(*v, m); delete o; break; }   // assignment from an other-allocator vector
    case 28: { V *o; Model<T> mo; start<T, A>(o, mo, id, "other_size"); bool sw = sym_choice(2, "swap"); if (sw) { v->swap(*o); Model<T> t = m; m = mo; mo = t; compare(*o, mo); } else { *v = *o; m = mo; compare(*o, mo); } delete o; break; }
    case 29: { if (!m.n) sym_end(); p = sym_choice(m.n, "source"); e[0] = m.v[p]; bool k = m.known[p]; v->push_back((*v)[p]); m.insertAt(m.n, 1, e, k); break; }   // own element
    case 30: { if (!m.n) sym_end(); size_t q = sym_choice(m.n, "source"); p = pos(); e[0] = m.v[q]; bool k = m.known[q]; switch (sym_choice(5, "form")) { case 3: it = v->emplace(v->cbegin() + p, (*v)[q]); m.insertAt(p, 1, e, k); break; case 4: it = nullptr; v->emplace_back((*v)[q]); m.insertAt(m.n, 1, e, k); return; case 0: it = v->insert(v->cbegin() + p, (const T &)(*v)[q]); m.insertAt(p, 1, e, k); break; case 1: e[1] = e[0]; it = v->insert(v->cbegin() + p, (size_t)2, (const T &)(*v)[q]); m.insertAt(p, 2, e, k); break; default: e[1] = e[0]; it = nullptr; v->resize(m.n + 2, (*v)[q]); m.insertAt(m.n, 2, e, k); return; } chk = true; break; }
  }
  if (chk) sym_assert((size_t)(it - v->begin()) == p, "returned iterator position"); }
template <typename T, typename A> static void run(int depth) {
  long before = gAllocs; UVector<T, A> *v; Model<T> m; start<T, A>(v, m, 0, "size"); compare(*v, m);
  for (int d = 0; d < depth; d++) { op<T, A>(v, m, 0); compare(*v, m); }
  delete v; sym_assert(gAllocs == before, "everything is freed"); sym_reach("sequence"); }
extern "C" void c25_ops() { run<unsigned, Tracking<unsigned, false>>(DEPTH); }
extern "C" void c25_propagating() { run<unsigned, Tracking<unsigned, true>>(1); }
// construction and comparison
extern "C" void c25_construct() {
  typedef UVector<unsigned> V; size_t n = sym_choice(4, "size"); unsigned e[4]; for (auto &x : e) x = sym_u32("element"); Model<unsigned> m; m.insertAt(0, n, e, true);
  switch (sym_choice(6, "constructor")) {
    case 0: { V v(e, e + n); compare(v, m); break; }
    case 1: { V v(n, e[0]); for (size_t i = 0; i < n; i++) m.v[i] = e[0]; compare(v, m); break; }
    case 2: { V v(n); for (size_t i = 0; i < n; i++) m.known[i] = false; compare(v, m); break; }
    case 3: { V v({e[0], e[1], e[2]}); m.n = 0; m.insertAt(0, 3, e, true); compare(v, m); break; }
    case 4: { V v; m.n = 0; compare(v, m); break; }
    case 5: { V w(e, e + n), v(w, std::allocator<unsigned>()); compare(v, m); V u(std::move(w), std::allocator<unsigned>()); compare(u, m); break; } }
  sym_reach("constructed"); }
extern "C" void c25_compare() {
  typedef UVector<unsigned> V; size_t n = sym_choice(4, "size"), k = sym_choice(4, "size2"); unsigned e[4], f[4]; for (auto &x : e) x = sym_u32("a"); for (auto &x : f) x = sym_u32("b"); V v(e, e + n), w(f, f + k);
  bool eq = n == k, lt = false, done = false; for (size_t i = 0; i < n && i < k && !done; i++) { if (e[i] < f[i]) { lt = true; done = true; eq = false; } else if (e[i] > f[i]) { done = true; eq = false; } } if (!done) lt = n < k;
  sym_assert((v == w) == eq && (v != w) == !eq, "equality"); sym_assert((v < w) == lt && (v >= w) == !lt, "less"); sym_assert((v > w) == (!lt && !eq) && (v <= w) == (lt || eq), "greater"); sym_reach("compared"); }
