// Replays a recorded schedule on the real threads: one thread runs at a time, and at every synchronisation operation the thread
// that goes on is the one the record names. The operations reach this file through the linker's --wrap.
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <semaphore.h>
#include <string>
#include <thread>
#include <vector>
struct Rec { char kind; std::string name; unsigned w; std::vector<unsigned long long> v; bool any = false; };
Rec *symNext(char kind, const char *name); [[noreturn]] void symFin(int code, const char *m);
extern int symPreempt; extern unsigned symSpurious;
namespace {
enum St { RUN, MUTEX, CV, JOIN, DONE };
struct Th { St s = RUN; const void *obj = nullptr; std::mutex *cvm = nullptr; int join = -1; bool granted = false, notified = false; sem_t sem; std::thread::id id; };
std::vector<Th *> &th() { static std::vector<Th *> v = [] { Th *m = new Th; sem_init(&m->sem, 0, 0); return std::vector<Th *>{m}; }(); return v; }
std::map<const void *, int> &owner() { static std::map<const void *, int> o; return o; }
int own(const void *m) { auto i = owner().find(m); return i == owner().end() ? -1 : i->second; }
int cur = 0; unsigned preempted = 0, spurious = 0; thread_local int me = 0;
const bool tr = getenv("SYM_TRACE"); void note(const char *w, long v = 0) { if (tr) fprintf(stderr, "thread %d %s %ld\n", me, w, v); }
unsigned pick(const char *name, size_t n) { Rec *r = symNext('s', name); unsigned k = r ? (unsigned)r->v[0] : 0; if (k >= n) symFin(4, "DIVERGED: schedule"); note(r ? name : "(no record)", k); return k; }
bool runnable(int i) { Th &t = *th()[i]; switch (t.s) { case RUN: return true; case MUTEX: return own(t.obj) < 0; case JOIN: return th()[t.join]->s == DONE; default: return false; } }
void schedule(bool cont) {
  std::vector<int> R; if (cont) R.push_back(me); for (int i = 0; i < (int)th().size(); i++) if (!(cont && i == me) && th()[i]->s != DONE && runnable(i)) R.push_back(i);
  if (R.empty()) symFin(7, "DEADLOCK no thread can run");
  if (cont && ((int)preempted >= symPreempt || R.size() == 1)) { th()[me]->granted = true; return; }
  unsigned k = R.size() > 1 ? pick("sched", R.size()) : 0; if (cont && k) preempted++;
  Th &n = *th()[R[k]]; if (n.s == MUTEX || n.s == JOIN) n.s = RUN; n.granted = true; cur = R[k]; note("-> thread", cur); if (cur == me) return;
  const bool done = th()[me]->s == DONE; Th &t = *th()[me]; sem_post(&n.sem); if (!done) while (sem_wait(&t.sem)) {} }
void schedPoint() { Th &t = *th()[me]; if (t.granted) { t.granted = false; return; } unsigned live = 0; for (Th *x : th()) live += x->s != DONE; if (live == 1) return; schedule(true); th()[me]->granted = false; }
void lock(const void *m) { note("lock"); for (;;) { schedPoint(); int o = own(m); if (o == me) symFin(7, "DEADLOCK mutex locked again by the thread holding it"); if (o < 0) { owner()[m] = me; return; } th()[me]->s = MUTEX; th()[me]->obj = m; schedule(false); } }
void unlock(const void *m) { note("unlock"); if (own(m) != me) symFin(7, "unlock of a mutex that is not held"); owner().erase(m); }
void wake(Th &t) { t.s = MUTEX; t.obj = t.cvm->native_handle(); t.notified = true; }
void notify(const void *c, bool all) { note("notify"); std::vector<Th *> w; for (Th *t : th()) if (t->s == CV && t->obj == c) w.push_back(t); if (w.empty()) return; if (all) { for (Th *t : w) wake(*t); return; } wake(*w[w.size() > 1 ? pick("notify", w.size()) : 0]); }
struct Wrapped : std::thread::_State { std::unique_ptr<std::thread::_State> in; int id; Th *t; void _M_run() override { me = id; while (sem_wait(&t->sem)) {} in->_M_run(); in.reset(); note("ends"); th()[id]->s = DONE; schedule(false); } };
}
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { lock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { schedPoint(); if (own(m) >= 0) return 16; owner()[m] = me; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { unlock(m); return 0; }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable *c, std::unique_lock<std::mutex> &l) {
  note("wait"); Th &t = *th()[me]; const void *m = l.mutex()->native_handle(); t.granted = false; if (own(m) != me) symFin(7, "wait without holding the mutex"); t.cvm = l.mutex(); bool sp = spurious < symSpurious && pick("spurious", 2); if (sp) spurious++;
  owner().erase(m); if (sp) { t.s = MUTEX; t.obj = m; t.notified = true; } else { t.s = CV; t.obj = c; } schedule(false);
  while (own(m) >= 0) { t.s = MUTEX; t.obj = m; t.granted = false; schedule(false); } t.granted = false; t.notified = false; owner()[m] = me; }
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable *c) { notify(c, false); }
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable *c) { notify(c, true); }
void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread *, std::unique_ptr<std::thread::_State>, void (*)());
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread *self, std::unique_ptr<std::thread::_State> st, void (*dep)()) {
  Th *t = new Th; sem_init(&t->sem, 0, 0); th().push_back(t); auto w = std::make_unique<Wrapped>(); w->in = std::move(st); w->id = (int)th().size() - 1; w->t = t; __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(self, std::move(w), dep); t->id = self->get_id(); }
void __real__ZNSt6thread4joinEv(std::thread *);
void __wrap__ZNSt6thread4joinEv(std::thread *self) { note("join");
  int k = -1; for (size_t i = 1; i < th().size(); i++) if (th()[i]->id == self->get_id() && self->joinable() && th()[i]->s != DONE) k = (int)i; Th &t = *th()[me]; t.granted = false; if (k >= 0) { t.s = JOIN; t.join = k; schedule(false); t.granted = false; } __real__ZNSt6thread4joinEv(self); }
}
