// Controlled scheduler. Not instrumented by the sanitizers; hand-offs use raw
// futexes so that they add no happens-before edges of their own.
#include "sched.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>

#define NOSAN __attribute__((no_sanitize("thread")))

namespace sched {
unsigned hardwareThreads = 2;
namespace {
enum State { RUNNABLE, MUTEX, COND, JOIN, DONE };
struct Thr {
  State st;
  const void *on; // mutex / cond
  Thr *joins;
  uint32_t go; // futex word
  pthread_t id;
  int idx;
  bool task, known;
  void *(*fn)(void *);
  void *arg;
};
// plain static storage only: no allocation and no library call that a
// sanitizer could attribute to the threads under test
const int MAXT = 64, MAXM = 1024, MAXC = 1 << 18;
Thr pool[MAXT];
struct Owner {
  const void *m;
  Thr *t;
  int depth;
} owners[MAXM];
Choice choicesBuf[MAXC];
int prefixBuf[MAXC];
struct Ctl {
  bool on = false;
  int nthr = 0, nown = 0, nchoice = 0, nprefix = 0, bound = 0, preemptions = 0;
  unsigned long points = 0;
  bool diverged = false;
  Thr *cur = nullptr;
};
Ctl C;
thread_local Thr *self = nullptr;
thread_local bool busy = false; // inside the scheduler: no recursion

typedef int (*MF)(pthread_mutex_t *);
template <class F> NOSAN F next(const char *n) {
  return (F)dlsym(RTLD_NEXT, n);
}
MF realLock, realTry, realUnlock;
int (*realCreate)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int (*realJoin)(pthread_t, void **);
int (*realCW)(pthread_cond_t *, pthread_mutex_t *);
int (*realCTW)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int (*realCCW)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
int (*realCS)(pthread_cond_t *);
int (*realCB)(pthread_cond_t *);
long (*realSyscall)(long, ...);
NOSAN void resolve() {
  if (realLock)
    return;
  realSyscall = next<decltype(realSyscall)>("syscall");
  realTry = next<MF>("pthread_mutex_trylock");
  realUnlock = next<MF>("pthread_mutex_unlock");
  realCreate = next<decltype(realCreate)>("pthread_create");
  realJoin = next<decltype(realJoin)>("pthread_join");
  realCW = next<decltype(realCW)>("pthread_cond_wait");
  realCTW = next<decltype(realCTW)>("pthread_cond_timedwait");
  realCCW = next<decltype(realCCW)>("pthread_cond_clockwait");
  realCS = next<decltype(realCS)>("pthread_cond_signal");
  realCB = next<decltype(realCB)>("pthread_cond_broadcast");
  realLock = next<MF>("pthread_mutex_lock");
}
NOSAN void fwait(uint32_t *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
    realSyscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
NOSAN void fwake(uint32_t *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  realSyscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
NOSAN Owner *ownerOf(const void *m) {
  for (int i = 0; i < C.nown; i++)
    if (owners[i].m == m)
      return &owners[i];
  return nullptr;
}
NOSAN void die(const char *why) {
  // cannot unwind foreign threads: report through the exit status
  fprintf(stderr, "Assertion (scheduler): %s\n", why);
  _exit(98);
}
NOSAN void own(const void *m, Thr *t) {
  Owner *o = ownerOf(m);
  if (o) {
    o->depth++;
    return;
  }
  if (C.nown == MAXM)
    die("too many mutexes");
  owners[C.nown++] = {m, t, 1};
}
NOSAN void disown(const void *m) {
  Owner *o = ownerOf(m);
  if (o && --o->depth <= 0)
    *o = owners[--C.nown];
}
NOSAN bool enabled(Thr *t) {
  switch (t->st) {
  case RUNNABLE:
    return true;
  case MUTEX:
    return !ownerOf(t->on);
  case JOIN:
    return t->joins->st == DONE;
  default:
    return false;
  }
}
// picks the next thread; the caller is not running afterwards unless picked
NOSAN Thr *pick(Thr *me, bool preemptive) {
  Thr *e[MAXT];
  int n = 0;
  if (preemptive)
    e[n++] = me;
  for (int i = 0; i < C.nthr; i++)
    if (enabled(&pool[i]) && !(preemptive && &pool[i] == me))
      e[n++] = &pool[i];
  if (n == 0)
    die("deadlock: no thread can run");
  if (preemptive && C.preemptions >= C.bound)
    n = 1;
  int k = 0;
  if (n > 1) {
    if (C.nchoice == MAXC)
      die("execution too long");
    if (C.nchoice < C.nprefix)
      k = prefixBuf[C.nchoice];
    if (k >= n) {
      C.diverged = true;
      k = 0;
    }
    choicesBuf[C.nchoice].taken = k;
    choicesBuf[C.nchoice++].alternatives = n;
    if (preemptive && k)
      C.preemptions++;
  }
  return e[k];
}
NOSAN void handoff(Thr *me, Thr *to) {
  if (to == me)
    return;
  C.cur = to;
  fwake(&to->go);
  fwait(&me->go);
}
// the calling thread cannot continue until enabled
NOSAN void block(Thr *me) {
  Thr *t = pick(me, false);
  handoff(me, t);
  me->st = RUNNABLE;
  me->on = nullptr;
}
struct Busy {
  bool was;
  NOSAN Busy() : was(busy) { busy = true; }
  NOSAN ~Busy() { busy = was; }
};
NOSAN bool ctl() { return C.on && self && !busy; }
NOSAN void pointImpl() {
  Busy b;
  C.points++;
  handoff(self, pick(self, true));
}
NOSAN void acquire(pthread_mutex_t *m) { // model + real
  Thr *me = self;
  for (Owner *o; (o = ownerOf(m)) && o->t != me;) {
    me->st = MUTEX;
    me->on = m;
    block(me);
  }
  own(m, me);
  realLock(m);
}
NOSAN void *trampoline(void *p) {
  Thr *t = (Thr *)p;
  self = t;
  busy = false;
  fwait(&t->go);
  void *r = t->fn(t->arg);
  busy = true;
  t->st = DONE;
  if (C.on) {
    Thr *n = pick(t, false);
    C.cur = n;
    fwake(&n->go);
  }
  return r;
}
} // namespace

NOSAN bool active() { return C.on; }
NOSAN void point() {
  if (ctl())
    pointImpl();
}
NOSAN void markTask(bool on) {
  if (self)
    self->task = on;
}
NOSAN Outcome execute(const std::function<void()> &f, const std::vector<int> &prefix,
                      int bound) {
  resolve();
  C = Ctl();
  for (Thr &t : pool)
    t = Thr{};
  C.bound = bound;
  for (int v : prefix)
    prefixBuf[C.nprefix++] = v;
  Thr *m = &pool[C.nthr++];
  m->id = pthread_self();
  m->known = true;
  C.cur = m;
  self = m;
  C.on = true;
  f();
  busy = true;
  C.on = false;
  for (int i = 1; i < C.nthr; i++)
    if (pool[i].st != DONE)
      die("threads still running after the detection returned");
  self = nullptr;
  busy = false;
  Outcome o;
  o.choices.assign(choicesBuf, choicesBuf + C.nchoice);
  o.points = C.points;
  o.preemptions = C.preemptions;
  if (C.diverged)
    o.error = "divergence";
  return o;
}
} // namespace sched

using namespace sched;
extern "C" {
NOSAN int pthread_mutex_lock(pthread_mutex_t *m) {
  resolve();
  if (!ctl())
    return realLock(m);
  pointImpl();
  Busy b;
  acquire(m);
  return 0;
}
NOSAN int pthread_mutex_trylock(pthread_mutex_t *m) {
  resolve();
  if (!ctl())
    return realTry(m);
  pointImpl();
  Busy b;
  int r = realTry(m);
  if (r == 0)
    own(m, self);
  return r;
}
NOSAN int pthread_mutex_unlock(pthread_mutex_t *m) {
  resolve();
  if (!ctl())
    return realUnlock(m);
  int r;
  {
    Busy b;
    r = realUnlock(m);
    disown(m);
  }
  pointImpl();
  return r;
}
// reader/writer locks are modelled as exclusive locks
NOSAN static int rwLock(pthread_rwlock_t *m, const char *fn) {
  auto real = next<int (*)(pthread_rwlock_t *)>(fn);
  if (!ctl())
    return real(m);
  pointImpl();
  Busy b;
  for (Owner *o; (o = ownerOf(m)) && o->t != self;) {
    self->st = MUTEX;
    self->on = m;
    block(self);
  }
  own(m, self);
  return real(m);
}
NOSAN int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  return rwLock(m, "pthread_rwlock_wrlock");
}
NOSAN int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  return rwLock(m, "pthread_rwlock_rdlock");
}
NOSAN int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  auto real = next<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
  if (!ctl())
    return real(m);
  int r;
  {
    Busy b;
    r = real(m);
    disown(m);
  }
  pointImpl();
  return r;
}
NOSAN int sched_yield(void) {
  if (ctl()) {
    Busy b;
    Thr *me = self; // another thread goes first if there is one
    for (int i = 1; i < C.nthr + 1; i++) {
      Thr *t = &pool[(me->idx + i) % C.nthr];
      if (t != me && enabled(t)) {
        handoff(me, t);
        break;
      }
    }
    return 0;
  }
  static auto real = next<int (*)(void)>("sched_yield");
  return real();
}
NOSAN static int condWait(pthread_cond_t *c, pthread_mutex_t *m) {
  Busy b;
  realUnlock(m);
  disown(m);
  self->st = COND;
  self->on = c;
  block(self);
  acquire(m);
  return 0;
}
NOSAN int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  resolve();
  return ctl() ? condWait(c, m) : realCW(c, m);
}
NOSAN int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
                                 const struct timespec *t) {
  resolve();
  return ctl() ? condWait(c, m) : realCTW(c, m, t);
}
NOSAN int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m,
                                 clockid_t k, const struct timespec *t) {
  resolve();
  return ctl() ? condWait(c, m) : realCCW(c, m, k, t);
}
NOSAN static void wake(pthread_cond_t *c, bool all) {
  for (int i = 0; i < C.nthr; i++)
    if (pool[i].st == COND && pool[i].on == c) {
      pool[i].st = RUNNABLE;
      if (!all)
        return;
    }
}
NOSAN int pthread_cond_signal(pthread_cond_t *c) {
  resolve();
  if (!ctl())
    return realCS(c);
  Busy b;
  wake(c, false);
  return 0;
}
NOSAN int pthread_cond_broadcast(pthread_cond_t *c) {
  resolve();
  if (!ctl())
    return realCB(c);
  Busy b;
  wake(c, true);
  return 0;
}
// futures, static initialisation: the standard library waits on futexes itself
NOSAN long syscall(long nr, ...) {
  resolve();
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (long &x : a)
    x = va_arg(ap, long);
  va_end(ap);
  const int op = (int)a[1] & 127;
  if (nr != SYS_futex || !ctl() ||
      (op != FUTEX_WAIT && op != FUTEX_WAIT_BITSET && op != FUTEX_WAKE &&
       op != FUTEX_WAKE_BITSET))
    return realSyscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  Busy b;
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    int n = 0;
    for (int i = 0; i < C.nthr && n < (int)a[2]; i++)
      if (pool[i].st == COND && pool[i].on == (const void *)a[0]) {
        pool[i].st = RUNNABLE;
        n++;
      }
    return n;
  }
  if (__atomic_load_n((const uint32_t *)a[0], __ATOMIC_SEQ_CST) != (uint32_t)a[2]) {
    errno = EAGAIN;
    return -1;
  }
  self->st = COND;
  self->on = (const void *)a[0];
  block(self);
  return 0;
}
// whoever comes while another thread runs the routine waits for it
NOSAN int pthread_once(pthread_once_t *o, void (*fn)()) {
  resolve();
  static auto real = next<int (*)(pthread_once_t *, void (*)())>("pthread_once");
  if (!ctl())
    return real(o, fn);
  {
    Busy b;
    for (Owner *w; (w = ownerOf(o)) && w->t != self;) {
      self->st = MUTEX;
      self->on = o;
      block(self);
    }
    own(o, self);
  }
  int r = real(o, fn);
  Busy b;
  disown(o);
  return r;
}
NOSAN int pthread_create(pthread_t *id, const pthread_attr_t *a,
                         void *(*fn)(void *), void *arg) {
  resolve();
  if (!ctl())
    return realCreate(id, a, fn, arg);
  Busy b;
  if (C.nthr == MAXT)
    die("too many threads");
  Thr *t = &pool[C.nthr];
  t->idx = C.nthr++;
  t->fn = fn;
  t->arg = arg;
  if (realCreate(id, a, trampoline, t))
    die("thread creation failed");
  t->id = *id;
  t->known = true;
  return 0;
}
NOSAN int pthread_join(pthread_t id, void **ret) {
  resolve();
  if (!ctl())
    return realJoin(id, ret);
  Busy b;
  for (int i = 1; i < C.nthr; i++)
    if (Thr *t = &pool[i]; t->known && pthread_equal(t->id, id) && t != self) {
      while (t->st != DONE) {
        self->st = JOIN;
        self->joins = t;
        block(self);
      }
      t->known = false;
      break;
    }
  return realJoin(id, ret);
}
}
unsigned std::thread::hardware_concurrency() noexcept {
  return sched::hardwareThreads;
}
// allocations and tree insertions of a task are scheduling points
NOSAN static void taskPoint() {
  if (ctl() && self->task)
    pointImpl();
}
NOSAN void *operator new(size_t n) {
  taskPoint();
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
NOSAN void *operator new[](size_t n) { return operator new(n); }
NOSAN void operator delete(void *p) noexcept { free(p); }
NOSAN void operator delete[](void *p) noexcept { free(p); }
NOSAN void operator delete(void *p, size_t) noexcept { free(p); }
NOSAN void operator delete[](void *p, size_t) noexcept { free(p); }
namespace std {
struct _Rb_tree_node_base;
NOSAN void _Rb_tree_insert_and_rebalance(bool l, _Rb_tree_node_base *x,
                                         _Rb_tree_node_base *p,
                                         _Rb_tree_node_base &h) throw() {
  static auto real =
      (void (*)(bool, _Rb_tree_node_base *, _Rb_tree_node_base *,
                _Rb_tree_node_base &))dlsym(RTLD_NEXT,
                                            "_ZSt29_Rb_tree_insert_and_"
                                            "rebalancebPSt18_Rb_tree_node_"
                                            "baseS0_RS_");
  taskPoint();
  real(l, x, p, h);
  taskPoint();
}
} // namespace std
