// pthread mutex / cond / sem / once / rwlock, C++ static guards, clocks, exit.
#include "internal.h"
#include "net.h"
#include <dlfcn.h>
#include <errno.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <time.h>
#include <sched.h>
#include <iostream>
using namespace sim;

#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)

namespace {
struct Obj { const void* key; int kind; int owner; int count; long val; };
enum { NOBJ = 1 << 14 };
Obj* tab;
Obj* obj(const void* k) {
  if (!tab) tab = (Obj*)mmap(0, sizeof(Obj) * NOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t h = ((uintptr_t)k >> 3) * 0x9E3779B97F4A7C15ull >> 50;
  for (;; h = (h + 1) & (NOBJ - 1)) {
    if (tab[h].key == k) return &tab[h];
    if (!tab[h].key) { tab[h].key = k; tab[h].owner = -1; tab[h].count = 0; tab[h].val = 0; return &tab[h]; }
  }
}
// entries are reset, not removed, on destroy/init
void reset(const void* k) { Obj* o = obj(k); o->owner = -1; o->count = 0; o->val = 0; }

int lock_mutex(pthread_mutex_t* m, bool tryonly, uint64_t deadline) {
  Obj* o = obj(m);
  int kind = m->__data.__kind & 3;
  if (o->owner == cur->id) {
    if (kind == PTHREAD_MUTEX_RECURSIVE) { ++o->count; return 0; }
    if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (tryonly) return EBUSY;
    // self-deadlock: blocks forever
  }
  while (o->owner != -1) {
    if (tryonly) return EBUSY;
    if (deadline && g_now >= deadline) return ETIMEDOUT;
    block_on(m, "mutex", deadline);
    o = obj(m);
  }
  o->owner = cur->id; o->count = 1;
  return 0;
}
void unlock_mutex(pthread_mutex_t* m) {
  Obj* o = obj(m);
  if (o->count > 1) { --o->count; return; }
  o->owner = -1; o->count = 0;
  wake_all(m);
}
uint64_t ns_of(const struct timespec* ts) { return ts->tv_sec * 1000000000ull + ts->tv_nsec; }
}  // namespace

extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  REAL(pthread_mutex_init);
  if (g_on) reset(m);
  return real(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  REAL(pthread_mutex_destroy);
  if (!g_on) return real(m);
  reset(m);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!simulated()) {
    if (g_on) return 0;   // simulator-internal code while parked state exists
    REAL(pthread_mutex_lock); return real(m);
  }
  Hook h;
  sched_point("lock");
  return lock_mutex(m, false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!simulated()) { if (g_on) return 0; REAL(pthread_mutex_trylock); return real(m); }
  Hook h;
  sched_point("trylock");
  return lock_mutex(m, true, 0);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!simulated()) { if (g_on) return 0; REAL(pthread_mutex_timedlock); return real(m, ts); }
  Hook h;
  sched_point("timedlock");
  return lock_mutex(m, false, ns_of(ts));
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!simulated()) { if (g_on) return 0; REAL(pthread_mutex_unlock); return real(m); }
  Hook h;
  unlock_mutex(m);
  sched_point("unlock");
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  REAL(pthread_cond_init);
  return real(c, a);
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (g_on) return 0;
  REAL(pthread_cond_destroy); return real(c);
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  sched_point("cond_wait");
  Obj* o = obj(m);
  int saved = o->count;
  o->owner = -1; o->count = 0;
  wake_all(m);
  int rc = 0;
  if (choose_raw("spurious", 2, 0.003)) { count_fault("spurious_wakeup", false); sched_point("spurious"); }
  else {
    block_on(c, "cond", deadline);
    if (!cur->signalled && deadline && g_now >= deadline) rc = ETIMEDOUT;
  }
  lock_mutex(m, false, 0);
  obj(m)->count = saved > 0 ? saved : 1;
  return rc;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!simulated()) { REAL(pthread_cond_wait); return real(c, m); }
  Hook h;
  return cwait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!simulated()) { REAL(pthread_cond_timedwait); return real(c, m, ts); }
  Hook h;
  return cwait(c, m, ns_of(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!simulated()) { REAL(pthread_cond_clockwait); return real(c, m, k, ts); }
  Hook h;
  return cwait(c, m, ns_of(ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!simulated()) { if (g_on) return 0; REAL(pthread_cond_signal); return real(c); }
  Hook h;
  int n = 0; Thread* w[MAXT];
  for (int i = 0; i < nthreads; ++i) if (TH[i].st == T_BLOCKED && TH[i].wait_obj == c) w[n++] = &TH[i];
  if (n) wake_one(c, w[choose_raw("cond_pick", n, 0.5)]);
  sched_point("signal");
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!simulated()) { if (g_on) return 0; REAL(pthread_cond_broadcast); return real(c); }
  Hook h;
  wake_all(c);
  sched_point("broadcast");
  return 0;
}
int sem_init(sem_t* s, int sh, unsigned v) {
  REAL(sem_init);
  if (g_on) { reset(s); obj(s)->val = v; }
  return real(s, sh, v);
}
int sem_destroy(sem_t* s) { REAL(sem_destroy); if (g_on) { reset(s); return 0; } return real(s); }
static int swait(sem_t* s, bool tryonly, uint64_t deadline) {
  sched_point("sem_wait");
  if (choose_raw("sem_eintr", 2, tryonly ? 0 : 0.002)) { count_fault("sem_eintr", false); errno = EINTR; return -1; }
  Obj* o = obj(s);
  while (o->val <= 0) {
    if (tryonly) { errno = EAGAIN; return -1; }
    if (deadline && g_now >= deadline) { errno = ETIMEDOUT; return -1; }
    block_on(s, "sem", deadline);
  }
  --o->val;
  return 0;
}
int sem_wait(sem_t* s) {
  if (!simulated()) { if (g_on) return 0; REAL(sem_wait); return real(s); }
  Hook h; return swait(s, false, 0);
}
int sem_trywait(sem_t* s) {
  if (!simulated()) { if (g_on) return 0; REAL(sem_trywait); return real(s); }
  Hook h; return swait(s, true, 0);
}
int sem_timedwait(sem_t* s, const struct timespec* ts) {
  if (!simulated()) { REAL(sem_timedwait); return real(s, ts); }
  Hook h; return swait(s, false, ns_of(ts));
}
int sem_post(sem_t* s) {
  if (!simulated()) { if (g_on) return 0; REAL(sem_post); return real(s); }
  Hook h;
  ++obj(s)->val;
  wake_all(s);
  sched_point("sem_post");
  return 0;
}
int sem_getvalue(sem_t* s, int* v) {
  if (!simulated()) { REAL(sem_getvalue); return real(s, v); }
  *v = obj(s)->val; return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!simulated()) {
    // outside a phase only one thread exists
    if (*o == 2) return 0;
    *o = 1; fn(); *o = 2;
    return 0;
  }
  { Hook h; sched_point("once"); while (*o == 1) block_on(o, "once"); if (*o == 2) return 0; *o = 1; }
  fn();
  Hook h;
  *o = 2;
  wake_all(o);
  return 0;
}
// rwlock
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!simulated()) { if (g_on) return 0; REAL(pthread_rwlock_rdlock); return real(l); }
  Hook h; sched_point("rdlock");
  Obj* o = obj(l);
  while (o->owner != -1) block_on(l, "rdlock");
  ++o->count; return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!simulated()) { if (g_on) return 0; REAL(pthread_rwlock_wrlock); return real(l); }
  Hook h; sched_point("wrlock");
  Obj* o = obj(l);
  while (o->owner != -1 || o->count > 0) block_on(l, "wrlock");
  o->owner = cur->id; return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!simulated()) { if (g_on) return 0; REAL(pthread_rwlock_unlock); return real(l); }
  Hook h;
  Obj* o = obj(l);
  if (o->owner == cur->id) o->owner = -1; else if (o->count > 0) --o->count;
  wake_all(l);
  sched_point("rwunlock"); return 0;
}
// barriers
int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t* a, unsigned n) {
  REAL(pthread_barrier_init);
  if (g_on) { reset(b); obj(b)->val = n; }
  return real(b, a, n);
}
int pthread_barrier_wait(pthread_barrier_t* b) {
  if (!simulated()) { REAL(pthread_barrier_wait); return real(b); }
  Hook h; sched_point("barrier");
  Obj* o = obj(b);
  if (++o->count == o->val) { o->count = 0; ++o->owner; wake_all(b); return PTHREAD_BARRIER_SERIAL_THREAD; }
  int gen = o->owner;
  while (o->owner == gen) block_on(b, "barrier");
  return 0;
}
// function-local statics
int __cxa_guard_acquire(long long* g) {
  char* c = (char*)g;
  if (c[0]) return 0;
  if (!simulated()) { if (c[1]) abort(); c[1] = 1; return 1; }
  Hook h;
  sched_point("guard");
  while (c[1]) block_on(g, "guard");
  if (c[0]) return 0;
  c[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* g) {
  char* c = (char*)g;
  c[0] = 1; c[1] = 0;
  if (g_on) wake_all(g);
}
void __cxa_guard_abort(long long* g) {
  char* c = (char*)g;
  c[1] = 0;
  if (g_on) wake_all(g);
}

// ------------------------------------------------------------------- time
int clock_gettime(clockid_t k, struct timespec* ts) {
  if (!g_on) { return rawsys(SYS_clock_gettime, k, (long)ts); }
  uint64_t t = g_now;
  if (k != CLOCK_REALTIME) t -= 1599990000ull * 1000000000ull;
  ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  if (!g_on) { struct timespec ts; rawsys(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  tv->tv_sec = g_now / 1000000000ull; tv->tv_usec = g_now % 1000000000ull / 1000;
  return 0;
}
time_t time(time_t* o) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
clock_t clock() {
  if (!g_on) { struct timespec ts; rawsys(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, (long)&ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
  return (g_now - 1600000000ull * 1000000000ull) / 1000;
}
int nanosleep(const struct timespec* a, struct timespec* rem) {
  if (!simulated()) return rawsys(SYS_nanosleep, (long)a, (long)rem);
  sleep_ns(ns_of(a));
  return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* a, struct timespec* rem) {
  if (!simulated()) return rawsys(SYS_clock_nanosleep, k, flags, (long)a, (long)rem);
  sleep_ns(ns_of(a));
  return 0;
}
unsigned sleep(unsigned s) {
  if (!simulated()) { struct timespec ts = {s, 0}; rawsys(SYS_nanosleep, (long)&ts, 0); return 0; }
  sleep_ns(s * 1000000000ull);
  return 0;
}
int usleep(useconds_t u) {
  if (!simulated()) { struct timespec ts = {u / 1000000, (long)(u % 1000000) * 1000}; return rawsys(SYS_nanosleep, (long)&ts, 0); }
  sleep_ns(u * 1000ull);
  return 0;
}
int sched_yield() {
  if (!simulated()) return rawsys(SYS_sched_yield);
  Hook h;
  // a yielding thread lets somebody else run
  block_on(0, "sched_yield", g_now + 1);
  return 0;
}

// ------------------------------------------------------------------- exits
void sim_terminate(Outcome::Kind k, int code, const char* d) __attribute__((noreturn));
void exit(int c) {
  if (g_on && net_child()) net_proc_exit(c & 255);
  if (g_on) {
    if (cur->hook == 0) { fflush(stdout); std::cout.flush(); }
    ++cur->hook;
    sim_terminate(Outcome::EXITED, c & 255, "exit()");
  }
  REAL(exit);
  real(c);
  __builtin_unreachable();
}
void _exit(int c) {
  if (g_on && net_child()) net_proc_exit(c & 255);
  if (g_on) { ++cur->hook; sim_terminate(Outcome::EXITED, c & 255, "_exit()"); }
  rawsys(SYS_exit_group, c);
  __builtin_unreachable();
}
void abort() {
  if (g_on && net_child()) net_proc_exit(134);
  if (g_on) { ++cur->hook; sim_terminate(Outcome::ABORTED, 0, "abort()"); }
  rawsys(SYS_exit_group, 134);
  __builtin_unreachable();
}
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  if (g_on) {
    ++cur->hook;
    char b[600]; snprintf(b, sizeof b, "assertion failed: %s (%s:%u)", e, f, l);
    sim_terminate(Outcome::ABORTED, 0, b);
  }
  fprintf(stderr, "assertion failed: %s %s:%u %s\n", e, f, l, fn);
  rawsys(SYS_exit_group, 134);
  __builtin_unreachable();
}
}
