// OpenMP runtime on simulated threads: the entry points GCC's -fopenmp code calls,
// written over pthreads, which the simulator schedules.
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <map>
#include "sim.h"

namespace {
typedef unsigned long long ull;
struct Loop { bool ready; ull next, end, incr, start, chunk; bool down; int done; ull ordered; int kind; };
struct Team {
  int n; void (*fn)(void*); void* data;
  pthread_mutex_t mu; pthread_cond_t cv;
  int waiting; unsigned gen;
  std::map<unsigned, Loop> loops; std::map<unsigned, int> singles; std::map<unsigned, void*> copies;
  Team* up; int up_id;
};
struct Self { Team* team; int id; unsigned loop, single; ull cur_iter; Loop* l; };
thread_local Self me = {0, 0, 0, 0, 0, 0};
int default_threads = 3;
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, reg = PTHREAD_MUTEX_INITIALIZER;

struct Start { Team* t; int id; };
void* worker(void* p) {
  Start* s = (Start*)p;
  me = Self(); me.team = s->t; me.id = s->id;
  s->t->fn(s->t->data);
  return 0;
}
void parallel(void (*fn)(void*), void* data, unsigned n, void (*init)(Team*, const Loop*), const Loop* l0) {
  if (!n) n = me.team ? 1 : default_threads;
  if (n > 64) n = 64;
  Team t; t.n = n; t.fn = fn; t.data = data; t.waiting = 0; t.gen = 0;
  pthread_mutex_init(&t.mu, 0); pthread_cond_init(&t.cv, 0);
  Self saved = me;
  if (init) init(&t, l0);
  std::vector<pthread_t> th(n); std::vector<Start> st(n);
  for (unsigned i = 1; i < n; ++i) { st[i].t = &t; st[i].id = i; if (pthread_create(&th[i], 0, worker, &st[i])) abort(); }
  me = Self(); me.team = &t; me.id = 0;
  fn(data);
  for (unsigned i = 1; i < n; ++i) pthread_join(th[i], 0);
  me = saved;
  pthread_mutex_destroy(&t.mu); pthread_cond_destroy(&t.cv);
}
void barrier() {
  Team* t = me.team; if (!t || t->n == 1) return;
  pthread_mutex_lock(&t->mu);
  unsigned g = t->gen;
  if (++t->waiting == t->n) { t->waiting = 0; ++t->gen; pthread_cond_broadcast(&t->cv); }
  else while (t->gen == g) pthread_cond_wait(&t->cv, &t->mu);
  pthread_mutex_unlock(&t->mu);
}
Team solo_team() { Team t; t.n = 1; t.fn = 0; t.data = 0; t.waiting = 0; t.gen = 0; pthread_mutex_init(&t.mu, 0); pthread_cond_init(&t.cv, 0); return t; }
Team* team() { if (!me.team) { static Team* s = new Team(solo_team()); me.team = s; } return me.team; }
void setup(Loop& l, bool down, ull start, ull end, ull incr, ull chunk) {
  l.ready = true; l.start = l.next = start; l.end = end; l.incr = incr; l.chunk = chunk ? chunk : 1; l.down = down; l.done = 0; l.ordered = start;
}
void init_loop(Team* t, const Loop* l) { t->loops[1] = *l; }
bool take(Loop& l, ull* is, ull* ie) {
  bool more = l.down ? (long long)l.next > (long long)l.end || (l.next > l.end && (long long)l.next >= 0) : l.next < l.end;
  if (!more) return false;
  // chunk iterations
  ull s = l.next, e = s;
  for (ull i = 0; i < l.chunk; ++i) {
    ull left = l.down ? e - l.end : l.end - e, st = l.down ? (ull)0 - l.incr : l.incr;
    if (left <= st) { e = l.end; break; }
    e += l.incr;
  }
  l.next = e; *is = s; *ie = e;
  return true;
}
// signed loops are shifted so that unsigned comparison works
const ull SH = 1ull << 63;
bool loop_start(bool sgn, bool down, ull start, ull end, ull incr, ull chunk, ull* is, ull* ie, bool created = false) {
  Team* t = team();
  pthread_mutex_lock(&t->mu);
  unsigned k = ++me.loop;
  Loop& l = t->loops[k];
  if (!l.ready) setup(l, down, sgn ? start + SH : start, sgn ? end + SH : end, incr, chunk);
  me.l = &l;
  bool r = take(l, is, ie);
  pthread_mutex_unlock(&t->mu);
  if (r && sgn) { *is -= SH; *ie -= SH; }
  return r;
}
bool loop_next(bool sgn, ull* is, ull* ie) {
  Team* t = team();
  pthread_mutex_lock(&t->mu);
  if (!me.l) { me.loop = 1; me.l = &t->loops[1]; }
  bool r = take(*me.l, is, ie);
  pthread_mutex_unlock(&t->mu);
  if (r && sgn) { *is -= SH; *ie -= SH; }
  return r;
}
}  // namespace

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, 0, 0); }
void GOMP_barrier() { barrier(); }
bool GOMP_cancel(int, bool) { return false; }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void** p) {
  pthread_mutex_lock(&reg);
  if (!*p) { pthread_mutex_t* m = (pthread_mutex_t*)calloc(1, sizeof *m); pthread_mutex_init(m, 0); *p = m; }
  pthread_mutex_unlock(&reg);
  pthread_mutex_lock((pthread_mutex_t*)*p);
}
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock((pthread_mutex_t*)*p); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start() {
  Team* t = team(); pthread_mutex_lock(&t->mu);
  bool r = t->singles[++me.single]++ == 0;
  pthread_mutex_unlock(&t->mu); return r;
}
void* GOMP_single_copy_start() {
  if (GOMP_single_start()) return 0;
  barrier(); return team()->copies[me.single];
}
void GOMP_single_copy_end(void* d) { team()->copies[me.single] = d; barrier(); }
unsigned GOMP_sections_start(unsigned n) { ull s, e; return loop_start(false, false, 1, n + 1, 1, 1, &s, &e) ? s : 0; }
unsigned GOMP_sections_next() { ull s, e; return loop_next(false, &s, &e) ? s : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) {
  Loop l; setup(l, false, 1, count + 1, 1, 1); parallel(fn, data, n, init_loop, &l);
}
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_ordered_start() {
  Team* t = team(); pthread_mutex_lock(&t->mu);
  while (me.l && me.l->ordered != me.cur_iter) pthread_cond_wait(&t->cv, &t->mu);
  pthread_mutex_unlock(&t->mu);
}
void GOMP_ordered_end() {
  Team* t = team(); pthread_mutex_lock(&t->mu);
  if (me.l) { me.l->ordered += me.l->incr; me.cur_iter += me.l->incr; }
  pthread_cond_broadcast(&t->cv); pthread_mutex_unlock(&t->mu);
}
#define LOOP(K) \
bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(true, i < 0, s, e, i, c, (ull*)a, (ull*)b); } \
bool GOMP_loop_##K##_next(long* a, long* b) { return loop_next(true, (ull*)a, (ull*)b); } \
bool GOMP_loop_ull_##K##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return loop_start(false, !up, s, e, i, c, a, b); } \
bool GOMP_loop_ull_##K##_next(ull* a, ull* b) { return loop_next(false, a, b); } \
void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
  Loop l; setup(l, i < 0, (ull)s + SH, (ull)e + SH, i, c); parallel(fn, d, n, init_loop, &l); }
#define RLOOP(K) \
bool GOMP_loop_##K##_start(long s, long e, long i, long* a, long* b) { return loop_start(true, i < 0, s, e, i, 1, (ull*)a, (ull*)b); } \
bool GOMP_loop_##K##_next(long* a, long* b) { return loop_next(true, (ull*)a, (ull*)b); } \
bool GOMP_loop_ull_##K##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return loop_start(false, !up, s, e, i, 1, a, b); } \
bool GOMP_loop_ull_##K##_next(ull* a, ull* b) { return loop_next(false, a, b); } \
void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { \
  Loop l; setup(l, i < 0, (ull)s + SH, (ull)e + SH, i, 1); parallel(fn, d, n, init_loop, &l); }
#define OLOOP(K) \
bool GOMP_loop_ordered_##K##_start(long s, long e, long i, long, long* a, long* b) { bool r = loop_start(true, i < 0, s, e, i, 1, (ull*)a, (ull*)b); if (r) me.cur_iter = (ull)*a + SH; return r; } \
bool GOMP_loop_ordered_##K##_next(long* a, long* b) { bool r = loop_next(true, (ull*)a, (ull*)b); if (r) me.cur_iter = (ull)*a + SH; return r; } \
bool GOMP_loop_ull_ordered_##K##_start(bool up, ull s, ull e, ull i, ull, ull* a, ull* b) { bool r = loop_start(false, !up, s, e, i, 1, a, b); if (r) me.cur_iter = *a; return r; } \
bool GOMP_loop_ull_ordered_##K##_next(ull* a, ull* b) { bool r = loop_next(false, a, b); if (r) me.cur_iter = *a; return r; }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
OLOOP(static) OLOOP(dynamic) OLOOP(guided)
int omp_get_num_threads() { return me.team ? me.team->n : 1; }
int omp_get_thread_num() { return me.id; }
int omp_get_max_threads() { return default_threads; }
int omp_get_num_procs() { return default_threads; }
void omp_set_num_threads(int n) { if (n > 0) default_threads = n; }
int omp_in_parallel() { return me.team && me.team->n > 1; }
int omp_get_level() { return me.team ? 1 : 0; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return 64; }
double omp_get_wtime() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void** l) { pthread_mutex_t* m = (pthread_mutex_t*)calloc(1, sizeof *m); pthread_mutex_init(m, 0); *l = m; }
void omp_destroy_lock(void** l) { pthread_mutex_destroy((pthread_mutex_t*)*l); free(*l); *l = 0; }
void omp_set_lock(void** l) { pthread_mutex_lock((pthread_mutex_t*)*l); }
void omp_unset_lock(void** l) { pthread_mutex_unlock((pthread_mutex_t*)*l); }
int omp_test_lock(void** l) { return pthread_mutex_trylock((pthread_mutex_t*)*l) == 0; }
}
