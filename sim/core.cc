#include "internal.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <exception>
#include <iostream>
#include <ext/stdio_sync_filebuf.h>
#include <cxxabi.h>
#include <typeinfo>

namespace sim {

Shared* SH;
const Decision* g_in;
uint32_t g_nin;
Thread TH[MAXT];
int nthreads;
Thread* cur;
bool g_on;
const PhaseOpts* OPT;
volatile int64_t g_countdown = INT64_MAX;
uint32_t g_focus_mask, g_focus_val;
static double g_focus_p;
Rng g_rng(1);
uint64_t g_now, g_steps;
int64_t g_crash_at = -1;
int g_logfd = 2;

static Strategy g_strat;
static double g_psync;
static double g_memgap;      // mean accesses between preemptions, 0 = off
static uint64_t g_pct_change[16];
static int g_npct;
static int g_lowprio;
static uint64_t g_spglobal;
static int g_phase;

extern "C" void sim_note_shadow_reset();

long rawsys(long n, long a, long b, long c, long d, long e, long f) {
  return syscall(n, a, b, c, d, e, f);
}

static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
static uint16_t kind_id(const char* k) {
  uint32_t h = 2166136261u;
  while (*k) { h ^= (unsigned char)*k++; h *= 16777619u; }
  return (uint16_t)(h ^ (h >> 16));
}
uint64_t fnv(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

// -------------------------------------------------------------------- output
static void vlog(const char* f, ...) {
  char b[700];
  va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (n > (int)sizeof b) n = sizeof b;
  if (n > 0) rawsys(SYS_write, g_logfd, (long)b, n);
}
void trace(const char* ev, uint64_t a, uint64_t b) {
  SH->hash = mix(mix(mix(SH->hash, kind_id(ev)), a), b);
  if (SH->verbose) {
    vlog("  [%llu] t%d %s %llu %llu\n", (unsigned long long)g_steps, cur ? cur->id : -1, ev, (unsigned long long)a, (unsigned long long)b);
  }
}
void count(const char* pfx, const char* name, uint64_t n) {
  char k[40]; snprintf(k, sizeof k, "%s%s", pfx, name);
  for (uint32_t i = 0; i < SH->ncnt; ++i) if (!strcmp(SH->cnt[i].name, k)) { SH->cnt[i].n += n; return; }
  if (SH->ncnt < MAXCNT) { strcpy(SH->cnt[SH->ncnt].name, k); SH->cnt[SH->ncnt++].n = n; }
}
void probe(const char* name, uint64_t n) { count("p:", name, n); }
void count_fault(const char* name, bool hard) {
  count("f:", name);
  if (hard) ++SH->ph_hard; else ++SH->ph_benign;
}
uint64_t hard_faults() { return SH->ph_hard; }
uint64_t steps() { return g_steps; }
int self() { return cur ? cur->id : -1; }
bool active() { return g_on; }
uint64_t now_ns() { return g_now; }
uint64_t case_seed() { return SH->seed; }
bool verbose() { return SH->verbose; }
void note(const char* f, ...) {
  va_list ap; va_start(ap, f);
  size_t left = sizeof(SH->notes) - SH->nnotes;
  if (left > 2) {
    int n = vsnprintf(SH->notes + SH->nnotes, left, f, ap);
    if (n > 0) SH->nnotes += (size_t)n < left ? n : left - 1;
  }
  va_end(ap);
}
void trivial() { SH->trivial = 1; }

void fail(const char* cls, const char* f, ...) {
  if (cur) ++cur->hook;
  if (!SH->has_violation) {
    SH->has_violation = 1;
    snprintf(SH->cls, sizeof SH->cls, "%s", cls);
    va_list ap; va_start(ap, f); vsnprintf(SH->msg, sizeof SH->msg, f, ap); va_end(ap);
  }
  SH->ph_done = 2;
  rawsys(SYS_exit_group, 0);
  __builtin_unreachable();
}
void skip(const char* why) {
  SH->skipped = 1;
  snprintf(SH->skip_why, sizeof SH->skip_why, "%s", why);
  SH->ph_done = 2;
  rawsys(SYS_exit_group, 0);
  __builtin_unreachable();
}

// -------------------------------------------------------------------- params
static Rng g_prng(1);
void params_begin() { g_prng = Rng(SH->seed * 2654435761u + 77); }
static int64_t param_any(const char* name, int64_t lo, int64_t hi, int how, double p, const std::vector<int64_t>* opts) {
  for (uint32_t i = 0; i < SH->nparam; ++i)
    if (!strcmp(SH->param[i].name, name)) return SH->param[i].value;
  int64_t v;
  if (SH->mode == 1) {
    v = lo;
    for (uint32_t i = 0; i < SH->nparam_in; ++i) if (!strcmp(SH->param_in[i].name, name)) { v = SH->param_in[i].value; break; }
    if (v < lo) v = lo;
    if (v > hi) v = hi;
  } else {
    switch (how) {
      case 0: v = g_prng.range(lo, hi); break;
      case 1: {  // log uniform over [lo,hi]
        double span = (double)(hi - lo) + 1;
        double l = g_prng.unit();
        double x = __builtin_exp(l * __builtin_log(span)) - 1;
        v = lo + (int64_t)x; if (v > hi) v = hi; break; }
      case 2: v = g_prng.coin(p) ? 1 : 0; break;
      default: v = g_prng.range(lo, hi);
    }
  }
  if (SH->nparam < MAXPARAM) {
    ParamRec& r = SH->param[SH->nparam++];
    snprintf(r.name, sizeof r.name, "%s", name); r.value = v; r.lo = lo;
  }
  SH->shape_hash = mix(SH->shape_hash, (uint64_t)v * 31 + kind_id(name));
  (void)opts;
  return v;
}
int64_t param(const char* n, int64_t lo, int64_t hi) { return param_any(n, lo, hi, 0, 0, 0); }
int64_t param_log(const char* n, int64_t lo, int64_t hi) { return param_any(n, lo, hi, 1, 0, 0); }
bool coin(const char* n, double p) { return param_any(n, 0, 1, 2, p, 0) != 0; }
int64_t pick(const char* n, const std::vector<int64_t>& o) { return o[param_any(n, 0, (int64_t)o.size() - 1, 0, 0, 0)]; }
Rng content(const char* name) { return Rng((uint64_t)param_any(name, 0, 0x3fffffff, 0, 0, 0)); }
const std::string& scratch() { static std::string* s; if (!s) s = new std::string(SH->scratch); return *s; }

// ------------------------------------------------------------------ decisions
static void record(uint16_t kind, uint32_t tid, uint32_t idx, uint32_t value) {
  if (SH->ndec < MAXDEC) {
    Decision& d = SH->dec[SH->ndec++];
    d.kind = kind; d.phase = g_phase; d.pad = 0; d.tid = tid; d.idx = idx; d.value = value;
  } else SH->dec_overflow = 1;
}
static int dcmp(const Decision& d, uint8_t phase, uint16_t kind, uint32_t tid, uint32_t idx) {
  if (d.phase != phase) return d.phase < phase ? -1 : 1;
  if (d.kind != kind) return d.kind < kind ? -1 : 1;
  if (d.tid != tid) return d.tid < tid ? -1 : 1;
  if (d.idx != idx) return d.idx < idx ? -1 : 1;
  return 0;
}
static bool lookup(uint16_t kind, uint32_t tid, uint32_t idx, uint32_t* v) {
  uint32_t lo = 0, hi = g_nin;
  while (lo < hi) {
    uint32_t m = (lo + hi) / 2;
    int c = dcmp(g_in[m], g_phase, kind, tid, idx);
    if (c == 0) { *v = g_in[m].value; return true; }
    if (c < 0) lo = m + 1; else hi = m;
  }
  return false;
}
static const uint16_t K_SCHED = 1, K_MEM = 2, K_BLOCK = 3;
static uint32_t lower(uint16_t kind, uint32_t tid, uint32_t idx) {
  uint32_t lo = 0, hi = g_nin;
  while (lo < hi) { uint32_t m = (lo + hi) / 2; if (dcmp(g_in[m], g_phase, kind, tid, idx) < 0) lo = m + 1; else hi = m; }
  return lo;
}
static void next_mem(Thread* t) {   // replay: find the next access index with a preemption
  t->next_mem = UINT64_MAX;
  uint32_t p = lower(K_MEM, t->id, (uint32_t)(t->acc + 1));
  if (p < g_nin && g_in[p].phase == g_phase && g_in[p].kind == K_MEM && g_in[p].tid == (uint32_t)t->id) t->next_mem = g_in[p].idx;
}
bool focus_hit() { return g_focus_p > 0 && SH->mode == 0 && nthreads > 1 && g_rng.coin(g_focus_p); }
static void arm(Thread* t) {   // set the access countdown for thread t
  if (!OPT->schedule || !OPT->mem_preempt) { g_countdown = INT64_MAX; return; }
  if (SH->mode == 1) {
    next_mem(t);
    g_countdown = t->next_mem == UINT64_MAX ? INT64_MAX : (int64_t)(t->next_mem - t->acc);
  } else if (g_memgap > 0) {
    double u = g_rng.unit(); if (u < 1e-12) u = 1e-12;
    double x = -__builtin_log(u) * g_memgap;
    if (x > 1e15) x = 1e15;
    g_countdown = 1 + (int64_t)x;
  } else g_countdown = INT64_MAX;
}

uint64_t choose_raw(const char* kind, uint64_t n, double p) {
  if (n <= 1 || !OPT) return 0;
  uint16_t k = kind_id(kind);
  if (k < 16) k += 16;
  uint32_t idx = cur->kidx[k & 255]++;
  uint32_t v = 0;
  if (SH->mode == 1) {
    if (!lookup(k, cur->id, idx, &v)) v = 0;
    if (v >= n) v = n - 1;
  } else if (p > 0 && g_rng.coin(p)) {
    v = 1 + (uint32_t)g_rng.below(n - 1);
    record(k, cur->id, idx, v);
  }
  if (v) trace(kind, v, n);
  return v;
}
uint64_t choose(const char* kind, uint64_t n, double p) {
  if (!g_on) return 0;
  Hook h;
  return choose_raw(kind, n, p);
}

// ------------------------------------------------------------------ scheduling
static void futex_wait(volatile int* a, int v) { rawsys(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v); }
static void futex_wake(volatile int* a) { rawsys(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1); }

static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static pthread_key_t g_exit_key;
static Thread* g_reap;   // finished real thread the next baton holder joins

static void park(Thread* me) {
  while (!__atomic_load_n(&me->go, __ATOMIC_ACQUIRE)) futex_wait(&me->go, 0);
  __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED);
  if (g_reap) {
    Thread* r = g_reap; g_reap = 0;
    real_pthread_join(r->real, 0);
    r->joined_real = true;
  }
}
static void hand_to(Thread* next) {
  ++SH->switches;
  SH->sched_hash = mix(SH->sched_hash, ((uint64_t)cur->id << 32) | (uint32_t)next->id);
  SH->sched_hash = mix(SH->sched_hash, cur->wait_why ? kind_id(cur->wait_why) : 0);
  trace("switch", cur->id, next->id);
  cur = next;
  arm(next);
  __atomic_store_n(&next->go, 1, __ATOMIC_RELEASE);
  futex_wake(&next->go);
}
static void switch_to(Thread* next) {
  Thread* me = cur;
  if (next == me) return;
  int e = errno;
  hand_to(next);
  park(me);
  errno = e;
}
static bool runnable(Thread* t) {
  if (t->st == T_RUN) return true;
  if (t->st == T_BLOCKED) {
    if (t->pred) {
      if ((*t->pred)()) return true;
    }
    if (t->wake_at && t->wake_at <= g_now) return true;
  }
  return false;
}
static int run_list(Thread** out) {
  int n = 0;
  for (int i = 0; i < nthreads; ++i) if (runnable(&TH[i])) out[n++] = &TH[i];
  return n;
}
static Thread* pct_top(Thread** l, int n) {
  Thread* b = l[0];
  for (int i = 1; i < n; ++i) if (l[i]->prio > b->prio) b = l[i];
  return b;
}
static void pct_tick() {
  ++g_spglobal;
  for (int i = 0; i < g_npct; ++i) if (g_pct_change[i] == g_spglobal) cur->prio = --g_lowprio;
}
static void do_crash_check() {
  if (g_crash_at >= 0 && (int64_t)SH->ph_io >= g_crash_at) {
    ++cur->hook;
    disk_power_cut();
    end_phase(Outcome::POWERCUT, 0, "power cut");
  }
}
void sched_point(const char* why) {
  if (!g_on) return;
  Thread* me = cur;
  step(1);
  g_now += 1000;
  if (!OPT->schedule || me->nopre) return;
  uint32_t idx = me->sp++;
  Thread* l[MAXT]; 
  Thread* next = me;
  if (SH->mode == 1) {
    uint32_t v;
    if (lookup(K_SCHED, me->id, idx, &v) && (int)v < nthreads && runnable(&TH[v])) next = &TH[v];
  } else {
    if (g_strat == ST_PCT) {
      pct_tick();
      int n = run_list(l);
      next = n ? pct_top(l, n) : me;
    } else if (g_psync > 0 && g_rng.coin(g_psync)) {
      int n = run_list(l);
      if (n > 1) next = l[g_rng.below(n)];
    }
    if (next != me) record(K_SCHED, me->id, idx, next->id);
  }
  if (next != me) {
    me->wait_why = why;
    if (next->st == T_BLOCKED) { next->st = T_RUN; next->wait_obj = 0; }
    switch_to(next);
  }
}
void mem_point() {   // access countdown expired
  if (!g_on) { g_countdown = INT64_MAX; return; }
  Thread* me = cur;
  if (me->hook) { g_countdown = 1000; return; }
  if (me->nopre) { g_countdown = SH->mode == 1 ? INT64_MAX : 1000; if (SH->mode == 1) { arm(me); } return; }
  Thread* l[MAXT];
  Thread* next = me;
  ++me->hook;
  if (SH->mode == 1) {
    uint32_t v;
    if (lookup(K_MEM, me->id, (uint32_t)me->acc, &v) && (int)v < nthreads && runnable(&TH[v])) next = &TH[v];
  } else {
    int n = run_list(l);
    if (g_strat == ST_PCT) { me->prio = --g_lowprio; if (n) next = pct_top(l, n); }
    else if (n > 1) next = l[g_rng.below(n)];
    if (next != me) record(K_MEM, me->id, (uint32_t)me->acc, next->id);
  }
  if (next != me) {
    me->wait_why = "mem";
    if (next->st == T_BLOCKED) { next->st = T_RUN; next->wait_obj = 0; }
    switch_to(next);
  } else arm(me);
  --me->hook;
}

static std::string who_waits() {
  std::string s;
  for (int i = 0; i < nthreads; ++i) {
    Thread& t = TH[i];
    if (t.st == T_DONE) continue;
    s += fmt("t%d(%s):%s ", t.id, t.name ? t.name : "?", t.st == T_BLOCKED ? (t.wait_why ? t.wait_why : "?") : "run");
  }
  return s;
}
static Thread* pick_next(Thread* me) {   // me cannot run
  for (;;) {
    Thread* l[MAXT];
    int n = run_list(l);
    if (n == 0) {
      uint64_t best = UINT64_MAX;
      for (int i = 0; i < nthreads; ++i)
        if (TH[i].st == T_BLOCKED && TH[i].wake_at && TH[i].wake_at < best) best = TH[i].wake_at;
      if (best == UINT64_MAX) {
        ++cur->hook;
        end_phase(Outcome::DEADLOCK, 0, who_waits().c_str());
      }
      g_now = best;
      step(1);
      continue;
    }
    // default: next id after me, cyclic
    Thread* def = l[0];
    for (int i = 0; i < n; ++i) if (l[i]->id > me->id) { def = l[i]; break; }
    Thread* next = def;
    uint32_t idx = me->bl++;
    if (OPT->schedule && n > 1) {
      if (SH->mode == 1) {
        uint32_t v;
        if (lookup(K_BLOCK, me->id, idx, &v) && (int)v < nthreads && runnable(&TH[v])) next = &TH[v];
      } else {
        if (g_strat == ST_PCT) { pct_tick(); next = pct_top(l, n); }
        else if (g_strat == ST_RANDOM) next = l[g_rng.below(n)];
        else if (g_rng.coin(0.1)) next = l[g_rng.below(n)];
        if (next != def) record(K_BLOCK, me->id, idx, next->id);
      }
    }
    return next;
  }
}
void block_on(const void* obj, const char* why, uint64_t wake_at) {
  Thread* me = cur;
  step(1);
  me->st = T_BLOCKED; me->wait_obj = obj; me->wait_why = why; me->wake_at = wake_at; me->signalled = false;
  Thread* next = pick_next(me);
  if (next->st == T_BLOCKED) { next->st = T_RUN; next->wait_obj = 0; }
  if (next != me) switch_to(next);
  me->wake_at = 0;
}
void wake_all(const void* obj) {
  for (int i = 0; i < nthreads; ++i)
    if (TH[i].st == T_BLOCKED && TH[i].wait_obj == obj && !TH[i].pred) { TH[i].st = T_RUN; TH[i].wait_obj = 0; TH[i].signalled = true; }
}
bool wake_one(const void* obj, Thread* t) {
  if (t->st == T_BLOCKED && t->wait_obj == obj) { t->st = T_RUN; t->wait_obj = 0; t->signalled = true; return true; }
  return false;
}
void yield(const char* why) { if (g_on) { Hook h; sched_point(why); } }
void block_until(const std::function<bool()>& pred, const char* why) {
  Hook h;
  sched_point(why);
  while (!pred()) {
    cur->pred = &pred;
    block_on(&pred, why);
    cur->pred = 0;
  }
}
void sleep_ns(uint64_t ns) {
  if (!g_on) return;
  Hook h;
  block_on(0, "sleep", g_now + (ns ? ns : 1));
}
NoPreempt::NoPreempt() { if (cur) ++cur->nopre; }
NoPreempt::~NoPreempt() { if (cur) --cur->nopre; }

// --------------------------------------------------------------------- threads
Thread* new_thread(const char* name) {
  if (nthreads >= MAXT) end_phase(Outcome::WATCHDOG, 0, "too many threads");
  Thread* t = &TH[nthreads];
  memset((void*)t, 0, sizeof *t);
  t->id = nthreads++;
  t->name = name;
  t->st = T_RUN;
  t->prio = (SH->mode == 0 && g_strat == ST_PCT) ? (int)(1000 + g_rng.below(1000000)) : 0;
  return t;
}
static void thread_gone() {    // runs as the last thread-specific destructor
  Thread* me = cur;
  ++me->hook;
  me->st = T_DONE;
  wake_all(me);
  trace("thread_exit", me->id, 0);
  me->wait_why = "exit";
  Thread* next = pick_next(me);
  if (next->st == T_BLOCKED) { next->st = T_RUN; next->wait_obj = 0; }
  g_reap = me;
  hand_to(next);
}
static void exit_key_dtor(void* v) {
  intptr_t n = (intptr_t)v;
  if (n < 4) pthread_setspecific(g_exit_key, (void*)(n + 1));
  else thread_gone();
}
static void handle_exception() {
  ++cur->hook;
  char b[1200];
  try { throw; }
  catch (const std::exception& e) { snprintf(b, sizeof b, "%s: %s", typeid(e).name(), e.what()); }
  catch (...) { snprintf(b, sizeof b, "unknown exception"); }
  end_phase(Outcome::EXCEPTION, 1, b);
}
static void* trampoline(void* p) {
  Thread* me = (Thread*)p;
  park(me);
  pthread_setspecific(g_exit_key, (void*)1);
  try {
    if (me->actor_fn) (*me->actor_fn)();
    else me->ret = me->fn(me->arg);
  }
  catch (abi::__forced_unwind&) { throw; }
  catch (...) { handle_exception(); }
  return 0;
}
void start_thread(Thread* t, const pthread_attr_t*) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 1 << 20);
  t->has_real = true;
  int r = real_pthread_create(&t->real, &a, trampoline, t);
  pthread_attr_destroy(&a);
  if (r) end_phase(Outcome::WATCHDOG, r, "cannot create a real thread");
}
int spawn(const char* name, std::function<void()> fn) {
  Hook h;
  Thread* t = new_thread(name);
  t->actor = true;
  t->actor_fn = new std::function<void()>(fn);
  start_thread(t, 0);
  sched_point("spawn");
  return t->id;
}
void join(int id) {
  Hook h;
  sched_point("join");
  while (TH[id].st != T_DONE) block_on(&TH[id], "join");
}
void finish(int code) { if (cur) ++cur->hook; end_phase(Outcome::EXITED, code, "finish"); }

extern "C" int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!real_pthread_create) {
    real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    real_pthread_join = (decltype(real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
  }
  if (!simulated()) return real_pthread_create(out, attr, fn, arg);
  Hook h;
  if (choose_raw("thread_create_fail", 2, 0)) return EAGAIN;
  Thread* t = new_thread("thread");
  t->fn = fn; t->arg = arg;
  start_thread(t, attr);
  *out = (pthread_t)(0x5100000000ul + 64ul * t->id);
  trace("create", t->id, 0);
  sched_point("create");
  return 0;
}
static Thread* by_pthread(pthread_t p) {
  unsigned long v = (unsigned long)p - 0x5100000000ul;
  if (v % 64 == 0 && v / 64 < (unsigned long)nthreads) return &TH[v / 64];
  return 0;
}
extern "C" pthread_t pthread_self() {
  if (g_on && cur) return (pthread_t)(0x5100000000ul + 64ul * cur->id);
  static pthread_t (*real)();
  if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_self");
  return real();
}
extern "C" int pthread_join(pthread_t p, void** ret) {
  if (!simulated()) {
    if (!real_pthread_join) real_pthread_join = (decltype(real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
    return real_pthread_join(p, ret);
  }
  Hook h;
  Thread* t = by_pthread(p);
  if (!t) return ESRCH;
  sched_point("join");
  while (t->st != T_DONE) block_on(t, "join");
  t->need_join = true;     // consumed
  if (ret) *ret = t->ret;
  return 0;
}
extern "C" int pthread_detach(pthread_t p) {
  if (!simulated()) {
    static int (*real)(pthread_t);
    if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_detach");
    return real(p);
  }
  Thread* t = by_pthread(p);
  if (t) t->need_join = true;
  return 0;
}

// ---------------------------------------------------------------------- phases
static int g_stderr_save = -1;
void end_phase(Outcome::Kind k, int code, const char* detail) {
  if (cur) ++cur->hook;
  g_on = false;
  if (k == Outcome::EXITED && OPT->on_end) OPT->on_end();
  SH->ph_kind = k; SH->ph_code = code;
  snprintf(SH->ph_detail, sizeof SH->ph_detail, "%s", detail ? detail : "");
  SH->ph_steps = g_steps;
  SH->steps += g_steps;
  SH->io_calls += SH->ph_io;
  SH->sim_ns += g_now - 1600000000ull * 1000000000ull;
  trace("end", k, code);
  SH->ph_done = 1;
  rawsys(SYS_exit_group, 0);
  __builtin_unreachable();
}
extern "C" void sim_terminate(Outcome::Kind k, int code, const char* d) { end_phase(k, code, d); }

static void on_signal(int s) {
  if (SH->ph_done) rawsys(SYS_exit_group, 0);
  char b[64]; snprintf(b, sizeof b, "signal %d", s);
  if (s == SIGALRM || s == SIGPROF) {
    if (SH->mode == 1 || SH->verbose) vlog("watchdog: %s\n", who_waits().c_str());
    end_phase(Outcome::WATCHDOG, s, "real-time watchdog");
  }
  if (SH->verbose) { g_on = false; void* bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, g_logfd); }
  end_phase(Outcome::SIGNALLED, s, b);
}
static void install_signals() {
  static char alt[65536];
  stack_t st; memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt;
  sigaltstack(&st, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGPROF, SIGABRT};
  for (int s : sigs) sigaction(s, &sa, 0);
  signal(SIGPIPE, SIG_IGN);
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = 40;
  setitimer(ITIMER_PROF, &it, 0);
  it.it_value.tv_sec = 120;
  setitimer(ITIMER_REAL, &it, 0);
}
static void redirect(int fd, const std::string& path, int flags) {
  if (path.empty()) return;
  int f = rawsys(SYS_openat, AT_FDCWD, (long)path.c_str(), flags, 0644);
  if (f < 0) { fprintf(stderr, "sim: cannot open %s\n", path.c_str()); _exit(99); }
  rawsys(SYS_dup3, f, fd, 0);
  rawsys(SYS_close, f);
}
void disk_register_fd(int fd, const std::string& path);
void posix_reset();

static void strategy_setup() {
  g_rng = Rng(SH->seed * 1000003 + 17 * g_phase + 5);
  Rng r(SH->seed * 7919 + g_phase * 131 + 9);
  uint64_t s = r.below(10);
  g_strat = s < 5 ? ST_RANDOM : s < 8 ? ST_PCT : ST_CALM;
  static const double ps[] = {0.5, 0.2, 0.05, 0.02, 0.9, 0.1};
  g_psync = g_strat == ST_CALM ? 0.01 : ps[r.below(6)];
  static const double gaps[] = {0, 30, 200, 1500, 10000, 100000, 0, 500};
  g_memgap = gaps[r.below(8)];
  g_npct = 0;
  g_lowprio = 0;
  g_spglobal = 0;
  if (g_strat == ST_PCT) {
    g_npct = 1 + r.below(8);
    uint64_t len = 20ull << r.below(10);
    for (int i = 0; i < g_npct; ++i) g_pct_change[i] = 1 + r.below(len);
    if (g_memgap && g_memgap < 1500) g_memgap = 1500;
  }
  // Focus: a few code locations, chosen by hash, are preempted nearly every time they run, and
  // the preempted thread waits until the others block.
  g_focus_mask = 0; g_focus_p = 0;
  Rng f(SH->seed * 104729 + g_phase * 31 + 5);
  if (f.below(5) == 0 && SH->mode == 0) {
    static const uint32_t ms[] = {15, 63, 63, 255};
    g_focus_mask = ms[f.below(4)]; g_focus_val = f.below(g_focus_mask + 1);
    static const double fp[] = {0.5, 0.2, 0.05, 0.01};
    g_focus_p = fp[f.below(4)];
    g_strat = ST_PCT; g_npct = 1; g_pct_change[0] = 1 + f.below(2000);
    if (g_memgap < 10000) g_memgap = 100000;
  }
}

Outcome run_phase(const PhaseOpts& o, const std::function<int()>& fn) {
  SH->ph_done = 0; SH->ph_hard = SH->ph_benign = SH->ph_steps = SH->ph_io = 0;
  SH->ph_detail[0] = 0;
  SH->result_n = 0;
  g_phase = SH->phase_no++;
  SH->phases++;
  OPT = &o;
  strategy_setup();
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { fprintf(stderr, "sim: fork failed\n"); _exit(98); }
  if (pid == 0) {
    g_logfd = rawsys(SYS_fcntl, 2, F_DUPFD, 900);
    install_signals();
    pthread_key_create(&g_exit_key, exit_key_dtor);
    if (!real_pthread_create) {
      real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
      real_pthread_join = (decltype(real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
    }
    posix_reset();
    disk_reset();
    redirect(0, o.stdin_path.empty() ? "/dev/null" : o.stdin_path, O_RDONLY);
    if (!o.stdout_path.empty()) redirect(1, o.stdout_path, O_WRONLY | O_CREAT | O_TRUNC);
    else redirect(1, "/dev/null", O_WRONLY);
    redirect(2, o.stderr_path.empty() ? (SH->verbose ? std::string() : std::string("/dev/null")) : o.stderr_path, O_WRONLY | O_CREAT | O_TRUNC);
    g_now = 1600000000ull * 1000000000ull;
    g_steps = 0;
    nthreads = 0;
    cur = new_thread("main");
    cur->hook = 1;
    if (!o.stdin_path.empty()) disk_register_fd(0, o.stdin_path);
    if (!o.stdout_path.empty()) disk_register_fd(1, o.stdout_path);
    g_crash_at = o.crash_at;
    sim_note_shadow_reset();
    g_on = true;
    arm(cur);
    cur->hook = 0;
    if (o.stdio) {
      NoPreempt np;
      if (!o.stdin_path.empty()) { stdin = fdopen(0, "r"); std::cin.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdin)); }
      if (!o.stdout_path.empty()) { stdout = fdopen(1, "w"); std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdout)); }
    }
    int rc = 0;
    try { rc = fn(); }
    catch (...) { handle_exception(); }
    fflush(stdout);
    std::cout.flush();
    ++cur->hook;
    end_phase(Outcome::RETURNED, rc, "");
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  OPT = 0;
  Outcome r;
  if (SH->has_violation || SH->skipped) rawsys(SYS_exit_group, 0);
  if (!SH->ph_done) {
    r.kind = Outcome::SIGNALLED;
    r.code = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    r.detail = fmt("process ended unexpectedly (status %d)", st);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) r.kind = Outcome::WATCHDOG;
  } else {
    r.kind = (Outcome::Kind)SH->ph_kind; r.code = SH->ph_code; r.detail = SH->ph_detail;
  }
  r.hard_faults = SH->ph_hard; r.benign_faults = SH->ph_benign; r.steps = SH->ph_steps; r.io_calls = SH->ph_io;
  if (r.kind == Outcome::WATCHDOG) skip("watchdog");
  return r;
}
const char* Outcome::kind_name() const {
  static const char* n[] = {"returned", "exited", "aborted", "signalled", "deadlock", "steplimit", "powercut", "exception", "watchdog"};
  return n[kind];
}
std::string Outcome::str() const {
  return fmt("%s code=%d hard_faults=%llu %s", kind_name(), code, (unsigned long long)hard_faults, detail.substr(0, 600).c_str());
}
std::string result() { return std::string(SH->result, SH->result_n); }
void publish(const std::string& s) {
  if (SH->result_n + s.size() > RESULT_CAP) { SH->result_n = RESULT_CAP; return; }
  memcpy(SH->result + SH->result_n, s.data(), s.size());
  SH->result_n += s.size();
}
void publish_reset() { SH->result_n = 0; }

void crash_tick() { do_crash_check(); }

// --------------------------------------------------------------------- helpers
std::string slurp(const std::string& path) {
  std::string s; char b[65536];
  int f = rawsys(SYS_openat, AT_FDCWD, (long)path.c_str(), O_RDONLY, 0);
  if (f < 0) return s;
  for (;;) { long n = rawsys(SYS_read, f, (long)b, sizeof b); if (n <= 0) break; s.append(b, n); }
  rawsys(SYS_close, f);
  return s;
}
void spit(const std::string& path, const std::string& d) {
  int f = rawsys(SYS_openat, AT_FDCWD, (long)path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (f < 0) { fprintf(stderr, "sim: cannot write %s\n", path.c_str()); _exit(97); }
  size_t i = 0;
  while (i < d.size()) { long n = rawsys(SYS_write, f, (long)(d.data() + i), d.size() - i); if (n <= 0) _exit(96); i += n; }
  rawsys(SYS_close, f);
}
std::string fmt(const char* f, ...) {
  va_list ap; va_start(ap, f);
  char b[2048]; int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (n < (int)sizeof b) return std::string(b, n < 0 ? 0 : n);
  std::string s(n + 1, 0);
  va_start(ap, f); vsnprintf(&s[0], s.size(), f, ap); va_end(ap);
  s.resize(n);
  return s;
}
std::string hexdump(const std::string& s, size_t max) {
  std::string o;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = s[i];
    if (c >= 32 && c < 127 && c != '\\') o += (char)c; else o += fmt("\\x%02x", c);
  }
  if (s.size() > max) o += fmt("...(%zu bytes)", s.size());
  return o;
}
}  // namespace sim
