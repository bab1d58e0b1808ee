#pragma once
#include "sim.h"
#include <pthread.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

#define SIM_HIDDEN __attribute__((visibility("hidden")))

namespace sim {

enum { MAXDEC = 1 << 19, MAXPARAM = 200, MAXCNT = 160, RESULT_CAP = 48 << 20 };

struct Decision {
  uint16_t kind;
  uint8_t phase;
  uint8_t pad;
  uint32_t tid;
  uint32_t idx;
  uint32_t value;
};
struct ParamRec { char name[44]; int64_t value, lo; };
struct Counter { char name[40]; uint64_t n; };

enum Strategy { ST_RANDOM, ST_PCT, ST_CALM };

struct Shared {
  // input
  uint32_t mode;          // 0 = search, 1 = replay
  uint32_t verbose;
  uint32_t nin;
  uint64_t seed;
  uint32_t nparam_in; ParamRec param_in[MAXPARAM];
  // output
  uint32_t nparam; ParamRec param[MAXPARAM];
  uint32_t ndec, dec_overflow;
  uint64_t hash, sched_hash, shape_hash;
  uint64_t steps, switches, io_calls, sim_ns, phases;
  uint32_t ncnt; Counter cnt[MAXCNT];     // faults ("f:") and probes ("p:")
  int32_t has_violation; char cls[96]; char msg[6000];
  int32_t skipped; int32_t trivial; char skip_why[128];
  int32_t finished;       // supervisor ended normally
  char notes[4096]; uint32_t nnotes;
  // current phase
  int32_t ph_kind, ph_code, ph_done; char ph_detail[1500];
  uint64_t ph_hard, ph_benign, ph_steps, ph_io;
  uint32_t phase_no;
  uint64_t result_n;
  char scratch[256];
  Decision dec[MAXDEC];
  char result[RESULT_CAP];
};
extern Shared* SH;
extern const Decision* g_in;   // replay decisions (sorted), in mapped memory
extern uint32_t g_nin;

enum TState { T_RUN, T_BLOCKED, T_DONE, T_NEW };

struct Thread {
  int id;
  TState st;
  volatile int go;
  pthread_t real;
  bool has_real, joined_real, need_join;
  bool actor;
  int hook;             // >0: inside simulator code, no simulation of nested calls
  int nopre;            // >0: harness code, no preemption
  uint64_t acc;         // instrumented accesses so far
  uint32_t sp;          // scheduling points so far
  uint32_t bl;          // times blocked
  uint32_t kidx[256];    // per-kind choice counters (hashed)
  uint64_t next_mem;    // replay: next access index with a decision
  uint32_t next_mem_pos;
  const void* wait_obj;
  const char* wait_why;
  bool signalled;
  uint64_t wake_at;     // 0 = none
  const std::function<bool()>* pred;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  int prio;
  const char* name;
  std::function<void()>* actor_fn;
};

enum { MAXT = 256 };
extern Thread TH[MAXT];
extern int nthreads;
extern Thread* cur;
extern bool g_on;
extern const PhaseOpts* OPT;
extern volatile int64_t g_countdown;
extern uint32_t g_focus_mask, g_focus_val;   // code locations preempted more often than others
bool focus_hit();

inline bool simulated() { return g_on && cur->hook == 0; }
struct Hook { Thread* t; Hook() : t(cur) { ++t->hook; } ~Hook() { --t->hook; } };

void sched_point(const char* why);
void mem_point();
void block_on(const void* obj, const char* why, uint64_t wake_at = 0);   // returns after wake
void wake_all(const void* obj);
bool wake_one(const void* obj, Thread* t);
void trace(const char* ev, uint64_t a, uint64_t b);
uint64_t choose_raw(const char* kind, uint64_t n, double p);
void count(const char* pfx, const char* name, uint64_t n = 1);
void count_fault(const char* name, bool hard);
void end_phase(Outcome::Kind k, int code, const char* detail) __attribute__((noreturn));
Thread* new_thread(const char* name);
void start_thread(Thread* t, const pthread_attr_t* attr);
extern Rng g_rng;
extern uint64_t g_now;
extern uint64_t g_steps;
extern int64_t g_crash_at;
void resched_params();

// disk model
void disk_reset();
void disk_power_cut();       // writes the crash image
void disk_report();
long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
extern int g_logfd;

inline void step(uint64_t n = 1) {
  g_steps += n;
  if (__builtin_expect(g_steps > OPT->step_limit, 0)) end_phase(Outcome::STEPLIMIT, 0, "step limit exceeded");
}

}  // namespace sim
