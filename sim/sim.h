// Deterministic simulation core: seeded scheduler over real pthreads that are
// parked and released one at a time, fault-injecting POSIX layer, crash model.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool coin(double p) { return unit() < p; }
};

// --------------------------------------------------------- workload parameters
// Drawn from the case seed in search mode, read from the replay file in replay
// mode; `lo` is the simplest value, towards which minimisation shrinks.
int64_t param(const char* name, int64_t lo, int64_t hi);
int64_t param_log(const char* name, int64_t lo, int64_t hi);  // log-uniform
bool coin(const char* name, double p);
int64_t pick(const char* name, const std::vector<int64_t>& options);  // first is the simplest
Rng content(const char* name);  // generator for workload contents (seeded by a param)

// ------------------------------------------------------------------- verdicts
void fail(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void skip(const char* why) __attribute__((noreturn));   // the case is void (counted)
void probe(const char* name, uint64_t n = 1);     // reach counter
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // short text kept as sample
void trivial();                                   // mark the case as trivial
uint64_t case_seed();
bool verbose();
const std::string& scratch();                     // scratch directory of this case

// --------------------------------------------------------------------- phases
struct FaultCfg {
  // probability per call
  double short_read = 0, short_write = 0, eintr = 0;      // benign
  double read_err = 0, write_err = 0, open_err = 0, fsync_err = 0, trunc_err = 0,
         close_err = 0, seek_err = 0, mkstemp_err = 0;           // hard errors
  double mmap_fail = 0;                                     // shared/file maps fail
  double pread_eof = 0;                                     // data lost: read returns 0
  double silent_trunc = 0;                                  // temporary file cut by the environment
  int max_hard = 1;                                         // hard faults injected per phase
  int64_t disk_capacity = -1;                               // bytes, ENOSPC when exceeded
  double net_delay = 0, net_split = 0;                      // sockets and pipes: late segments, pieces
  size_t net_capacity = 0;                                  // buffer size of a connection (0 = 64 kB)
  double bind_busy = 0, accept_err = 0, connect_err = 0, pipe_err = 0, fork_err = 0, exec_err = 0;
  bool big_read_fail = false;                               // reads above 1MB... fail with EINVAL
  std::function<bool(const std::string& path, bool is_write)> match;  // which files (null = all)
  std::function<bool(const std::string& path)> mmap_match;  // which files' mappings fail (null = match)
};
struct PhaseOpts {
  std::string name = "main";
  bool schedule = true;        // seeded preemption on
  bool mem_preempt = true;     // preempt at instrumented memory accesses
  bool durable = false;        // keep the durable disk image (crash model)
  bool crash = false;          // may cut power at a seeded step
  int64_t crash_at = -1;       // explicit crash step
  FaultCfg faults;
  uint64_t step_limit = 200000000;   // accesses+calls
  int malloc_fill = -1;        // -1 = off, 0..255 byte, 256 = random bytes
  double malloc_fail = 0;
  size_t malloc_fail_min = 4096;
  std::string stdin_path, stdout_path, stderr_path;
  bool stdio = false;              // stdin, stdout, std::cin and std::cout pass through the simulated calls, too
  std::function<int(const std::vector<std::string>&)> exec_handler;
  std::function<void()> on_end;   // called when the simulated process exits
};
struct Outcome {
  enum Kind { RETURNED, EXITED, ABORTED, SIGNALLED, DEADLOCK, STEPLIMIT, POWERCUT, EXCEPTION, WATCHDOG } kind;
  int code = 0;
  std::string detail;
  uint64_t hard_faults = 0, benign_faults = 0, steps = 0, io_calls = 0;
  bool ok() const { return (kind == RETURNED || kind == EXITED) && code == 0; }
  bool clean_error() const {  // an error the user can see
    return ((kind == RETURNED || kind == EXITED) && code != 0) || kind == EXCEPTION || kind == ABORTED;
  }
  const char* kind_name() const;
  std::string str() const;
};
// Forks; the child becomes a simulated process in which fn runs as thread 0.
Outcome run_phase(const PhaseOpts& o, const std::function<int()>& fn);
std::string result();                        // bytes the phase published
void publish(const std::string& s);          // in phase: append to result bytes
void publish_reset();

// inside a phase
bool active();
void yield(const char* why = "yield");       // scheduling point
void block_until(const std::function<bool()>& pred, const char* why);  // actor helper
uint64_t hard_faults();
uint64_t steps();
int self();                                  // simulated thread id
uint64_t choose(const char* kind, uint64_t n, double p_nondefault);   // recorded choice, default 0
void sleep_ns(uint64_t ns);
uint64_t now_ns();
int spawn(const char* name, std::function<void()> fn);   // actor thread (stub side)
void join(int id);
void finish(int code);    // end the phase now as exit(code)
struct NoPreempt { NoPreempt(); ~NoPreempt(); };   // harness-internal code

// crash model: after POWERCUT, write the surviving state of each tracked file
// to <scratch>/crash/<basename>; done by the phase itself.
std::string crash_path(const std::string& path);
bool crash_file_exists(const std::string& path);

// ---------------------------------------------------------------- harness entry
struct Property { const char* id; void (*run)(); };
extern const Property properties[];   // terminated by {0,0}

// utilities
std::string slurp(const std::string& path);
void spit(const std::string& path, const std::string& data);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string hexdump(const std::string& s, size_t max = 64);
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

}  // namespace sim
