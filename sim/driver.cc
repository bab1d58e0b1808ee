// Command line driver: seeded search, replay, minimisation.
#include "internal.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <malloc.h>
#include <time.h>
#include <vector>
#include <string>

namespace sim {
void params_begin();
static const Property* g_prop;
static Decision* g_inbuf;
static std::string g_base;
static std::string g_err;

static double wall() { struct timespec ts; rawsys(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static void rm_tree(const char* path, int depth = 0) {
  if (strncmp(path, g_base.c_str(), g_base.size()) || depth > 8) return;
  DIR* d = opendir(path);
  if (d) {
    struct dirent* e;
    while ((e = readdir(d))) {
      if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
      char b[1024]; snprintf(b, sizeof b, "%s/%s", path, e->d_name);
      struct stat st;
      if (lstat(b, &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(b, depth + 1);
      else rawsys(SYS_unlink, (long)b);
    }
    closedir(d);
  }
  rawsys(SYS_rmdir, (long)path);
}
static void reset_shared() {
  // everything but the big arrays
  uint32_t v = SH->verbose;
  memset((void*)SH, 0, offsetof(Shared, dec));
  SH->verbose = v;
}
struct Result { bool ran, violation, skipped, finished; int status; };
static int g_zw = -1, g_zr = -1;
// A process that does nothing but fork cases: every case starts from the same
// heap, whatever the bookkeeping process has done meanwhile.
static void start_zygote() {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) { perror("pipe"); _exit(2); }
  pid_t z = fork();
  if (z == 0) {
    rawsys(SYS_close, a[1]); rawsys(SYS_close, b[0]);
    for (;;) {
      char c;
      if (rawsys(SYS_read, a[0], (long)&c, 1) != 1) rawsys(SYS_exit_group, 0);
      pid_t pid = fork();
      if (pid == 0) {
        setpgid(0, 0);
        rawsys(SYS_close, a[0]); rawsys(SYS_close, b[1]);
        g_nin = SH->nin; g_in = g_inbuf;
        params_begin();
        if (chdir(SH->scratch)) rawsys(SYS_exit_group, 95);
        try { g_prop->run(); }
        catch (std::exception& e) { fprintf(stderr, "harness exception: %s\n", e.what()); rawsys(SYS_exit_group, 94); }
        SH->finished = 1;
        rawsys(SYS_exit_group, 0);
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      kill(-pid, SIGKILL);
      if (rawsys(SYS_write, b[1], (long)&st, sizeof st) != sizeof st) rawsys(SYS_exit_group, 0);
    }
  }
  rawsys(SYS_close, a[0]); rawsys(SYS_close, b[1]);
  g_zw = a[1]; g_zr = b[0];
}
static const char* g_keep = 0;      // --keep DIR: where a run's files are copied to, for looking at them
static Result run_once() {
  snprintf(SH->scratch, sizeof SH->scratch, "%s/c", g_base.c_str());
  rm_tree(SH->scratch);
  rawsys(SYS_mkdir, (long)SH->scratch, 0755);
  SH->nin = g_nin;
  char c = 'r'; int st = 0;
  if (rawsys(SYS_write, g_zw, (long)&c, 1) != 1 || rawsys(SYS_read, g_zr, (long)&st, sizeof st) != sizeof st) {
    fprintf(stderr, "zygote lost\n"); _exit(3);
  }
  Result r;
  r.ran = true; r.violation = SH->has_violation; r.skipped = SH->skipped; r.finished = SH->finished; r.status = st;
  if (const char* keep = g_keep) { std::string c = std::string("cp -r ") + SH->scratch + " " + keep; if (system(c.c_str())) fprintf(stderr, "cannot keep the scratch directory\n"); }
  rm_tree(SH->scratch);
  return r;
}
static bool dless(const Decision& a, const Decision& b) {
  if (a.phase != b.phase) return a.phase < b.phase;
  if (a.kind != b.kind) return a.kind < b.kind;
  if (a.tid != b.tid) return a.tid < b.tid;
  return a.idx < b.idx;
}
struct Replay {
  std::string property, cls, msg;
  uint64_t seed, hash;
  std::vector<ParamRec> params;
  std::vector<Decision> dec;   // in execution order
};
static void set_input(const Replay& r) {
  reset_shared();
  SH->mode = 1; SH->seed = r.seed;
  SH->nparam_in = 0;
  for (size_t i = 0; i < r.params.size() && i < MAXPARAM; ++i) SH->param_in[SH->nparam_in++] = r.params[i];
  g_nin = r.dec.size();
  if (g_nin > MAXDEC) g_nin = MAXDEC;
  for (uint32_t i = 0; i < g_nin; ++i) g_inbuf[i] = r.dec[i];
  std::stable_sort(g_inbuf, g_inbuf + g_nin, dless);
  g_in = g_inbuf;
}
static Replay capture(const char* prop) {
  Replay r;
  r.property = prop; r.cls = SH->cls; r.msg = SH->msg; r.seed = SH->seed; r.hash = SH->hash;
  r.params.assign(SH->param, SH->param + SH->nparam);
  r.dec.assign(SH->dec, SH->dec + SH->ndec);
  return r;
}
static void save(const Replay& r, const std::string& path) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); exit(2); }
  std::string m = r.msg; for (char& c : m) if (c == '\n') c = '\x1f';
  fprintf(f, "simreplay 1\nproperty %s\nclass %s\nseed %llu\nhash %llu\nmsg %s\n", r.property.c_str(), r.cls.c_str(), (unsigned long long)r.seed, (unsigned long long)r.hash, m.c_str());
  for (auto& p : r.params) fprintf(f, "param %s %lld %lld\n", p.name, (long long)p.value, (long long)p.lo);
  for (auto& d : r.dec) fprintf(f, "dec %u %u %u %u %u\n", d.phase, d.kind, d.tid, d.idx, d.value);
  fclose(f);
}
static bool load(const std::string& path, Replay* r) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return false;
  static char line[16384];
  while (fgets(line, sizeof line, f)) {
    size_t n = strlen(line); while (n && line[n - 1] == '\n') line[--n] = 0;
    char nm[64]; long long v, lo; unsigned a, b, c, d, e; unsigned long long s;
    if (!strncmp(line, "property ", 9)) r->property = line + 9;
    else if (!strncmp(line, "class ", 6)) r->cls = line + 6;
    else if (!strncmp(line, "msg ", 4)) { r->msg = line + 4; for (char& ch : r->msg) if (ch == '\x1f') ch = '\n'; }
    else if (sscanf(line, "seed %llu", &s) == 1) r->seed = s;
    else if (sscanf(line, "hash %llu", &s) == 1) r->hash = s;
    else if (sscanf(line, "param %43s %lld %lld", nm, &v, &lo) == 3) { ParamRec p; memset(&p, 0, sizeof p); strcpy(p.name, nm); p.value = v; p.lo = lo; r->params.push_back(p); }
    else if (sscanf(line, "dec %u %u %u %u %u", &a, &b, &c, &d, &e) == 5) { Decision x; memset(&x, 0, sizeof x); x.phase = a; x.kind = b; x.tid = c; x.idx = d; x.value = e; r->dec.push_back(x); }
  }
  fclose(f);
  return true;
}
static bool still_fails(const Replay& in, Replay* out) {
  set_input(in);
  run_once();
  if (!SH->has_violation || in.cls != SH->cls) return false;
  if (out) {
    *out = in;
    out->msg = SH->msg; out->hash = SH->hash;
    // keep only params that were used
    out->params.assign(SH->param, SH->param + SH->nparam);
  }
  return true;
}
static Replay minimise(Replay cur, double budget) {
  double end = wall() + budget;
  Replay t;
  if (!still_fails(cur, &t)) return cur;
  cur = t;
  bool progress = true;
  while (progress && wall() < end) {
    progress = false;
    // parameters towards their simplest value
    for (size_t i = 0; i < cur.params.size() && wall() < end; ++i) {
      int64_t lo = cur.params[i].lo;
      if (cur.params[i].value == lo) continue;
      int64_t cand[3] = {lo, lo + (cur.params[i].value - lo) / 2, cur.params[i].value - 1};
      bool is_content = !strncmp(cur.params[i].name, "c:", 2);
      for (int k = 0; k < (is_content ? 1 : 3) && wall() < end; ++k) {
        if (cand[k] == cur.params[i].value) continue;
        Replay x = cur; x.params[i].value = cand[k];
        if (still_fails(x, &t)) { cur = t; progress = true; break; }
      }
    }
    // decisions: delta debugging
    size_t n = cur.dec.size(), chunk = n;
    while (chunk >= 1 && wall() < end && cur.dec.size()) {
      bool any = false;
      for (size_t at = 0; at < cur.dec.size() && wall() < end;) {
        Replay x = cur;
        size_t to = std::min(cur.dec.size(), at + chunk);
        x.dec.erase(x.dec.begin() + at, x.dec.begin() + to);
        if (still_fails(x, &t)) { cur = t; any = progress = true; }
        else at = to;
      }
      if (chunk == 1 && !any) break;
      chunk = chunk > 1 ? (chunk + 1) / 2 : 1;
      if (chunk == 1 && !any && cur.dec.size() > 400) break;
    }
  }
  return cur;
}
static std::string jstr(const char* s) {
  std::string o = "\"";
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
}  // namespace sim
using namespace sim;

int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("SIM_NO_REEXEC")) {
      static char e1[] = "LC_ALL=C", e2[] = "PATH=/usr/bin:/bin", e3[] = "SIM_NO_REEXEC=1", e4[] = "OMP_NUM_THREADS=4";
      char* env[] = {e1, e2, e3, e4, 0};
      execve("/proc/self/exe", argv, env);
    }
  }
  mallopt(M_ARENA_MAX, 1);
  mallopt(M_MMAP_THRESHOLD, 1 << 30);
  std::string prop, out, replay, replay_dir = ".", minout, stopfile;
  uint64_t seed = 1, workers = 1, worker = 0, max_runs = UINT64_MAX, twice = 0;
  double seconds = 10, min_seconds = 30;
  bool verbose = false, hashes = false;
  int max_viol = 3;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") prop = nx();
    else if (a == "--seed") seed = strtoull(nx(), 0, 10);
    else if (a == "--workers") workers = strtoull(nx(), 0, 10);
    else if (a == "--worker") worker = strtoull(nx(), 0, 10);
    else if (a == "--runs") max_runs = strtoull(nx(), 0, 10);
    else if (a == "--seconds") seconds = atof(nx());
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--keep") g_keep = nx();
    else if (a == "--minimise") minout = nx();
    else if (a == "--min-seconds") min_seconds = atof(nx());
    else if (a == "--replay-dir") replay_dir = nx();
    else if (a == "--twice") twice = strtoull(nx(), 0, 10);
    else if (a == "--max-violations") max_viol = atoi(nx());
    else if (a == "--stop-file") stopfile = nx();
    else if (a == "--verbose") verbose = true;
    else if (a == "--hashes") hashes = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_inbuf = (Decision*)mmap(0, sizeof(Decision) * MAXDEC, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (SH == MAP_FAILED || g_inbuf == MAP_FAILED) { perror("mmap"); return 2; }
  SH->verbose = verbose;
  const char* roots[] = {"/dev/shm", "/tmp"};
  for (const char* r : roots) {
    char b[100]; snprintf(b, sizeof b, "%s/vsim.%08d", r, (int)getpid());
    if (rawsys(SYS_mkdir, (long)b, 0700) == 0) { g_base = b; break; }
  }
  if (g_base.empty()) { fprintf(stderr, "no scratch directory\n"); return 2; }
  cpu_set_t cs; CPU_ZERO(&cs);
  cpu_set_t all;
  if (sched_getaffinity(0, sizeof all, &all) == 0) {
    std::vector<int> c; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all)) c.push_back(i);
    if (!c.empty()) { CPU_SET(c[worker % c.size()], &cs); sched_setaffinity(0, sizeof cs, &cs); }
  }
  Replay rp; rp.seed = 0; rp.hash = 0;
  if (!replay.empty()) {
    if (!load(replay, &rp)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    if (prop.empty()) prop = rp.property;
  }
  for (const Property* p = properties; p->id; ++p) if (prop == p->id) g_prop = p;
  if (!g_prop) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }

  start_zygote();
  if (!replay.empty()) {
    if (!minout.empty()) {
      Replay m = minimise(rp, min_seconds);
      save(m, minout);
      printf("minimised: %zu decisions -> %zu\n", rp.dec.size(), m.dec.size());
      rm_tree(g_base.c_str());
      return 0;
    }
    set_input(rp);
    Result r = run_once();
    rm_tree(g_base.c_str());
    if (r.violation) { printf("REPLAY violation class=%s hash=%llu\n%s\n", SH->cls, (unsigned long long)SH->hash, SH->msg); return 1; }
    printf("REPLAY no violation (%s) status=%d hash=%llu\n", r.skipped ? SH->skip_why : "ok", r.status, (unsigned long long)SH->hash);
    return 0;
  }

  double t0 = wall();
  uint64_t runs = 0, nontriv = 0, skipped = 0, mismatches = 0, checked = 0, errors = 0, steps = 0, switches = 0, io = 0, sim_ns = 0, phases = 0;
  std::vector<std::pair<std::string, uint64_t> > counters;
  std::vector<uint64_t> seen;
  std::vector<std::string> viols, samples, skips;
  std::string errmsg;
  for (uint64_t i = worker; runs < max_runs; i += workers) {
    if (wall() - t0 > seconds) break;
    if (!stopfile.empty() && rawsys(SYS_access, (long)stopfile.c_str(), 0) == 0) break;
    uint64_t s = seed * 1000000007ull + i;
    reset_shared();
    SH->mode = 0; SH->seed = s;
    Result r = run_once();
    ++runs;
    uint64_t h = SH->hash;
    if (verbose || hashes) fprintf(stderr, "seed-index %llu seed %llu hash %llu viol=%d skip=%s dec=%u steps=%llu switches=%llu io=%llu %s\n", (unsigned long long)i, (unsigned long long)s, (unsigned long long)h, SH->has_violation, SH->skip_why, SH->ndec, (unsigned long long)SH->steps, (unsigned long long)SH->switches, (unsigned long long)SH->io_calls, SH->notes);
    steps += SH->steps; switches += SH->switches; io += SH->io_calls; sim_ns += SH->sim_ns; phases += SH->phases;
    for (uint32_t k = 0; k < SH->ncnt; ++k) {
      size_t j = 0; for (; j < counters.size(); ++j) if (counters[j].first == SH->cnt[k].name) break;
      if (j == counters.size()) counters.push_back(std::make_pair(std::string(SH->cnt[k].name), 0));
      counters[j].second += SH->cnt[k].n;
    }
    if (SH->skipped) {
      ++skipped;
      if (skips.size() < 10) { std::string w = SH->skip_why; if (std::find(skips.begin(), skips.end(), w) == skips.end()) skips.push_back(w); }
    } else if (!SH->has_violation && !SH->finished) {
      ++errors;
      errmsg = fmt("case seed %llu: harness process ended with status %d", (unsigned long long)s, r.status);
    } else {
      if (!SH->trivial) ++nontriv;
      uint64_t key = SH->sched_hash * 31 + SH->shape_hash * 1000003;
      if (!SH->trivial) seen.push_back(key);
    }
    if (samples.size() < 3 && SH->nnotes && !SH->skipped && !SH->trivial) {
      std::string p;
      for (uint32_t k = 0; k < SH->nparam && p.size() < 700; ++k) p += fmt("%s=%lld ", SH->param[k].name, (long long)SH->param[k].value);
      samples.push_back(fmt("seed=%llu %s| %s| decisions=%u switches=%llu steps=%llu", (unsigned long long)s, p.c_str(), SH->notes, SH->ndec, (unsigned long long)SH->switches, (unsigned long long)SH->steps));
    }
    if (SH->has_violation) {
      if (SH->dec_overflow) { ++errors; errmsg = "decision log overflow on a violation"; continue; }
      Replay rr = capture(prop.c_str());
      std::string path = fmt("%s/raw-%s-%llu.replay", replay_dir.c_str(), prop.c_str(), (unsigned long long)s);
      save(rr, path);
      viols.push_back(path);
      // same seed twice
      reset_shared(); SH->mode = 0; SH->seed = s; run_once();
      if (SH->hash != h || !SH->has_violation) { ++mismatches; errmsg = fmt("violation at seed %llu did not repeat", (unsigned long long)s); viols.pop_back(); unlink(path.c_str()); }
      if ((int)viols.size() >= max_viol) break;
    } else if (checked < twice) {
      ++checked;
      uint64_t sk = SH->skipped;
      reset_shared(); SH->mode = 0; SH->seed = s; run_once();
      if (SH->hash != h) { ++mismatches; errmsg = fmt("seed %llu: hash differs on the second run (skip %d)", (unsigned long long)s, (int)sk); }
    }
  }
  double el = wall() - t0;
  rm_tree(g_base.c_str());
  std::sort(seen.begin(), seen.end());
  seen.erase(std::unique(seen.begin(), seen.end()), seen.end());
  std::string j = "{";
  j += fmt("\"runs\":%llu,\"nontrivial\":%llu,\"skipped\":%llu,\"errors\":%llu,\"mismatches\":%llu,\"twice_checked\":%llu,\"steps\":%llu,\"switches\":%llu,\"io_calls\":%llu,\"sim_ns\":%llu,\"phases\":%llu,\"distinct\":%zu,\"seconds\":%.3f,",
           (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)skipped, (unsigned long long)errors, (unsigned long long)mismatches, (unsigned long long)checked, (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)io, (unsigned long long)sim_ns, (unsigned long long)phases, seen.size(), el);
  j += "\"counters\":{";
  for (size_t k = 0; k < counters.size(); ++k) j += (k ? "," : "") + jstr(counters[k].first.c_str()) + fmt(":%llu", (unsigned long long)counters[k].second);
  j += "},\"violations\":[";
  for (size_t k = 0; k < viols.size(); ++k) j += (k ? "," : "") + jstr(viols[k].c_str());
  j += "],\"samples\":[";
  for (size_t k = 0; k < samples.size(); ++k) j += (k ? "," : "") + jstr(samples[k].c_str());
  j += "],\"skips\":[";
  for (size_t k = 0; k < skips.size(); ++k) j += (k ? "," : "") + jstr(skips[k].c_str());
  j += "],\"error\":" + jstr(errmsg.c_str()) + "}";
  if (!out.empty()) {
    spit(out, j);
    spit(out + ".seen", std::string((const char*)seen.data(), seen.size() * 8));
  } else printf("%s\n", j.c_str());
  return 0;
}
