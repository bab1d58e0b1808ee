// N01, N02: the sentence server and client under failing, slow and hostile clients.
#include "sim.h"
#include "net.h"
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#include <string.h>
#include <stdlib.h>
#include <algorithm>
#include <map>
#include <set>
using sim::fmt;
extern "C" int sentserver_main(int argc, char** argv);
extern "C" int sentclient_main(int argc, char** argv);

namespace {
enum Death { D_NEVER, D_AT_ONCE, D_BEFORE_READ, D_MID_READ, D_AFTER_READ, D_MID_REPLY, D_AFTER_REPLY, D_BABBLE };
enum Auth { A_OK, A_WRONG, A_NOTHING_CLOSE, A_NOTHING_STALL, A_PARTIAL_CLOSE, A_PARTIAL_STALL, A_EMPTY };
struct ClientPlan { Death death = D_NEVER; int after = 0; bool rst = false; Auth auth = A_OK; int start_ms = 0; int think_ms = 0; int stall_ms = 0; bool real = false; int cut = 0; };
struct Case {
  std::vector<std::string> in, reply;
  bool babble, key, multi, stay, relaunch, last_nl;
  std::vector<ClientPlan> plans;
  std::string stdin_data, expected;
  std::vector<std::string> out_items;     // expected output per input line
} K;
// state of a run (shared by the actors of one phase)
struct Run {
  std::vector<std::vector<int> > handed;   // per line: clients
  std::map<int, bool> gone;                // client has disconnected
  std::vector<void*> steady;               // connections of healthy clients that have been given a line
  int live = 0, launched = 0; bool over = false;
  std::map<std::string, int> index;
} *R;
bool g_live;
const char* KEY = "314159";

std::string reply_of(const std::string& l) {
  if (!K.multi) return "=" + l + "|" + fmt("%zu", l.size()) + "\n";
  std::string s;
  int n = 1 + l.size() % 3;
  for (int i = 0; i < n; ++i) s += fmt("=%d/%d ", i, n) + l + "\n";
  return s;
}
bool wr(int fd, const std::string& s) { size_t i = 0; while (i < s.size()) { ssize_t r = write(fd, s.data() + i, s.size() - i); if (r <= 0) return false; i += r; } return true; }
// reads a line without its newline; false at end of file or error
bool rdline(int fd, std::string& l, size_t stop) {
  l.clear();
  for (;;) {
    if (l.size() >= stop) return true;
    char c; ssize_t r = read(fd, &c, 1);
    if (r <= 0) return false;
    if (c == '\n') return true;
    l += c;
  }
}
void quit(int c, int fd, bool rst) { R->gone[c] = true; if (rst) sim::net_abort(fd); else close(fd); }

// the worker program behind a connection; true if it ended because the server dismissed it
bool worker(int c, const ClientPlan& p, int in, int out) {
  bool steady = p.death == D_NEVER && p.auth == A_OK;
  for (int done = 0;; ++done) {
    bool last = p.death != D_NEVER && done >= p.after;
    if (last && p.death == D_BEFORE_READ) { if (p.stall_ms) sim::sleep_ns(p.stall_ms * 1000000ull); quit(c, in, p.rst); return false; }
    std::string l;
    bool got = rdline(in, l, last && p.death == D_MID_READ ? (size_t)p.cut : (size_t)-1);
    if (!got) { R->gone[c] = true; return true; }
    if (last && p.death == D_MID_READ) { quit(c, in, p.rst); return false; }
    auto it = R->index.find(l);
    if (it == R->index.end() && g_live) { R->gone[c] = true; close(in); return false; }      // N01's business
    if (it == R->index.end() && !g_live) sim::fail("wrong_line", "client %d is given a line that is not in the input: '%s'", c, sim::hexdump(l, 60).c_str());
    if (l == "===SYNCH===" && !g_live) sim::fail("wrong_line", "client %d is given the ===SYNCH=== marker", c);
    for (int prev : R->handed[it->second])
      if (!g_live && (prev == c || !R->gone[prev])) sim::fail("given_twice", "line %d is given to client %d while client %d has it", it->second, c, prev);
    R->handed[it->second].push_back(c);
    if (steady && !done) R->steady.push_back(sim::net_handle(in));
    if (p.think_ms) sim::sleep_ns(sim::choose("think", 1 + p.think_ms, 0.7) * 1000000ull);
    if (last && p.death == D_AFTER_READ) { if (p.stall_ms) sim::sleep_ns(p.stall_ms * 1000000ull); quit(c, in, p.rst); return false; }
    std::string r = reply_of(l);
    if (last && p.death == D_MID_REPLY) {
      size_t n = p.cut % r.size();
      if (K.multi && n && r[n - 1] == '\n') --n;      // a whole number of lines cannot be told from a complete reply
      wr(out, r.substr(0, n));
      if (p.stall_ms && !K.multi) sim::sleep_ns(p.stall_ms * 1000000ull);
      quit(c, in, p.rst); return false;
    }
    size_t cut = sim::choose("reply_pieces", 1 + r.size(), 0.3);
    if (cut) { if (!wr(out, r.substr(0, cut))) { R->gone[c] = true; return false; } if (!K.multi) sim::sleep_ns(sim::choose("pause", 2000, 0.5) * 1000000ull); }
    if (!wr(out, r.substr(cut))) { R->gone[c] = true; return false; }
    if (last && p.death == D_BABBLE) { wr(out, "and more\nand more\n"); quit(c, in, false); return false; }
    if (last && p.death == D_AFTER_REPLY) { quit(c, in, p.rst); return false; }
  }
}
int dial(int tries) {
  for (int i = 0; tries < 0 || i < tries; ++i) {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(4000); a.sin_addr.s_addr = htonl(0x7f000001);
    if (connect(s, (struct sockaddr*)&a, sizeof a) == 0) return s;
    close(s);
    sim::sleep_ns(1000000000ull);
  }
  return -1;
}
int cur_client_of_exec(const std::vector<std::string>& v) { return atoi(v.back().c_str()); }
void client(int c, ClientPlan p) {
  ++R->live;
  R->gone[c] = false;
  sim::sleep_ns(1 + p.start_ms * 1000000ull);
  if (p.real) {
    std::string a = K.key ? std::string("host:4000:") + KEY : std::string("host:4000");
    std::string id = fmt("%d", c);
    char* av[] = {(char*)"sentclient", (char*)a.c_str(), (char*)"worker", (char*)id.c_str(), 0};
    struct Done { int c; ~Done() { R->gone[c] = true; --R->live; } } d = {c};
    sentclient_main(4, av);
    sim::net_proc_exit(1);
  }
  int s = dial(-1);
  bool dismissed = true;
  if (K.key && p.auth != A_OK) {
    sim::probe("bad_key_clients");
    switch (p.auth) {
      case A_WRONG: wr(s, "wrong\n"); break;
      case A_EMPTY: wr(s, "\n"); break;
      case A_NOTHING_CLOSE: quit(c, s, p.rst); s = -1; break;
      case A_NOTHING_STALL: break;
      case A_PARTIAL_CLOSE: wr(s, "314"); quit(c, s, p.rst); s = -1; break;
      case A_PARTIAL_STALL: wr(s, "314"); --R->live; break;      // stays for ever, so it does not count
      default: break;
    }
    if (s >= 0) { char b; while (read(s, &b, 1) > 0) sim::fail("wrong_line", "a client without the right key is given data"); quit(c, s, false); }
    if (p.auth == A_PARTIAL_STALL) return;
  } else if (p.death == D_AT_ONCE) {
    quit(c, s, p.rst);
  } else {
    if (K.key) { std::string k = std::string(KEY) + "\n"; size_t h = sim::choose("key_pieces", k.size(), 0.2); if (h) { wr(s, k.substr(0, h)); sim::sleep_ns(sim::choose("pause", 2000, 0.5) * 1000000ull); } wr(s, k.substr(h)); }
    dismissed = worker(c, p, s, s);
    if (dismissed) close(s);
  }
  --R->live;
}
std::vector<ClientPlan> g_all;
int exec_worker(const std::vector<std::string>& v) {
  int c = cur_client_of_exec(v);
  ClientPlan p = g_all[c];
  bool d = worker(c, p, 0, 1);
  // the connection is also open as a third descriptor; leaving closes them all
  (void)d;
  return 0;
}
ClientPlan draw_plan(sim::Rng& r, int i, bool good) {
  ClientPlan p;
  p.start_ms = r.coin(0.5) ? 0 : r.below(r.coin(0.3) ? 20000 : 1500);
  p.think_ms = r.coin(0.5) ? 0 : r.below(K.multi ? 500 : 3000);
  p.real = r.coin(0.25);
  if (good) return p;
  p.rst = r.coin(0.4);
  p.after = r.coin(0.5) ? 0 : r.below(4);
  p.stall_ms = r.coin(0.6) ? 0 : r.below(r.coin(0.3) ? 60000 : 3000);
  p.cut = r.below(40);
  p.death = (Death)r.range(1, K.babble ? 7 : 6);     // output beyond the reply makes wrong answers, but must not stop the server
  if (K.key && r.coin(0.4)) { p.auth = (Auth)r.range(1, 6); p.real = false; }
  if (p.death == D_AT_ONCE) p.real = false;
  return p;
}
void make_case(sim::FaultCfg& f) {
  int n = sim::param_log("lines", 0, 24);
  int maxlen = sim::param_log("max_length", 1, 3000);
  int nc = sim::param("clients", 1, 6);
  K.key = sim::coin("key", 0.5);
  K.multi = sim::coin("multi_line", 0.25);
  K.stay = sim::coin("stay_alive", 0.4);
  K.relaunch = sim::coin("relaunch", 0.5) || K.stay || g_live;     // with --stay-alive somebody must come back
  K.last_nl = !sim::coin("no_final_newline", 0.3);
  f.net_capacity = sim::pick("net_capacity", {0, 4096, 64, 1});
  K.babble = g_live && f.net_capacity != 1;      // a client that writes when it should read can only be served while its output fits the buffers
  int failing = sim::pick("failing_percent", {0, 40, 70, 100});
  double synch = sim::pick("synch_percent", {0, 0, 10, 50}) / 100.0;
  sim::Rng r = sim::content("c:lines");
  std::set<std::string> seen;
  for (int i = 0; i < n; ++i) {
    if (r.coin(synch)) { K.in.push_back("===SYNCH==="); continue; }
    std::string l = fmt("%d ", i);
    size_t len = r.coin(0.2) ? r.below(maxlen) : r.below(std::min(maxlen, 60));
    if (r.coin(0.1)) len = 78 + r.below(8);      // around the first buffer size
    for (size_t k = 0; k < len; ++k) l += (char)(r.coin(0.1) ? r.range(128, 255) : r.range(32, 126));
    K.in.push_back(l);
  }
  for (size_t i = 0; i < K.in.size(); ++i) {
    K.stdin_data += K.in[i];
    if (i + 1 < K.in.size() || K.last_nl) K.stdin_data += "\n";
    K.out_items.push_back(K.in[i] == "===SYNCH===" ? "===SYNCH===\n" : reply_of(K.in[i]));
    K.expected += K.out_items.back();
  }
  sim::Rng q = sim::content("c:clients");
  bool any_good = false;
  for (int i = 0; i < nc; ++i) {
    bool good = (int)q.below(100) >= failing;
    K.plans.push_back(draw_plan(q, i, good));
    any_good |= good;
  }
  if (!any_good && !K.relaunch) K.plans[q.below(nc)] = draw_plan(q, 0, true);
  f.net_delay = K.multi ? 0 : sim::pick("net_delay", {0, 50, 300}) / 1000.0;
  f.net_split = sim::pick("net_split", {0, 100, 700}) / 1000.0;
  f.accept_err = sim::pick("accept_err", {0, 0, 200}) / 1000.0;
  f.connect_err = sim::pick("connect_err", {0, 0, 50}) / 1000.0;
  f.bind_busy = sim::pick("bind_busy", {0, 0, 300}) / 1000.0;
  // sentclient gives up after six refused connections
  if (f.bind_busy > 0 || f.connect_err > 0) for (auto& p : K.plans) p.real = false;
}
int body() {
  R = new Run;
  R->handed.resize(K.in.size());
  for (size_t i = 0; i < K.in.size(); ++i) R->index[K.in[i]] = i;
  int p[2];
  if (pipe(p) != 0) return 99;
  dup2(p[0], 0); close(p[0]);
  {
    int w = p[1];
    sim::spawn("feeder", [w]() {
      size_t i = 0;
      while (i < K.stdin_data.size()) {
        size_t e = K.stdin_data.find('\n', i); e = e == std::string::npos ? K.stdin_data.size() : e + 1;
        uint64_t d = sim::choose("input_pause", 3000, 0.1);
        if (d) sim::sleep_ns(d * 1000000ull);
        if (!wr(w, K.stdin_data.substr(i, e - i))) break;
        i = e;
      }
      close(w);
    });
  }
  g_all = K.plans;
  for (size_t i = 0; i < K.plans.size(); ++i) { int c = R->launched++; ClientPlan pl = K.plans[i]; sim::spawn_process("client", [c, pl]() { client(c, pl); }); }
  if (K.relaunch) sim::spawn("launcher", []() {
    size_t want = K.plans.size();
    for (int k = 0; R->launched < 400; ++k) {
      sim::sleep_ns(15000000000ull);
      while (R->live < (int)want && R->launched < 400) {
        ClientPlan p;           // a healthy one
        if (R->launched < (int)want * 2 && R->launched < 12) { p = K.plans[R->launched % want]; p.start_ms = 0; }
        if (p.auth == A_NOTHING_STALL || p.auth == A_PARTIAL_STALL) p = ClientPlan();
        p.real = false;
        int c = R->launched++;
        g_all.resize(R->launched); g_all[c] = p;
        sim::spawn_process("client", [c, p]() { client(c, p); });
        sim::probe("relaunched_clients");
        sim::sleep_ns(1000000);
      }
    }
  });
  std::vector<std::string> a = {"sentserver"};
  if (K.key) { a.push_back("-k"); a.push_back(KEY); }
  if (K.multi) a.push_back("-m");
  if (K.stay) a.push_back("--stay-alive");
  a.push_back("4000");
  std::vector<char*> av; for (auto& s : a) av.push_back((char*)s.c_str()); av.push_back(0);
  return sentserver_main(av.size() - 1, &av[0]);
}
}
static void run(bool live_checks) {
  sim::PhaseOpts o; o.name = "server";
  g_live = live_checks;
  make_case(o.faults);
  o.malloc_fill = sim::pick("fill", {-1, 0, 256, 257});
  o.step_limit = 30000000;
  o.stdout_path = sim::scratch() + "/stdout"; o.stderr_path = sim::scratch() + "/stderr";
  o.exec_handler = exec_worker;
  o.on_end = []() { for (void* h : R->steady) if (!sim::net_peer_closed(h)) { sim::publish("S"); break; } };
  if (K.in.empty()) sim::trivial();
  sim::Outcome oc = sim::run_phase(o, body);
  std::string out = sim::slurp(o.stdout_path), err = sim::slurp(o.stderr_path);
  std::string tail = err.size() > 400 ? err.substr(err.size() - 400) : err;
  if (sim::verbose()) fprintf(stderr, "--- stderr\n%s--- stdout\n%s---\n", err.c_str(), out.c_str());
  bool panicked = err.find("Panicking") != std::string::npos;
  sim::probe(oc.ok() ? "all_answered" : panicked ? "all_clients_died" : "other_end");
  if (live_checks) {
    if (oc.kind == sim::Outcome::SIGNALLED || oc.kind == sim::Outcome::ABORTED || oc.kind == sim::Outcome::EXCEPTION) sim::fail("server_died", "%s; %s", oc.str().c_str(), tail.c_str());
    if (oc.kind == sim::Outcome::DEADLOCK || oc.kind == sim::Outcome::STEPLIMIT) sim::fail("no_progress", "%s; %s", oc.str().c_str(), tail.c_str());
    if (!oc.ok()) {
      if (!panicked) sim::fail("server_failed", "exit without reason: %s; %s", oc.str().c_str(), tail.c_str());
      if (K.stay) sim::fail("server_failed", "--stay-alive, but the server gives up when all clients have died; %s", tail.c_str());
      if (sim::result().find('S') != std::string::npos) sim::fail("server_failed", "the server gives up although a working client holds or has answered a line and is still connected; %s", tail.c_str());
    }
    return;
  }
  // N01: what has been written is a prefix, in order, of the complete replies
  if (oc.ok() && out != K.expected) {
    size_t i = 0; while (i < out.size() && i < K.expected.size() && out[i] == K.expected[i]) ++i;
    sim::fail("wrong_output", "server ends with success, but its output of %zu bytes differs from the %zu expected bytes at %zu: got '%s', expected '%s'", out.size(), K.expected.size(), i, sim::hexdump(out.substr(i, 40)).c_str(), sim::hexdump(K.expected.substr(i, 40)).c_str());
  }
  if (K.expected.compare(0, out.size(), out) != 0) {
    size_t i = 0; while (i < out.size() && i < K.expected.size() && out[i] == K.expected[i]) ++i;
    sim::fail("wrong_output", "output differs from the expected replies at byte %zu: got '%s', expected '%s' (%s)", i, sim::hexdump(out.substr(i, 40)).c_str(), sim::hexdump(K.expected.substr(i, 40)).c_str(), oc.str().c_str());
  }
}
static void run_n01() { run(false); }
static void run_n02() { run(true); }
namespace sim { const Property properties[] = {{"N01", run_n01}, {"N02", run_n02}, {0, 0}}; }
