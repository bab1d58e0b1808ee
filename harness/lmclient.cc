// N03: the remote language model client (lm://host:port).
#include "sim.h"
#include "net.h"
#include <arpa/inet.h>
#include <errno.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include "decoder/ff_lm.cc"
using sim::fmt;

namespace {
enum Death { NEVER, AT_ACCEPT, MID_REQUEST, AFTER_REQUEST, MID_REPLY, AFTER_REPLY, NEVER_LISTENS };
struct Srv { int port; int start_ms; Death death; int at; int cut; bool reset; int pieces; int slow; };
struct Query { int server; int word; std::vector<int> ctx; };
std::vector<Srv> srv;
std::vector<Query> queries;
std::vector<std::string> words;
int vocab; uint64_t salt;

// the probability a server answers for an n-gram; bytes chosen to be awkward
float answer(int s, const std::string& line) {
  uint64_t h = sim::fnv(line.data(), line.size(), salt * 31 + s);
  sim::Rng r(h);
  uint32_t bits;
  switch (r.below(6)) {
    case 0: { float f = 0; return f; }
    case 1: bits = 0xBF0A0A0A ^ (r.below(4) << 16); break;      // contains newline bytes
    case 2: bits = 0xBF800D0A; break;
    case 3: bits = 0xC0000000; break;                           // zero bytes
    case 4: bits = 0xC2C80000 + (r.below(256) << 8); break;     // about -100
    default: bits = 0xBE000000u + (uint32_t)r.below(0x02800000); break;
  }
  float f; memcpy(&f, &bits, 4); return f;
}
std::string line_of(const Query& q) { std::string l = "prob " + words[q.word]; for (int c : q.ctx) l += " " + words[c]; return l; }
bool wr(int fd, const std::string& s) { size_t i = 0; while (i < s.size()) { ssize_t r = write(fd, s.data() + i, s.size() - i); if (r <= 0) return false; i += r; } return true; }
void quit(int fd, bool rst) { if (rst) sim::net_abort(fd); else close(fd); }
void server(int k) {
  Srv& S = srv[k];
  if (S.death == NEVER_LISTENS) return;
  if (S.start_ms) sim::sleep_ns(S.start_ms * 1000000ull);
  int l = socket(AF_INET, SOCK_STREAM, 0);
  struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(S.port);
  if (bind(l, (struct sockaddr*)&a, sizeof a) || listen(l, 5)) return;
  struct sockaddr_in p; socklen_t pl = sizeof p;
  int fd = accept(l, (struct sockaddr*)&p, &pl);
  while (fd < 0) fd = accept(l, (struct sockaddr*)&p, &pl);
  if (S.death == AT_ACCEPT) { quit(fd, S.reset); close(l); return; }
  for (int n = 0;; ++n) {
    bool last = S.death != NEVER && n == S.at;
    std::string req;
    for (;;) {
      char c; ssize_t r = read(fd, &c, 1);
      if (r <= 0) { close(fd); close(l); return; }
      if (c == '\n') break;
      req += c;
      if (last && S.death == MID_REQUEST && (int)req.size() > S.cut) { quit(fd, S.reset); close(l); return; }
    }
    if (last && (S.death == AFTER_REQUEST || S.death == MID_REQUEST)) { quit(fd, S.reset); close(l); return; }
    // the request must be one the decoder has to make
    bool known = false;
    for (auto& q : queries) if (q.server == k && line_of(q) == req) { known = true; break; }
    if (!known) sim::fail("wrong_request", "server %d receives '%s', which no query of this client asks for", k, sim::hexdump(req, 80).c_str());
    float f = answer(k, req);
    std::string rep((char*)&f, 4); rep += "\r\n";
    if (S.slow) sim::sleep_ns(S.slow * 1000000ull);
    if (last && S.death == MID_REPLY) { wr(fd, rep.substr(0, S.cut % 6)); if (S.pieces) sim::sleep_ns(30000000); quit(fd, S.reset); close(l); return; }
    size_t pos = 0;
    for (int i = 0; i < S.pieces && pos < rep.size(); ++i) {
      size_t m = sim::choose("reply_piece", rep.size() - pos + 1, 0.5);
      if (!wr(fd, rep.substr(pos, m))) { close(fd); close(l); return; }
      pos += m;
      uint64_t d = sim::choose("reply_pause", 100, 0.5);
      if (d) sim::sleep_ns(d * 1000000ull);
    }
    if (!wr(fd, rep.substr(pos))) { close(fd); close(l); return; }
    if (last) { quit(fd, S.reset); close(l); return; }
  }
}
void make_case(sim::FaultCfg& f) {
  int ns = sim::param("servers", 1, 3), nq = sim::param_log("queries", 1, 60);
  vocab = sim::param_log("vocab", 1, 30);
  int maxctx = sim::param("context", 0, 5);
  int failing = sim::pick("failing_percent", {0, 0, 60, 100});
  int late = sim::pick("late_percent", {0, 0, 50});
  int shape = sim::pick("words", {0, 1, 2});
  sim::Rng r = sim::content("c:queries");
  salt = r.next();
  for (int i = 0; i < vocab; ++i) {
    std::string w = fmt("w%d", i);
    if (shape == 1) w = std::string(1 + r.below(12), (char)(33 + i)) + fmt("%d", i);
    if (shape == 2) { w = fmt("%d", i); for (int k = r.below(r.coin(0.1) ? 900 : 8); k > 0; --k) w += (char)r.range(128, 255); }
    words.push_back(w);
  }
  for (int i = 0; i < ns; ++i) {
    Srv s; s.port = r.coin(0.2) && !i ? 6666 : 7000 + i; s.start_ms = (int)r.below(100) < late ? r.below(6000) : 0;
    s.death = (int)r.below(100) < failing ? (Death)r.range(1, 6) : NEVER;
    s.at = r.coin(0.4) ? 0 : r.below(nq); s.cut = r.below(12); s.reset = r.coin(0.4); s.pieces = r.coin(0.4) ? 0 : r.below(5); s.slow = r.coin(0.8) ? 0 : r.below(3000);
    srv.push_back(s);
  }
  for (int i = 0; i < nq; ++i) {
    Query q; q.server = r.below(ns); q.word = r.below(vocab);
    for (int k = r.below(maxctx + 1); k > 0; --k) q.ctx.push_back(r.below(vocab));
    if (i && r.coin(0.3)) { q = queries[r.below(i)]; if (r.coin(0.5)) q.server = r.below(ns); if (r.coin(0.3) && !q.ctx.empty()) q.ctx.pop_back(); }
    queries.push_back(q);
  }
  f.net_delay = sim::pick("net_delay", {0, 50, 300}) / 1000.0;
  f.net_split = sim::pick("net_split", {0, 100, 700}) / 1000.0;
  f.net_capacity = sim::pick("net_capacity", {0, 4096, 64, 3});
  f.eintr = sim::pick("eintr", {0, 50, 300}) / 1000.0;
  f.connect_err = sim::pick("connect_err", {0, 0, 300}) / 1000.0;
}
int body() {
  std::vector<int> ids;
  for (auto& w : words) ids.push_back(TD::Convert(w));
  for (size_t k = 0; k < srv.size(); ++k) sim::spawn_process(fmt("server%zu", k).c_str(), [k]() { server(k); });
  std::vector<LanguageModelImpl*> lm(srv.size());
  for (size_t k = 0; k < srv.size(); ++k) {
    lm[k] = make_lm_impl(6, srv[k].port == 6666 ? std::string("lm://lmhost") : fmt("lm://lmhost:%d", srv[k].port), 0);
    sim::publish("c");
  }
  for (size_t i = 0; i < queries.size(); ++i) {
    Query& q = queries[i];
    std::vector<WordID> ctx; for (int c : q.ctx) ctx.push_back(ids[c]);
    ctx.push_back(0);
    if (sim::choose("new_sentence", 8, 0.1) == 7) NgramCache::Clear();
    double p = lm[q.server]->WordProb(ids[q.word], &ctx[0]);
    float want = answer(q.server, line_of(q));
    if (!(p == want)) sim::fail("wrong_probability", "query %zu ('%s' at server %d): %g returned, the server's answer is %g", i, sim::hexdump(line_of(q), 60).c_str(), q.server, p, (double)want);
    sim::publish("q");
  }
  return 0;
}
}
static void run_n03() {
  sim::PhaseOpts o; o.name = "decoder";
  make_case(o.faults);
  o.malloc_fill = sim::pick("fill", {-1, 0, 256, 257});
  o.step_limit = 20000000;
  o.stderr_path = sim::scratch() + "/stderr";
  sim::Outcome oc = sim::run_phase(o, body);
  std::string err = sim::slurp(o.stderr_path), tail = err.size() > 300 ? err.substr(err.size() - 300) : err;
  if (sim::verbose()) fprintf(stderr, "--- stderr\n%s---\n", err.c_str());
  if (oc.kind == sim::Outcome::DEADLOCK || oc.kind == sim::Outcome::STEPLIMIT) sim::fail("waits_for_ever", "%s; %s", oc.str().c_str(), tail.c_str());
  sim::probe(oc.ok() ? "completed" : "error_reported");
  bool any = o.faults.connect_err > 0;
  for (auto& s : srv) any |= s.death != NEVER || s.start_ms > 0;
  bool crash = oc.kind == sim::Outcome::SIGNALLED && !any;
  if (oc.kind == sim::Outcome::SIGNALLED && oc.detail.find("SIGPIPE") == std::string::npos) sim::fail("crash", "%s; %s", oc.str().c_str(), tail.c_str());
  if (!oc.ok() && (crash || !any)) sim::fail("unexpected_error", "every server answers every request, but the decoder fails: %s; %s", oc.str().c_str(), tail.c_str());
}
namespace sim { const Property properties[] = {{"N03", run_n03}, {0, 0}}; }
