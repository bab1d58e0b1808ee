// E01: external evaluation metrics behind pipes.
#include "sim.h"
#include "net.h"
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sstream>
#include "mteval/ns.h"
#include "mteval/ns_ext.h"
#include "mteval/external_scorer.h"
#include "tdict.h"
using sim::fmt;
const char* meteor_jar_path = "/nonexistent";

namespace {
struct Server : ScoreServer { explicit Server(const std::string& c) : ScoreServer(c) {} };
enum Death { NEVER, BEFORE_READ, MID_READ, AFTER_READ, MID_REPLY, AFTER_REPLY, CLOSES_OUTPUT };
struct Request { int metric; bool eval; std::vector<std::vector<std::string> > refs; std::vector<std::string> hyp; std::vector<float> fields; std::string line; std::string reply; std::vector<float> values; int think_ms; };
struct Metric { bool old_api; Death death; int at; int status; int cut; int pieces; std::vector<std::string> argv; };
std::vector<Request> reqs;
std::vector<Metric> metrics;
const char* INIT = "SCORE ||| Reference initialization string . ||| Testing initialization string .";

bool wr(int fd, const std::string& s) { size_t i = 0; while (i < s.size()) { ssize_t r = write(fd, s.data() + i, s.size() - i); if (r <= 0) return false; i += r; } return true; }
bool rdline(int fd, std::string& l, size_t stop) {
  l.clear();
  for (;;) {
    if (l.size() >= stop) return true;
    char c; ssize_t r = read(fd, &c, 1);
    if (r <= 0) return false;
    if (c == '\n') return true;
    l += c;
  }
}
// the metric program
int program(const std::vector<std::string>& v) {
  int m = -1;
  for (size_t k = 0; k < metrics.size(); ++k) if (!v.empty() && v[0] == metrics[k].argv[0]) m = k;
  std::string all; for (auto& s : v) all += s + " ";
  if (m < 0) sim::fail("wrong_command", "the program started is '%s'", all.c_str());
  Metric& M = metrics[m];
  // v = file followed by argv
  if (v.size() != M.argv.size() + 1 || !std::equal(M.argv.begin(), M.argv.end(), v.begin() + 1)) {
    std::string want; for (auto& s : M.argv) want += s + " ";
    sim::fail("wrong_command", "the metric '%s' is started as (file, argument vector) '%s'", want.c_str(), all.c_str());
  }
  std::vector<Request*> mine;
  Request init; init.line = INIT; init.reply = fmt("%d 2 3\n", m); init.think_ms = 0;
  mine.push_back(&init);
  for (auto& r : reqs) if (r.metric == m) mine.push_back(&r);
  for (size_t i = 0;; ++i) {
    bool last = M.death != NEVER && (int)i == M.at;
    if (last && M.death == BEFORE_READ) return M.status;
    std::string l;
    if (!rdline(0, l, last && M.death == MID_READ ? M.cut : (size_t)-1)) return 0;
    if (last && M.death == MID_READ) return M.status;
    if (i >= mine.size()) sim::fail("wrong_request", "metric %d receives a request too many: '%s'", m, sim::hexdump(l, 80).c_str());
    if (l != mine[i]->line) {
      size_t k = 0; while (k < l.size() && k < mine[i]->line.size() && l[k] == mine[i]->line[k]) ++k;
      sim::fail("wrong_request", "request %zu to metric %d differs from byte %zu on: '%s', expected '%s'", i, m, k, sim::hexdump(l.substr(k, 60)).c_str(), sim::hexdump(mine[i]->line.substr(k, 60)).c_str());
    }
    if (mine[i]->think_ms) sim::sleep_ns(mine[i]->think_ms * 1000000ull);
    if (last && M.death == AFTER_READ) return M.status;
    std::string r = mine[i]->reply;
    if (last && M.death == CLOSES_OUTPUT) { wr(1, r.substr(0, M.cut % r.size())); close(1); sim::sleep_ns(3600000000000ull); return 0; }
    if (last && M.death == MID_REPLY) { wr(1, r.substr(0, M.cut % r.size())); if (M.pieces) sim::sleep_ns(50000000); return M.status; }
    size_t pos = 0;
    for (int p = 0; p < M.pieces && pos < r.size(); ++p) {
      size_t n = sim::choose("reply_piece", r.size() - pos, 0.5);
      if (!wr(1, r.substr(pos, n))) return 1;
      pos += n;
      uint64_t d = sim::choose("reply_pause", 100, 0.5);
      if (d) sim::sleep_ns(d * 1000000ull);
    }
    if (!wr(1, r.substr(pos))) return 1;
    if (last && M.death == AFTER_REPLY) return M.status;
  }
}
void make_case(sim::FaultCfg& f) {
  int nm = sim::param("metrics", 1, 3), nr = sim::param_log("requests", 0, 24);
  int maxw = sim::param_log("words", 1, 1500), maxf = sim::param_log("values", 1, 4000);
  int failing = sim::pick("failing_percent", {0, 0, 60, 100});
  sim::Rng r = sim::content("c:metrics");
  for (int i = 0; i < nm; ++i) {
    Metric m; m.old_api = r.coin(0.5);
    m.argv.push_back(fmt("metric%d", i));
    for (int k = r.below(4); k > 0; --k) m.argv.push_back(fmt("-opt%d", k));
    m.death = (int)r.below(100) < failing ? (Death)r.range(1, 6) : NEVER;
    m.at = r.coin(0.3) ? 0 : r.below(nr / nm + 2);
    m.status = r.coin(0.5) ? 0 : r.coin(0.5) ? 1 : 1009;       // 1000 + n: killed by signal n - 1
    m.cut = r.coin(0.2) ? 0 : r.below(r.coin(0.5) ? 8 : 40000);
    m.pieces = r.coin(0.4) ? 0 : r.below(6);
    metrics.push_back(m);
  }
  for (int i = 0; i < nr; ++i) {
    Request q; q.metric = r.below(nm); q.eval = r.coin(0.4); q.think_ms = r.coin(0.7) ? 0 : r.below(500);
    std::ostringstream os;
    if (q.eval) {
      os << "EVAL |||";
      for (int k = 1 + r.below(maxf); k > 0; --k) { q.fields.push_back(r.range(-64, 64) / 4.0f); os << ' ' << q.fields.back(); }
      q.values.push_back(r.range(-4096, 4096) / 64.0f);
    } else {
      os << "SCORE";
      auto sent = [&]() { std::vector<std::string> s; for (int k = r.below(r.coin(0.8) ? std::min(maxw, 8) + 1 : maxw + 1); k > 0; --k) { std::string w; for (int c = 1 + r.below(9); c > 0; --c) w += (char)(r.coin(0.1) ? r.range(128, 255) : r.range(33, 126)); s.push_back(w); } return s; };
      for (int k = r.coin(0.1) ? 0 : 1 + r.below(3); k > 0; --k) { q.refs.push_back(sent()); os << " |||"; for (auto& w : q.refs.back()) os << ' ' << w; }
      q.hyp = sent(); os << " |||"; for (auto& w : q.hyp) os << ' ' << w;
      for (int k = 1 + (r.coin(0.5) ? r.below(10) : r.below(maxf)); k > 0; --k) q.values.push_back(r.range(-4096, 4096) / 64.0f);
    }
    q.line = os.str();
    for (size_t k = 0; k < q.values.size(); ++k) q.reply += (k ? " " : "") + fmt("%.9g", q.values[k]);
    q.reply += "\n";
    reqs.push_back(q);
  }
  f.net_delay = sim::pick("net_delay", {0, 50, 300}) / 1000.0;
  f.net_split = sim::pick("net_split", {0, 100, 700}) / 1000.0;
  f.net_capacity = sim::pick("net_capacity", {0, 65536, 4096, 512});
  if (sim::coin("start_faults", 0.2)) {
    f.pipe_err = sim::pick("pipe_err", {0, 300}) / 1000.0;
    f.fork_err = sim::pick("fork_err", {0, 300}) / 1000.0;
    f.exec_err = sim::pick("exec_err", {300, 1000, 0}) / 1000.0;
  }
}
bool same(const std::vector<float>& a, const std::vector<float>& b) { return a == b; }
int body() {
  std::vector<EvaluationMetric*> ns(metrics.size());
  std::vector<ScoreServer*> ss(metrics.size());
  for (size_t i = 0; i < metrics.size(); ++i) {
    std::string cmd; for (auto& a : metrics[i].argv) cmd += (cmd.empty() ? "" : " ") + a;
    if (metrics[i].old_api) ss[i] = new Server(cmd); else ns[i] = new ExternalMetric(fmt("M%zu", i), cmd);
    sim::publish("c");
  }
  for (size_t i = 0; i < reqs.size(); ++i) {
    Request& q = reqs[i];
    std::vector<WordID> hyp; std::vector<std::vector<WordID> > refs(q.refs.size());
    for (auto& w : q.hyp) hyp.push_back(TD::Convert(w));
    for (size_t k = 0; k < refs.size(); ++k) for (auto& w : q.refs[k]) refs[k].push_back(TD::Convert(w));
    std::vector<float> got(i % 3, -77777.0f);       // the caller's vector may have been used before
    int m = q.metric;
    if (q.eval) got.clear();
    if (q.eval) {
      if (ns[m]) got.push_back(ns[m]->ComputeScore(SufficientStats("M", q.fields)));
      else got.push_back(ss[m]->ComputeScore(q.fields));
    } else {
      if (ns[m]) { SufficientStats s; s.fields = got; ns[m]->ComputeSufficientStatistics(hyp, refs, &s); got = s.fields; }
      else ss[m]->Evaluate(refs, hyp, &got);
    }
    if (!same(got, q.values)) {
      size_t k = 0; while (k < got.size() && k < q.values.size() && got[k] == q.values[k]) ++k;
      sim::fail("wrong_value", "request %zu (%s, metric %d, reply of %zu bytes): %zu values returned, %zu sent, different from value %zu on", i, q.eval ? "EVAL" : "SCORE", m, q.reply.size(), got.size(), q.values.size(), k);
    }
  }
  return 0;
}
}
static void run_e01() {
  sim::PhaseOpts o; o.name = "scorer";
  make_case(o.faults);
  o.malloc_fill = sim::pick("fill", {-1, 0, 256, 257});
  o.step_limit = 60000000;
  o.stderr_path = sim::scratch() + "/stderr";
  o.exec_handler = program;
  sim::Outcome oc = sim::run_phase(o, body);
  std::string err = sim::slurp(o.stderr_path);
  std::string tail = err.size() > 300 ? err.substr(err.size() - 300) : err;
  if (sim::verbose()) fprintf(stderr, "--- stderr\n%s---\n", err.c_str());
  // a metric that fails before it has answered its last request must be noticed
  bool early = false, any = false, late_clean = true;
  for (size_t m = 0; m < metrics.size(); ++m) {
    int n = 1; for (auto& q : reqs) if (q.metric == (int)m) ++n;
    Metric& M = metrics[m];
    if (M.death == NEVER || M.at > n || (M.at == n && M.death != BEFORE_READ && !(M.death == MID_READ && !M.cut))) continue;
    any = true;
    bool e = M.at < n - 1 || (M.at == n - 1 && M.death != AFTER_REPLY);
    if (M.at == n) e = false;
    early |= e;
    if (M.status) late_clean = false;
  }
  if (oc.kind == sim::Outcome::DEADLOCK || oc.kind == sim::Outcome::STEPLIMIT) sim::fail("waits_for_ever", "%s; %s", oc.str().c_str(), tail.c_str());
  sim::probe(oc.ok() ? "completed" : "error_reported");
  if (oc.ok() && early) sim::fail("lost_metric_ignored", "a metric ended before its last reply was complete, but every request returned");
  bool start_fault = oc.hard_faults > 0;
  if (!oc.ok() && !start_fault && (!any || (!early && late_clean)))
    sim::fail("unexpected_error", "every request was answered in full, but the scorer fails: %s; %s", oc.str().c_str(), tail.c_str());
}
namespace sim { const Property properties[] = {{"E01", run_e01}, {0, 0}}; }
