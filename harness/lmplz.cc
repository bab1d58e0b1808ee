// L01, L02: language model estimation (the real lmplz main) against a reference
// interpolated modified Kneser-Ney model and against itself across schedules,
// memory budgets, block sizes and I/O faults.
#include "sim.h"
#include "lm/builder/corpus_count.hh"
#include "lm/builder/ngram.hh"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <map>
#include <set>
#include <sstream>
using sim::fmt;
extern "C" int lmplz_main(int argc, char** argv);

typedef std::vector<unsigned> Gram;
struct Model {
  bool bad_discount = false, empty_order = false;
  std::vector<std::map<std::string, std::pair<double, double> > > g;   // text -> prob, backoff
};

struct Settings {
  int order; bool interp_uni; bool skip_symbols; bool fallback; double fb[3]; std::vector<uint64_t> prune; uint64_t pad; bool q; bool header; bool vocab_file;
};
static const unsigned UNK = 0, BOS = 1, EOS = 2;

static Model reference(const std::string& corpus, const Settings& st) {
  Model m;
  int N = st.order;
  std::map<std::string, unsigned> voc; std::vector<std::string> words;
  auto id = [&](const std::string& w) -> unsigned { auto it = voc.find(w); if (it != voc.end()) return it->second; unsigned v = words.size(); voc[w] = v; words.push_back(w); return v; };
  id("<unk>"); id("<s>"); id("</s>");
  std::vector<std::map<Gram, uint64_t> > real(N + 1);
  size_t at = 0;
  auto window = [&](const Gram& sent) {       // sent: N-1 BOS + words
    for (size_t e = N - 1; e < sent.size(); ++e)
      for (int k = 1; k <= N; ++k) {
        Gram g(sent.begin() + (e + 1 - k), sent.begin() + e + 1);
        bool bad = false;
        for (size_t i = 1; i < g.size(); ++i) if (g[i] == BOS) bad = true;
        if (!bad) ++real[k][g];
      }
  };
  while (at < corpus.size()) {
    size_t nl = corpus.find('\n', at);
    std::string line = corpus.substr(at, nl == std::string::npos ? std::string::npos : nl - at);
    at = nl == std::string::npos ? corpus.size() : nl + 1;
    Gram s(N - 1, BOS);
    std::string w;
    for (size_t i = 0; i <= line.size(); ++i) {
      char c = i < line.size() ? line[i] : ' ';
      if (c == ' ' || c == '\t' || c == '\r' || c == 0) {
        if (!w.empty()) { unsigned x = id(w); if (x > 2) s.push_back(x); w.clear(); }
      } else w += c;
    }
    s.push_back(EOS);
    window(s);
  }
  // adjusted counts
  std::vector<std::map<Gram, uint64_t> > adj(N + 1);
  adj[N] = real[N];
  for (int k = N - 1; k >= 1; --k) {
    for (auto& p : real[k + 1]) { Gram s(p.first.begin() + 1, p.first.end()); ++adj[k][s]; }
    for (auto& p : real[k]) if (p.first[0] == BOS) adj[k][p.first] = p.second;
  }
  adj[1][Gram(1, UNK)] = 0; adj[1][Gram(1, BOS)] = 0;
  // discounts, pruning
  std::vector<std::vector<float> > D(N + 1, std::vector<float>(4, 0.f));
  std::vector<std::set<Gram> > pruned(N + 1);
  for (int k = 1; k <= N; ++k) {
    uint64_t n[5] = {0, 0, 0, 0, 0};
    for (auto& p : adj[k]) if (p.second < 5) ++n[p.second];
    bool bad = false;
    for (int j = 1; j < 4; ++j) if (!n[j]) bad = true;
    if (!bad) {
      float y = (float)n[1] / (float)(n[1] + 2.0 * n[2]);
      for (int j = 1; j < 4; ++j) {
        D[k][j] = (float)j - (float)(j + 1) * y * (float)n[j + 1] / (float)n[j];
        if (D[k][j] < 0.0 || D[k][j] > j) bad = true;
      }
    }
    if (bad) {
      if (!st.fallback) m.bad_discount = true;
      for (int j = 1; j < 4; ++j) D[k][j] = st.fb[j - 1];
    }
    if (k > 1 && st.prune[k - 1]) for (auto& p : adj[k]) if (real[k][p.first] <= st.prune[k - 1]) pruned[k].insert(p.first);
    if (adj[k].size() == pruned[k].size()) m.empty_order = true;
  }
  // denominators and gammas per context
  std::vector<std::map<Gram, std::pair<double, double> > > ctx(N + 1);   // denominator, gamma numerator
  for (int k = 1; k <= N; ++k)
    for (auto& p : adj[k]) {
      Gram c(p.first.begin(), p.first.end() - 1);
      auto& e = ctx[k][c];
      e.first += p.second;
      if (pruned[k].count(p.first)) e.second += p.second;
      else if (p.second) e.second += D[k][std::min<uint64_t>(3, p.second)];
    }
  uint64_t V = std::max<uint64_t>(st.pad, adj[1].size() - 1);
  std::vector<std::map<Gram, double> > prob(N + 1), qd(N + 1);
  m.g.resize(N + 1);
  for (int k = 1; k <= N; ++k)
    for (auto& p : adj[k]) {
      if (pruned[k].count(p.first)) continue;
      const Gram& g = p.first;
      Gram c(g.begin(), g.end() - 1), suf(g.begin() + 1, g.end());
      auto e = ctx[k][c];
      double gamma = e.second / e.first;
      double u = (p.second - (p.second ? D[k][std::min<uint64_t>(3, p.second)] : 0.0)) / e.first;
      double lower = k == 1 ? 1.0 / V : prob[k - 1][suf];
      if (k == 1 && !st.interp_uni) { if (g[0] == UNK) u = gamma; gamma = 0; }
      double pr = u + gamma * lower;
      prob[k][g] = pr;
      double bo = 1.0;
      if (k < N && g.back() != UNK && g.back() != EOS) {
        auto it = ctx[k + 1].find(g);
        if (it != ctx[k + 1].end()) bo = it->second.second / it->second.first;
      }
      double q = k == 1 ? bo : qd[k - 1][suf] / gamma * bo;
      qd[k][g] = q;
      std::string t;
      for (size_t i = 0; i < g.size(); ++i) { if (i) t += ' '; t += words[g[i]]; }
      if (st.q) m.g[k][t] = std::make_pair(log10(pr * q), 0.0);
      else m.g[k][t] = std::make_pair(std::min(0.0, log10(pr)), log10(bo));
    }
  return m;
}

static bool near(double a, double b, bool q) {
  if (isinf(a) || isinf(b)) return a == b;
  if (isnan(a) || isnan(b)) return isnan(a) && isnan(b);
  return fabs(a - b) <= (q ? 1e-3 : 2e-4) + 1e-4 * fabs(b);
}
static std::string check_arpa(const std::string& arpa, const Model& m, const Settings& st) {
  std::istringstream in(arpa);
  std::string line;
  int N = st.order;
  do { if (!std::getline(in, line)) return "no \\data\\ line"; } while (!line.empty() && line[0] == '#');
  if (line != "\\data\\") return "first line is '" + line + "'";
  for (int k = 1; k <= N; ++k) {
    std::getline(in, line);
    std::string want = fmt("ngram %d=%zu", k, m.g[k].size());
    if (line != want) return "header '" + line + "', expected '" + want + "'";
  }
  std::getline(in, line); if (!line.empty()) return "no blank line after the header";
  for (int k = 1; k <= N; ++k) {
    std::getline(in, line);
    if (line != fmt("\\%d-grams:", k)) return "section header '" + line + "'";
    std::set<std::string> seen;
    while (std::getline(in, line) && !line.empty()) {
      size_t t = line.find('\t'); if (t == std::string::npos) return "no tab in '" + line + "'";
      size_t t2 = line.find('\t', t + 1);
      std::string gram = line.substr(t + 1, t2 == std::string::npos ? std::string::npos : t2 - t - 1);
      double p = strtod(line.c_str(), 0), b = t2 == std::string::npos ? 0 : strtod(line.c_str() + t2, 0);
      if ((t2 == std::string::npos) != (k == N)) return "unexpected field count in '" + line + "'";
      auto it = m.g[k].find(gram);
      if (it == m.g[k].end()) return fmt("%d-gram '%s' is not in the reference model", k, gram.c_str());
      if (!seen.insert(gram).second) return fmt("%d-gram '%s' twice", k, gram.c_str());
      if (!near(p, it->second.first, st.q)) return fmt("%d-gram '%s' probability %g, reference %g", k, gram.c_str(), p, it->second.first);
      if (k < N && !near(b, it->second.second, st.q)) return fmt("%d-gram '%s' backoff %g, reference %g", k, gram.c_str(), b, it->second.second);
    }
    if (seen.size() != m.g[k].size()) return fmt("%zu %d-grams listed, reference has %zu", seen.size(), k, m.g[k].size());
  }
  std::getline(in, line);
  if (line != "\\end\\") return "no \\end\\ line";
  if (std::getline(in, line)) return "text after \\end\\";
  return "";
}

static std::string make_corpus(sim::Rng& r, int lines, int vocab, int maxlen, bool weird, bool special) {
  std::vector<std::string> words;
  for (int i = 0; i < vocab; ++i) {
    std::string w;
    if (weird && r.coin(0.1)) { int n = r.coin(0.1) ? r.range(200, 900) : r.range(1, 30); for (int k = 0; k < n; ++k) { char c = (char)r.range(33, 255); if ((unsigned char)c == 127) c = 'd'; w += c; } }
    else { w = fmt("w%d", i); }
    words.push_back(w);
  }
  std::string c;
  double skew = r.coin(0.5) ? 2.0 : 1.0;
  std::vector<std::string> past;
  for (int l = 0; l < lines; ++l) {
    std::string s;
    if (!past.empty() && r.coin(0.25)) s = past[r.below(past.size())];
    else {
      int n = r.coin(0.06) ? 0 : 1 + r.below(maxlen);
      for (int i = 0; i < n; ++i) {
        size_t w = (size_t)(pow(r.unit(), skew) * vocab);
        if (w >= words.size()) w = words.size() - 1;
        if (i) { s += weird && r.coin(0.1) ? (r.coin(0.5) ? "\t" : "  ") : " "; }
        else if (weird && r.coin(0.05)) s += " ";
        if (special && r.coin(0.03)) { s += r.coin(0.5) ? "<unk> " : r.coin(0.5) ? "</s> " : "<s> "; }
        s += words[w];
      }
      if (weird && r.coin(0.05)) s += " \r";
      past.push_back(s);
    }
    c += s;
    if (l + 1 < lines || !weird || r.coin(0.7)) c += '\n';
  }
  return c;
}

struct Cfg { uint64_t mem, min_block, sort_block, block_count, vocab_est; };
static int call(const Settings& st, const Cfg& c, const std::string& text, const std::string& arpa, bool use_std) {
  std::vector<std::string> a;
  a.push_back("lmplz");
  a.push_back("-o"); a.push_back(fmt("%d", st.order));
  a.push_back("-S"); a.push_back(fmt("%llub", (unsigned long long)c.mem));
  a.push_back("--minimum_block"); a.push_back(fmt("%llub", (unsigned long long)c.min_block));
  a.push_back("--sort_block"); a.push_back(fmt("%llub", (unsigned long long)c.sort_block));
  a.push_back("--block_count"); a.push_back(fmt("%llu", (unsigned long long)c.block_count));
  a.push_back("--vocab_estimate"); a.push_back(fmt("%llu", (unsigned long long)c.vocab_est));
  a.push_back("-T"); a.push_back(sim::scratch() + "/tmpx");
  if (!use_std) { a.push_back("--text"); a.push_back(text); a.push_back("--arpa"); a.push_back(arpa); }
  if (!st.interp_uni) { a.push_back("--interpolate_unigrams"); a.push_back("0"); }
  if (st.skip_symbols) a.push_back("--skip_symbols");
  if (st.fallback) { a.push_back("--discount_fallback"); for (int i = 0; i < 3; ++i) a.push_back(fmt("%g", st.fb[i])); }
  if (st.pad) { a.push_back("--vocab_pad"); a.push_back(fmt("%llu", (unsigned long long)st.pad)); }
  if (st.q) a.push_back("--collapse_values");
  if (st.header) a.push_back("--verbose_header");
  if (st.vocab_file) { a.push_back("--vocab_file"); a.push_back(sim::scratch() + "/vocab.out"); }
  if (st.prune.size() && st.prune.back()) { a.push_back("--prune"); for (uint64_t p : st.prune) a.push_back(fmt("%llu", (unsigned long long)p)); }
  std::vector<char*> v;
  for (std::string& s : a) v.push_back(&s[0]);
  v.push_back(0);
  if (sim::verbose()) { sim::spit("/tmp/o/corpus.txt", sim::slurp(sim::scratch() + "/corpus.txt")); std::string l; for (auto& s : a) l += s + " "; sim::spit("/tmp/o/cmd.txt", l + "\n"); }
  return lmplz_main(a.size(), v.data());
}
// smallest memory the program's own documented checks and its chain split allow
static Cfg draw_cfg(const Settings& st, const char* pfx) {
  Cfg c;
  auto P = [&](const char* n) { return fmt("%s_%s", pfx, n); };
  c.vocab_est = sim::param_log(P("vocab_estimate").c_str(), 3, 3000);
  c.block_count = sim::param(P("block_count").c_str(), 1, 4);
  size_t entry = lm::builder::NGram::TotalSize(st.order);
  c.min_block = sim::param_log(P("min_block").c_str(), entry, 3000);
  uint64_t need = c.min_block * st.order * c.block_count;
  uint64_t vocab = lm::builder::CorpusCount::VocabUsage(c.vocab_est);
  // step one: at least one entry per block next to the vocabulary and dedupe table
  need = std::max<uint64_t>(need, vocab + (uint64_t)(entry * (c.block_count + lm::builder::CorpusCount::DedupeMultiplier(st.order))) + 4 * entry);
  // later steps: every order's share must hold block_count entries
  double sum = 0; for (int i = 1; i <= st.order; ++i) sum += i * lm::builder::NGram::TotalSize(i);
  double share = lm::builder::NGram::TotalSize(1) / sum;
  need = std::max<uint64_t>(need, (uint64_t)(c.block_count * lm::builder::NGram::TotalSize(1) / share) + 64);
  need = std::max<uint64_t>(need, 4 * c.min_block + 8);
  uint64_t slack = sim::param_log(P("memory_slack").c_str(), 0, 400000);
  c.mem = need + slack;
  c.sort_block = c.min_block + sim::param_log(P("sort_slack").c_str(), 0, 60000);
  // the final re-read uses sort_block * order bytes for the chains
  c.sort_block = std::max<uint64_t>(c.sort_block, (uint64_t)(c.block_count * lm::builder::NGram::TotalSize(1) / share / st.order) + 16);
  c.mem = std::max<uint64_t>(c.mem, c.sort_block * 4);
  return c;
}
static Settings draw_settings() {
  Settings s;
  s.order = sim::param("order", 1, 5);
  s.interp_uni = !sim::coin("no_unigram_interpolation", 0.2);
  s.skip_symbols = sim::coin("skip_symbols", 0.2);
  s.fallback = !sim::coin("no_fallback", 0.07);
  s.fb[0] = 0.5; s.fb[1] = 1; s.fb[2] = 1.5;
  int pr = sim::param("prune", 0, 3);
  s.prune.assign(s.order, 0);
  if (pr && s.order > 1) {
    int from = sim::param("prune_from", 2, 5); if (from > s.order) from = s.order;
    for (int k = from; k <= s.order; ++k) s.prune[k - 1] = pr;
    if (sim::coin("prune_more_top", 0.3)) s.prune.back() += 1;
  }
  s.pad = s.interp_uni && sim::coin("vocab_pad", 0.15) ? 100 : 0;
  s.q = sim::coin("collapse", 0.15);
  s.header = sim::coin("verbose_header", 0.2);
  s.vocab_file = sim::coin("vocab_file", 0.3);
  return s;
}
static std::string errtail() { std::string e = sim::slurp(sim::scratch() + "/stderr.txt"); return e.size() > 500 ? e.substr(e.size() - 500) : e; }
static void run_lm(bool faults) {
  Settings st = draw_settings();
  int lines = sim::param_log("lines", 3, 140), vocab = sim::param_log("vocab", 1, 60), maxlen = sim::param("maxlen", 1, 12);
  bool weird = sim::coin("weird_text", 0.3);
  sim::Rng r = sim::content("c:corpus");
  std::string corpus = make_corpus(r, lines, vocab, maxlen, weird, st.skip_symbols);
  std::string in = sim::scratch() + "/corpus.txt", out0 = sim::scratch() + "/base.arpa", out1 = sim::scratch() + "/run.arpa";
  sim::spit(in, corpus);
  if (corpus.empty()) { sim::trivial(); return; }
  Model m = reference(corpus, st);
  if (m.empty_order) { sim::trivial(); }
  bool expect_error = m.bad_discount || m.empty_order;
  Cfg c1 = draw_cfg(st, "b");
  bool use_std = sim::coin("use_stdio", 0.3);
  if (use_std) st.header = false;
  sim::PhaseOpts o;
  o.name = "run"; o.stderr_path = sim::scratch() + "/stderr.txt";
  if (use_std) { o.stdin_path = in; o.stdout_path = out1; }
  o.malloc_fill = sim::coin("fill", 0.5) ? 256 : 0xA5;
  std::string want_vocab;
  if (!faults) {
    o.faults.short_read = sim::coin("short_reads", 0.5) ? 0.2 : 0;
    o.faults.short_write = sim::coin("short_writes", 0.5) ? 0.2 : 0;
    o.faults.eintr = sim::coin("eintr", 0.3) ? 0.1 : 0;
    // mappings that fail are served by plain reads
    bool mm = sim::coin("mmap_fails", 0.2);
    o.faults.mmap_fail = mm ? 1.0 : 0;
    o.faults.mmap_match = [=](const std::string& path) { return path == in; };
  } else {
    int kind = sim::param("fault", 0, 7);
    double p = sim::pick("fault_rate", {3, 20, 100, 300}) / 1000.0;
    const char* names[] = {"eio_write", "enospc", "eio_read", "temp_truncated", "seek", "ftruncate", "mkstemp_open", "close"};
    (void)names;
    o.faults.short_read = sim::coin("short_reads", 0.2) ? 0.2 : 0;
    o.faults.short_write = sim::coin("short_writes", 0.2) ? 0.2 : 0;
    std::string corpus_path = in;
    switch (kind) {
      case 0: o.faults.write_err = p; break;
      case 1: o.faults.disk_capacity = sim::param_log("capacity", 0, 20000); o.faults.max_hard = 1000000; break;
      case 2: o.faults.read_err = p; break;
      case 3: o.faults.pread_eof = p; o.faults.match = [=](const std::string& path, bool) { return path != corpus_path; }; break;
      case 4: o.faults.seek_err = p; break;
      case 5: o.faults.trunc_err = p; break;
      case 6: o.faults.mkstemp_err = p; o.faults.open_err = p; break;
      case 7: o.faults.close_err = p; break;
    }
  }
  // undisturbed run with generous memory
  {
    sim::PhaseOpts b; b.name = "base"; b.schedule = false; b.stderr_path = sim::scratch() + "/stderr.txt";
    if (use_std) { b.stdin_path = in; b.stdout_path = out0; }
    Cfg c0 = {4 << 20, 8192, 1 << 20, 2, 1000};
    sim::Outcome oc = sim::run_phase(b, [&]() { return call(st, c0, in, out0, use_std); });
    if (oc.kind == sim::Outcome::DEADLOCK || oc.kind == sim::Outcome::STEPLIMIT) sim::fail("no_progress", "undisturbed run: %s", oc.str().c_str());
    if (oc.kind == sim::Outcome::SIGNALLED) sim::fail("crash", "undisturbed run: %s", oc.str().c_str());
    if (expect_error) {
      if (oc.ok()) sim::fail("success_without_model", "the corpus does not determine discounts (or an order is empty), but the run reported success");
      sim::probe("expected_error");
      return;
    }
    if (!oc.ok()) sim::fail("unexpected_error", "undisturbed run: %s: %s", oc.str().c_str(), errtail().c_str());
    std::string e = check_arpa(sim::slurp(out0), m, st);
    if (!e.empty()) sim::fail("not_the_kneser_ney_model", "undisturbed run: %s", e.c_str());
    if (st.vocab_file) want_vocab = sim::slurp(sim::scratch() + "/vocab.out");
  }
  sim::Outcome oc = sim::run_phase(o, [&]() { return call(st, c1, in, out1, use_std); });
  std::string want = sim::slurp(out0), got = sim::slurp(out1);
  if (st.prune.back()) sim::probe("pruned_model");
  sim::probe(fmt("order_%d", st.order).c_str());
  if (oc.kind == sim::Outcome::DEADLOCK || oc.kind == sim::Outcome::STEPLIMIT) sim::fail("no_progress", "estimation: %s (after %llu hard faults)", oc.str().c_str(), (unsigned long long)oc.hard_faults);
  if (oc.hard_faults == 0) {
    if (oc.kind == sim::Outcome::SIGNALLED) sim::fail("crash", "estimation: %s", oc.str().c_str());
    // a memory budget the program itself rejects as too small is not a failure
    if (!oc.ok() && errtail().find("Chain configured with") != std::string::npos && errtail().find("too small for") != std::string::npos) { sim::probe("budget_rejected"); return; }
    if (!oc.ok()) sim::fail("unexpected_error", "memory %llu minimum_block %llu sort_block %llu block_count %llu vocab_estimate %llu: %s: %s",
      (unsigned long long)c1.mem, (unsigned long long)c1.min_block, (unsigned long long)c1.sort_block, (unsigned long long)c1.block_count, (unsigned long long)c1.vocab_est, oc.str().c_str(), errtail().c_str());
  } else {
    sim::probe(oc.ok() ? "success_after_fault" : "error_after_fault");
    if (!oc.ok()) return;       // ended with an error: allowed
  }
  if (got != want) {
    std::string e = check_arpa(got, m, st);
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    sim::fail(faults ? "success_with_altered_model" : "model_depends_on_run", "output differs from the undisturbed run at byte %zu (%zu against %zu bytes); against the reference: %s", i, got.size(), want.size(), e.empty() ? "equal within tolerance" : e.c_str());
  }
  if (st.vocab_file && sim::slurp(sim::scratch() + "/vocab.out") != want_vocab) sim::fail("vocabulary_file_differs", "the vocabulary file differs from the undisturbed run");
}
static void run_l01() { run_lm(false); }
static void run_l02() { run_lm(true); }
namespace sim { const Property properties[] = {{"L01", run_l01}, {"L02", run_l02}, {0, 0}}; }
