// B01, B02, B03: binary language models: crash during the build, disk faults
// during the build, and equality of every way of loading.
#include "sim.h"
#include "lm/model.hh"
#include "lm/enumerate_vocab.hh"
#include "lm/virtual_interface.hh"
#include "util/exception.hh"
#include <math.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
using sim::fmt;
using namespace lm::ngram;
extern "C" int build_binary_main(int argc, char** argv);

typedef std::vector<int> Gram;     // word numbers; 0 = <unk>, 1 = <s>, 2 = </s>
struct Arpa {
  int order = 2;
  std::vector<std::string> words;
  bool has_unk = true;
  std::vector<std::map<Gram, std::pair<double, double> > > g;  // [k-1]
  std::string text;
};
static Arpa make_arpa() {
  Arpa a;
  a.order = sim::param("order", 2, 5);
  int V = sim::param_log("words", 1, 2000);
  int sents = sim::param_log("sentences", 1, 400);
  bool dense = sim::coin("dense", 0.3);
  int keep = sim::pick("keep", {100, 90, 60, 30});
  a.has_unk = !sim::coin("no_unk", 0.3);
  bool longw = sim::coin("long_words", 0.2);     // more than one read of vocabulary strings
  sim::Rng r = sim::content("c:arpa");
  std::set<std::string> seen;
  a.words = {"<unk>", "<s>", "</s>"};
  for (auto& w : a.words) seen.insert(w);
  while ((int)a.words.size() < V + 3) {
    std::string w;
    size_t n = r.coin(0.02) ? r.range(20, 200) : longw ? r.range(10, 90) : r.range(1, 7);
    for (size_t i = 0; i < n; ++i) w += (char)(r.coin(0.1) ? r.range(128, 255) : r.range(33, 126));
    if (w == "<UNK>" || w[0] == '\\') continue;
    if (seen.insert(w).second) a.words.push_back(w);
  }
  a.g.resize(a.order);
  // a backed-off probability above one is not a model; keep it out
  bool posback = r.coin(0.3);
  auto val = [&](double lo, bool prob) { double v = -r.unit() * lo - (posback && prob ? 0.5 : 0); int s = r.below(8); if (s == 0) v = -(double)(r.below(5) + (posback && prob)); return atof(fmt(s < 4 ? "%.7g" : "%.4g", v).c_str()); };
  auto back = [&]() { int s = r.below(6); return s == 0 ? 0.0 : s == 1 && posback ? atof(fmt("%.5g", r.unit() * 0.1).c_str()) : val(2, false); };
  for (int i = a.has_unk ? 0 : 1; i < (int)a.words.size(); ++i) a.g[0][Gram(1, i)] = {i == 1 ? -99 : val(6, true), i == 2 || i == 0 ? 0 : back()};
  for (int s = 0; s < sents; ++s) {
    Gram q(1, 1);
    int len = r.range(0, 12), at = 3 + r.below(V);
    for (int i = 0; i < len; ++i) { at = dense ? 3 + (at * 7 + r.below(3)) % V : 3 + (r.coin(0.5) ? r.below(V) : r.below(std::min(V, 8))); q.push_back(at); }
    q.push_back(2);
    for (int k = 2; k <= a.order; ++k) for (size_t i = 0; i + k <= q.size(); ++i) a.g[k - 1][Gram(q.begin() + i, q.begin() + i + k)];
  }
  std::set<Gram> ctx;
  for (int k = a.order; k >= 2; --k) {
    std::set<Gram> next;
    for (auto it = a.g[k - 1].begin(); it != a.g[k - 1].end();) {
      if (!ctx.count(it->first) && (int)r.below(100) >= keep) { it = a.g[k - 1].erase(it); continue; }
      next.insert(Gram(it->first.begin(), it->first.end() - 1));
      it->second = {val(4, true), k == a.order || it->first.back() == 2 ? 0 : back()};
      ++it;
    }
    ctx = next;
  }
  std::string& t = a.text;
  if (r.coin(0.2)) t += "# a comment\n";
  t += r.coin(0.5) ? "\\data\\\n" : "\n\\data\\\n";
  for (int k = 1; k <= a.order; ++k) t += fmt("ngram %d=%zu\n", k, a.g[k - 1].size());
  for (int k = 1; k <= a.order; ++k) {
    t += fmt("\n\\%d-grams:\n", k);
    std::vector<std::pair<Gram, std::pair<double, double> > > l(a.g[k - 1].begin(), a.g[k - 1].end());
    bool shuffle = r.coin(0.5);
    if (shuffle) for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[r.below(i)]);
    for (auto& e : l) {
      t += fmt("%.7g\t", e.second.first);
      for (size_t i = 0; i < e.first.size(); ++i) { if (i) t += ' '; t += a.words[e.first[i]]; }
      if (k < a.order && (e.second.second != 0 || r.coin(0.3))) t += fmt("\t%.7g", e.second.second);
      t += "\n";
    }
  }
  t += "\n\\end\\\n";
  return a;
}
// standard backoff definition
static double ref_score(const Arpa& a, const Gram& ctx, int w) {
  for (int k = std::min((int)ctx.size(), a.order - 1); k >= 0; --k) {
    Gram q(ctx.end() - k, ctx.end()); q.push_back(w);
    auto it = a.g[k].find(q);
    if (it != a.g[k].end() || k == 0) {
      double s = it == a.g[k].end() ? -100 : it->second.first;
      for (int j = k + 1; j <= std::min((int)ctx.size(), a.order - 1); ++j) {
        Gram c(ctx.end() - j, ctx.end());
        auto b = a.g[j - 1].find(c);
        if (b != a.g[j - 1].end()) s += b->second.second;
      }
      return s;
    }
  }
  return 0;
}

struct Kind { ModelType t; bool rest_main; };
struct Cfg {
  int type; bool after, vocab; double mult; int pb, bb, ab; size_t mem; bool tmpdir; bool via_main; bool exact;
};
static Cfg make_cfg() {
  Cfg c;
  c.type = sim::pick("type", {0, 2, 3, 4, 5, 1});
  c.after = sim::coin("write_after", 0.5);
  c.vocab = !sim::coin("no_vocab_strings", 0.2);
  c.mult = sim::pick("multiplier", {150, 105, 130, 400}) / 100.0;
  c.pb = sim::param("prob_bits", 2, 16); c.bb = sim::param("backoff_bits", 2, 16); c.ab = sim::param("array_bits", 1, 25);
  c.mem = sim::param_log("memory", 64, 1 << 20);
  c.tmpdir = sim::coin("tmpdir", 0.5);
  c.via_main = sim::coin("main", 0.5) && c.vocab && c.type != 1;
  c.exact = c.type == 0 || c.type == 2 || c.type == 4 || c.type == 1;
  return c;
}
static Config base_config(const Cfg& c) {
  Config k;
  k.messages = NULL; k.show_progress = false; k.arpa_complain = Config::NONE;
  k.unknown_missing = lm::SILENT; k.sentence_marker_missing = lm::SILENT; k.positive_log_probability = lm::SILENT;
  k.probing_multiplier = c.mult; k.building_memory = c.mem; k.prob_bits = c.pb; k.backoff_bits = c.bb; k.pointer_bhiksha_bits = c.ab;
  k.include_vocab = c.vocab; k.write_method = c.after ? Config::WRITE_AFTER : Config::WRITE_MMAP;
  k.rest_function = Config::REST_MAX;
  return k;
}
static lm::base::Model* construct(int type, const char* file, const Config& k) {
  switch (type) {
    case 0: return new ProbingModel(file, k);
    case 1: return new RestProbingModel(file, k);
    case 2: return new TrieModel(file, k);
    case 3: return new QuantTrieModel(file, k);
    case 4: return new ArrayTrieModel(file, k);
    default: return new QuantArrayTrieModel(file, k);
  }
}
static ModelType mtype(int type) { ModelType t[] = {PROBING, REST_PROBING, TRIE, QUANT_TRIE, ARRAY_TRIE, QUANT_ARRAY_TRIE}; return t[type]; }

struct Collect : public lm::EnumerateVocab {
  std::map<lm::WordIndex, std::string> m; bool dup = false;
  void Add(lm::WordIndex i, const StringPiece& s) { if (m.count(i)) dup = true; m[i] = std::string(s.data(), s.size()); }
};
struct Query { int start; Gram w; };
static std::vector<Query> make_queries(const Arpa& a) {
  std::vector<Query> q;
  int n = sim::param_log("queries", 1, 40);
  sim::Rng r = sim::content("c:queries");
  std::vector<Gram> top; for (int k = a.order; k >= 2 && top.empty(); --k) for (auto& e : a.g[k - 1]) { top.push_back(e.first); if (top.size() > 3000) break; }
  for (int i = 0; i < n; ++i) {
    Query x; x.start = r.below(2);
    int len = r.range(1, 14);
    while ((int)x.w.size() < len) {
      if (!top.empty() && r.coin(0.6)) { const Gram& g = top[r.below(top.size())]; for (int w : g) if (w != 1) x.w.push_back(w); }
      else if (r.coin(0.1)) x.w.push_back(-1);      // a word the model does not know
      else x.w.push_back(2 + r.below(a.words.size() - 2));
    }
    q.push_back(x);
  }
  return q;
}
// everything a user can observe of the answers, as bytes
static std::string answers(const lm::base::Model& m, const Arpa& a, const std::vector<Query>& qs, bool ref, double tol) {
  std::string out;
  auto put = [&](const void* p, size_t n) { out.append((const char*)p, n); };
  std::vector<lm::WordIndex> idx;
  for (auto& w : a.words) { lm::WordIndex i = m.BaseVocabulary().Index(w); idx.push_back(i); put(&i, sizeof i); }
  lm::WordIndex oov = m.BaseVocabulary().Index("certainly not a word");
  put(&oov, sizeof oov);
  unsigned char ord = m.Order(); put(&ord, 1);
  std::vector<char> s1(m.StateSize()), s2(m.StateSize());
  for (auto& q : qs) {
    memset(&s1[0], 0, s1.size()); memset(&s2[0], 0, s2.size());
    memcpy(&s1[0], q.start ? m.BeginSentenceMemory() : m.NullContextMemory(), s1.size());
    Gram ctx; if (q.start) ctx.push_back(1);
    std::vector<lm::WordIndex> hist; if (q.start) hist.push_back(idx[1]);
    for (int w : q.w) {
      lm::WordIndex wi = w < 0 ? oov : idx[w];
      lm::FullScoreReturn f = m.BaseFullScore(&s1[0], wi, &s2[0]);
      put(&f.prob, sizeof f.prob); put(&f.ngram_length, sizeof f.ngram_length); char il = f.independent_left; put(&il, 1);
      put(&f.rest, sizeof f.rest);
      const State& st = *(const State*)&s2[0];
      put(&st.length, 1); put(st.words, st.length * sizeof(lm::WordIndex)); put(st.backoff, st.length * sizeof(float));
      if (ref) {
        double want = ref_score(a, ctx, w < 0 ? 0 : w);
        if (fabs(want - f.prob) > tol + fabs(want) * 1e-5) {
          std::string c; for (int x : ctx) c += a.words[x] + " ";
          sim::fail("wrong_score", "context [%s] word %s scores %.6f (order %d), the ARPA file says %.6f", sim::hexdump(c, 80).c_str(), w < 0 ? "(unknown)" : sim::hexdump(a.words[w], 20).c_str(), f.prob, f.ngram_length, want);
        }
      }
      std::vector<lm::WordIndex> rev(hist.rbegin(), hist.rend());
      lm::FullScoreReturn f2 = m.BaseFullScoreForgotState(rev.empty() ? NULL : &rev[0], rev.empty() ? NULL : &rev[0] + rev.size(), wi, &s1[0]);
      if (ref && fabs(f2.prob - f.prob) > 1e-3 + fabs(f.prob) * 1e-5) sim::fail("wrong_score", "scoring with a forgotten state gives %.6f (order %d), with the state %.6f (order %d)", f2.prob, f2.ngram_length, f.prob, f.ngram_length);
      memset(&s1[0], 0, s1.size());
      memcpy(&s1[0], &s2[0], s2.size());
      ctx.push_back(w < 0 ? 0 : w); hist.push_back(wi);
      if (w < 0 || w == 0) { /* unknown words end the usable context in the reference too, since no n-gram has them */ }
    }
  }
  return out;
}
// (status byte) + answers; status 'L' loaded
static std::string load_answers(int type, const std::string& file, Config k, const Arpa& a, const std::vector<Query>& q, bool enumerate, bool ref, bool virt) {
  Collect c;
  if (enumerate) k.enumerate_vocab = &c;
  std::unique_ptr<lm::base::Model> m(virt ? LoadVirtual(file.c_str(), k, mtype(type)) : construct(type, file.c_str(), k));
  std::string s = answers(*m, a, q, ref, 2e-3);
  if (answers(*m, a, q, false, 0) != s) sim::fail("history_dependent", "asking the same questions again gives different answers");
  if (enumerate) {
    if (c.dup) sim::fail("wrong_vocabulary", "a word index is enumerated twice");
    for (size_t i = 0; i < a.words.size(); ++i) {
      lm::WordIndex w = m->BaseVocabulary().Index(a.words[i]);
      if (c.m[w] != a.words[i]) sim::fail("wrong_vocabulary", "word '%s' has index %u, which enumerates as '%s'", sim::hexdump(a.words[i], 30).c_str(), w, sim::hexdump(c.m[w], 30).c_str());
    }
    if (c.m.size() != a.words.size()) sim::fail("wrong_vocabulary", "%zu words enumerated, the model has %zu", c.m.size(), a.words.size());
  }
  return "L" + s;
}
static int do_build(const Cfg& c, const std::string& arpa, const std::string& out, const std::string& tmp) {
  if (!c.via_main) {
    Config k = base_config(c);
    k.write_mmap = out.c_str();
    std::string t = tmp + "/pre"; if (c.tmpdir) k.temporary_directory_prefix = t.c_str();
    std::unique_ptr<lm::base::Model> m(construct(c.type, arpa.c_str(), k));
    return 0;
  }
  std::vector<std::string> v = {"build_binary", "-s", "-i", "-p", fmt("%g", c.mult), "-S", fmt("%zub", c.mem), "-w", c.after ? "after" : "mmap"};
  if (c.type == 3 || c.type == 5) { v.push_back("-q"); v.push_back(fmt("%d", c.pb)); v.push_back("-b"); v.push_back(fmt("%d", c.bb)); }
  if (c.type == 4 || c.type == 5) { v.push_back("-a"); v.push_back(fmt("%d", c.ab)); }
  if (c.tmpdir) { v.push_back("-T"); v.push_back(tmp + "/pre"); }
  v.push_back(c.type <= 1 ? "probing" : "trie"); v.push_back(arpa); v.push_back(out);
  std::vector<char*> av; for (auto& s : v) av.push_back((char*)s.c_str()); av.push_back(NULL);
  return build_binary_main(av.size() - 1, &av[0]);
}
// answers of the model read straight from the ARPA text, without faults
static std::string truth(const Cfg& c, const Arpa& a, const std::string& arpa, const std::vector<Query>& q) {
  sim::PhaseOpts o; o.name = "truth"; o.schedule = false;
  sim::Outcome oc = sim::run_phase(o, [&]() {
    try { sim::publish(load_answers(c.type, arpa, base_config(c), a, q, true, c.exact, false)); }
    catch (util::Exception& e) { sim::publish(std::string("E") + e.what()); }
    return 0;
  });
  std::string r = sim::result();
  sim::publish_reset();
  if (!oc.ok() || r.empty()) sim::fail("load_failed", "loading the ARPA text: %s", oc.str().c_str());
  return r;
}
// loads a possibly damaged file; returns "L<answers>" or "E<message>"
static std::string try_load(const Cfg& c, const Arpa& a, const std::string& file, const std::vector<Query>& q, int method, bool enumerate, const sim::FaultCfg* f, sim::Outcome* out, bool virt) {
  sim::PhaseOpts o; o.name = "load"; o.schedule = method == 4; o.step_limit = 100000000;
  if (f) o.faults = *f;
  sim::Outcome oc = sim::run_phase(o, [&]() {
    Config k = base_config(c);
    k.load_method = (util::LoadMethod)method;
    try { sim::publish(load_answers(c.type, file, k, a, q, enumerate, false, virt)); }
    catch (util::Exception& e) { sim::publish(std::string("E") + e.what()); }
    catch (std::bad_alloc& e) { sim::publish(std::string("Ebad_alloc")); }
    return 0;
  });
  std::string r = sim::result();
  sim::publish_reset();
  if (out) *out = oc;
  if (oc.kind == sim::Outcome::SIGNALLED) sim::fail("crash", "loading or querying the file: %s", oc.str().c_str());
  if (oc.kind == sim::Outcome::STEPLIMIT || oc.kind == sim::Outcome::DEADLOCK) sim::fail("no_progress", "loading or querying the file: %s", oc.str().c_str());
  if (!oc.ok()) return "E" + oc.str();
  return r;
}
struct Setup { Arpa a; Cfg c; std::string arpa, out, tmp; std::vector<Query> q; std::string want; };
static Setup make_setup(const char* = 0) {
  Setup s;
  s.a = make_arpa(); s.c = make_cfg(); s.q = make_queries(s.a);
  s.arpa = sim::scratch() + "/model.arpa"; s.out = sim::scratch() + "/model.binary"; s.tmp = sim::scratch() + "/tmp";
  sim::spit(s.arpa, s.a.text);
  if (sim::verbose()) fprintf(stderr, "%s", s.a.text.c_str());
  system(("mkdir -p " + s.tmp).c_str());
  s.want = truth(s.c, s.a, s.arpa, s.q);
  return s;
}
static void benign(sim::FaultCfg& f) {
  f.short_read = sim::pick("short_read", {0, 0, 100, 700}) / 1000.0;
  f.short_write = sim::pick("short_write", {0, 0, 100, 700}) / 1000.0;
  f.eintr = sim::pick("eintr", {0, 0, 100}) / 1000.0;
}
static const char* kMethod[] = {"lazy", "populate or lazy", "populate or read", "read", "parallel read"};

static void run_b01() {
  Setup s = make_setup();
  if (s.want[0] != 'L') { sim::trivial(); return; }
  // an older, complete binary may be in the way
  bool old = sim::coin("old_file", 0.3);
  std::string old_img;
  Arpa olda; std::string old_want;
  if (old) {
    // the previous model: same shape, other numbers
    olda = s.a;
    for (auto& e : olda.g[0]) if (e.first[0] != 1) { e.second.first -= 0.5; }
    std::string t = "\\data\\\n";
    for (int k = 1; k <= olda.order; ++k) t += fmt("ngram %d=%zu\n", k, olda.g[k - 1].size());
    for (int k = 1; k <= olda.order; ++k) {
      t += fmt("\n\\%d-grams:\n", k);
      for (auto& e : olda.g[k - 1]) { t += fmt("%.7g\t", e.second.first); for (size_t i = 0; i < e.first.size(); ++i) { if (i) t += ' '; t += olda.words[e.first[i]]; } if (k < olda.order) t += fmt("\t%.7g", e.second.second); t += "\n"; }
    }
    t += "\n\\end\\\n";
    std::string op = sim::scratch() + "/old.arpa";
    sim::spit(op, t);
    sim::PhaseOpts o; o.name = "old"; o.schedule = false;
    Cfg c = s.c; c.via_main = false;
    sim::Outcome oc = sim::run_phase(o, [&]() { return do_build(c, op, s.out, s.tmp); });
    if (!oc.ok()) { sim::trivial(); return; }
    old_img = sim::slurp(s.out);
    old_want = truth(c, olda, op, s.q);
  }
  // length of the undisturbed build
  sim::PhaseOpts o; o.name = "dry"; o.schedule = false; o.durable = false;
  std::string dry = sim::scratch() + "/dry.binary";
  if (old) sim::spit(dry, old_img);
  sim::Outcome oc = sim::run_phase(o, [&]() { return do_build(s.c, s.arpa, dry, s.tmp); });
  if (!oc.ok()) sim::fail("build_failed", "undisturbed build: %s", oc.str().c_str());
  if (!old) {
    std::string r = try_load(s.c, s.a, dry, s.q, 0, s.c.vocab, 0, 0, false);
    if (r != s.want) sim::fail("wrong_answers", "the undisturbed build answers differently from the ARPA text: %s", r[0] == 'E' ? r.c_str() : "");
  }
  int64_t n = oc.io_calls;
  sim::PhaseOpts b; b.name = "build"; b.schedule = false; b.durable = true;
  // most crash points near the end, where the header is finished
  int64_t back = sim::coin("late_crash", 0.6) ? sim::param_log("crash_before_end", 0, 14) : sim::param_log("crash_before_end_far", 0, 4000);
  b.crash_at = std::max<int64_t>(1, n + 3 - back);
  sim::probe(back <= 3 ? "crash_after_build" : "crash_during_build");
  oc = sim::run_phase(b, [&]() {
    int rc = do_build(s.c, s.arpa, s.out, s.tmp);
    if (rc) return rc;
    // the process has finished; the power goes soon after
    for (int i = 0; i < 40; ++i) { int fd = open((sim::scratch() + "/unrelated").c_str(), O_RDWR | O_CREAT, 0600); if (fd >= 0) close(fd); }
    return 0;
  });
  if (oc.kind != sim::Outcome::POWERCUT) { sim::fail("build_failed", "build before the power cut: %s", oc.str().c_str()); }
  std::string img = sim::crash_path(s.out);
  if (!sim::crash_file_exists(s.out)) { sim::probe("no_file_after_crash"); return; }
  int method = sim::param("load_method", 0, 4);
  bool virt = sim::coin("load_virtual", 0.3);
  // first as a decoder would ask for the words, then without them
  for (int en = s.c.vocab ? 1 : 0; en >= 0; --en) {
    if (old) {
      // the old file may have survived untouched
      std::string r0 = sim::slurp(img);
      if (r0 == old_img) { sim::probe("old_file_survived"); return; }
    }
    std::string r = try_load(s.c, s.a, img, s.q, method, en, 0, 0, virt);
    if (r[0] == 'L') {
      sim::probe("accepted_after_crash");
      if (r != s.want) sim::fail("wrong_answers", "the file left by a crash at I/O call %lld of %lld is accepted (load method %s%s) but answers differently from the complete model", (long long)b.crash_at, (long long)n, kMethod[method], en ? ", with words" : "");
    } else sim::probe("refused_after_crash");
  }
}
static void run_b02() {
  Setup s = make_setup();
  if (s.want[0] != 'L') { sim::trivial(); return; }
  sim::PhaseOpts o; o.name = "build"; o.schedule = false; o.step_limit = 200000000;
  benign(o.faults);
  o.malloc_fill = sim::coin("fill", 0.5) ? 256 : -1;
  o.faults.max_hard = sim::param("max_hard", 1, 3);
  int kind = sim::param("fault", 0, 8);
  double p = sim::pick("rate", {1000, 300, 100, 30, 10}) / 1000.0;
  std::string out = s.out, arpa = s.arpa;
  switch (kind) {
    case 0: break;
    case 1: o.faults.write_err = p; break;
    case 2: o.faults.disk_capacity = sim::param_log("capacity", 1, 400000); o.faults.max_hard = 1 << 20; break;
    case 3: o.faults.fsync_err = p; break;
    case 4: o.faults.trunc_err = p; break;
    case 5: o.faults.mkstemp_err = p; o.faults.open_err = p; break;
    case 6: o.faults.mmap_fail = p; break;
    case 7: o.faults.read_err = p; break;
    case 8: o.faults.write_err = p; o.faults.fsync_err = p; o.faults.read_err = p; o.faults.mkstemp_err = p; o.faults.mmap_fail = p / 2; break;
  }
  if (sim::coin("only_temporary_files", 0.4)) o.faults.match = [arpa, out](const std::string& f, bool) { return f != arpa && f != out; };
  o.stderr_path = sim::scratch() + "/stderr";
  sim::Outcome oc = sim::run_phase(o, [&]() { return do_build(s.c, s.arpa, s.out, s.tmp); });
  std::string msg = sim::slurp(o.stderr_path);
  if (oc.kind == sim::Outcome::SIGNALLED) sim::fail("crash", "build with faults: %s %s", oc.str().c_str(), msg.substr(0, 300).c_str());
  if (oc.kind == sim::Outcome::STEPLIMIT || oc.kind == sim::Outcome::DEADLOCK) sim::fail("no_progress", "build with faults: %s", oc.str().c_str());
  bool ok = oc.ok();
  if (!ok && !oc.hard_faults && kind != 6 && kind != 8) sim::fail("build_failed", "no hard fault struck, but the build fails: %s %s", oc.str().c_str(), msg.substr(0, 300).c_str());
  if (ok && oc.hard_faults && (kind == 1 || kind == 3 || kind == 4)) sim::fail("error_swallowed", "%llu failed calls (fault kind %d), but the build reports success", (unsigned long long)oc.hard_faults, kind);
  sim::probe(ok ? "build_ok" : "build_error");
  if (access(s.out.c_str(), F_OK) != 0) { if (ok) sim::fail("no_output", "the build reports success but there is no file"); return; }
  int method = sim::param("load_method", 0, 4);
  std::string r = try_load(s.c, s.a, s.out, s.q, method, s.c.vocab, 0, 0, false);
  if (r[0] == 'L') { if (r != s.want) sim::fail("wrong_answers", "build ended with %s after %llu faults; its file is accepted but answers differently", ok ? "success" : "an error", (unsigned long long)oc.hard_faults); }
  else if (ok) sim::fail("bad_output", "the build reports success but its file is refused: %s", r.c_str());
  // leftovers
}
static void run_b03() {
  Setup s = make_setup();
  if (s.want[0] != 'L') { sim::trivial(); return; }
  sim::PhaseOpts o; o.name = "build"; o.schedule = false; benign(o.faults);
  o.malloc_fill = sim::coin("fill", 0.5) ? 256 : -1;
  sim::Outcome oc = sim::run_phase(o, [&]() { return do_build(s.c, s.arpa, s.out, s.tmp); });
  if (!oc.ok()) sim::fail("build_failed", "%s", oc.str().c_str());
  int mode = sim::param("mode", 0, 3);    // 0 healthy, 1 chunked I/O and failing maps, 2 truncated, 3 read errors
  int method = sim::param("load_method", 0, 4);
  bool en = s.c.vocab && sim::coin("enumerate", 0.6), virt = sim::coin("load_virtual", 0.3);
  sim::FaultCfg f;
  if (mode == 0 || mode == 1) {
    if (mode == 1) {
      f.short_read = sim::pick("load_short_read", {100, 700, 1000}) / 1000.0; f.eintr = sim::pick("load_eintr", {0, 100}) / 1000.0;
      f.mmap_fail = sim::pick("load_mmap_fail", {0, 0, 300}) / 1000.0;
    }
    bool text = sim::coin("from_text", 0.25);
    std::string r = try_load(s.c, s.a, text ? s.arpa : s.out, s.q, method, en && !text, &f, &oc, virt);
    if (r[0] == 'L') { if (r != s.want.substr(0, r.size()) || r.size() != s.want.size()) sim::fail("wrong_answers", "%s loaded by method '%s' answers differently from the ARPA text", text ? "text" : "binary", kMethod[method]); }
    else if (f.mmap_fail == 0) sim::fail("load_failed", "a complete file is refused (%s): %s", kMethod[method], r.c_str());
    sim::probe(r[0] == 'L' ? "loaded" : "map_failure_reported");
  } else if (mode == 2) {
    std::string img = sim::slurp(s.out);
    sim::Rng r = sim::content("c:cut");
    size_t n = r.coin(0.3) ? img.size() - 1 - r.below(std::min<size_t>(r.coin(0.5) ? 4 : 64, img.size())) : r.coin(0.2) ? r.below(std::min<size_t>(img.size(), 300)) : r.below(img.size());
    std::string cut = sim::scratch() + "/cut.binary";
    sim::spit(cut, img.substr(0, n));
    std::string res = try_load(s.c, s.a, cut, s.q, method, s.c.vocab, 0, 0, virt);
    if (res[0] == 'L') sim::fail("truncated_accepted", "a binary of %zu bytes cut to %zu is accepted (%s)%s", img.size(), n, kMethod[method], res == s.want ? ", with the right answers" : ", and answers differently");
    sim::probe("truncated_refused");
    res = try_load(s.c, s.a, cut, s.q, method, false, 0, 0, virt);
    if (res[0] == 'L' && res != s.want) sim::fail("truncated_accepted", "a binary of %zu bytes cut to %zu is accepted (%s) and answers differently", img.size(), n, kMethod[method]);
  } else {
    f.read_err = sim::pick("read_err", {1000, 300, 50}) / 1000.0;
    f.short_read = sim::pick("load_short_read", {0, 700}) / 1000.0;
    std::string r = try_load(s.c, s.a, s.out, s.q, method, en, &f, &oc, virt);
    if (r[0] == 'L' && r != s.want) sim::fail("wrong_answers", "a read error while loading (%s) changes the answers", kMethod[method]);
    if (r[0] == 'L' && oc.hard_faults) sim::fail("error_swallowed", "a read error while loading (%s) is not reported", kMethod[method]);
    if (r[0] != 'L' && !oc.hard_faults) sim::fail("load_failed", "a complete file is refused (%s): %s", kMethod[method], r.c_str());
    sim::probe("read_error_cases");
  }
}
namespace sim { const Property properties[] = {{"B01", run_b01}, {"B02", run_b02}, {"B03", run_b03}, {0, 0}}; }
