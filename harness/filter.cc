// S04: the language model filter program (klm/lm/filter), one thread and many.
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
using sim::fmt;
extern "C" int filter_main(int argc, char** argv);

namespace {
std::string S() { return sim::scratch(); }
typedef std::vector<std::string> Words;
struct Line { Words ngram; std::string text; };
struct Case {
  int mode;                 // 0 copy 1 single 2 multiple 3 union
  bool context, phrase, arpa, model_file;
  std::vector<std::vector<Words>> phrases;        // per sentence: its phrases
  std::vector<std::set<std::string>> sentences;   // per sentence: its words
  std::set<std::string> all;
  std::vector<std::vector<Line>> orders;          // arpa: one list per order; raw: one list
  std::string vocab, model;
} c;

std::string word(sim::Rng& r, int n) {
  int k = r.below(n + 3);
  if (k == n) return "<s>";
  if (k == n + 1) return "</s>";
  if (k == n + 2) return r.coin(0.5) ? "<unk>" : "<tag>";
  static const char* stems[] = {"a", "bb", "of", "\xC3\xA9t\xC3\xA9", "longer-word", "x|y", "<", ">"};
  return k < 8 ? stems[k] : fmt("w%d", k);
}
std::string join(const Words& w, const char* sep = " ") { std::string s; for (size_t i = 0; i < w.size(); ++i) s += (i ? sep : "") + w[i]; return s; }
bool tag(const std::string& w) { return w[0] == '<' && w[w.size() - 1] == '>'; }

// ------------------------------------------------- reference: which sentences an n-gram passes
bool is_prefix(const Words& p, const Words& w) { return p.size() >= w.size() && std::equal(w.begin(), w.end(), p.begin()); }
bool is_suffix(const Words& p, const Words& w) { return p.size() >= w.size() && std::equal(w.begin(), w.end(), p.end() - w.size()); }
bool is_part(const Words& p, const Words& w) { return std::search(p.begin(), p.end(), w.begin(), w.end()) != p.end(); }
Words cut(const Words& w, size_t a, size_t b) { return Words(w.begin() + a, w.begin() + b); }
// the words can be found in a sequence of phrases of this sentence
bool assemble(const std::vector<Words>& ps, const Words& w) {
  for (auto& p : ps) if (is_part(p, w)) return true;
  size_t n = w.size(); std::vector<bool> reach(n + 1, false);
  for (size_t i = 1; i < n; ++i) for (auto& p : ps) if (is_suffix(p, cut(w, 0, i))) reach[i] = true;
  for (size_t i = 1; i < n; ++i) {
    if (!reach[i]) continue;
    for (size_t j = i + 1; j < n; ++j) for (auto& p : ps) if (p == cut(w, i, j)) reach[j] = true;
    for (auto& p : ps) if (is_prefix(p, cut(w, i, n))) return true;
  }
  return false;
}
// -1 in the result: passes for every output
std::vector<int> passes(Words w) {
  std::vector<int> out;
  if (c.mode == 0) return std::vector<int>(1, -1);
  if (c.context) w.pop_back();
  if (c.phrase) {
    Words k; size_t i = !w.empty() && tag(w[0]) ? 1 : 0;
    for (; i < w.size() && w[i] != "</s>"; ++i) k.push_back(w[i]);
    if (k.empty()) return std::vector<int>(1, -1);
    for (size_t s = 0; s < c.phrases.size(); ++s) if (assemble(c.phrases[s], k)) out.push_back(s);
    return out;
  }
  Words k; for (auto& x : w) if (!tag(x)) k.push_back(x);
  if (k.empty()) return std::vector<int>(1, -1);
  if (c.mode == 1) { for (auto& x : k) if (!c.all.count(x)) return out; return std::vector<int>(1, -1); }
  for (size_t s = 0; s < c.sentences.size(); ++s) { bool ok = true; for (auto& x : k) if (!c.sentences[s].count(x)) { ok = false; break; } if (ok) out.push_back(s); }
  return out;
}
std::string header(const std::vector<size_t>& n) {
  std::string s = "\n\\data\\\n";
  for (size_t i = 0; i < n.size(); ++i) s += fmt("ngram %zu=%zu\n", i + 1, n[i]);
  return s + "\n";
}
// the bytes of every output file
std::vector<std::string> expected() {
  size_t outs = c.mode == 2 ? c.sentences.size() : 1;
  std::vector<std::string> body(outs); std::vector<std::vector<size_t>> count(outs); std::vector<size_t> in;
  for (size_t o = 0; o < c.orders.size(); ++o) {
    in.push_back(c.orders[o].size());
    for (size_t f = 0; f < outs; ++f) { count[f].push_back(0); if (c.arpa) body[f] += fmt("\\%zu-grams:\n", o + 1); }
    for (auto& l : c.orders[o]) {
      std::vector<int> p = passes(l.ngram);
      for (size_t f = 0; f < outs; ++f)
        if (p.size() && (c.mode != 2 || p[0] == -1 || std::find(p.begin(), p.end(), (int)f) != p.end())) { body[f] += l.text + "\n"; ++count[f][o]; }
    }
    if (c.arpa) for (auto& b : body) b += "\n";
  }
  if (c.arpa) for (size_t f = 0; f < outs; ++f) {
    std::string h = header(count[f]);
    body[f] = h + std::string(header(in).size() - h.size(), '\n') + body[f] + "\\end\\\n";
  }
  return body;
}

// ------------------------------------------------- inputs
void make_vocab() {
  sim::Rng r = sim::content("c:vocab");
  int sents = sim::param_log("sentences", 1, 12), voc = sim::param_log("vocabulary", 2, 30), len = sim::param_log("sentence_length", 1, 12), plen = sim::param("phrase_length", 1, 4);
  for (int s = 0; s < sents; ++s) {
    std::set<std::string> w; std::vector<Words> ps; std::string line;
    int n = 1 + r.below(len);
    while (n > 0) {
      Words p; int k = c.phrase ? 1 + r.below(plen) : 1;
      for (; k > 0 && n > 0; --k, --n) { p.push_back(word(r, voc)); w.insert(p.back()); }
      ps.push_back(p);
      if (c.phrase) line += (line.empty() ? "" : r.coin(0.9) ? "\t" : "\v") + join(p, r.coin(0.05) ? "  " : " ");
      else line += (line.empty() ? "" : r.coin(0.9) ? " " : r.coin(0.5) ? "\t" : "  ") + join(p);
    }
    if (!c.phrase && r.coin(0.1)) line += " ";
    c.vocab += line + (s + 1 < sents || r.coin(0.8) ? "\n" : "");
    if (r.coin(0.05)) c.vocab += "\n";     // empty lines do not count
    c.sentences.push_back(w); c.phrases.push_back(ps); c.all.insert(w.begin(), w.end());
  }
}
void make_model() {
  sim::Rng r = sim::content("c:model");
  int orders = c.arpa ? sim::param("orders", 1, 4) : 1, voc = sim::param_log("model_vocabulary", 2, 40);
  int raw_max = sim::param("raw_order", 1, 5);
  int pad = sim::pick("pad", {0, 0, 1});
  std::vector<std::string> ps;
  for (int o = 0; o < orders; ++o) {
    std::vector<Line> l; std::set<std::string> seen;
    int n = sim::coin(fmt("empty%d", o).c_str(), 0.05) ? 0 : sim::param_log(fmt("ngrams%d", o).c_str(), 1, sim::coin("large", 0.03) ? 3000 : 60);
    for (int i = 0; i < n; ++i) {
      Line x; int k = c.arpa ? o + 1 : 1 + r.below(raw_max);
      // half of the n-grams come from some sentence, so that they may pass
      const std::vector<Words>& src = c.phrases[r.below(c.phrases.size())];
      if (src.size() && r.coin(0.6)) { while ((int)x.ngram.size() < k) { const Words& p = src[r.below(src.size())]; size_t a = x.ngram.empty() ? r.below(p.size()) : 0; for (; a < p.size() && (int)x.ngram.size() < k; ++a) x.ngram.push_back(p[a]); if (r.coin(0.1)) x.ngram.push_back(word(r, voc)); } x.ngram.resize(k); }
      else for (int j = 0; j < k; ++j) x.ngram.push_back(word(r, voc));
      if (c.arpa) {
        x.text = (pad ? std::string("-1.5") : fmt("-%d.%d", (int)r.below(5), (int)r.below(1000))) + "\t" + join(x.ngram);
        if (o + 1 < orders && r.coin(0.7)) x.text += pad ? "\t-0.25" : fmt("\t-0.%d", (int)r.below(1000));
      } else {
        x.text = join(x.ngram);
        if (r.coin(0.7)) x.text += fmt("\t%d", (int)r.below(100));
        if (r.coin(0.1)) x.text += "\tmore text";
      }
      l.push_back(x);
    }
    c.orders.push_back(l);
  }
  if (c.arpa) {
    c.model = "\\data\\\n";
    for (int o = 0; o < orders; ++o) c.model += fmt("ngram %d=%zu\n", o + 1, c.orders[o].size());
    for (int o = 0; o < orders; ++o) { c.model += fmt("\n\\%d-grams:\n", o + 1); for (auto& x : c.orders[o]) c.model += x.text + "\n"; }
    c.model += "\n\\end\\\n";
  } else {
    for (auto& x : c.orders[0]) c.model += x.text + "\n";
    if (c.model.size() && r.coin(0.2)) c.model.resize(c.model.size() - 1);
  }
}
int run(const std::vector<std::string>& extra, const std::string& out) {
  std::vector<std::string> a = {"filter"};
  static const char* modes[] = {"copy", "single", "multiple", "union"};
  a.push_back(modes[c.mode]);
  if (c.context) a.push_back("context");
  if (c.phrase) a.push_back("phrase");
  a.push_back(c.arpa ? "arpa" : "raw");
  a.insert(a.end(), extra.begin(), extra.end());
  a.push_back(c.model_file ? "model:" + S() + "/model" : "vocab:" + S() + "/vocab");
  a.push_back(out);
  std::vector<char*> v; for (auto& x : a) v.push_back((char*)x.c_str());
  v.push_back(0);
  return filter_main(a.size(), v.data());
}
std::string err() { std::string s = sim::slurp(S() + "/err"); return s.size() > 300 ? s.substr(s.size() - 300) : s; }
// empty: all as expected
std::string compare(const std::string& out, const std::vector<std::string>& want) {
  for (size_t f = 0; f < want.size(); ++f) {
    std::string p = c.mode == 2 ? out + fmt("%zu", f) : out, got = sim::slurp(p);
    if (got == want[f]) continue;
    size_t k = 0; while (k < got.size() && k < want[f].size() && got[k] == want[f][k]) ++k;
    return fmt("output %zu differs at byte %zu (%zu bytes instead of %zu): '%s' instead of '%s'", f, k, got.size(), want[f].size(), sim::hexdump(got.substr(k), 60).c_str(), sim::hexdump(want[f].substr(k), 60).c_str());
  }
  return "";
}
void s04() {
  c = Case();
  c.mode = sim::pick("mode", {0, 1, 2, 2, 2, 3, 3});
  c.phrase = c.mode >= 2 && sim::coin("phrase", 0.4);
  c.context = sim::coin("context", 0.3);
  c.arpa = sim::coin("arpa", 0.6);
  c.model_file = sim::coin("model_file", 0.5);
  make_vocab(); make_model();
  sim::spit(S() + "/vocab", c.vocab); sim::spit(S() + "/model", c.model);
  std::vector<std::string> want = expected();
  int threads = sim::pick("threads", {1, 2, 2, 3, 3, 4, 5}), batch = sim::coin("batch_divides", 0.2) ? std::max<int>(1, c.orders[0].size() / sim::param("divisor", 1, 4)) : sim::param_log("batch", 1, 40);
  bool defaults = sim::coin("default_batch", 0.03);
  std::vector<std::string> extra = {fmt("threads:%d", threads)};
  if (!defaults) extra.push_back(fmt("batch_size:%d", batch));
  if (threads == 1 || c.mode == 0) sim::trivial();
  sim::PhaseOpts o; o.name = "filter"; o.schedule = true; o.stderr_path = S() + "/err";
  o.stdin_path = S() + (c.model_file ? "/vocab" : "/model");
  o.mem_preempt = sim::coin("mem_preempt", 0.6);
  o.faults.short_read = 0.01 * sim::param("short_read", 0, 70); o.faults.short_write = 0.01 * sim::param("short_write", 0, 70);
  o.faults.eintr = 0.01 * sim::param("eintr", 0, 20);
  o.malloc_fill = sim::pick("malloc_fill", {-1, 0, 255, 256, 257});
  bool hard = sim::coin("hard", 0.25);
  if (hard) switch (sim::param("hard_fault", 0, 4)) {
    case 0: o.faults.write_err = sim::pick("write_err", {1, 3, 10}) * 0.05; break;
    case 1: o.faults.disk_capacity = sim::param("capacity", 0, 100) * (c.model.size() * want.size() + 1) / 100; break;
    case 2: o.faults.open_err = 0.4; break;
    case 3: o.faults.read_err = 0.3; break;
    case 4: o.faults.close_err = 0.5; o.faults.match = [](const std::string&, bool w) { return w; }; break;
  }
  sim::Outcome x = sim::run_phase(o, [&] { return run(extra, S() + "/out"); });
  if (x.kind == sim::Outcome::DEADLOCK || x.kind == sim::Outcome::STEPLIMIT) sim::fail("never_finishes", "%s %s", x.str().c_str(), err().c_str());
  if (x.ok()) {
    std::string d = compare(S() + "/out", want);
    if (d.size()) sim::fail(x.hard_faults ? "lost_silently" : "wrong_output", "%s", d.c_str());
    sim::probe("ok");
  } else if (!x.hard_faults) sim::fail("unexpected_error", "%s %s", x.str().c_str(), err().c_str());
  else if (!x.clean_error()) sim::fail("unexpected_end", "%s %s", x.str().c_str(), err().c_str());
  else sim::probe("error");
  if (!hard && threads > 1) sim::probe(c.phrase ? "threads_phrase" : "threads_vocab");
}
}  // namespace
const sim::Property sim::properties[] = {{"S04", s04}, {0, 0}};
