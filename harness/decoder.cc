#include <zlib.h>
// D01: a sentence's translation does not depend on the history of the process.
// D03: an unpruned search returns what the grammar derives, no more and no less.
#include "sim.h"
#include <dirent.h>
#include <errno.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include "fdict.h"
#include "filelib.h"
#include "hg.h"
#include "hg_io.h"
#include "tdict.h"
#include "trule.h"
#include "sparse_vector.h"
using sim::fmt;
extern "C" int cdec_main(int argc, char** argv);

namespace {
std::string S() { return sim::scratch(); }
typedef std::vector<std::string> Words;
typedef std::map<std::string, double> Feats;
std::string join(const Words& w) { std::string s; for (size_t i = 0; i < w.size(); ++i) s += (i ? " " : "") + w[i]; return s; }
Words split(const std::string& s) { Words v; size_t i = 0; while (i < s.size()) { while (i < s.size() && s[i] == ' ') ++i; size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size(); if (j > i) v.push_back(s.substr(i, j - i)); i = j; } return v; }
void add(Feats& a, const Feats& b) { for (auto& x : b) a[x.first] += x.second; }

// ------------------------------------------------------------------ grammars
struct Sym { std::string word; int nt; };     // nt > 0: the nt-th nonterminal of the rule, word is its category
struct Rule { std::string lhs; std::vector<Sym> f, e; Feats feats; };
struct Gram { std::vector<Rule> rules; int span; bool glue; };   // span -1: no limit
struct Arc { std::string word; int len; Feats feats; };
typedef std::vector<std::vector<Arc>> Lat;

std::string rule_text(const Rule& r, int style) {
  std::string s = "[" + r.lhs + "] |||";
  for (auto& x : r.f) s += " " + (x.nt ? style & 1 ? "[" + x.word + "]" : fmt("[%s,%d]", x.word.c_str(), x.nt) : x.word);
  s += " |||";
  for (auto& x : r.e) s += " " + (x.nt ? style & 2 ? fmt("[%d]", x.nt) : fmt("[%s,%d]", x.word.c_str(), x.nt) : x.word);
  s += " |||";
  bool plain = false; for (auto& x : r.feats) if (x.first.compare(0, 12, "PhraseModel_") == 0) plain = true;
  if (plain) for (auto& x : r.feats) s += fmt(" %.17g", x.second);
  else for (auto& x : r.feats) s += (style & 4 && s[s.size() - 1] != '|' ? ";" : " ") + x.first + fmt("=%.17g", x.second);
  return s;
}
double eighth(sim::Rng& r) { return r.range(-8, 8) / 8.0; }
const char* kSrc[] = {"a", "b", "c", "d", "e", "f", "g", "h"};
std::string trg(sim::Rng& r) { static const char* t[] = {"A", "B", "C", "D", "E", "x", "y", "\xC3\xA9t\xC3\xA9", "z-z", "."}; return t[r.below(10)]; }
Feats rule_feats(sim::Rng& r, bool may_be_plain) {
  Feats f;
  if (may_be_plain && r.coin(0.2)) { int n = 1 + r.below(3); for (int i = 0; i < n; ++i) f[fmt("PhraseModel_%d", i)] = eighth(r); return f; }
  int n = r.below(4);
  for (int i = 0; i < n; ++i) f[fmt("f%d", (int)r.below(5))] = eighth(r);
  if (r.coin(0.03)) f[std::string(140, 'l')] = eighth(r);
  return f;
}
struct GenOpts { int vocab, nts, arity, max_f, max_e; bool unary, empty_e; };
Rule make_rule(sim::Rng& r, const GenOpts& g) {
  static const char* cats[] = {"X", "Y", "Z"};
  for (;;) {
    Rule x; int l = r.below(g.nts); x.lhs = cats[l];
    int nt = g.arity ? r.below(g.arity + 1) : 0, words = r.below(g.max_f + 1);
    if (!nt && !words) words = 1;
    std::vector<Sym> f;
    for (int i = 0; i < nt; ++i) { Sym s; s.word = cats[r.below(g.nts)]; s.nt = 1; f.push_back(s); }
    for (int i = 0; i < words; ++i) { Sym s; s.word = kSrc[r.below(g.vocab)]; s.nt = 0; f.push_back(s); }
    for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[r.below(i)]);
    if (f.size() == 1 && f[0].nt) {       // unary: only towards a smaller category, so that there is no cycle
      if (!g.unary || l + 1 >= g.nts) continue;
      f[0].word = cats[r.range(l + 1, g.nts - 1)];
    }
    int n = 0; std::vector<Sym> e;
    for (auto& s : f) if (s.nt) { s.nt = ++n; e.push_back(s); }
    int ew = r.below(g.max_e + 1);
    if (!ew && e.empty() && !g.empty_e) ew = 1;
    for (int i = 0; i < ew; ++i) { Sym s; s.word = trg(r); s.nt = 0; e.push_back(s); }
    for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[r.below(i)]);
    x.f = f; x.e = e; x.feats = rule_feats(r, true);
    return x;
  }
}
Lat make_lattice(sim::Rng& r, int n, int vocab, bool real, bool eps) {
  Lat l(n);
  for (int i = 0; i < n; ++i) {
    int arcs = real ? 1 + r.below(3) : 1;
    for (int k = 0; k < arcs; ++k) {
      Arc a; a.word = eps && r.coin(0.15) ? "*EPS*" : kSrc[r.below(vocab)];
      a.len = real && i + 2 <= n && r.coin(0.3) ? 2 : 1;
      if (real) { int m = r.below(3); for (int j = 0; j < m; ++j) a.feats[fmt("LatticeCost_%d", j)] = eighth(r); }
      if (real && r.coin(0.1)) { a.feats.clear(); a.feats["named"] = eighth(r); }
      if (k == 0 || r.coin(0.9)) l[i].push_back(a);
    }
  }
  return l;
}
std::string lattice_text(const Lat& l) {
  std::string s = "(";
  for (auto& n : l) {
    s += "(";
    for (auto& a : n) {
      s += "('" + a.word + "',";
      if (a.feats.count("named")) s += fmt("{'named':%.17g},", a.feats.find("named")->second);
      else for (auto& f : a.feats) s += fmt("%.17g,", f.second);
      s += fmt("%d),", a.len);
    }
    s += "),";
  }
  return s + ")";
}

// ------------------------------------------------ reference: all derivations
struct Der { Words yield; Feats feats; };
struct TooMany {};
struct Enum {
  Lat lat; std::vector<Gram> gs; std::string goal; int n;
  std::vector<std::vector<int>> dist;
  std::map<std::pair<std::string, std::pair<int, int>>, std::vector<Der>> memo;
  size_t total, limit;
  void init(const Lat& l, const std::vector<Gram>& g, const std::string& go, size_t lim) {
    lat = l; gs = g; goal = go; n = l.size(); total = 0; limit = lim;
    const int INF = 99999999;
    dist.assign(n + 1, std::vector<int>(n + 1, INF));
    for (int i = 0; i < n; ++i) for (auto& a : lat[i]) dist[i][i + a.len] = 1;
    for (int k = 0; k <= n; ++k) for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) dist[i][j] = std::min(dist[i][j], dist[i][k] + dist[k][j]);
    // the distance to a position no path goes through is the one to the next position
    for (int i = 0; i <= n; ++i) { int latest = INF; for (int j = n; j >= 0; --j) { if (dist[i][j] < INF) latest = dist[i][j]; else dist[i][j] = latest; } }
  }
  bool ok(const Gram& g, int i, int j) { return g.glue ? i == 0 : g.span < 0 || g.span >= dist[i][j]; }
  bool unary(const Rule& r) { return r.f.size() == 1 && r.f[0].nt; }
  void combine(const Rule& r, const std::vector<std::vector<Der>*>& ants, const Feats& lf, std::vector<Der>& out) {
    std::vector<size_t> k(ants.size(), 0);
    for (;;) {
      Der d; d.feats = r.feats; add(d.feats, lf);
      for (size_t i = 0; i < ants.size(); ++i) add(d.feats, (*ants[i])[k[i]].feats);
      for (auto& s : r.e) { if (s.nt) { const Words& y = (*ants[s.nt - 1])[k[s.nt - 1]].yield; d.yield.insert(d.yield.end(), y.begin(), y.end()); } else d.yield.push_back(s.word); }
      out.push_back(d);
      if (++total > limit) throw TooMany();
      size_t i = 0;
      for (; i < ants.size(); ++i) { if (++k[i] < ants[i]->size()) break; k[i] = 0; }
      if (i == ants.size()) return;
    }
  }
  void match(const Gram& g, const Rule& r, size_t pos, int i, int p, int j, Feats lf, std::vector<std::vector<Der>*> ants, std::vector<Der>& out) {
    if (pos == r.f.size() && p == j && ok(g, i, j)) combine(r, ants, lf, out);
    if (p < n && ok(g, i, p + 1)) for (auto& a : lat[p]) {
      if (p + a.len > j) continue;
      bool eps = a.word == "*EPS*";
      if (!eps && (pos == r.f.size() || r.f[pos].nt || r.f[pos].word != a.word)) continue;
      Feats f2 = lf; add(f2, a.feats);
      match(g, r, pos + !eps, i, p + a.len, j, f2, ants, out);
    }
    if (pos < r.f.size() && r.f[pos].nt)
      for (int q = p + 1; q <= j; ++q) {
        if (p == i && q == j && pos + 1 == r.f.size()) continue;
        if (!ok(g, i, q)) continue;
        if (i == p && q == j) continue;              // nothing would be left for the other symbols
        std::vector<Der>& d = derive(r.f[pos].word, p, q);
        if (d.empty()) continue;
        ants.push_back(&d);
        match(g, r, pos + 1, i, q, j, lf, ants, out);
        ants.pop_back();
      }
  }
  std::vector<Der>& derive(const std::string& cat, int i, int j) {
    auto key = std::make_pair(cat, std::make_pair(i, j));
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    std::vector<Der> out;
    for (auto& g : gs) for (auto& r : g.rules) {
      if (r.lhs != cat) continue;
      if (unary(r)) {
        if (r.f[0].word == goal) continue;
        std::vector<Der>& d = derive(r.f[0].word, i, j);
        if (!d.empty()) combine(r, std::vector<std::vector<Der>*>(1, &d), Feats(), out);
      } else match(g, r, 0, i, i, j, Feats(), std::vector<std::vector<Der>*>(), out);
    }
    return memo[key] = out;
  }
};
// a phrase-based search: phrases cover the sentence in any order the first gap allows
struct PbEnum {
  Lat lat; std::vector<Rule> phrases; int dist; size_t limit; std::vector<Der> out; std::set<std::string> pass;
  void go(std::vector<bool>& cov, const Der& d) {
    int n = lat.size(), gap = 0; while (gap < n && cov[gap]) ++gap;
    if (gap == n) { out.push_back(d); if (out.size() > limit) throw TooMany(); return; }
    for (int i = gap; i < n && i <= gap + dist; ++i) if (!cov[i]) extend(cov, d, i, i, Words());
  }
  void extend(std::vector<bool>& cov, const Der& d, int i, int j, Words w) {
    if (!w.empty()) {
      std::vector<const Rule*> opt; Rule pt;
      for (auto& p : phrases) if (p.f.size() == w.size()) { size_t k = 0; while (k < w.size() && p.f[k].word == w[k]) ++k; if (k == w.size()) opt.push_back(&p); }
      if (opt.empty() && w.size() == 1 && pass.count(w[0])) { Sym s; s.word = w[0]; s.nt = 0; pt.e.push_back(s); pt.feats["PassThrough"] = 1; opt.push_back(&pt); }
      for (auto* p : opt) {
        Der e = d; add(e.feats, p->feats); for (auto& s : p->e) e.yield.push_back(s.word);
        std::vector<bool> c = cov; for (int k = i; k < j; ++k) c[k] = true;
        go(c, e);
      }
    }
    if (j == (int)lat.size()) return;
    for (auto& a : lat[j]) {
      bool free = true; for (int k = i; k < j + a.len; ++k) if (cov[k]) free = false;
      if (!free) continue;
      Words w2 = w; w2.push_back(a.word); extend(cov, d, i, j + a.len, w2);
    }
  }
};

// ------------------------------------------------------- a small back-off model
struct Lm { int order; std::map<std::string, std::pair<double, double>> p; std::set<std::string> voc;
  double score(Words h, const std::string& w) const {       // h: the words before, </s> included where it stands
    while ((int)h.size() > order - 1) h.erase(h.begin());
    double b = 0;
    for (;;) {
      Words g = h; g.push_back(w); auto it = p.find(join(g));
      if (it != p.end()) return b + it->second.first;
      if (h.empty()) return b + p.find("<unk>")->second.first;
      it = p.find(join(h)); if (it != p.end()) b += it->second.second;
      h.erase(h.begin());
    }
  }
  double sentence(const Words& y, int* oov) const {
    double s = 0; Words h(1, "<s>"); *oov = 0;
    for (auto& x : y) { std::string w = voc.count(x) ? x : "<unk>"; if (w == "<unk>") ++*oov; s += score(h, w); h.push_back(w); }
    return s + score(h, "</s>");
  }
  std::string text() const {
    std::vector<std::string> body(order); std::vector<int> n(order, 0);
    for (auto& x : p) {
      int o = std::count(x.first.begin(), x.first.end(), ' ');
      body[o] += fmt("%g\t%s", x.second.first, x.first.c_str()) + (o + 1 < order ? fmt("\t%g", x.second.second) : "") + "\n"; ++n[o];
    }
    std::string s = "\n\\data\\\n";
    for (int i = 0; i < order; ++i) s += fmt("ngram %d=%d\n", i + 1, n[i]);
    for (int i = 0; i < order; ++i) s += fmt("\n\\%d-grams:\n", i + 1) + body[i];
    return s + "\n\\end\\\n";
  }
};
Lm make_lm(sim::Rng& r) {
  Lm m; m.order = 2 + r.below(2);
  Words v = {"A", "B", "C", "x", "a", "b", "\xC3\xA9t\xC3\xA9", "</s>"};
  auto pr = [&] { return std::make_pair(-(1 + (double)r.below(16)) / 8, -(double)r.below(9) / 8); };
  m.p["<s>"] = std::make_pair(-99.0, -(double)r.below(9) / 8);
  m.p["<unk>"] = std::make_pair(-(double)(16 + r.below(16)) / 8, 0.0);
  for (auto& w : v) { m.p[w] = pr(); m.voc.insert(w); if (w == "</s>") m.p[w].second = 0; }
  std::vector<Words> prev(1, Words(1, "<s>")); for (auto& w : v) if (w != "</s>") prev.push_back(Words(1, w));
  for (int o = 2; o <= m.order; ++o) {
    std::vector<Words> next;
    for (auto& h : prev) for (auto& w : v) if (r.coin(o == 2 ? 0.3 : 0.2)) {
      Words g = h; g.push_back(w);
      Words tail(g.begin() + 1, g.end());
      if (!m.p.count(join(tail))) continue;
      m.p[join(g)] = pr(); if (w == "</s>") m.p[join(g)].second = 0; else next.push_back(g);
    }
    if (next.empty() && o <= m.order) { Words g = prev[0]; g.push_back("</s>"); Words tail(g.begin() + 1, g.end()); if (m.p.count(join(tail))) m.p[join(g)] = std::make_pair(-1.0, 0.0); else m.order = o - 1; if (m.order == o - 1) break; }
    prev = next;
    if (prev.empty()) { m.order = o; break; }
  }
  for (auto it = m.p.begin(); it != m.p.end();) if (std::count(it->first.begin(), it->first.end(), ' ') >= m.order) m.p.erase(it++); else ++it;
  return m;
}

// -------------------------------------------------------------- running cdec
struct Setup { std::vector<std::string> args; std::map<std::string, double> weights; };
std::string weights_text(const std::map<std::string, double>& w) { std::string s; for (auto& x : w) s += x.first + fmt(" %.17g\n", x.second); return s; }
int run_cdec(const std::vector<std::string>& args) {
  std::vector<char*> v; v.push_back((char*)"cdec");
  for (auto& x : args) v.push_back((char*)x.c_str());
  v.push_back(0);
  return cdec_main(v.size() - 1, v.data());
}
std::string tail_of(const std::string& f) { std::string s = sim::slurp(f); return s.size() > 400 ? s.substr(s.size() - 400) : s; }
std::vector<std::string> lines_of(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
double dot(const Feats& f, const std::map<std::string, double>& w) { double s = 0; for (auto& x : f) { auto it = w.find(x.first); if (it != w.end()) s += x.second * it->second; } return s; }
bool near(double a, double b) { if (a == b) return true; return fabs(a - b) <= 2e-5 * (1 + fabs(a) + fabs(b)); }
double logsum(const std::vector<double>& v) { double m = -HUGE_VAL; for (double x : v) m = std::max(m, x); if (m == -HUGE_VAL) return m; double s = 0; for (double x : v) s += exp(x - m); return m + log(s); }
void benign(sim::PhaseOpts& o) {
  o.schedule = false;
  o.faults.short_read = 0.01 * sim::param("short_read", 0, 70);
  o.faults.short_write = 0.01 * sim::param("short_write", 0, 70);
  o.faults.eintr = 0.01 * sim::param("eintr", 0, 10);
  o.malloc_fill = sim::pick("malloc_fill", {-1, 0, 255, 256, 257});
}

std::vector<std::string> list_dir(const std::string& d) { std::vector<std::string> v; if (DIR* p = opendir(d.c_str())) { while (dirent* e = readdir(p)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(p); } std::sort(v.begin(), v.end()); return v; }

// ------------------------------------------------------------------------ D03
struct Sent { Lat lat; std::string line; Words ref; bool has_ref; std::vector<Rule> own; std::vector<Der> all; };
struct Key { std::string k; double score; };
std::string key_of(const Words& y, const Feats& f) {
  std::string s = join(y) + " #";
  for (auto& x : f) { double v = floor(x.second * 1000 + 0.5) / 1000; if (v != 0) s += fmt(" %s=%.3f", x.first.c_str(), v); }
  return s;
}
bool parse_kbest(const std::string& l, std::string* id, Words* y, Feats* f, double* score) {
  std::vector<std::string> p; size_t i = 0;
  for (;;) { size_t j = l.find(" ||| ", i); if (j == std::string::npos) { p.push_back(l.substr(i)); break; } p.push_back(l.substr(i, j - i)); i = j + 4; if (i < l.size() && l[i] == ' ' && l.compare(i, 5, " ||| ") != 0) ++i; }
  if (p.size() != 4) return false;
  *id = p[0]; *y = split(p[1]);
  for (auto& t : split(p[2])) { size_t e = t.rfind('='); if (e == std::string::npos) return false; if (f->count(t.substr(0, e))) return false; (*f)[t.substr(0, e)] = atof(t.c_str() + e + 1); }
  *score = atof(p[3].c_str());
  return true;
}
void d03() {
  bool pb = sim::coin("phrase_based", 0.3);
  sim::Rng r = sim::content("c:grammar");
  GenOpts g; g.vocab = sim::param("vocab", 2, 8); g.nts = pb ? 1 : sim::pick("categories", {1, 1, 2, 3}); g.arity = pb ? 0 : sim::param("arity", 0, 2);
  g.max_f = sim::param("max_f", 1, 4); g.max_e = sim::param("max_e", 0, 4);
  g.unary = sim::coin("unary", 0.5);
  int mode = sim::pick("output", {0, 1, 2, 3, 4, 5});    // k-best, unique k-best, 1-best, conditional probability, gradient, expectations
  bool refs = mode >= 3;
  g.empty_e = !refs && sim::coin("empty_target", 0.2);
  if (!refs && !g.empty_e && g.max_e == 0) g.max_e = 1;
  if (refs && g.max_e == 0) g.max_e = 1;
  int ng = pb ? 1 : sim::pick("grammars", {1, 1, 2});
  std::vector<Gram> grams;
  int span = pb ? -1 : sim::pick("span", {10, 10, 100, 4, 3, 2, 1});
  std::set<std::string> trg_words;
  for (int i = 0; i < ng; ++i) {
    Gram x; x.span = span; x.glue = false;
    int n = sim::param_log(fmt("rules%d", i).c_str(), 1, 24);
    for (int k = 0; k < n; ++k) { Rule q = make_rule(r, g); if (k && r.coin(0.05)) q = x.rules[r.below(k)]; x.rules.push_back(q); }
    grams.push_back(x);
  }
  bool pass = sim::coin("pass_through", 0.5); int extra = pass && !pb && sim::coin("extra_pass", 0.3) ? sim::param("extra_features", 1, 3) : 0;
  bool glue = !pb && sim::coin("hiero_glue", 0.85);
  int sents = sim::pick("sentences", {1, 1, 2, 3}), maxlen = sim::param("length", 1, 6);
  bool lattices = sim::coin("lattices", 0.4), eps = lattices && !pb && sim::coin("eps", 0.4);
  bool own = !pb && sim::coin("own_grammars", 0.3);
  std::string goal = glue || pb ? "S" : sim::coin("goal_is_x", 0.8) ? "X" : "S";
  Setup s;
  s.args = {"-f", pb ? "pb" : "scfg", "-w", S() + "/weights"};
  // the final line of a grammar may have no newline, and a grammar may be compressed
  for (int i = 0; i < ng; ++i) {
    std::string t;
    for (auto& q : grams[i].rules) { std::string l = rule_text(q, r.below(8)); if (pb) l = l.substr(l.find(" ||| ") + 5); t += l + "\n"; }
    if (r.coin(0.3)) t.resize(t.size() - 1);
    sim::spit(S() + fmt("/grammar%d", i), t);
    s.args.push_back("-g"); s.args.push_back(S() + fmt("/grammar%d", i));
  }
  if (!pb) { s.args.push_back("-S"); s.args.push_back(fmt("%d", span)); if (!glue) s.args.push_back("-n"); if (goal != "S") { s.args.push_back("--goal"); s.args.push_back(goal); } }
  if (pass) s.args.push_back("-P");
  if (extra) { s.args.push_back("-Q"); s.args.push_back(fmt("%d", extra)); }
  int maxdist = pb ? sim::param("distortion", 0, 5) : 0;
  if (pb) { s.args.push_back("-D"); s.args.push_back(fmt("%d", maxdist)); }
  for (const char* f : {"f0", "f1", "f2", "f3", "f4", "PhraseModel_0", "PhraseModel_1", "PhraseModel_2", "Glue", "PassThrough", "PassThrough_1", "PassThrough_2", "LatticeCost_0", "LatticeCost_1", "named", "WordPenalty", "SourceWordPenalty", "LanguageModel", "LanguageModel_OOV"})
    if (r.coin(0.9)) s.weights[f] = eighth(r);
  if (r.coin(0.9)) s.weights[std::string(140, 'l')] = eighth(r);
  bool wp = sim::coin("word_penalty", 0.4), lm = sim::coin("language_model", 0.35);
  Lm model;
  if (wp) { s.args.push_back("-F"); s.args.push_back("WordPenalty"); }
  if (lm) { sim::Rng q = sim::content("c:lm"); model = make_lm(q); sim::spit(S() + "/lm.arpa", model.text()); s.args.push_back("-F"); s.args.push_back("KLanguageModel " + S() + "/lm.arpa"); }
  int strategy = wp || lm ? sim::pick("strategy", {0, 1, 1, 2, 3}) : 0;
  // what may be lost: 1 what is further than alpha from the best, 2 anything but the best, 3 (small cubes) anything
  int prune = refs ? 0 : sim::pick("prune", {0, 0, 0, 1, 2, 3}); if (prune == 3 && !strategy) prune = 0;
  bool few = prune == 3;
  if (strategy == 0 && lm) { s.args.push_back("-I"); s.args.push_back("full"); }
  if (strategy) { s.args.push_back("-I"); s.args.push_back(strategy == 1 ? "cube_pruning" : strategy == 2 ? "fast_cube_pruning" : "fast_cube_pruning_2"); s.args.push_back("-K"); s.args.push_back(few ? fmt("%d", sim::param("pops", 1, 12)) : "1000000"); }
  double alpha = prune == 1 ? sim::param("alpha", 1, 48) / 8.0 : 0;
  if (prune == 1) { s.args.push_back("--beam_prune"); s.args.push_back(fmt("%g", alpha)); }
  if (prune == 2) { s.args.push_back("--density_prune"); s.args.push_back(fmt("%g", 1 + sim::param("density", 0, 16) / 4.0)); }
  const size_t kMax = 2500;
  std::vector<Sent> in; bool ambiguous = false;
  std::string input;
  sim::Rng ri = sim::content("c:input");
  for (int i = 0; i < sents; ++i) {
    Sent x; bool real = lattices && ri.coin(0.7);
    x.lat = make_lattice(ri, 1 + ri.below(maxlen), g.vocab, real, eps && real);
    if (own && ri.coin(0.6)) { int n = 1 + ri.below(4); std::string t; for (int k = 0; k < n; ++k) { x.own.push_back(make_rule(ri, g)); t += rule_text(x.own.back(), ri.below(8)) + "\n"; } if (ri.coin(0.3)) t.resize(t.size() - 1); sim::spit(S() + fmt("/own%d", i), t); }
    try {
      if (pb) {
        PbEnum e; e.lat = x.lat; e.phrases = grams[0].rules; e.dist = maxdist; e.limit = kMax;
        if (pass) for (auto& n : x.lat) for (auto& a : n) e.pass.insert(a.word);
        std::vector<bool> cov(x.lat.size(), false); e.go(cov, Der()); x.all = e.out;
      } else {
        Enum e; std::vector<Gram> gs = grams;
        if (!x.own.empty()) { Gram o; o.rules = x.own; o.span = span; o.glue = false; gs.push_back(o); }
        if (glue) {
          Gram gl; gl.glue = true; gl.span = -1;
          Rule a; a.lhs = "S"; Sym sx; sx.word = "X"; sx.nt = 1; a.f.push_back(sx); a.e.push_back(sx); gl.rules.push_back(a);
          Rule b; b.lhs = "S"; Sym ss; ss.word = "S"; ss.nt = 1; sx.nt = 2; b.f = {ss, sx}; b.e = b.f; b.feats["Glue"] = 1; gl.rules.push_back(b);
          gs.push_back(gl);
        }
        if (pass) {
          Gram p; p.glue = false; p.span = 3; std::set<std::string> seen;
          for (auto& n : x.lat) for (auto& a : n) if (seen.insert(a.word).second) {
            Rule q; q.lhs = "X"; Sym w; w.word = a.word; w.nt = 0; q.f.push_back(w); q.e.push_back(w); q.feats["PassThrough"] = 1;
            if (extra) { int len = 0; for (char c : a.word) if ((c & 0xC0) != 0x80) ++len; int b = (int)(log(len) / log(1.6)) + 1; q.feats[fmt("PassThrough_%d", std::min(b, extra))] = 1; }
            p.rules.push_back(q);
          }
          gs.push_back(p);
        }
        e.init(x.lat, gs, goal, 20000);
        x.all = e.derive(goal, 0, x.lat.size());
        if (x.all.size() > kMax) sim::skip("too many derivations");
      }
    } catch (TooMany&) { sim::skip("too many derivations"); }
    bool plain = true; for (auto& n : x.lat) if (n.size() > 1 || n[0].len > 1 || !n[0].feats.empty()) plain = false;
    if (plain && ri.coin(0.8)) { Words w; for (auto& n : x.lat) w.push_back(n[0].word); x.line = join(w); } else x.line = lattice_text(x.lat);
    if (x.line.compare(0, 4, "((('") != 0 && x.line[0] == '(') sim::skip("not taken as a lattice");
    x.has_ref = refs;
    if (refs) {
      if (x.all.size() && ri.coin(0.85)) x.ref = x.all[ri.below(x.all.size())].yield; else { int n = 1 + ri.below(4); for (int k = 0; k < n; ++k) x.ref.push_back(trg(ri)); }
      if (x.ref.empty()) x.ref.push_back("A");
      x.line += " ||| " + join(x.ref);
    }
    std::string attr = fmt(" id=\"%d\"", i); if (!x.own.empty()) attr += " grammar=\"" + S() + fmt("/own%d", i) + "\"";
    if (!x.own.empty() || ri.coin(0.3)) x.line = "<seg" + attr + ">" + x.line + "</seg>";
    in.push_back(x); input += x.line + "\n";
    if (x.all.size() > 1) { sim::probe("ambiguous"); ambiguous = true; }
  }
  if (r.coin(0.3)) input.resize(input.size() - 1);
  sim::spit(S() + "/in", input);
  sim::spit(S() + "/weights", weights_text(s.weights));
  size_t k = mode <= 1 ? sim::coin("all", 0.6) ? 100000 : sim::param_log("k", 1, 50) : 0;
  if (mode <= 1) { s.args.push_back("-k"); s.args.push_back(fmt("%zu", k)); if (mode == 1) s.args.push_back("-r"); }
  if (mode == 3) s.args.push_back("--show_conditional_prob");
  if (mode == 4) s.args.push_back("-G"); 
  if (mode == 5) s.args.push_back("--feature_expectations");
  bool b64 = mode >= 4 && sim::coin("base64", 0.5); size_t combine = mode >= 4 ? sim::pick("combine", {1, 1, 2, 3}) : 1;
  if (mode >= 4 && !b64) { s.args.push_back("--vector_format"); s.args.push_back("text"); }
  if (combine > 1) { s.args.push_back("-C"); s.args.push_back(fmt("%zu", combine)); }
  s.args.push_back("-z");
  sim::PhaseOpts o; o.name = "cdec"; benign(o);
  o.stdin_path = S() + "/in"; o.stdout_path = S() + "/out"; o.stderr_path = S() + "/err";
  sim::Outcome x = sim::run_phase(o, [&] { return run_cdec(s.args); });
  if (!x.ok()) sim::fail("unexpected_end", "%s: %s", x.str().c_str(), tail_of(S() + "/err").c_str());
  // ------------------------------------------------------------- what it said
  std::vector<std::string> out = lines_of(sim::slurp(S() + "/out")), err = lines_of(sim::slurp(S() + "/err"));
  size_t at = 0, ez = 0;
  auto next_z = [&](const char* tag) -> std::string { for (; ez < err.size(); ++ez) { if (err[ez].compare(0, 7, "INPUT: ") == 0) return ""; size_t q = err[ez].find(tag); if (q != std::string::npos && err[ez].find("log(Z): ") != std::string::npos) return err[ez++].substr(err[ez - 1].find("log(Z): ") + 8); } return ""; };
  bool passes = wp || lm || prune == 1 || prune == 2;
  Feats acc; double acc_want = 0, acc_slack = 0; size_t pieces = 0;
  auto check_vector = [&](const std::string& who) {
    if (at >= out.size()) sim::fail("reference_lost", "%s: nothing is printed", who.c_str());
    std::string l = out[at++];
    Feats got; double obj;
    if (b64) {
      SparseVector<double> v; std::string d = l.size() > 2 ? l.substr(2) : "";
      if (l.compare(0, 2, "0\t") || !B64::Decode(&obj, &v, d.data(), d.size())) sim::fail("wrong_gradient", "%s: '%s' cannot be decoded", who.c_str(), l.c_str());
      for (auto& q : v) got[FD::Convert(q.first)] = q.second;
    } else {
      size_t a = l.find("**OBJ**="), b = l.find(';');
      if (a == std::string::npos || b == std::string::npos) sim::fail("reference_lost", "%s: '%s' is printed", who.c_str(), l.c_str());
      obj = atof(l.c_str() + a + 8);
      for (auto& q : split(l.substr(b + 1))) { size_t e = q.rfind('='); if (e == std::string::npos) continue; const char* v = q.c_str() + e + 1; bool neg = strncmp(v, "(-)", 3) == 0; double w = exp(atof(v + (neg ? 3 : 0))); got[q.substr(0, e)] = neg ? -w : w; }
    }
    if (fabs(obj - acc_want) > 1e-4 * acc_slack) sim::fail("wrong_objective", "%s: the objective is printed as %g, it is %g", who.c_str(), obj, acc_want);
    std::set<std::string> names; for (auto& q : got) names.insert(q.first); for (auto& q : acc) names.insert(q.first);
    for (auto& q : names) if (fabs(got[q] - acc[q]) > 1e-3 * (1 + fabs(acc[q]))) sim::fail("wrong_gradient", "%s: %s is printed as %g, it is %g (%s)", who.c_str(), q.c_str(), got[q], acc[q], l.c_str());
    acc.clear(); acc_want = acc_slack = 0;
  };
  for (int i = 0; i < sents; ++i) {
    Sent& t = in[i];
    std::string who = fmt("sentence %d (%s)", i, t.line.substr(0, 120).c_str());
    while (ez < err.size() && err[ez].compare(0, 7, "INPUT: ") != 0) ++ez;
    ++ez;
    if (t.all.empty()) {
      sim::probe("no_parse");
      std::string want = mode == 3 ? "-Inf" : "";
      if (at >= out.size() || out[at] != want) sim::fail("parse_invented", "%s has no derivation, but '%s' is printed", who.c_str(), at < out.size() ? out[at].c_str() : "(nothing)");
      ++at; continue;
    }
    std::vector<double> sc0, sc;
    for (auto& d : t.all) sc0.push_back(dot(d.feats, s.weights));
    for (auto& d : t.all) {
      if (wp) d.feats["WordPenalty"] = -0.4342944819 * d.yield.size();
      if (lm) { int oov; double v = model.sentence(d.yield, &oov); d.feats["LanguageModel"] = v; if (oov) d.feats["LanguageModel_OOV"] = oov; }
      sc.push_back(dot(d.feats, s.weights));
    }
    std::string z = next_z("Partition ");
    if (z.empty() || !near(atof(z.c_str()), logsum(sc0))) sim::fail("wrong_partition", "%s: log Z is printed as '%s', the derivations (%zu) sum to %g", who.c_str(), z.c_str(), sc0.size(), logsum(sc0));
    if (passes && !few) { z = next_z("Pass1 partition "); if (z.empty() || !near(atof(z.c_str()), logsum(sc))) sim::fail("wrong_partition", "%s: the rescored log Z is printed as '%s', the derivations (%zu) sum to %g", who.c_str(), z.c_str(), sc.size(), logsum(sc)); }
    auto prep = [&](Feats f) { f.erase("LanguageModel"); f.erase("LanguageModel_OOV"); f.erase("WordPenalty"); return f; };
    if (mode <= 1) {
      std::map<std::string, std::vector<double>> model_items; std::map<std::string, double> best;
      for (size_t d = 0; d < t.all.size(); ++d) { model_items[key_of(t.all[d].yield, prep(t.all[d].feats))].push_back(sc[d]); std::string y = join(t.all[d].yield); if (!best.count(y) || best[y] < sc[d]) best[y] = sc[d]; }
      std::vector<double> want; if (mode == 1) for (auto& b : best) want.push_back(b.second); else want = sc;
      std::sort(want.rbegin(), want.rend());
      size_t n = std::min(k, want.size());
      if (prune) {
        size_t here = 0; while (at + here < out.size() && out[at + here].compare(0, fmt("%d ||| ", i).size(), fmt("%d ||| ", i)) == 0) ++here;
        if (here > n || here == 0) sim::fail(here ? "derivation_invented" : "derivation_lost", "%s: %zu items are printed, %zu are derived", who.c_str(), here, want.size());
        n = here;
      }
      std::set<std::string> yields; double last = HUGE_VAL;
      for (size_t j = 0; j < n; ++j, ++at) {
        Words y; Feats f; double score; std::string id;
        if (at >= out.size() || !parse_kbest(out[at], &id, &y, &f, &score) || id != fmt("%d", i))
          sim::fail("derivation_lost", "%s: item %zu of %zu is missing; printed: '%s'", who.c_str(), j, n, at < out.size() ? out[at].c_str() : "(end)");
        if (wp && fabs(f["WordPenalty"] + 0.4342944819 * y.size()) > 1e-4) sim::fail("wrong_feature", "%s: '%s' has WordPenalty %g", who.c_str(), out[at].c_str(), f["WordPenalty"]);
        if (lm) { int oov; double v = model.sentence(y, &oov); if (fabs(f["LanguageModel"] - v) > 1e-3 || f["LanguageModel_OOV"] != oov) sim::fail("wrong_feature", "%s: '%s' should have LanguageModel %g, OOV %d", who.c_str(), out[at].c_str(), v, oov); }
        std::string key = key_of(y, prep(f));
        auto it = model_items.find(key);
        if (it == model_items.end() || it->second.empty()) sim::fail("derivation_invented", "%s: '%s' is not derived by the grammar (that often)", who.c_str(), out[at].c_str());
        it->second.pop_back();
        if (!near(score, dot(f, s.weights))) sim::fail("wrong_score", "%s: '%s' scores %g", who.c_str(), out[at].c_str(), dot(f, s.weights));
        if (!prune || (prune == 1 && want[j] > want[0] - alpha + 1e-3) || (prune == 2 && j == 0)) if (!near(score, want[j])) sim::fail("wrong_order", "%s: item %zu, '%s', should score %g", who.c_str(), j, out[at].c_str(), want[j]);
        if (score > last + 1e-3) sim::fail("wrong_order", "%s: '%s' is better than the item before it", who.c_str(), out[at].c_str());
        last = score;
        if (mode == 1 && !yields.insert(join(y)).second) sim::fail("duplicate", "%s: '%s' is printed twice in a unique list", who.c_str(), join(y).c_str());
      }
      if (prune == 1 && n < std::min(k, want.size()) && want[n] > want[0] - alpha + 1e-3) sim::fail("derivation_lost", "%s: the beam is %g wide, item %zu of score %g is missing, the best scores %g", who.c_str(), alpha, n, want[n], want[0]);
      if (prune) { sim::probe("pruned"); if (n < std::min(k, want.size())) sim::probe("pruned_some"); }
      if (n == want.size() && mode == 0) sim::probe("complete_kbest");
    } else if (mode == 2) {
      double top = *std::max_element(sc.begin(), sc.end()); bool found = false;
      if (at >= out.size()) sim::fail("derivation_lost", "%s: nothing is printed", who.c_str());
      for (size_t d = 0; d < sc.size(); ++d) if ((few || near(sc[d], top)) && join(t.all[d].yield) == out[at]) found = true;
      if (!found) sim::fail("wrong_best", "%s: '%s' is printed, the best derivation scores %g", who.c_str(), out[at].c_str(), top);
      ++at;
    } else {
      // with a reference, -k is not given: one line (or none) per sentence
      std::vector<double> ref; double lz = logsum(sc);
      Feats full, cons; std::vector<size_t> which;
      for (size_t d = 0; d < sc.size(); ++d) {
        double p = exp(sc[d] - lz); for (auto& q : t.all[d].feats) full[q.first] += p * q.second;
        if (t.all[d].yield == t.ref) { ref.push_back(sc[d]); which.push_back(d); }
      }
      double lr = logsum(ref);
      for (size_t q = 0; q < which.size(); ++q) for (auto& w : t.all[which[q]].feats) cons[w.first] += exp(ref[q] - lr) * w.second;
      if (which.empty()) {
        sim::probe("unreachable");
        if (mode == 3 || mode == 4) { if (at >= out.size() || out[at] != (mode == 3 ? "-Inf" : "")) sim::fail("reference_invented", "%s: the reference is not derived, but '%s' is printed", who.c_str(), at < out.size() ? out[at].c_str() : "(nothing)"); ++at; }
        continue;
      }
      sim::probe("reachable");
      if (mode >= 4) {
        acc_want += mode == 4 ? lz - lr : lr; acc_slack += 1 + fabs(lz) + fabs(lr); add(acc, cons);
        if (mode == 4) for (auto& q : full) acc[q.first] -= q.second;
        if (++pieces % combine == 0) check_vector(who);
        continue;
      }
      if (at >= out.size()) sim::fail("reference_lost", "%s: nothing is printed", who.c_str());
      std::string l = out[at++];
      if (mode == 3) { if (!near(atof(l.c_str()), lr - lz) && fabs(atof(l.c_str()) - (lr - lz)) > 1e-4) sim::fail(l == "-Inf" ? "reference_lost" : "wrong_probability", "%s: '%s' is printed, the conditional log probability is %g", who.c_str(), l.c_str(), lr - lz); }
    }
  }
  if (mode >= 4 && pieces % combine && !acc.empty()) check_vector("the last vector");
  if (at != out.size()) sim::fail("derivation_invented", "%zu more lines are printed, first '%s'", out.size() - at, out[at].c_str());
  if (!ambiguous) sim::trivial();
  sim::probe(pb ? "ok_pb" : "ok_scfg");
}
// ------------------------------------------------------------------------ D01
struct Line { std::string text, attrs; };
struct History { std::vector<std::string> args; std::vector<Line> pool; std::set<std::string> words; bool tree, refs; std::vector<Lm> lms; };
void arg(History& h, const std::string& a) { h.args.push_back(a); }
void arg(History& h, const std::string& a, const std::string& b) { h.args.push_back(a); h.args.push_back(b); }
std::string bracketing(sim::Rng& r, const Words& w, size_t i, size_t j, int depth, bool flat = false) {       // a parse tree over w[i,j)
  static const char* cat[] = {"NP", "VP", "PP", "S"};
  if (j - i == 1) return fmt("(%s %s)", cat[r.below(3)], w[i].c_str());
  if (flat && r.coin(0.35)) { std::string s = fmt("(%s", cat[r.below(4)]); for (size_t k = i; k < j; ++k) s += " " + w[k]; return s + ")"; }
  size_t k = r.range(i + 1, j - 1);
  return fmt("(%s %s %s)", depth ? cat[r.below(4)] : "S", bracketing(r, w, i, k, depth + 1, flat).c_str(), bracketing(r, w, k, j, depth + 1, flat).c_str());
}
Words sentence(sim::Rng& r, int vocab, int maxlen) { Words w; int n = 1 + r.below(maxlen); for (int i = 0; i < n; ++i) w.push_back(kSrc[r.below(vocab)]); return w; }
int n_files = 0;
sim::Rng* gz_some = 0;      // D04: some files are compressed
std::vector<std::string> gz_files;
std::string fresh_file(const std::string& text) {
  std::string f = S() + fmt("/file%d", n_files++);
  if (gz_some && text.size() && gz_some->coin(0.4)) {
    f += ".gz"; gzFile g = gzopen(f.c_str(), "wb"); gzwrite(g, text.data(), text.size()); gzclose(g); gz_files.push_back(f);
  } else sim::spit(f, text);
  return f;
}
void ffs(History& h, sim::Rng& r, const std::vector<std::string>& names, int max, const char* opt = "-F") {
  std::vector<std::string> v = names; int n = r.below(max + 1);
  for (int i = 0; i < n && v.size(); ++i) { size_t k = r.below(v.size()); arg(h, opt, v[k]); v.erase(v.begin() + k); }
}
void scfg_history(History& h, sim::Rng& r, bool pb, double trees = 0.3) {
  GenOpts g; g.vocab = 2 + r.below(7); g.nts = pb ? 1 : 1 + r.below(3); g.arity = pb ? 0 : 1 + r.below(2); g.max_f = 1 + r.below(4); g.max_e = 1 + r.below(4); g.unary = r.coin(0.5); g.empty_e = false;
  int ng = pb ? 1 : 1 + r.below(2), span = r.coin(0.7) ? 10 : 1 + r.below(4);
  arg(h, "-f", pb ? "pb" : "scfg");
  for (int i = 0; i < ng; ++i) {
    std::string t;
    if (!i) for (auto& w : h.words) t += pb ? "never " + w + " ||| " + w + "\n" : "[" + std::string(1, "XYZ"[r.below(3)]) + "] ||| never " + w + " ||| " + w + "\n";
    int n = 1 + r.below(16);
    for (int k = 0; k < n; ++k) { std::string l = rule_text(make_rule(r, g), r.below(8)); if (pb) l = l.substr(l.find(" ||| ") + 5); t += l + "\n"; }
    arg(h, "-g", fresh_file(t));
  }
  bool longer = !pb && r.coin(0.08);
  if (!pb) { arg(h, "-S", fmt("%d", longer ? 25 : span)); if (r.coin(0.1)) { arg(h, "-n"); arg(h, "--goal", "X"); } } else arg(h, "-D", fmt("%d", (int)r.below(5)));
  if (r.coin(0.6)) { arg(h, "-P"); if (!pb && r.coin(0.3)) arg(h, "-Q", fmt("%d", 1 + (int)r.below(3))); }
  h.tree = !pb && r.coin(trees);
  bool lat = !h.tree && r.coin(0.4);
  static const char* order[] = {"", "", "", " -o 1", " -o 2", " -o 4", " -o 5", " -o 3 -U one: -B two: -T three:"}; std::string ngrams = std::string("NgramFeatures") + order[r.below(8)];
  std::vector<std::string> f = {"WordPenalty", "SourceWordPenalty", "ArityPenalty", "RuleIdentityFeatures", "RuleSourceBigramFeatures", "RuleTargetBigramFeatures", ngrams, "NonLatinCount", "OutputIndicator", "InputIndicator", "RuleShape"};
  if (!pb) for (const char* x : {"SourceSpanSizeFeatures", "CMR2008ReorderingFeatures", "SpanFeatures"}) f.push_back(x);
  if (!pb && !lat) f.push_back("SourcePathFeatures");
  f.push_back("WordSet -v " + fresh_file("A\nB\nx\n") + " -N Listed");
  if (h.tree) { f.push_back("SourceSyntaxFeatures"); f.push_back("SourceSyntaxFeatures2"); f.push_back("ParseMatchFeatures"); f.push_back("SoftSyntaxFeatures NP2 VP_ PP+ S-"); f.push_back("SoftSyntaxFeaturesMindist NP2 VP_ PP+ S-"); }
  if (r.coin(0.5)) { Lm m = make_lm(r); h.lms.push_back(m); arg(h, "-F", "KLanguageModel " + fresh_file(m.text())); }
  ffs(h, r, f, 4);
  if (r.coin(0.2)) { ffs(h, r, f, 2, "--feature_function2"); if (r.coin(0.5)) arg(h, "--beam_prune2", "3"); }
  int n = 1 + r.below(5), maxlen = 1 + r.below(7);
  if (longer) maxlen = 21;
  for (int i = 0; i < n; ++i) {
    Line l;
    if (lat && r.coin(0.6)) l.text = lattice_text(make_lattice(r, 1 + r.below(maxlen), g.vocab, true, !pb && r.coin(0.3)));
    else {
      Words w = sentence(r, g.vocab, maxlen); if (r.coin(0.15)) w[r.below(w.size())] = "unknown"; l.text = join(w);
      if (h.tree) l.attrs += " src_tree=\"" + fresh_file(bracketing(r, w, 0, w.size(), 0, true) + "\n") + "\"";
    }
    if (l.text.compare(0, 4, "((('") != 0 && l.text[0] == '(') { l.text = "a"; l.attrs.clear(); if (h.tree) l.attrs = " src_tree=\"" + fresh_file("(S a)\n") + "\""; }
    if (!pb) for (int k = 0; k < 2 && r.coin(0.35); ++k) { std::string t; int m = 1 + r.below(5); for (int q = 0; q < m; ++q) t += rule_text(make_rule(r, g), r.below(8)) + "\n"; l.attrs += fmt(" grammar%s=\"%s\"", k ? "1" : "", fresh_file(t).c_str()); }
    if (h.refs) { Words w; int m = 1 + r.below(3); for (int k = 0; k < m; ++k) w.push_back(trg(r)); l.text += " ||| " + join(w); }
    h.pool.push_back(l);
  }
}
void tagger_history(History& h, sim::Rng& r) {
  arg(h, "-f", "tagger"); arg(h, "--tagger_tagset", fresh_file(r.coin(0.5) ? "N V D\n" : "B\nI\nO\n"));
  std::vector<std::string> f = {"LexicalPairIndicator", "Tagger_BigramIndicator", "OutputIndicator", "InputIndicator", "RuleContextFeatures -t U1:%x[-1]_%x[0]:%y[0]", "RuleContextFeatures -t U2:%x[0]_%x[1]:%y[0]"};
  ffs(h, r, f, 4);
  bool conll = r.coin(0.3); if (conll) { arg(h, "-F", "CoNLLFeatures -w 1 -t xy:%x[0]:%y[0]"); if (r.coin(0.5)) arg(h, "-F", "CoNLLFeatures -w 2 -t xxy:%x[-1]_%x[0]:%y[0]"); }
  int n = 1 + r.below(5);
  for (int i = 0; i < n; ++i) {
    Line l; Words w = sentence(r, 6, 6); l.text = join(w);
    if (conll) for (int k = 1; k <= 2; ++k) { Words x; for (size_t q = 0; q < w.size(); ++q) x.push_back(fmt("p%d", (int)r.below(4))); l.attrs += fmt(" feat%d=\"%s\"", k, join(x).c_str()); }
    if (h.refs) { Words x; for (size_t q = 0; q < w.size(); ++q) x.push_back(r.coin(0.5) ? "N" : "V"); l.text += " ||| " + join(x); }
    h.pool.push_back(l);
  }
}
void align_history(History& h, sim::Rng& r, bool lex) {
  arg(h, "-f", lex ? "lexalign" : "lextrans"); bool viterbi = r.coin(0.5); arg(h, "--aligner"); if (viterbi) arg(h, "--aligner_use_viterbi");
  h.refs = true;
  if (!lex) {
    std::string t; for (int s = 0; s < 5; ++s) { int n = 2 + r.below(4); for (int k = 0; k < n; ++k) t += std::string(kSrc[s]) + " ||| " + trg(r) + fmt(" ||| f%d=%g\n", (int)r.below(5), eighth(r)); }
    if (r.coin(0.3)) t.resize(t.size() - 1);
    arg(h, "-g", fresh_file(t)); if (r.coin(0.5)) arg(h, "--lextrans_align_only");
  }
  ffs(h, r, {"RelativeSentencePosition", "NewJump", "SourceBigram", "LexNullJump", "InputIndicator", "OutputIndicator", "IdentityCycleDetector", "Fertility"}, 4);
  int n = 1 + r.below(5);
  for (int i = 0; i < n; ++i) { Line l; Words w = sentence(r, 5, 5), x; int m = 1 + r.below(5); for (int k = 0; k < m; ++k) x.push_back(trg(r)); l.text = join(w) + " ||| " + join(x); h.pool.push_back(l); }
}
void csplit_history(History& h, sim::Rng& r) {
  arg(h, "-f", "csplit");
  if (r.coin(0.5)) arg(h, "--csplit_output_plf");
  if (r.coin(0.5)) { arg(h, "--beam_prune", "2"); if (r.coin(0.5)) arg(h, "--csplit_preserve_full_word"); }
  ffs(h, r, {"WordPenalty", "OutputIndicator", "InputIndicator", "CSplit_BasicFeatures " + fresh_file("8 5\nabcd 2\nefgh 1.5\nabc 3\n") + " " + fresh_file("abce\n")}, 3);
  int n = 1 + r.below(5);
  for (int i = 0; i < n; ++i) { Line l; int m = 2 + r.below(9); for (int k = 0; k < m; ++k) l.text += r.coin(0.2) ? "s" : r.coin(0.1) ? "\xC3\xA4" : std::string(1, 'a' + r.below(6)); h.pool.push_back(l); }
}
void t2s_history(History& h, sim::Rng& r) {
  arg(h, "-f", "t2s");
  auto grammar = [&] {
    std::string t; int n = 3 + r.below(10);
    static const char* cat[] = {"NP", "VP", "PP", "S"};
    for (int k = 0; k < n; ++k) {
      std::string c = cat[r.below(4)];
      switch (r.below(4)) {
        case 0: t += fmt("(%s %s) ||| %s ||| f%d=%g\n", c.c_str(), kSrc[r.below(5)], trg(r).c_str(), (int)r.below(5), eighth(r)); break;
        case 1: t += fmt("(%s [%s] [%s]) ||| [%d] [%d] ||| f%d=%g\n", c.c_str(), cat[r.below(4)], cat[r.below(4)], 1, 2, (int)r.below(5), eighth(r)); break;
        case 2: t += fmt("(%s [%s] (%s %s)) ||| %s [1] ||| f%d=%g\n", c.c_str(), cat[r.below(4)], cat[r.below(4)], kSrc[r.below(5)], trg(r).c_str(), (int)r.below(5), eighth(r)); break;
        default: t += fmt("(%s [%s] [%s]) ||| [2] %s [1] ||| f%d=%g\n", c.c_str(), cat[r.below(4)], cat[r.below(4)], trg(r).c_str(), (int)r.below(5), eighth(r)); break;
      }
    }
    return t;
  };
  if (r.coin(0.8)) arg(h, "-g", fresh_file(grammar()));
  if (r.coin(0.8)) arg(h, "-P");
  if (r.coin(0.4)) { Lm m = make_lm(r); h.lms.push_back(m); arg(h, "-F", "KLanguageModel " + fresh_file(m.text())); }
  ffs(h, r, {"WordPenalty", "ArityPenalty", "RuleIdentityFeatures", "RuleSourceBigramFeatures", "RuleTargetBigramFeatures", "NgramFeatures", "RuleShape"}, 3);
  int n = 1 + r.below(5);
  for (int i = 0; i < n; ++i) { Line l; Words w = sentence(r, 5, 6); l.text = bracketing(r, w, 0, w.size(), 0); if (r.coin(0.3)) l.attrs = " grammar=\"" + fresh_file(grammar()) + "\""; h.pool.push_back(l); }
}
void fst_history(History& h, sim::Rng& r) {
  arg(h, "-f", "fst");
  std::string t; int n = 2 + r.below(10);
  for (int k = 0; k < n; ++k) { Words w = sentence(r, 5, 2); t += join(w) + " ||| " + trg(r) + fmt(" ||| f%d=%g\n", (int)r.below(5), eighth(r)); }
  arg(h, "-g", fresh_file(t)); if (r.coin(0.7)) arg(h, "-P");
  if (r.coin(0.4)) { Lm m = make_lm(r); h.lms.push_back(m); arg(h, "-F", "KLanguageModel " + fresh_file(m.text())); }
  ffs(h, r, {"WordPenalty", "ArityPenalty", "RuleIdentityFeatures", "NgramFeatures"}, 2);
  int m = 1 + r.below(5);
  for (int i = 0; i < m; ++i) { Line l; l.text = join(sentence(r, 6, 5)); h.pool.push_back(l); }
}
std::vector<std::string> blocks_of(const std::string& err) {       // what is said about each sentence, without times
  std::vector<std::string> b;
  for (auto& l : lines_of(err)) {
    if (l.compare(0, 7, "INPUT: ") == 0) b.push_back("");
    if (b.empty() || l.compare(0, 2, "  ") != 0 || l.find(" secs") != std::string::npos || l.find("seconds") != std::string::npos) continue;
    b.back() += l + "\n";
  }
  return b;
}
std::string without_hashes(const std::string& s) {
  std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s.compare(i, 3, " h=") == 0) { i += 2; while (i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) ++i; } else o += s[i]; }
  return o;
}
std::string forest_text(const Hypergraph& hg, bool hashes) {
  std::string o = fmt("%zu nodes %zu edges linear=%d topo=%d\n", hg.nodes_.size(), hg.edges_.size(), (int)hg.is_linear_chain_, (int)hg.edges_topo_);
  for (auto& n : hg.nodes_) {
    o += fmt("node %d %s", n.id_, TD::Convert(-n.cat_).c_str()); if (hashes) o += fmt(" %zx", n.node_hash);
    for (int e : n.in_edges_) o += fmt(" <%d", e);
    for (int e : n.out_edges_) o += fmt(" >%d", e);
    o += "\n";
  }
  for (auto& e : hg.edges_) {
    o += fmt("edge %d -> %d [%d,%d) [%d,%d)", e.id_, e.head_node_, e.i_, e.j_, e.prev_i_, e.prev_j_);
    for (unsigned i = 0; i < e.tail_nodes_.size(); ++i) o += fmt(" %u", (unsigned)e.tail_nodes_[i]);
    o += " | " + (e.rule_ ? e.rule_->AsString(true) : "no rule") + fmt(" arity %d", e.rule_ ? e.rule_->Arity() : -1) + " |";
    std::map<std::string, double> f; for (auto& kv : e.feature_values_) f[FD::Convert(kv.first)] = kv.second;
    for (auto& kv : f) o += fmt(" %s=%a", kv.first.c_str(), kv.second);
    o += "\n";
  }
  return o;
}
std::string forest_text(const std::string& file, bool hashes) {
  ReadFile rf(file); Hypergraph hg; HypergraphIO::ReadFromBinary(rf.stream(), &hg);
  return forest_text(hg, hashes);
}
std::string drop_dir(const std::string& d, const std::string& to) { sim::NoPreempt np; rename(d.c_str(), to.c_str()); mkdir(d.c_str(), 0777); return to; }
void output_args(History& h, sim::Rng& r, int form, int mode) {
  if (form == 0 || form == 1 || form == 6 || form == 7) {
    int st = r.below(4); if (st) { arg(h, "-I", st == 1 ? "cube_pruning" : st == 2 ? "fast_cube_pruning" : "fast_cube_pruning_2"); arg(h, "-K", fmt("%d", r.coin(0.5) ? 1 + (int)r.below(10) : 200)); }
    if (r.coin(0.2)) arg(h, "--beam_prune", fmt("%g", 0.5 + r.below(8))); else if (r.coin(0.2)) arg(h, "--density_prune", fmt("%g", 1 + r.below(16) / 4.0));
    if (r.coin(0.1)) { arg(h, "--summary_feature", "Summary"); static const char* k[] = {"node_risk", "edge_risk", "edge_prob"}; arg(h, "--summary_feature_type", k[r.below(3)]); }
  } else if (form == 2) arg(h, "-I", "full");
  if (form != 3 && form != 4) switch (mode) {
    case 1: arg(h, "-k", fmt("%d", 1 + (int)r.below(40))); if (r.coin(0.4)) arg(h, "-r"); if (r.coin(0.3)) { mkdir((S() + "/D").c_str(), 0777); arg(h, "--show_derivations", S() + "/D"); } break;
    case 2: if (!h.refs) { mkdir((S() + "/F").c_str(), 0777); arg(h, "-O", S() + "/F"); } break;
    case 3: arg(h, "--graphviz"); break;
    case 4: arg(h, "-J"); break;
    case 5: mkdir((S() + "/R").c_str(), 0777); arg(h, "--extract_rules", S() + "/R"); break;
    case 6: if (h.refs) { arg(h, "-G"); if (r.coin(0.5)) arg(h, "--vector_format", "text"); } break;
    case 7: if (h.refs) arg(h, r.coin(0.5) ? "--feature_expectations" : "--show_conditional_prob"); break;
  }
  if (r.coin(0.5)) arg(h, "-z");
  if (r.coin(0.2)) arg(h, "--show_tree_structure");
  if (r.coin(0.2)) arg(h, "--show_expected_length");
}
void d01() {
  int form = sim::pick("formalism", {0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7});
  sim::Rng r = sim::content("c:setup"); n_files = 0;
  History h; h.tree = h.refs = false;
  if (sim::coin("known_words", 0.5)) { for (const char* w : kSrc) h.words.insert(w); for (const char* w : {"A", "B", "C", "D", "E", "x", "y", "\xC3\xA9t\xC3\xA9", "z-z", ".", "unknown"}) h.words.insert(w); }
  int mode = sim::pick("output", {0, 1, 1, 2, 3, 4, 5, 6, 7});
  if ((mode == 6 || mode == 7) && form <= 2) h.refs = true;
  switch (form) { case 0: scfg_history(h, r, false); break; case 1: scfg_history(h, r, true); break; case 2: tagger_history(h, r); break; case 3: align_history(h, r, false); break;
                  case 4: align_history(h, r, true); break; case 5: csplit_history(h, r); break; case 6: t2s_history(h, r); break; default: fst_history(h, r); }
  output_args(h, r, form, mode);
  arg(h, "-w", S() + "/weights");
  std::string dirs[] = {S() + "/D", S() + "/F", S() + "/R"};
  // the history: any order of the pool, with repetitions and empty lines
  int n = sim::param("history", 1, 6);
  std::vector<int> seq; for (int i = 0; i < n; ++i) seq.push_back(sim::param(fmt("s%d", i).c_str(), 0, h.pool.size() - 1));
  std::string input; std::vector<std::string> single;
  bool implicit = sim::coin("implicit_ids", 0.3); sim::Rng ri = sim::content("c:lines");
  int id = -1;
  for (int i = 0; i < n; ++i) {
    const Line& l = h.pool[seq[i]];
    id = i == 0 || implicit ? id + 1 : ri.coin(0.8) ? id + 1 : ri.below(1000) * 10 + i;
    bool say = l.attrs.size() || !implicit || ri.coin(0.3);
    single.push_back(fmt("<seg id=\"%d\"%s>%s</seg>\n", id, l.attrs.c_str(), l.text.c_str()));
    input += say ? single.back() : l.text + "\n";
    if (ri.coin(0.1)) input += "\n";
  }
  if (ri.coin(0.3) && input[input.size() - 1] == '\n') input.resize(input.size() - 1);
  sim::spit(S() + "/in", input);
  // which features there are: the dictionary has to be the same in all processes
  std::map<std::string, double> w; w["AAA_FIRST"] = 0;
  sim::spit(S() + "/weights", "AAA_FIRST 0.25\n");
  auto phase = [&](const char* name, const std::string& in, const std::vector<std::string>& args, bool faults, const std::string& tag) {
    sim::PhaseOpts o; o.name = name; o.schedule = false; o.malloc_fill = 0;
    if (faults) { benign(o); if (mode == 2 || mode == 5) o.faults.eintr = 0; }   // zlib does not retry
    o.stdin_path = in; o.stdout_path = S() + "/out" + tag; o.stderr_path = S() + "/err" + tag;
    return sim::run_phase(o, [&] { return run_cdec(args); });
  };
  std::vector<std::string> explore;
  for (size_t i = 0; i < h.args.size(); ++i) {
    const std::string& a = h.args[i];
    explore.push_back(a);
    if (a == "-K") explore.push_back("1000"); else if (a.compare(0, 10, "--beam_pru") == 0) explore.push_back("10000"); else if (a.compare(0, 10, "--density_") == 0) explore.push_back("1000000000"); else continue;
    ++i;
  }
  explore.push_back("--show_feature_dictionary");
  sim::Outcome x = phase("explore", S() + "/in", explore, false, ".x");
  // a history is only refused when one of its sentences is
  auto refused = [&] {
    std::string why = tail_of(S() + "/err.x");
    if (x.clean_error()) for (int i = 0; i < n; ++i) {
      for (auto& d : dirs) if (access(d.c_str(), F_OK) == 0) drop_dir(d, d + fmt(".r%d", i));
      sim::spit(S() + "/in.r", single[i]); sim::Outcome y = phase("refused", S() + "/in.r", explore, false, ".r");
      if (!y.ok() && y.clean_error()) { sim::note("explore: %s", why.c_str()); sim::skip("the setup is refused"); }
    }
    sim::fail("unexpected_end", "explore: %s: %s", x.str().c_str(), why.c_str());
  };
  if (!x.ok()) refused();
  auto names_in = [&] {
    std::vector<std::string> names; bool on = false;
    for (auto& l : lines_of(sim::slurp(S() + "/out.x"))) { if (l == "AAA_FIRST") { on = true; names.clear(); } if (on) names.push_back(l); }
    return names;
  };
  std::vector<std::string> names = names_in();
  std::string wt; for (auto& f : names) if (f.size() && f.find_first_of(" \t") == std::string::npos) wt += f + fmt(" %.17g\n", r.coin(0.3) ? eighth(r) : r.range(-1000000, 1000000) / 700000.0);
  sim::spit(S() + "/weights", wt);
  for (auto& d : dirs) if (access(d.c_str(), F_OK) == 0) drop_dir(d, d + ".x");
  // the search with these weights may meet further features: they are added with weight zero
  explore = h.args; explore.push_back("--show_feature_dictionary");
  x = phase("explore2", S() + "/in", explore, false, ".x");
  if (!x.ok()) refused();   // (a pruned search may miss the reference)
  std::set<std::string> known(names.begin(), names.end());
  for (auto& f : names_in()) if (!known.count(f) && f.size() && f.find_first_of(" \t") == std::string::npos) { wt += f + " 0\n"; sim::probe("late_feature"); }
  sim::spit(S() + "/weights", wt);
  for (auto& d : dirs) if (access(d.c_str(), F_OK) == 0) drop_dir(d, d + ".y");
  // each sentence alone
  std::string want; std::vector<std::string> said;
  for (int i = 0; i < n; ++i) {
    std::string tag = fmt(".%d", i);
    sim::spit(S() + "/in" + tag, single[i]);
    x = phase("alone", S() + "/in" + tag, h.args, false, tag);
    if (!x.ok()) sim::fail("unexpected_end", "%s alone: %s: %s", single[i].c_str(), x.str().c_str(), tail_of(S() + "/err" + tag).c_str());
    want += sim::slurp(S() + "/out" + tag);
    std::vector<std::string> b = blocks_of(sim::slurp(S() + "/err" + tag)); said.push_back(b.size() == 1 ? b[0] : "?");
    for (auto& d : dirs) if (access(d.c_str(), F_OK) == 0) drop_dir(d, d + tag);
  }
  // all of them in one process
  x = phase("all", S() + "/in", h.args, true, ".all");
  if (!x.ok()) sim::fail("unexpected_end", "all: %s: %s", x.str().c_str(), tail_of(S() + "/err.all").c_str());
  std::string got = sim::slurp(S() + "/out.all");
  if (got != want) {
    std::vector<std::string> a = lines_of(got), b = lines_of(want); size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
    sim::fail("other_output", "line %zu of the output is '%s', alone it is '%s'", k, k < a.size() ? a[k].substr(0, 300).c_str() : "(missing)", k < b.size() ? b[k].substr(0, 300).c_str() : "(missing)");
  }
  std::vector<std::string> b = blocks_of(sim::slurp(S() + "/err.all"));
  if (mode == 3 && (!h.words.size() || form > 1 || h.tree)) { for (auto& s : b) s = without_hashes(s); for (auto& s : said) s = without_hashes(s); }
  if ((int)b.size() != n) sim::fail("other_output", "%zu sentences are reported, not %d", b.size(), n);
  for (int i = 0; i < n; ++i) if (b[i] != said[i]) {
    std::vector<std::string> p = lines_of(b[i]), q = lines_of(said[i]); size_t k = 0; while (k < p.size() && k < q.size() && p[k] == q[k]) ++k;
    sim::fail("other_report", "sentence %d of the history: '%s' is reported, alone '%s'", i, k < p.size() ? p[k].c_str() : "(missing)", k < q.size() ? q[k].c_str() : "(missing)");
  }
  for (auto& d : dirs) if (access(d.c_str(), F_OK) == 0) for (int i = 0; i < n; ++i)
    for (auto& f : list_dir(d + fmt(".%d", i))) {
      std::string a = sim::slurp(d + "/" + f), c = sim::slurp(d + fmt(".%d/", i) + f);
      if (mode == 2 && a != c && (!h.words.size() || form > 1 || h.tree)) {      // the nodes' identities may contain vocabulary ids
        sim::PhaseOpts o; o.name = "dump"; o.schedule = false;
        x = sim::run_phase(o, [&] { sim::spit(S() + "/dump.a", forest_text(d + "/" + f, false)); sim::spit(S() + "/dump.c", forest_text(d + fmt(".%d/", i) + f, false)); return 0; });
        if (!x.ok()) sim::fail("unexpected_end", "reading the forests: %s", x.str().c_str());
        a = sim::slurp(S() + "/dump.a"); c = sim::slurp(S() + "/dump.c");
      }
      sim::probe("file_compared");
      if (a != c) sim::fail("other_file", "%s of sentence %d differs (%zu bytes, alone %zu)", f.c_str(), i, a.size(), c.size());
    }
  if (n < 2) sim::trivial();
  static const char* what[] = {"scfg", "pb", "tagger", "lextrans", "lexalign", "csplit", "t2s", "fst"};
  sim::probe(what[form]);
}
// ------------------------------------------------------------------------ D02
void random_forest(sim::Rng& r, int nodes, Hypergraph* hg) {
  Words w = {"a", "b", "\xC3\xA9t\xC3\xA9", "x=y", "\"q\"", "<s>", "1", std::string(300, 'w')};
  auto word = [&] { return w[r.below(r.coin(0.95) ? w.size() - 1 : w.size())]; };
  static const char* cat[] = {"X", "S", "NP\\VP", "Y"};
  std::vector<TRulePtr> shared; bool wide = r.coin(0.25);
  for (int i = 0; i < nodes; ++i) {
    Hypergraph::Node* n = hg->AddNode(-TD::Convert(i + 1 == nodes ? "Goal" : cat[r.below(4)]));
    n->node_hash = r.next(); int id = n->id_;
    int ne = 1 + r.below(r.coin(0.1) ? 40 : 4);
    for (int k = 0; k < ne; ++k) {
      Hypergraph::TailNodeVector tail; int ar = i ? r.below(r.coin(0.1) ? 6 : 3) : 0;
      std::string f, e, lhs = "[X] ||| "; int nf = r.below(4) + (wide && r.coin(0.2) ? r.below(62) : 0), nn = 0; std::vector<int> nts; double early = r.coin(0.5) ? 0.5 : 0.03;
      for (int a = 0; a < ar; ++a) tail.push_back(r.below(i));
      for (int a = 0; a < nf || nn < ar;) { if (nn < ar && (a >= nf || r.coin(early))) { f += fmt("[%s,%d] ", "X", ++nn); } else { f += word() + " "; ++a; } }
      for (int a = 1; a <= ar; ++a) nts.push_back(a);
      int nw = r.below(4) + (wide && r.coin(0.2) ? r.below(55) : 0); if (!nw && !ar) nw = 1;
      while (nw || nts.size()) { if (nts.size() && (!nw || r.coin(early))) { size_t q = r.below(nts.size()); e += fmt("[%d] ", nts[q]); nts.erase(nts.begin() + q); } else { e += word() + " "; --nw; } }
      if (f.empty()) f = "a ";
      TRulePtr rule;
      if (shared.size() && r.coin(0.3)) { for (auto& s : shared) if (s->Arity() == ar) rule = s; }
      if (!rule) { rule.reset(new TRule(lhs + f + "||| " + e + "||| rf" + fmt("%d=%g", (int)r.below(4), eighth(r)))); shared.push_back(rule); }
      Hypergraph::Edge* x = hg->AddEdge(rule, tail);
      x->i_ = r.range(-1, 30000); x->j_ = r.range(-1, 30000); x->prev_i_ = r.range(-1, 300); x->prev_j_ = r.range(-1, 300);
      int nx = r.below(r.coin(0.2) ? 25 : 5);
      for (int a = 0; a < nx; ++a) x->feature_values_.set_value(FD::Convert(fmt("Feat_%d", (int)r.below(40)) + (r.coin(0.1) ? std::string(200, 'n') : "")), r.coin(0.05) ? (r.coin(0.5) ? HUGE_VAL : -1e-310) : r.coin(0.5) ? eighth(r) : r.range(-1000000, 1000000) / 7e5);
      hg->ConnectEdgeToHeadNode(x->id_, id);
    }
  }
  hg->is_linear_chain_ = r.coin(0.3);
}
// what may be read of a file: that forest or nothing
void read_back(const std::string& file, const std::string& want, bool hashes, bool must, bool faults) {
  sim::PhaseOpts o; o.name = "read"; o.schedule = false; o.stderr_path = S() + "/err.read"; o.malloc_fill = sim::pick("fill_read", {0, 255, 256, 257});
  if (faults) {
    o.faults.short_read = 0.01 * sim::param("short_read", 0, 70); if (file.find(".gz") == std::string::npos) o.faults.eintr = 0.01 * sim::param("eintr_read", 0, 10);
    o.faults.read_err = 0.1 * sim::pick("read_error", {0, 0, 0, 2}); o.faults.open_err = 0.1 * sim::pick("open_error", {0, 0, 0, 0, 2}); o.faults.max_hard = 2; o.faults.match = [](const std::string& f, bool) { return f.find("/forest") != std::string::npos; };
  }
  unlink((S() + "/got").c_str());
  sim::Outcome x = sim::run_phase(o, [&] { std::string t = forest_text(file, hashes); sim::spit(S() + "/got", t); return 0; });
  if (!x.ok()) {
    if (!x.clean_error()) sim::fail("unexpected_end", "reading: %s: %s", x.str().c_str(), tail_of(S() + "/err.read").c_str());
    if (must && !x.hard_faults) sim::fail("refused", "a forest that was written completely is refused: %s: %s", x.str().c_str(), tail_of(S() + "/err.read").c_str());
    sim::probe("refused"); return;
  }
  std::string got = sim::slurp(S() + "/got");
  if (got != want) {
    std::vector<std::string> a = lines_of(got), b = lines_of(want); size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
    sim::fail("other_forest", "line %zu of the forest read is '%s', not '%s'", k, k < a.size() ? a[k].substr(0, 300).c_str() : "(missing)", k < b.size() ? b[k].substr(0, 300).c_str() : "(missing)");
  }
  sim::probe("read_back");
}
void cut_file(const std::string& f) {
  std::string s = sim::slurp(f); if (s.empty()) return;
  size_t n = sim::coin("cut_near_end", 0.3) ? s.size() - std::min<size_t>(s.size(), sim::param("cut_tail", 1, 12)) : sim::param_log("cut_at", 0, s.size() - 1);
  sim::spit(f, s.substr(0, std::min(n, s.size() - 1))); sim::probe("cut");
}
void d02_library() {
  std::string file = S() + "/forest" + (sim::coin("gz", 0.6) ? ".gz" : ""), shown = S() + "/shown"; bool gz = file[file.size() - 1] == 'z';
  sim::Rng r = sim::content("c:forest"); int nodes = sim::param_log("nodes", 1, sim::coin("large", 0.1) ? 400 : 12);
  sim::PhaseOpts o; o.name = "write"; o.schedule = false; o.stderr_path = S() + "/err.write"; o.malloc_fill = sim::pick("malloc_fill", {0, 255, 256, 257});
  o.faults.short_write = 0.01 * sim::param("short_write", 0, 70); if (!gz) o.faults.eintr = 0.01 * sim::param("eintr", 0, 10);
  o.faults.match = [](const std::string& f, bool) { return f.find("/forest") != std::string::npos; };
  int harm = sim::pick("harm", {0, 0, 0, 1, 2, 3, 4});
  if (harm == 1) { o.faults.write_err = 0.3; o.faults.max_hard = 1 + sim::param("again", 0, 2); }
  if (harm == 2) o.faults.disk_capacity = sim::param_log("disk", 0, 20000);
  if (harm == 3) o.faults.close_err = o.faults.open_err = 0.5;
  bool power = harm == 4 && sim::coin("power_lost", 0.5);
  if (harm == 4) { o.crash_at = sim::param_log("crash_at", 1, 40000); o.durable = power; }
  sim::Outcome x = sim::run_phase(o, [&] {
    Hypergraph hg; random_forest(r, nodes, &hg);
    { sim::NoPreempt np; sim::spit(shown, forest_text(hg, true)); }
    WriteFile w(file);
    if (!HypergraphIO::WriteToBinary(hg, w.stream())) return 2;
    return 0;
  });
  std::string want = sim::slurp(shown);
  if (x.kind == sim::Outcome::POWERCUT && want.empty()) { sim::trivial(); return; }
  if (want.empty()) sim::fail("unexpected_end", "making a forest: %s: %s", x.str().c_str(), tail_of(S() + "/err.write").c_str());
  bool done = x.ok();
  if (!done && x.kind != sim::Outcome::POWERCUT && !x.clean_error()) sim::fail("unexpected_end", "writing: %s: %s", x.str().c_str(), tail_of(S() + "/err.write").c_str());
  if (!done && x.detail.find("_size <= (sizeof(size_t) * 8)") != std::string::npos) { sim::probe("rule_too_wide"); return; }     // more than 64 symbols
  if (!done && !x.hard_faults && x.kind != sim::Outcome::POWERCUT && harm != 2) sim::fail("refused", "writing: %s: %s", x.str().c_str(), tail_of(S() + "/err.write").c_str());
  if (x.kind == sim::Outcome::POWERCUT) { sim::probe("crashed"); if (power) { if (!sim::crash_file_exists(file)) return; file = sim::crash_path(file); } }
  if (access(file.c_str(), F_OK) != 0) { if (done) sim::fail("other_forest", "no file was written"); sim::probe("no_file"); return; }
  if (!done) sim::probe("write_failed");
  if (!done && !gz && harm == 1) return;     // (a filebuf writes its buffer again after an error: the file may begin twice, and a plain one has no checksum. The failure was reported.)
  bool cut = done && sim::coin("cut", 0.4); if (cut) cut_file(file);
  read_back(file, want, true, done && !cut, true);
}
// decoder -> forest file -> decoder
struct Found { std::map<std::string, std::vector<std::string>> keys; std::map<std::string, std::vector<double>> scores; std::map<std::string, std::vector<std::pair<std::string, double>>> items; size_t n = 0; };
Found kbest_of(const std::string& file) {
  Found k;
  for (auto& l : lines_of(sim::slurp(file))) {
    std::string id; Words y; Feats f; double s;
    if (l.empty()) continue;     // no translation
    if (!parse_kbest(l, &id, &y, &f, &s)) sim::fail("other_forest", "a k-best line that cannot be read: %s", l.c_str());
    k.items[id].push_back(std::make_pair(key_of(y, f), s));
    k.keys[id].push_back(key_of(y, f) + fmt(" @%.3f", floor(s * 500 + 0.5) / 500)); k.scores[id].push_back(s); ++k.n;
  }
  for (auto& x : k.keys) std::sort(x.second.begin(), x.second.end());
  for (auto& x : k.items) std::sort(x.second.begin(), x.second.end());
  return k;
}
void d02_decoder() {
  int form = sim::pick("formalism", {0, 0, 0, 1, 2, 5, 6, 7});
  sim::Rng r = sim::content("c:setup"); n_files = 0;
  History h; h.tree = h.refs = false;
  for (const char* w : kSrc) h.words.insert(w); for (const char* w : {"A", "B", "C", "D", "E", "x", "y", "\xC3\xA9t\xC3\xA9", "z-z", ".", "unknown"}) h.words.insert(w);
  switch (form) { case 0: scfg_history(h, r, false); break; case 1: scfg_history(h, r, true); break; case 2: tagger_history(h, r); break; case 5: csplit_history(h, r); break; case 6: t2s_history(h, r); break; default: fst_history(h, r); }
  if (form == 0 && r.coin(0.4)) {     // many splits of a span, and a language model that tells them apart
    arg(h, "-g", fresh_file("[X] ||| [X,1] [X,2] ||| [X,1] [X,2] ||| f0=0.125\n[X] ||| a ||| A ||| f1=1\n[X] ||| a ||| B ||| f1=0.5\n[X] ||| b ||| C ||| f2=0.25\n"));
    if (std::find(h.args.begin(), h.args.end(), "-F") == h.args.end()) { Lm m = make_lm(r); h.lms.push_back(m); arg(h, "-F", "KLanguageModel " + fresh_file(m.text())); }
    h.pool.clear(); for (int i = 0; i < 3; ++i) { Line l; l.text = join(sentence(r, 2, 4)); h.pool.push_back(l); }
  }
  std::vector<std::string> args = h.args;
  if (form == 2) { args.push_back("-I"); args.push_back("full"); }
  std::string dir = S() + "/forest"; mkdir(dir.c_str(), 0777);
  std::map<std::string, double> w; std::string wt; for (int i = 0; i < 5; ++i) wt += fmt("f%d %g\n", i, eighth(r));
  for (const char* f : {"WordPenalty", "LanguageModel", "Glue", "PassThrough", "ArityPenalty", "LatticeCost_0"}) wt += fmt("%s %g\n", f, eighth(r));
  sim::spit(S() + "/weights", wt);
  int n = 1 + (int)r.below(3); std::string in, again;
  for (int i = 0; i < n; ++i) { const Line& l = h.pool[r.below(h.pool.size())]; int id = i * 3; in += fmt("<seg id=\"%d\"%s>%s</seg>\n", id, l.attrs.c_str(), l.text.c_str()); }
  sim::spit(S() + "/in", in);
  auto decode = [&](const char* name, const std::vector<std::string>& more, const std::string& input, const std::string& tag, std::function<void(sim::PhaseOpts&)> f) {
    std::vector<std::string> a = more; for (const char* x : {"-w", "weights", "-k", "3000"}) a.push_back(x[0] == 'w' ? S() + "/weights" : x);
    sim::PhaseOpts o; o.name = name; o.schedule = false; o.malloc_fill = 0; o.stdin_path = input; o.stdout_path = S() + "/out" + tag; o.stderr_path = S() + "/err" + tag;
    o.faults.match = [](const std::string& f, bool) { return f.find("/forest/") != std::string::npos; };
    f(o);
    sim::note("%s: cdec %s < %s", name, join(a).c_str(), input.c_str());
    return sim::run_phase(o, [&] { return run_cdec(a); });
  };
  auto with = [](std::vector<std::string> a, std::initializer_list<std::string> l) { for (auto& x : l) a.push_back(x); return a; };
  auto calm = [](sim::PhaseOpts&) {};
  // the search that is saved, and (sometimes) another one whose forest is added to it
  bool uni = form != 1 && sim::coin("union", 0.4); Found first, second; bool refused = false;
  int harm = sim::pick("harm", {0, 0, 0, 1, 2, 3, 4});
  std::vector<std::string> args2 = args;
  if (uni) {
    auto it = std::find(args2.begin(), args2.end(), "--beam_prune"); std::string b = fmt("%g", (1 + r.below(12)) / 2.0);
    if (it != args2.end()) it[1] = b; else { args2.push_back("--beam_prune"); args2.push_back(b); }
    if (r.coin(0.5)) std::swap(args, args2);
  }
  sim::Outcome x = decode("first", with(args, {"-O", dir}), S() + "/in", ".1", calm);
  if (!x.ok()) { if (x.clean_error()) sim::skip("the setup is refused"); sim::fail("unexpected_end", "%s: %s", x.str().c_str(), tail_of(S() + "/err.1").c_str()); }
  first = kbest_of(S() + "/out.1");
  if (first.n > 2000) sim::skip("too many derivations");
  std::map<std::string, std::string> saved; for (auto& f : list_dir(dir)) saved[f] = sim::slurp(dir + "/" + f);
  auto harmful = [&](sim::PhaseOpts& o) {
    o.faults.short_write = 0.01 * sim::param("short_write", 0, 70); o.faults.short_read = 0.01 * sim::param("short_read", 0, 70);
    if (harm == 1) { o.faults.write_err = 0.3; o.faults.max_hard = 2; } if (harm == 2) o.faults.disk_capacity = sim::param_log("disk", 0, 9000); if (harm == 3) { o.faults.close_err = 0.3; o.faults.open_err = o.faults.read_err = 0.2; }
    if (harm == 4) o.crash_at = sim::param_log("crash_at", 1, 20000);
  };
  if (!uni) for (auto& f : saved) unlink((dir + "/" + f.first).c_str());
  x = decode("second", with(args2, {"-O", dir}), S() + "/in", ".2", harmful);
  if (x.ok()) { second = kbest_of(S() + "/out.2"); sim::probe(uni ? "added" : "saved"); }
  else if (!x.clean_error() && x.kind != sim::Outcome::POWERCUT) sim::fail("unexpected_end", "%s: %s", x.str().c_str(), tail_of(S() + "/err.2").c_str());
  else if (!x.hard_faults && harm < 2) {
    std::string e = sim::slurp(S() + "/err.2");
    if (uni && e.find("not uniquely identified") != std::string::npos) { sim::probe("union_refused"); return; }
    sim::fail("refused", "%s: %s", x.str().c_str(), tail_of(S() + "/err.2").c_str());
  } else refused = true;
  std::vector<std::string> files = list_dir(dir); bool cut = !refused && files.size() && sim::coin("cut", 0.3); size_t victim = cut ? sim::param("victim", 0, files.size() - 1) : 0;
  if (cut) cut_file(dir + "/" + files[victim]);
  // every file by itself, since one that is refused ends the decoder
  if (!refused) for (auto& k : first.keys) if (!std::count(files.begin(), files.end(), k.first + ".bin.gz")) sim::fail("other_forest", "there is no forest for sentence %s", k.first.c_str());
  for (size_t i = 0; i < files.size(); ++i) {
    std::string id = files[i].substr(0, files[i].find('.'));
    sim::spit(S() + "/in.r", fmt("<seg id=\"%s\">::forest:: %s/%s</seg>\n", id.c_str(), dir.c_str(), files[i].c_str()));
    bool hurt = sim::coin("read_fails", 0.1);
    x = decode("rescore", {"-f", "rescore"}, S() + "/in.r", ".r", [&](sim::PhaseOpts& o) { o.faults.short_read = 0.01 * sim::param("short_read2", 0, 70); if (hurt) { o.faults.read_err = 0.3; o.faults.open_err = 0.1; } });
    if (!x.ok()) {
      if (!x.clean_error()) sim::fail("unexpected_end", "reading %s: %s: %s", files[i].c_str(), x.str().c_str(), tail_of(S() + "/err.r").c_str());
      if (!refused && !(cut && i == victim) && !x.hard_faults) sim::fail("refused", "reading %s, which was written completely: %s", files[i].c_str(), tail_of(S() + "/err.r").c_str());
      sim::probe("refused"); continue;
    }
    Found got = kbest_of(S() + "/out.r"); const std::vector<std::string>& g = got.keys[id]; const std::vector<std::string>& a = first.keys[id];
    if (g.size() >= 3000) continue;
    if (!uni) { if (g != a) { size_t k = 0; while (k < g.size() && k < a.size() && g[k] == a[k]) ++k; sim::fail("other_forest", "derivation %zu of sentence %s is '%s', when it was saved it was '%s' (%zu and %zu derivations)", k, id.c_str(), k < g.size() ? g[k].c_str() : "(missing)", k < a.size() ? a[k].c_str() : "(missing)", g.size(), a.size()); } }
    else {
      // all derivations of the first forest; when both were saved, of the second as well
      for (auto& d : a) if (!std::binary_search(g.begin(), g.end(), d)) sim::fail("other_forest", "sentence %s lost the derivation '%s'", id.c_str(), d.c_str());
      if (!refused) for (auto& d : second.keys[id]) if (!std::binary_search(g.begin(), g.end(), d)) sim::fail("other_forest", "the derivation '%s' was not added to sentence %s", d.c_str(), id.c_str());
    }
    sim::probe("rescored");
  }
}
void d02() { if (sim::coin("decoder", 0.4)) d02_decoder(); else d02_library(); }
// ------------------------------------------------------------------------ D04
void d04() {
  int form = sim::pick("formalism", {0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7});
  sim::Rng r = sim::content("c:setup"); n_files = 0;
  sim::Rng rz = sim::content("c:gz"); gz_some = sim::coin("gz", 0.6) ? &rz : 0; gz_files.clear();
  History h; h.tree = h.refs = false;
  int mode = sim::pick("output", {0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9});
  if ((mode == 6 || mode == 7) && form <= 2) h.refs = true;
  switch (form) { case 0: scfg_history(h, r, false); break; case 1: scfg_history(h, r, true); break; case 2: tagger_history(h, r); break; case 3: align_history(h, r, false); break;
                  case 4: align_history(h, r, true); break; case 5: csplit_history(h, r); break; case 6: t2s_history(h, r); break; default: fst_history(h, r); }
  output_args(h, r, form, mode);
  std::vector<std::string> dirs; for (const char* d : {"/D", "/F", "/R", "/T"}) dirs.push_back(S() + d);
  if (form != 3 && form != 4) { if (mode == 8) { mkdir((S() + "/T").c_str(), 0777); arg(h, "--show_target_graph", S() + "/T"); } if (mode == 9) arg(h, "--show_cfg_search_space"); }
  std::string wt = "AAA 0.25\n"; for (int i = 0; i < 5; ++i) wt += fmt("f%d %g\n", i, eighth(r)); for (const char* f : {"WordPenalty", "LanguageModel", "Glue", "PassThrough", "PhraseModel_0", "LatticeCost_0"}) wt += fmt("%s %g\n", f, eighth(r));
  arg(h, "-w", fresh_file(wt));
  int n = sim::param("history", 1, 5); std::string in;
  for (int i = 0; i < n; ++i) { const Line& l = h.pool[sim::param(fmt("s%d", i).c_str(), 0, h.pool.size() - 1)]; in += fmt("<seg id=\"%d\"%s>%s</seg>\n", i, l.attrs.c_str(), l.text.c_str()); }
  std::string input = S() + "/in"; sim::spit(input, in);
  bool from_file = sim::coin("input_file", 0.4); if (from_file) { input = fresh_file(in); arg(h, "-i", input); }
  if (r.coin(0.1)) arg(h, "--show_feature_dictionary");
  gz_some = 0;
  std::string stem = S() + "/";
  auto phase = [&](const char* name, const std::string& tag, std::function<void(sim::PhaseOpts&)> f) {
    sim::PhaseOpts o; o.name = name; o.schedule = false; o.malloc_fill = 0; o.stdio = true;
    if (!from_file) o.stdin_path = input;
    o.stdout_path = S() + "/out" + tag; o.stderr_path = S() + "/err" + tag;
    f(o);
    return sim::run_phase(o, [&] { return run_cdec(h.args); });
  };
  sim::Outcome x = phase("calm", ".calm", [](sim::PhaseOpts&) {});
  if (!x.ok()) { if (x.clean_error()) sim::skip("the setup is refused"); sim::fail("unexpected_end", "%s: %s", x.str().c_str(), tail_of(S() + "/err.calm").c_str()); }
  for (auto& d : dirs) if (access(d.c_str(), F_OK) == 0) drop_dir(d, d + ".calm");
  int harm = sim::pick("harm", {0, 1, 2, 3, 4, 4}); double p = sim::pick("often", {1, 1, 3, 10}) * (harm == 0 ? 0.02 : 0.05);
  bool cut = false;
  if (harm == 4) {
    if (gz_files.empty()) harm = 0;
    else {
      const std::string& f = gz_files[sim::param("victim", 0, gz_files.size() - 1)]; std::string d = sim::slurp(f);
      d.resize(2 + (sim::coin("near_end", 0.4) ? d.size() - 2 - std::min<size_t>(d.size() - 2, sim::param("cut_bytes", 1, 12)) : (size_t)(sim::param("keep", 0, 9999) * (d.size() - 2) / 10000)));
      sim::spit(f, d); cut = true; sim::probe("cut");
    }
  }
  x = phase("harmed", ".harm", [&](sim::PhaseOpts& o) {
    o.faults.short_read = 0.01 * sim::param("short_read", 0, 50); o.faults.short_write = 0.01 * sim::param("short_write", 0, 50);
    if (harm == 0) { o.faults.read_err = p; o.faults.max_hard = 1 + sim::param("again", 0, 2); }
    if (harm == 1) { o.faults.write_err = p; o.faults.max_hard = 1 + sim::param("again", 0, 2); }
    if (harm == 2) o.faults.disk_capacity = sim::param_log("disk", 0, 20000);
    if (harm == 3) { o.faults.open_err = o.faults.close_err = p; o.faults.seek_err = p / 4; o.faults.max_hard = 1; }
    o.faults.match = [stem](const std::string& f, bool) { return f.compare(0, stem.size(), stem) == 0 && f.find("/err.") == std::string::npos; };
  });
  if (!x.ok()) {
    if (!x.clean_error()) sim::fail("unexpected_end", "%s: %s", x.str().c_str(), tail_of(S() + "/err.harm").c_str());
    if (!x.hard_faults && !cut && harm != 2) sim::fail("unexpected_end", "without a fault: %s: %s", x.str().c_str(), tail_of(S() + "/err.harm").c_str());
    sim::probe("reported"); return;
  }
  if (!x.hard_faults && !cut && harm != 2) sim::trivial();
  sim::probe(x.hard_faults || cut ? "survived" : "no_fault");
  std::string got = sim::slurp(S() + "/out.harm"), want = sim::slurp(S() + "/out.calm");
  if (got != want) {
    std::vector<std::string> a = lines_of(got), b = lines_of(want); size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
    sim::fail("lost_silently", "cdec succeeds after a fault, but line %zu of %zu of its output is '%s', not '%s' (of %zu lines)", k, a.size(), k < a.size() ? a[k].substr(0, 200).c_str() : "(missing)", k < b.size() ? b[k].substr(0, 200).c_str() : "(missing)", b.size());
  }
  for (auto& d : dirs) if (access(d.c_str(), F_OK) == 0) {
    std::set<std::string> all; for (auto& f : list_dir(d)) all.insert(f); for (auto& f : list_dir(d + ".calm")) all.insert(f);
    for (auto& f : all) { std::string a = sim::slurp(d + "/" + f), b = sim::slurp(d + ".calm/" + f); if (a != b) sim::fail("lost_silently", "cdec succeeds after a fault, but %s/%s has %zu bytes, not the %zu it should have", d.substr(stem.size()).c_str(), f.c_str(), a.size(), b.size()); }
  }
}
// ------------------------------------------------------------------------ D05
// what a derivation is worth does not depend on the search that finds it
void d05() {
  int form = sim::pick("formalism", {0, 0, 0, 0, 1, 2, 3, 6, 7});
  sim::Rng r = sim::content("c:setup"); n_files = 0;
  History h; h.tree = h.refs = false;
  for (const char* w : kSrc) h.words.insert(w); for (const char* w : {"A", "B", "C", "D", "E", "x", "y", "\xC3\xA9t\xC3\xA9", "z-z", ".", "unknown"}) h.words.insert(w);
  switch (form) { case 0: scfg_history(h, r, false, 0.5); break; case 1: scfg_history(h, r, true); break; case 2: tagger_history(h, r); break; case 3: align_history(h, r, false); break;
                  case 6: t2s_history(h, r); break; default: fst_history(h, r); }
  std::vector<std::string> args; bool aligner = false;
  for (size_t i = 0; i < h.args.size(); ++i) { const std::string& a = h.args[i]; if (a.compare(0, 9, "--aligner") == 0 || a == "--lextrans_align_only") { aligner = true; continue; } if (a == "--beam_prune2") { ++i; continue; } args.push_back(a); }
  if (aligner) for (auto& l : h.pool) l.text = l.text.substr(0, l.text.find(" ||| "));
  std::vector<std::string> grammars; for (size_t i = 0; i + 1 < args.size(); ++i) if (args[i] == "-g") grammars.push_back(args[i + 1]);
  if (form == 2 || form == 3) for (auto& l : h.pool) { Words w; size_t i = 0; for (size_t k = 0; i < l.text.size() && k < 4; ++k) { size_t j = l.text.find(' ', i); if (j == std::string::npos) j = l.text.size(); w.push_back(l.text.substr(i, j - i)); i = j + 1; } if (l.attrs.empty()) l.text = join(w); }
  for (const char* x : {"--intersection_strategy2", "full", "--cubepruning_pop_limit2", "5000", "-k", "4000", "-w"}) args.push_back(x); args.push_back(S() + "/weights");
  std::string in; int n = sim::param("sentences", 1, 2); for (int i = 0; i < n; ++i) { const Line& l = h.pool[sim::param(fmt("s%d", i).c_str(), 0, h.pool.size() - 1)]; in += fmt("<seg id=\"%d\"%s>%s</seg>\n", i, l.attrs.c_str(), l.text.c_str()); }
  sim::spit(S() + "/in", in); sim::spit(S() + "/weights", "AAA_FIRST 0.25\n");
  auto phase = [&](const char* name, const std::vector<std::string>& a, const std::string& tag, bool faults) {
    sim::PhaseOpts o; o.name = name; o.schedule = false; o.malloc_fill = 0; if (faults) benign(o);
    o.stdin_path = S() + "/in"; o.stdout_path = S() + "/out" + tag; o.stderr_path = S() + "/err" + tag;
    sim::note("%s: cdec %s\n", name, join(a).c_str());
    return sim::run_phase(o, [&] { return run_cdec(a); });
  };
  auto with = [](std::vector<std::string> a, std::initializer_list<std::string> l) { for (auto& x : l) a.push_back(x); return a; };
  sim::Outcome x = phase("explore", with(args, {"-I", "full", "--show_feature_dictionary"}), ".x", false);
  if (!x.ok()) { if (x.clean_error()) sim::skip("the setup is refused"); sim::fail("unexpected_end", "explore: %s: %s", x.str().c_str(), tail_of(S() + "/err.x").c_str()); }
  if (lines_of(sim::slurp(S() + "/out.x")).size() > 6000) sim::skip("too many derivations");
  std::vector<std::string> names; bool on = false; std::string wt;
  for (auto& l : lines_of(sim::slurp(S() + "/out.x"))) { if (l == "AAA_FIRST") { on = true; names.clear(); } if (on) names.push_back(l); }
  for (auto& f : names) if (f.size() && f.find_first_of(" \t") == std::string::npos) wt += f + fmt(" %.17g\n", eighth(r));
  sim::spit(S() + "/weights", wt);
  x = phase("full", with(args, {"-I", "full"}), ".full", false);
  if (!x.ok()) sim::fail("unexpected_end", "full: %s: %s", x.str().c_str(), tail_of(S() + "/err.full").c_str());
  Found all = kbest_of(S() + "/out.full"); size_t big = 0; for (auto& k : all.keys) big = std::max(big, k.second.size());
  if (big >= 4000) sim::skip("too many derivations");
  int way = sim::pick("way", {0, 0, 1, 1, 2, 3, 4, 4, 5, 5, 5}); if (way == 5 && form != 0 && form != 2) way = 0; bool subset = way >= 2;
  std::vector<std::string> other = args;
  if (way == 0) {      // the rules in another order
    sim::Rng ro = sim::content("c:order");
    for (auto& g : grammars) {
      std::vector<std::string> l = lines_of(sim::slurp(g)); std::string t; for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[ro.below(i)]);
      for (auto& y : l) t += y + "\n"; sim::spit(g, t);
    }
    if (form == 2) for (size_t i = 0; i + 1 < args.size(); ++i) if (args[i] == "--tagger_tagset") { std::vector<std::string> l = lines_of(sim::slurp(args[i + 1])); std::string t; for (size_t k = l.size(); k--;) t += l[k] + "\n"; sim::spit(args[i + 1], t); }
    other = with(args, {"-I", "full"});
  } else if (way == 5) {      // fewer rules
    sim::Rng ro = sim::content("c:order"); double keep = ro.coin(0.5) ? 0.5 : 0.85; std::vector<std::string> fs = grammars;
    size_t at = 0; while ((at = in.find(" grammar", at)) != std::string::npos) { size_t q = in.find('"', at) + 1; fs.push_back(in.substr(q, in.find('"', q) - q)); at = q; }
    if (form == 2) for (size_t i = 0; i + 1 < args.size(); ++i) if (args[i] == "--tagger_tagset") fs.push_back(args[i + 1]);
    std::sort(fs.begin(), fs.end()); fs.erase(std::unique(fs.begin(), fs.end()), fs.end());
    for (auto& g : fs) {
      std::string all_text = sim::slurp(g), t; if (form == 2) { Words w = split(all_text); for (auto& x : lines_of(all_text)) { Words y = split(x); w = y; Words k; for (auto& z : y) if (ro.coin(keep)) k.push_back(z); if (k.empty()) k.push_back(y[0]); t += join(k) + "\n"; } }
      else for (auto& l : lines_of(all_text)) if (l.find("never") != std::string::npos || ro.coin(keep)) t += l + "\n";
      sim::spit(g, t);
    }
    other = with(args, {"-I", "full"});
  } else if (way == 1) { const char* alg[] = {"cube_pruning", "fast_cube_pruning", "fast_cube_pruning_2"}; other = with(args, {"-I", alg[sim::param("strategy", 0, 2)], "-K", "5000"}); }
  else if (way == 2) other = with(args, {"-I", "fast_cube_pruning", "-K", fmt("%d", (int)sim::param_log("pop", 1, 300))});
  else if (way == 3) other = with(args, {"-I", "fast_cube_pruning_2", "-K", fmt("%d", (int)sim::param_log("pop", 1, 300))});
  else other = with(args, {"-I", "cube_pruning", "-K", fmt("%d", (int)sim::param_log("pop", 1, 300))});
  x = phase("other", other, ".other", true);
  if (!x.ok()) sim::fail("unexpected_end", "other: %s: %s", x.str().c_str(), tail_of(S() + "/err.other").c_str());
  Found got = kbest_of(S() + "/out.other");
  if (big < 2) sim::trivial();
  static const char* what[] = {"scfg", "pb", "tagger", "lextrans", "lexalign", "csplit", "t2s", "fst"}; sim::probe(what[form]); static const char* ways[] = {"shuffled", "cube_all", "fast1", "fast2", "cube", "fewer"}; sim::probe(ways[way]);
  auto determined = [&](const std::string& tag) {      // what the translation alone decides
    std::map<std::string, int> times; int order = 3; std::string pre[] = {"", "U:", "B:", "T:", "4:", "5:"};
    bool first = std::find(args.begin(), args.end(), "-F") != args.end();      // else there is no second pass
    for (size_t k = 1; k < args.size(); ++k) {
      const std::string& a = args[k]; if (args[k - 1] != "-F" && (args[k - 1] != "--feature_function2" || !first)) continue;
      ++times[a.substr(0, a.find(' '))];
      if (a.compare(0, 13, "NgramFeatures") == 0) { Words w = split(a); for (size_t i = 1; i + 1 < w.size(); ++i) { if (w[i] == "-o") order = atoi(w[i + 1].c_str()); if (w[i] == "-U") pre[1] = w[i + 1]; if (w[i] == "-B") pre[2] = w[i + 1]; if (w[i] == "-T") pre[3] = w[i + 1]; } }
    }
    for (auto& l : lines_of(sim::slurp(S() + "/out" + tag))) {
      std::string id; Words y; Feats f; double s; if (l.empty() || !parse_kbest(l, &id, &y, &f, &s)) continue;
      auto is = [&](const std::string& name, double want) { double v = f.count(name) ? f[name] : 0; if (fabs(v - want) > 2e-5 * (1 + fabs(v) + fabs(want))) sim::fail("wrong_feature", "sentence %s: '%s' has %s=%g, not %g", id.c_str(), join(y).c_str(), name.c_str(), v, want); };
      if (times["WordPenalty"]) is("WordPenalty", -0.43429448190325176 * y.size());
      if (times["NonLatinCount"]) is("NonLatinCount", std::count(y.begin(), y.end(), "\xC3\xA9t\xC3\xA9"));
      if (times["WordSet"]) is("Listed", std::count(y.begin(), y.end(), "A") + std::count(y.begin(), y.end(), "B") + std::count(y.begin(), y.end(), "x"));
      if (h.lms.size() == 1) { int oov; double v = h.lms[0].sentence(y, &oov); is("LanguageModel", v); is("LanguageModel_OOV", oov); }
      if (times["NgramFeatures"]) {
        Words t(y); t.push_back("</s>"); std::map<std::string, int> n;
        for (size_t i = 0; i < t.size(); ++i) { std::string g; for (int o = 1; o <= order && o <= (int)i + 1; ++o) { g = o == 1 ? t[i] : t[i + 1 - o] + "_" + g; n[pre[o] + g] += times["NgramFeatures"]; } }
        for (auto& g : n) if (pre[3] != "T:" || g.first.compare(0, 2, "T:") || !times["OutputIndicator"] || g.first.find('_') != std::string::npos) is(g.first, g.second);
        for (auto& g : f) for (int o = 1; o <= order; ++o) if (g.first.compare(0, pre[o].size(), pre[o]) == 0 && g.first.find("<s>") == std::string::npos && !n.count(g.first) && !(o == 3 && pre[3] == "T:" && times["OutputIndicator"] && g.first.find('_') == std::string::npos)) is(g.first, 0);
        is("Malformed", 0); sim::probe("ngrams");
      }
      if (times["OutputIndicator"] && form <= 2) for (auto& w : y) if (f["T:" + w] < 1) sim::fail("wrong_feature", "sentence %s: '%s' has no T:%s", id.c_str(), join(y).c_str(), w.c_str());
    }
  };
  determined(".full"); determined(".other");
  for (auto& k : got.items) {
    std::vector<std::pair<std::string, double>>& a = all.items[k.first]; size_t i = 0;
    for (auto& d : k.second) {
      while (i < a.size() && a[i].first < d.first) { if (!subset) sim::fail("other_features", "sentence %s: the derivation '%s' is not found or has other features", k.first.c_str(), a[i].first.c_str()); ++i; }
      if (i == a.size() || a[i].first != d.first) sim::fail("other_features", "sentence %s: this search finds '%s', which the full search does not (or with other features)", k.first.c_str(), d.first.c_str());
      if (!near(a[i].second, d.second)) sim::fail("other_score", "sentence %s: '%s' has score %g, and %g in the full search", k.first.c_str(), d.first.c_str(), d.second, a[i].second);
      ++i;
    }
    if (!subset && i != a.size()) sim::fail("other_features", "sentence %s: %zu of %zu derivations are found", k.first.c_str(), k.second.size(), a.size());
  }
  if (way != 5 && got.keys.size() != all.keys.size()) sim::fail("other_features", "%zu sentences have translations, not %zu", got.keys.size(), all.keys.size());
}
}  // namespace
const sim::Property sim::properties[] = {{"D01", d01}, {"D02", d02}, {"D03", d03}, {"D04", d04}, {"D05", d05}, {0, 0}};
