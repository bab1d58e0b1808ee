// M01: what the streaming MIRA trainer answers depends on the request and the current weights, and on nothing else.
#include "sim.h"
#include "net.h"
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <glob.h>
#include <zlib.h>
#include <iostream>
#include <map>
#include <set>
using sim::fmt;
extern "C" int mira_main(int argc, char** argv);
extern "C" int cdec_main(int argc, char** argv);

namespace {
std::string S() { return sim::scratch(); }
typedef std::map<std::string, double> W;
typedef std::vector<std::string> Strs;
Strs lines_of(const std::string& s) { Strs v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
Strs split(const std::string& s) { Strs v; size_t i = 0; while (i < s.size()) { while (i < s.size() && s[i] == ' ') ++i; size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size(); if (j > i) v.push_back(s.substr(i, j - i)); i = j; } return v; }
std::string tail_of(const std::string& f) { std::string s = sim::slurp(f); return s.size() > 400 ? s.substr(s.size() - 400) : s; }

// standard input and output of the trainer are the simulated pipes at 0 and 1
struct FdBuf : std::streambuf {
  int fd; char in[4096]; char out[8192];
  explicit FdBuf(int f) : fd(f) { setg(in, in, in); setp(out, out + sizeof(out)); }
  int underflow() { ssize_t r; do r = read(fd, in, sizeof(in)); while (r < 0 && errno == EINTR); if (r <= 0) return EOF; setg(in, in, in + r); return (unsigned char)in[0]; }
  bool drain() { char* p = pbase(); while (p < pptr()) { ssize_t r = write(fd, p, pptr() - p); if (r < 0 && errno == EINTR) continue; if (r <= 0) { setp(out, out + sizeof(out)); return false; } p += r; } setp(out, out + sizeof(out)); return true; }
  int overflow(int c) { if (!drain()) return EOF; if (c != EOF) { *pptr() = c; pbump(1); } return 0; }
  int sync() { return drain() ? 0 : -1; }
};

enum Kind { TR, LEARN, WRITE, SET, BAD };
struct Cmd { Kind kind; std::string line; bool reply() const { return kind == TR || kind == LEARN || kind == WRITE; } };
std::vector<Cmd> script;
int client(const Strs&) {
  for (auto& c : script) {
    std::string s = c.line + "\n"; size_t i = 0;
    while (i < s.size()) { ssize_t r = write(1, s.data() + i, s.size() - i); if (r <= 0) return 1; i += r; }
    if (!c.reply()) continue;
    std::string l;
    for (;;) { char ch; ssize_t r = read(0, &ch, 1); if (r <= 0) return 1; if (ch == '\n') break; l += ch; }
    sim::publish(l + "\n");
  }
  return 0;
}
int run(int (*main_)(int, char**), const Strs& args, const char* name) {
  std::vector<char*> v; v.push_back((char*)name); for (auto& x : args) v.push_back((char*)x.c_str()); v.push_back(0);
  return main_(v.size() - 1, v.data());
}
struct Talk { sim::Outcome o; Strs replies; std::string err; };
Talk talk(const char* name, const std::vector<Cmd>& cmds, const Strs& args, std::function<void(sim::PhaseOpts&)> f) {
  script = cmds;
  sim::PhaseOpts o; o.name = name; o.schedule = false; o.exec_handler = client; o.stderr_path = S() + "/err." + name; o.step_limit = 400000000;
  f(o);
  Talk t{sim::run_phase(o, [&] {
    int req[2], rep[2];
    if (pipe(req) || pipe(rep)) return 99;
    pid_t p = fork();
    if (p < 0) return 99;
    if (p == 0) {
      dup2(rep[0], 0); dup2(req[1], 1); close(rep[0]); close(rep[1]); close(req[0]); close(req[1]);
      char* v[] = {(char*)"client", 0}; execvp("client", v); _exit(98);
    }
    dup2(req[0], 0); dup2(rep[1], 1); close(rep[0]); close(rep[1]); close(req[0]); close(req[1]);
    std::cin.rdbuf(new FdBuf(0)); std::cout.rdbuf(new FdBuf(1));
    int rc = run(mira_main, args, "kbest_cut_mira");
    std::cout.flush();
    return rc;
  }), lines_of(sim::result()), S() + "/err." + name};
  return t;
}
W parse_weights(const std::string& l) { W w; for (auto& t : split(l)) { size_t e = t.rfind('='); if (e == std::string::npos) sim::fail("wrong_reply", "'%s' in the weights '%s'", t.c_str(), l.substr(0, 200).c_str()); w[t.substr(0, e)] = atof(t.c_str() + e + 1); } return w; }
std::string weights_line(const W& w) { std::string s; for (auto& x : w) s += (s.empty() ? "" : " ") + x.first + fmt("=%.17g", x.second); return s; }
std::string weights_file(const W& w, const char* n) { std::string s = "AAA 0.25\n"; for (auto& x : w) s += x.first + fmt(" %.17g\n", x.second); std::string f = S() + "/" + n; sim::spit(f, s); return f; }
bool same_weights(const std::string& a, const std::string& b) {
  W x = parse_weights(a), y = parse_weights(b); std::set<std::string> k; for (auto& q : x) k.insert(q.first); for (auto& q : y) k.insert(q.first);
  for (auto& q : k) { double u = x.count(q) ? x[q] : 0, v = y.count(q) ? y[q] : 0; if (fabs(u - v) > 1e-9 * (1 + fabs(u) + fabs(v))) return false; }
  return true;
}
// every derivation of a sentence of distinct words has its own set of rules: no ties
void grammar(sim::Rng& r, const std::string& f, int no, int unary, bool sparse, const std::set<char>& words) {
  std::string s; int id = 0;
  auto feats = [&] { std::string x; for (int i = 0; i < 4; ++i) if (r.coin(0.6)) x += fmt("f%d=%.6f ", i, r.range(-1000000, 1000000) / 1e6); x += fmt("own=%.6f ", r.range(-1000000, 1000000) / 1e6); if (sparse) x += fmt("G%d_R%d=1 ", no, id); ++id; return x; };
  for (char c : words) for (int k = 0; k < unary; ++k) {
    std::string t = fmt("%c%d", toupper(c), k); if (k == 3) t += " x"; if (k == 4) t = "common";
    s += fmt("[X] ||| %c ||| %s ||| ", c, t.c_str()) + feats() + "\n";
    s += fmt("[X] ||| %c [X,1] ||| %s [X,1] ||| ", c, t.c_str()) + feats() + "\n";
    if (r.coin(0.5)) s += fmt("[X] ||| %c [X,1] ||| [X,1] %s ||| ", c, t.c_str()) + feats() + "\n";
  }
  sim::spit(f, s);
}
std::string sentence(sim::Rng& r, bool odd) {
  std::string w = "abcdefg", s; int n = 1 + r.below(4);
  if (odd && r.coin(0.15)) w += "uv";
  for (int i = 0; i < n; ++i) { size_t k = r.below(w.size()); s += (i ? " " : "") + std::string(1, w[k]); w.erase(k, 1); }
  return s;
}

struct Task { W w0; Strs common; bool odd, bleu, own, fixed; int ng, opt; std::string source(sim::Rng& r) const {
  std::string s = sentence(r, odd);
  return own && (!fixed || r.coin(0.6)) ? fmt("<seg grammar=\"%s/g%d.scfg\">%s</seg>", S().c_str(), (int)r.below(ng), s.c_str()) : s;
}};
Task make_task(sim::Rng& r, const std::string& more_ini) {
  bool sparse = sim::coin("sparse", 0.6), own = sim::coin("own_grammars", 0.6), pass = sim::coin("pass_through", 0.5), odd = sim::coin("unknown_words", 0.5), fixed = !own || sim::coin("fixed_grammar", 0.3);
  int unary = sim::param("options", 1, 5), ng = own ? sim::param("grammars", 1, 3) : 0;
  std::set<char> words; for (char c = 'a'; c <= 'g'; ++c) words.insert(c);
  std::string ini = "formalism=scfg\nfeature_function=WordPenalty\nintersection_strategy=full\nscfg_no_hiero_glue_grammar=true\ngoal=X\n";
  if (pass) ini += "add_pass_through_rules=true\n";
  if (fixed) { grammar(r, S() + "/main.scfg", 9, unary, sparse, words); ini += "grammar=" + S() + "/main.scfg\n"; }
  for (int i = 0; i < ng; ++i) { std::set<char> some; for (char c : words) if (r.coin(0.9)) some.insert(c); grammar(r, S() + fmt("/g%d.scfg", i), i, unary, sparse, some); }
  sim::spit(S() + "/cdec.ini", ini + more_ini);
  W w0; for (const char* f : {"f0", "f1", "f2", "own", "WordPenalty"}) w0[f] = r.range(1, 1000000) / 1e6 - 0.5;
  if (r.coin(0.5)) w0["f3"] = 0.37;
  if (pass) w0["PassThrough"] = -1.3;
  static const char* metrics[] = {"ibm_bleu", "nist_bleu", "koehn_bleu", "ter", "ibm_bleu_3", "ser", "combi", "wer"};
  int metric = sim::pick("metric", {0, 0, 0, 3, 1, 2, 4, 5, 6, 7}), opt = sim::pick("optimizer", {2, 2, 2, 2, 3, 4, 5, 1});
  bool bleu = metric < 3 || metric == 4;  // the others divide by the length of the reference
  Strs common = {"-c", S() + "/cdec.ini", "-o", fmt("%d", opt), "-C", sim::coin("small_step", 0.4) ? "0.001" : "0.3",
                 "-k", fmt("%d", (int)sim::pick("k", {500, 500, 20, 3})), "-b", fmt("%d", (int)(opt == 5 ? sim::pick("b5", {1, 3, 8}) : sim::pick("b", {500, 1, 3}))), "-m", metrics[metric], "-S", "5"};
  if (sim::coin("unique", 0.6)) common.push_back("-u");
  return Task{w0, common, odd, bleu, own, fixed, ng, opt};
}

std::string reference(sim::Rng& r, bool bleu) { std::string ref; for (int j = bleu ? r.below(6) : 1 + r.below(5); j > 0; --j) ref += (ref.empty() ? "" : " ") + (r.coin(0.8) ? fmt("%c%d", (char)('A' + r.below(7)), (int)r.below(4)) : std::string(r.coin(0.5) ? "x" : "new")); return ref; }
void benign(sim::PhaseOpts& o) { o.faults.short_read = 0.01 * sim::param("short_read", 0, 70); o.faults.eintr = 0.01 * sim::param("eintr", 0, 10); o.faults.net_split = sim::pick("net_split", {0, 100, 700}) / 1000.0; o.malloc_fill = sim::pick("malloc_fill", {-1, 0, 255, 256, 257}); }
void judge(const Talk& t, const std::vector<Cmd>& c) {
  if (t.o.kind == sim::Outcome::DEADLOCK || t.o.kind == sim::Outcome::STEPLIMIT) sim::fail("no_reply", "%s: %zu replies: %s", t.o.str().c_str(), t.replies.size(), tail_of(t.err).c_str());
  if (!t.o.ok()) sim::fail("unexpected_end", "%s after %zu replies: %s", t.o.str().c_str(), t.replies.size(), tail_of(t.err).c_str());
  size_t want = 0; for (auto& x : c) want += x.reply();
  if (t.replies.size() != want) sim::fail("no_reply", "%zu replies to %zu requests: %s", t.replies.size(), want, tail_of(t.err).c_str());
}

void m01() {
  sim::Rng r = sim::content("c:case");
  Task task = make_task(r, ""); W& w0 = task.w0; Strs common = task.common; common.push_back("-t");
  std::vector<Cmd> ops; int n = sim::param("requests", 1, 12);
  for (int i = 0; i < n; ++i) {
    Cmd c; int k = r.below(20);
    if (k < 8) { c.kind = TR; c.line = task.source(r); }
    else if (k < 14) { c.kind = LEARN; std::string src = task.source(r); c.line = "LEARN ||| " + src + " ||| " + reference(r, task.bleu); }
    else if (k < 16) { c.kind = WRITE; c.line = "WEIGHTS ||| WRITE"; }
    else if (k < 18) { c.kind = SET; W w; for (int j = 1 + r.below(4); j > 0; --j) w[r.coin(0.3) ? fmt("G%d_R%d", (int)r.below(3), (int)r.below(20)) : r.coin(0.1) ? fmt("new%d", (int)r.below(3)) : fmt("f%d", (int)r.below(4))] = r.range(-1000000, 1000000) / 1e6; c.line = "WEIGHTS ||| " + weights_line(w); }
    else { static const char* bad[] = {"FOO ||| a b", "LEARN ||| a", "", "LEARN ||| ", " ||| ", "learn ||| a ||| A0", "WEIGHTS ||| "}; c.kind = BAD; c.line = bad[r.below(7)]; }
    ops.push_back(c);
  }
  ops.push_back(Cmd{WRITE, "WEIGHTS ||| WRITE"});
  // where the history is cut: before request k the state is written
  size_t k = sim::param("cut", 0, ops.size() - 1);
  std::vector<Cmd> first(ops.begin(), ops.begin() + k), rest(ops.begin() + k, ops.end()), whole = first;
  whole.push_back(Cmd{WRITE, "WEIGHTS ||| WRITE"}); whole.insert(whole.end(), rest.begin(), rest.end());
  Strs args = common; args.push_back("-w"); args.push_back(weights_file(w0, "w0"));
  Talk a = talk("whole", whole, args, benign); judge(a, whole);
  size_t at = 0; for (auto& c : first) at += c.reply();
  std::string state = a.replies[at]; Strs want(a.replies.begin() + at + 1, a.replies.end());
  auto compare = [&](const char* what, const Talk& t, size_t skip) {
    size_t i = 0;
    for (auto& c : rest) {
      if (!c.reply()) continue;
      const std::string &x = want[i], &y = t.replies[skip + i]; ++i;
      if (c.kind == WRITE ? same_weights(x, y) : x == y) continue;
      sim::fail("depends_on_history", "%s: '%s' gets '%s', not '%s'", what, c.line.substr(0, 200).c_str(), y.substr(0, 300).c_str(), x.substr(0, 300).c_str());
    }
  };
  std::vector<Cmd> b; b.push_back(Cmd{SET, "WEIGHTS ||| " + state}); b.insert(b.end(), rest.begin(), rest.end());
  int how = sim::pick("how", {0, 1, 2, 3});
  W sw = parse_weights(state);
  if (how == 0) {         // a fresh process is told the weights
    Talk t = talk("restored", b, args, benign); judge(t, b); compare("a fresh process that is told the weights", t, 0);
  } else if (how == 1) {  // a fresh process starts with them
    Strs x = common; x.push_back("-w"); x.push_back(weights_file(sw, "w1"));
    Talk t = talk("started", rest, x, benign); judge(t, rest); compare("a fresh process that starts with the weights", t, 0);
  } else if (how == 2) {  // translations do not leave traces
    std::vector<Cmd> c; size_t gone = 0; for (auto& x : whole) { if (&x - &whole[0] < (long)k && (x.kind == TR || x.kind == BAD || x.kind == WRITE)) { ++gone; continue; } c.push_back(x); }
    if (!gone) sim::trivial();
    Talk t = talk("shorter", c, args, benign); judge(t, c); size_t s = 0; for (size_t i = 0; i < c.size() - rest.size(); ++i) s += c[i].reply();
    compare("a process that was not asked for the translations before", t, s);
  } else {                // translations are those of cdec
    std::string in; std::vector<size_t> idx; size_t i = 0;
    for (auto& c : rest) { if (c.kind != TR) { if (c.kind == LEARN || c.kind == SET) break; i += c.reply(); continue; } in += c.line + "\n"; idx.push_back(i++); }
    if (idx.empty()) sim::trivial();
    sim::spit(S() + "/in", in);
    sim::PhaseOpts o; o.name = "cdec"; benign(o); o.schedule = false; o.stdio = true; o.stdin_path = S() + "/in"; o.stdout_path = S() + "/out"; o.stderr_path = S() + "/err.cdec";
    Strs x = {"-c", S() + "/cdec.ini", "-w", weights_file(sw, "w1")};
    sim::Outcome oc = sim::run_phase(o, [&] { return run(cdec_main, x, "cdec"); });
    if (!oc.ok()) sim::fail("unexpected_end", "cdec: %s: %s", oc.str().c_str(), tail_of(o.stderr_path).c_str());
    Strs got = lines_of(sim::slurp(o.stdout_path));
    if (got.size() != idx.size()) sim::fail("harness", "cdec prints %zu lines for %zu inputs", got.size(), idx.size());
    for (size_t j = 0; j < idx.size(); ++j) if (got[j] != want[idx[j]]) sim::fail("wrong_translation", "'%s' gets '%s', but cdec translates it as '%s' with the same weights", lines_of(in)[j].c_str(), want[idx[j]].c_str(), got[j].c_str());
  }
  size_t learned = 0; for (auto& c : whole) learned += c.kind == LEARN;
  if (!learned) sim::trivial();
  sim::probe(how == 0 ? "told" : how == 1 ? "started" : how == 2 ? "shorter" : "cdec"); sim::probe("learned", learned);
  for (auto& c : whole) if (c.kind == SET) { sim::probe("set"); break; }
  bool empty = false; size_t i = 0; for (auto& c : whole) if (c.reply()) { if (c.kind == TR && a.replies[i].empty()) empty = true; ++i; } if (empty) sim::probe("no_translation");
}
// M02: a batch pass is learning from its sentences one after the other, and a pass that reports success wrote all of it
struct Batch { sim::Outcome o; std::string out, err; std::map<std::string, std::string> files; };
Batch batch(const char* name, const Strs& args, std::function<void(sim::PhaseOpts&)> f) {
  std::string d = S() + "/w"; if (system(("rm -rf '" + d + "'; mkdir '" + d + "'").c_str())) {}
  sim::PhaseOpts o; o.name = name; o.schedule = false; o.stdio = true; o.stdout_path = S() + "/out." + name; o.stderr_path = S() + "/err." + name; o.step_limit = 400000000; f(o);
  Strs x = args; x.push_back("-O"); x.push_back(d); x.push_back("-D"); x.push_back(S());
  Batch b{sim::run_phase(o, [&] { return run(mira_main, x, "kbest_cut_mira"); }), sim::slurp(o.stdout_path), o.stderr_path, {}};
  glob_t g; memset(&g, 0, sizeof g); if (!glob((d + "/*").c_str(), 0, 0, &g)) for (size_t i = 0; i < g.gl_pathc; ++i) {
    std::string text; gzFile z = gzopen(g.gl_pathv[i], "rb"); char buf[4096]; int n; while ((n = gzread(z, buf, sizeof buf)) > 0) text.append(buf, n); if (n < 0) text += "(damaged)"; gzclose(z);
    b.files[g.gl_pathv[i] + d.size()] = text;
  }
  globfree(&g);
  return b;
}
W read_weights(const std::string& text) { W w; for (auto& l : lines_of(text)) { if (l.empty() || l[0] == '#') continue; size_t e = l.find(' '); w[l.substr(0, e)] = e == std::string::npos ? NAN : atof(l.c_str() + e); } return w; }
void check_weights(const char* what, const W& got, const W& want, double tol) {
  std::set<std::string> k; for (auto& q : got) k.insert(q.first); for (auto& q : want) k.insert(q.first);
  for (auto& q : k) { double u = got.count(q) ? got.at(q) : 0, v = want.count(q) ? want.at(q) : 0; if (!(fabs(u - v) <= tol * (1 + fabs(u) + fabs(v)))) sim::fail("wrong_weights", "%s: %s is %.17g, not %.17g", what, q.c_str(), u, v); }
}
void m02() {
  sim::Rng r = sim::content("c:case");
  Task task = make_task(r, "input=" + S() + "/src\n");
  int n = sim::param("sentences", 1, 10), nref = sim::param("references", 1, 3), pass = sim::pick("pass", {0, 0, 0, 1, 3});
  Strs src; std::string in; std::vector<std::string> refs(nref); Strs first;
  for (int i = 0; i < n; ++i) { src.push_back(task.source(r)); in += src.back() + "\n"; for (int j = 0; j < nref; ++j) { std::string x = reference(r, false); if (!j) first.push_back(x); refs[j] += x + "\n"; } }
  if (sim::coin("no_final_newline", 0.3)) in.pop_back();
  sim::spit(S() + "/src", in);
  Strs args = task.common; args.push_back("-w"); args.push_back(weights_file(task.w0, "w0")); args.push_back("-p"); args.push_back(fmt("%d", pass));
  for (int j = 0; j < nref; ++j) { sim::spit(S() + fmt("/ref%d", j), refs[j]); args.push_back("-r"); args.push_back(S() + fmt("/ref%d", j)); }
  if (pass && sim::coin("pseudo_doc", 0.0)) args.push_back("-e");
  bool corpus_score = pass > 0;
  if (corpus_score) { if (!task.bleu || sim::coin("sent_approx", 0.4)) args.push_back("-a"); std::string prev; for (int i = 0; i < n; ++i) prev += reference(r, false) + "\n"; sim::spit(S() + fmt("/run.raw.%d.B", pass - 1), prev); }
  auto calm = [&](sim::PhaseOpts& o) { o.faults.short_read = 0.01 * sim::param("short_read", 0, 70); o.faults.short_write = 0.01 * sim::param("short_write", 0, 70); o.malloc_fill = sim::pick("malloc_fill", {-1, 0, 255, 256, 257}); };
  Batch a = batch("batch", args, calm);
  if (!a.o.ok()) sim::fail("unexpected_end", "%s: %s", a.o.str().c_str(), tail_of(a.err).c_str());
  if (a.files.size() != 2) sim::fail("wrong_weights", "%zu files of weights", a.files.size());
  W last, avg; for (auto& f : a.files) { if (f.second.find("(damaged)") != std::string::npos) sim::fail("wrong_weights", "%s is damaged", f.first.c_str()); (f.first.find("-avg") != std::string::npos ? avg : last) = read_weights(f.second); }
  Strs out = lines_of(a.out);
  if (out.size() != (size_t)n) sim::fail("wrong_output", "%zu lines for %d sentences", out.size(), n);
  int how = sim::pick("how", {0, 1, 1});
  if (how == 0 && pass == 0 && nref == 1) {
    std::vector<Cmd> c; for (int i = 0; i < n; ++i) { c.push_back(Cmd{LEARN, "LEARN ||| " + src[i] + " ||| " + first[i]}); c.push_back(Cmd{WRITE, "WEIGHTS ||| WRITE"}); }
    Strs x = task.common; x.push_back("-t"); x.push_back("-w"); x.push_back(S() + "/w0");
    Talk t = talk("stream", c, x, benign); judge(t, c);
    W sum = task.w0; sum["AAA"] = 0.25; int learned = 0;
    for (int i = 0; i < n; ++i) {
      if (out[i] != t.replies[2 * i]) sim::fail("wrong_output", "sentence %d gives '%s', not '%s'", i, out[i].c_str(), t.replies[2 * i].c_str());
      if (out[i] == " |||  ||| ") continue;
      ++learned; for (auto& w : parse_weights(t.replies[2 * i + 1])) sum[w.first] += w.second;
    }
    for (auto& w : sum) w.second /= learned + 1;
    check_weights("final weights", last, parse_weights(t.replies[2 * n - 1]), 1e-9);
    check_weights("average weights", avg, sum, 1e-9);
    sim::probe("stream"); sim::probe("learned", learned);
    return;
  }
  Batch f = batch("faults", args, [&](sim::PhaseOpts& o) {
    calm(o); o.faults.max_hard = 1 + sim::param("hard", 0, 3);
    switch (sim::pick("fault", {0, 1, 2, 3, 4})) {
      case 0: o.faults.read_err = 0.02 * sim::param("rate", 1, 10); break;
      case 1: o.faults.write_err = 0.2; break;
      case 2: o.faults.open_err = 0.02 * sim::param("rate", 1, 10); break;
      case 3: o.faults.disk_capacity = sim::param("disk", 1, 900); break;
      case 4: o.faults.close_err = 0.2; break;
    }
  });
  if (f.o.kind == sim::Outcome::SIGNALLED || f.o.kind == sim::Outcome::DEADLOCK || f.o.kind == sim::Outcome::STEPLIMIT) sim::fail("bad_end", "%s: %s", f.o.str().c_str(), tail_of(f.err).c_str());
  if (f.o.ok()) {
    if (f.out != a.out) sim::fail("success_despite_failure", "the pass reports success, but printed '%s', not '%s'", f.out.substr(0, 300).c_str(), a.out.substr(0, 300).c_str());
    if (f.files != a.files) sim::fail("success_despite_failure", "the pass reports success, but its weights are not those of a pass without errors (%zu files)", f.files.size());
    sim::probe("same");
  } else sim::probe("reported");
  if (!f.o.hard_faults) sim::trivial();
}
}
namespace sim { const Property properties[] = {{"M01", m01}, {"M02", m02}, {0, 0}}; }
