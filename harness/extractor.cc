// X01 X02 X03: grammar extraction (run_extractor, sacompile, extract).
#include "sim.h"
#include <algorithm>
#include <dirent.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
using sim::fmt;
extern "C" int run_extractor_main(int, char**);
extern "C" int sacompile_main(int, char**);
extern "C" int extract_main(int, char**);

namespace {
struct Case {
  std::string src, tgt, bitext, align, input;
  int n, m;              // training sentences, input sentences
  bool use_bitext, leave_one_out;
  std::vector<std::string> index_opts, extract_opts;
} c;
std::string S() { return sim::scratch(); }
std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : " ") + x; return s; }

void generate() {
  c = Case();
  c.n = sim::param_log("sentences", 1, 14);
  int vocab = sim::coin("few_words", 0.4) ? sim::param("words_few", 2, 3) : sim::param("words", 2, 9), maxlen = sim::coin("long", 0.3) ? sim::param("length_long", 8, 14) : sim::param("length", 1, 8);
  c.use_bitext = sim::coin("bitext", 0.3);
  bool empty = sim::coin("empty_lines", 0.1), dense = sim::coin("dense_links", 0.3), mono = sim::coin("monotone", 0.4), repeat = sim::coin("repeats", 0.4);
  sim::Rng r = sim::content("c:corpus");
  std::vector<std::vector<std::string>> src;
  for (int i = 0; i < c.n; ++i) {
    int ls = empty && r.coin(0.2) ? 0 : 1 + r.below(maxlen), lt = empty && r.coin(0.2) ? 0 : 1 + r.below(maxlen);
    std::vector<std::string> s, t;
    if (repeat && i && r.coin(0.5)) { s = src[r.below(i)]; ls = s.size(); }
    else for (int k = 0; k < ls; ++k) s.push_back(fmt("f%d", (int)r.below(vocab)));
    if (mono) lt = ls;
    for (int k = 0; k < lt; ++k) t.push_back(mono && r.coin(0.8) ? "e" + s[k].substr(1) : fmt("e%d", (int)r.below(vocab)));
    std::vector<std::pair<int, int>> l;
    if (ls && lt) {
      if (mono) { for (int k = 0; k < ls; ++k) if (r.coin(0.9)) l.push_back({k, k}); }
      else { int q = dense ? r.below(ls + lt + 1) : r.below(std::min(ls, lt) + 2); for (int k = 0; k < q; ++k) l.push_back({(int)r.below(ls), (int)r.below(lt)}); }
      std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end());
    }
    std::string a; for (auto& x : l) a += (a.empty() ? "" : " ") + fmt("%d-%d", x.first, x.second);
    src.push_back(s);
    c.src += join(s) + "\n"; c.tgt += join(t) + "\n"; c.bitext += join(s) + " ||| " + join(t) + "\n"; c.align += a + "\n";
  }
  c.m = sim::param("inputs", 1, 7);
  c.leave_one_out = sim::coin("leave_one_out", 0.25);
  sim::Rng q = sim::content("c:input");
  bool oov = sim::coin("oov", 0.4), suffix = sim::coin("suffixes", 0.4);
  for (int i = 0; i < c.m; ++i) {
    std::vector<std::string> s;
    if (c.leave_one_out && i < c.n) s = src[i];
    else if (q.coin(0.5)) { s = src[q.below(c.n)]; if (!s.empty() && q.coin(0.5)) s.resize(1 + q.below(s.size())); }
    else { int l = q.below(maxlen + 2); for (int k = 0; k < l; ++k) s.push_back(fmt("f%d", (int)q.below(vocab))); }
    if (oov && q.coin(0.5)) s.insert(s.begin() + q.below(s.size() + 1), fmt("o%d", (int)q.below(4)));
    c.input += join(s); if (suffix && q.coin(0.6)) c.input += fmt(" ||| ref %d", i);
    c.input += "\n";
  }
  auto I = [&](const char* o, int64_t v) { c.index_opts.push_back(o); c.index_opts.push_back(fmt("%d", (int)v)); };
  auto E = [&](const char* o, int64_t v) { c.extract_opts.push_back(o); c.extract_opts.push_back(fmt("%d", (int)v)); };
  int freq = sim::param("frequent", 0, 25);
  I("--frequent", freq); I("--super_frequent", std::min<int>(freq, sim::param("super_frequent", 0, 15)));
  I("--max_phrase_len", sim::param("max_phrase_len", 1, 4)); I("--min_frequency", sim::pick("min_frequency", {1, 1, 2, 3, 4}));
  int span = sim::param("max_rule_span", 2, 15), sym = sim::param("max_rule_symbols", 1, 8), gap = sim::pick("min_gap_size", {1, 1, 1, 2});
  I("--max_rule_span", span); I("--max_rule_symbols", sym); I("--min_gap_size", gap);
  E("--max_rule_span", span); E("--max_rule_symbols", sym); E("--min_gap_size", gap);
  E("--max_nonterminals", sim::pick("max_nonterminals", {2, 2, 1, 0})); E("--max_samples", sim::pick("max_samples", {300, 1, 2, 3, 5}));
  E("--tight_phrases", sim::coin("loose", 0.3) ? 0 : 1);
  if (c.leave_one_out) c.extract_opts.push_back("--leave_one_out");
  sim::spit(S() + "/src", c.src); sim::spit(S() + "/tgt", c.tgt); sim::spit(S() + "/bi", c.bitext); sim::spit(S() + "/al", c.align); sim::spit(S() + "/in", c.input);
  if (sim::verbose()) fprintf(stderr, "src:\n%stgt:\n%salign:\n%sinput:\n%sindex options %s\nextract options %s\n", c.src.c_str(), c.tgt.c_str(), c.align.c_str(), c.input.c_str(), join(c.index_opts).c_str(), join(c.extract_opts).c_str());
}
int call(int (*fn)(int, char**), const std::vector<std::string>& a) {
  std::vector<char*> v; for (auto& s : a) v.push_back((char*)s.c_str()); v.push_back(0);
  return fn(a.size(), v.data());
}
std::vector<std::string> corpus_args() {
  if (c.use_bitext) return {"-b", S() + "/bi", "-a", S() + "/al"};
  return {"-f", S() + "/src", "-e", S() + "/tgt", "-a", S() + "/al"};
}
void add(std::vector<std::string>& a, const std::vector<std::string>& b) { a.insert(a.end(), b.begin(), b.end()); }

std::string gunzip(const std::string& z, bool* ok) {
  *ok = false; std::string out;
  z_stream s; memset(&s, 0, sizeof s);
  if (inflateInit2(&s, 47)) return out;
  s.next_in = (Bytef*)z.data(); s.avail_in = z.size();
  char b[4096]; int r;
  do { s.next_out = (Bytef*)b; s.avail_out = sizeof b; r = inflate(&s, Z_NO_FLUSH); out.append(b, sizeof b - s.avail_out); } while (r == Z_OK);
  *ok = r == Z_STREAM_END && !s.avail_in;
  inflateEnd(&s);
  return out;
}
struct Result { sim::Outcome o; std::string out; std::vector<std::string> grammar; bool missing = false; int files = 0; };

// order of the rules in one grammar file is not part of the result
std::string sorted(const std::string& s) {
  std::vector<std::string> l; size_t i = 0;
  while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) { l.push_back("<unfinished line> " + s.substr(i)); break; } l.push_back(s.substr(i, j - i)); i = j + 1; }
  std::sort(l.begin(), l.end());
  std::string o; for (auto& x : l) o += x + "\n";
  return o;
}
Result collect(const sim::Outcome& o, const std::string& dir, const std::string& outfile, bool gz) {
  Result r; r.o = o; r.out = sim::slurp(outfile);
  // the directory's name is replaced, so that runs can be compared
  for (size_t p; (p = r.out.find(dir)) != std::string::npos;) r.out.replace(p, dir.size(), "DIR");
  for (int i = 0; i < c.m; ++i) {
    std::string f = fmt("%s/grammar.%d%s", dir.c_str(), i, gz ? ".gz" : "");
    struct stat st; if (stat(f.c_str(), &st)) { r.missing = true; r.grammar.push_back("<missing>"); continue; }
    std::string t = sim::slurp(f);
    if (gz) { bool ok; t = gunzip(t, &ok); if (!ok) t += "<damaged gzip>"; for (size_t p; (p = r.out.find(".gz")) != std::string::npos;) r.out.erase(p, 3); }
    r.grammar.push_back(sorted(t));
  }
  if (DIR* d = opendir(dir.c_str())) { while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.') ++r.files; closedir(d); }
  return r;
}
void clear_dir(const std::string& d) {
  if (DIR* p = opendir(d.c_str())) { while (struct dirent* e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(p); rmdir(d.c_str()); }
}
typedef std::function<void(sim::PhaseOpts&)> Tune;
Result run_direct(const char* name, int threads, const Tune& tune) {
  std::string dir = S() + "/g-" + name, out = S() + "/out-" + name;
  clear_dir(dir);
  sim::PhaseOpts o; o.name = name; o.stdin_path = S() + "/in"; o.stdout_path = out; o.stderr_path = S() + "/err-" + name;
  tune(o);
  std::vector<std::string> a = {"run_extractor"}; add(a, corpus_args()); add(a, {"-g", dir, "-t", fmt("%d", threads)}); add(a, c.index_opts);
  for (size_t i = 0; i < c.extract_opts.size(); ++i) if (std::find(a.begin(), a.end(), c.extract_opts[i]) == a.end() || c.extract_opts[i][0] != '-') a.push_back(c.extract_opts[i]); else ++i;
  sim::Outcome r = sim::run_phase(o, [&] { return call(run_extractor_main, a); });
  return collect(r, dir, out, false);
}
sim::Outcome run_compile(const char* name, const Tune& tune) {
  std::string dir = S() + "/index";
  clear_dir(dir);
  sim::PhaseOpts o; o.name = name; o.stderr_path = S() + "/err-" + name; o.stdout_path = S() + "/out-compile";
  tune(o);
  std::vector<std::string> a = {"sacompile"}; add(a, corpus_args()); add(a, {"-o", dir, "-c", S() + "/config"}); add(a, c.index_opts);
  return sim::run_phase(o, [&] { return call(sacompile_main, a); });
}
Result run_extract(const char* name, int threads, bool gz, const Tune& tune) {
  std::string dir = S() + "/g-" + name, out = S() + "/out-" + name;
  clear_dir(dir);
  sim::PhaseOpts o; o.name = name; o.stdin_path = S() + "/in"; o.stdout_path = out; o.stderr_path = S() + "/err-" + name;
  tune(o);
  std::vector<std::string> a = {"extract", "-c", S() + "/config", "-g", dir, "-t", fmt("%d", threads)}; add(a, c.extract_opts);
  if (gz) a.push_back("-z");
  sim::Outcome r = sim::run_phase(o, [&] { return call(extract_main, a); });
  return collect(r, dir, out, gz);
}
void calm(sim::PhaseOpts& o) { o.schedule = false; o.malloc_fill = 0; }
std::string tail(const std::string& f) { std::string s = sim::slurp(S() + "/" + f); return s.size() > 300 ? s.substr(s.size() - 300) : s; }
std::string first_difference(const std::string& a, const std::string& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t s = a.rfind('\n', i); s = s == std::string::npos || !i ? 0 : s + 1; if (s > i) s = i;
  return "expected '" + sim::hexdump(a.substr(s, 200), 200) + "', got '" + sim::hexdump(b.substr(s, 200), 200) + "'";
}
void compare(const Result& want, const Result& got, const char* what, const std::string& err) {
  if (got.o.kind == sim::Outcome::DEADLOCK || got.o.kind == sim::Outcome::STEPLIMIT) sim::fail("never_finishes", "%s: %s", what, got.o.str().c_str());
  if (!got.o.ok()) sim::fail("unexpected_error", "%s: %s %s", what, got.o.str().c_str(), tail(err).c_str());
  if (got.out != want.out) sim::fail("wrong_output_lines", "%s: %s", what, first_difference(want.out, got.out).c_str());
  for (int i = 0; i < c.m; ++i) if (want.grammar[i] != got.grammar[i])
    sim::fail("wrong_grammar", "%s: grammar of sentence %d: %s", what, i, first_difference(want.grammar[i], got.grammar[i]).c_str());
  if (got.files != c.m) sim::fail("wrong_files", "%s: %d grammar files for %d sentences", what, got.files, c.m);
}
// the grammars of a run whose frequent collocations are not precomputed
// are the same, as long as every occurrence is sampled
void check_precomputation() {
  auto saved = c.index_opts, saved2 = c.extract_opts;
  for (size_t i = 0; i + 1 < c.extract_opts.size(); ++i) if (c.extract_opts[i] == "--max_samples") c.extract_opts[i + 1] = "1000000";
  Result want = run_direct("withindex", 1, calm);
  c.index_opts[1] = "0"; c.index_opts[3] = "0";
  Result got = run_direct("noindex", 1, calm);
  c.index_opts = saved; c.extract_opts = saved2;
  compare(want, got, fmt("grammar without (got) and with (expected) precomputed collocations").c_str(), "err-noindex");
}
void sane(const Result& w) {
  if (!w.o.ok()) { if (sim::verbose()) fprintf(stderr, "reference: %s %s\n", w.o.str().c_str(), tail("err-one").c_str()); sim::fail("unexpected_error", "one thread, no faults: %s %s", w.o.str().c_str(), tail("err-one").c_str()); }
  size_t rules = 0; for (auto& g : w.grammar) rules += std::count(g.begin(), g.end(), '\n');
  if (!rules) sim::trivial();
  sim::probe("rules", rules);
}
void benign(sim::PhaseOpts& o) {
  if (sim::coin("io_faults", 0.5)) {
    o.faults.short_read = 0.01 * sim::param("short_read", 0, 60); o.faults.short_write = 0.01 * sim::param("short_write", 0, 60);
  }
  o.malloc_fill = sim::pick("malloc_fill", {-1, 0, 255, 256, 257});
}

void x01() {
  generate();
  int threads = sim::pick("threads", {2, 1, 3, 4, 5, 8});
  Result want = run_direct("one", 1, calm);
  sane(want);
  Result got = run_direct("many", threads, [](sim::PhaseOpts& o) { benign(o); });
  compare(want, got, fmt("%d threads", threads).c_str(), "err-many");
}
void x02() {
  generate();
  bool gz = sim::coin("gzip", 0.4);
  int threads = sim::pick("threads", {1, 2, 3, 4, 8});
  Result want = run_direct("one", 1, calm);
  sane(want);
  if (sim::coin("without_precomputation", 0.3)) check_precomputation();
  sim::Outcome o = run_compile("compile", [](sim::PhaseOpts& p) { p.schedule = false; benign(p); });
  if (!o.ok()) sim::fail("unexpected_error", "sacompile: %s %s", o.str().c_str(), tail("err-compile").c_str());
  Result got = run_extract("index", threads, gz, [](sim::PhaseOpts& p) { benign(p); });
  compare(want, got, fmt("compiled index, %d threads%s", threads, gz ? ", gzip" : "").c_str(), "err-index");
}
const char* kFiles[] = {"target.bin", "source.bin", "alignment.bin", "precomp.bin", "vocab.bin", "bilex.bin"};
void x03() {
  generate();
  int mode = sim::pick("mode", {0, 1, 2, 3});     // 0: cut, 1: failing writes, 2: failing reads, 3: failing writes of grammars
  Result want = run_direct("one", 1, calm);
  sane(want);
  if (mode == 1) {
    sim::Outcome o = run_compile("compile", [](sim::PhaseOpts& p) {
      p.schedule = false;
      switch (sim::param("kind", 0, 2)) {
        case 0: p.faults.write_err = 0.2; break;
        case 1: p.faults.disk_capacity = sim::param("capacity", 0, 9000); break;
        case 2: p.faults.open_err = 0.2; p.faults.match = [](const std::string&, bool w) { return w; }; break;
      }
      p.faults.short_write = 0.1 * sim::param("short_write", 0, 3);
    });
    if (!o.hard_faults) sim::trivial();
    if (!o.ok()) {
      if (!o.clean_error()) sim::fail("unexpected_end", "compiling with failing writes: %s", o.str().c_str());
      sim::probe("compile_error"); return;
    }
    sim::probe("compile_ok");
    Result got = run_extract("index", 1, false, calm);
    std::string what = "the index left by a compilation that reported success"; if (o.hard_faults) what += " although a write failed";
    compare(want, got, what.c_str(), "err-index");
    return;
  }
  sim::Outcome o = run_compile("compile", calm);
  if (!o.ok()) sim::fail("unexpected_error", "sacompile: %s %s", o.str().c_str(), tail("err-compile").c_str());
  if (mode == 0) {
    std::string f = S() + "/index/" + kFiles[sim::param("file", 0, 5)], d = sim::slurp(f);
    if (d.empty()) sim::fail("unexpected_error", "no index file %s", f.c_str());
    size_t keep = sim::coin("near_end", 0.3) ? d.size() - std::min<size_t>(d.size(), sim::param_log("cut", 1, 40)) : (size_t)(sim::param("keep", 0, 9999) * d.size() / 10000);
    sim::spit(f, d.substr(0, keep));
    Result got = run_extract("cut", 1 + sim::param("threads", 0, 2), false, [](sim::PhaseOpts& p) { benign(p); });
    if (got.o.ok()) sim::fail("truncated_accepted", "%s cut to %zu of %zu bytes is accepted", f.c_str() + S().size() + 1, keep, d.size());
    if (!got.o.clean_error()) sim::fail("unexpected_end", "%s cut to %zu of %zu bytes: %s", f.c_str() + S().size() + 1, keep, d.size(), got.o.str().c_str());
    sim::probe("truncated_refused");
    return;
  }
  int threads = sim::pick("threads", {1, 2, 3});
  auto tune = [&](sim::PhaseOpts& p) {
    if (mode == 2) { p.faults.read_err = 0.1; p.faults.match = [](const std::string& f, bool w) { return !w && f.find(".bin") != std::string::npos; }; }
    else {
      if (sim::coin("full", 0.5)) p.faults.disk_capacity = sim::param("capacity", 0, 2000); else p.faults.write_err = 0.2;
      p.faults.match = [](const std::string& f, bool w) { return w && (f.find("/grammar.") != std::string::npos); };
    }
  };
  Result got = mode == 3 && sim::coin("direct", 0.4) ? run_direct("faulty", threads, tune) : run_extract("faulty", threads, sim::coin("gzip", 0.4), tune);
  if (!got.o.hard_faults) sim::trivial();
  if (!got.o.ok()) {
    if (!got.o.clean_error()) sim::fail("unexpected_end", "%s", got.o.str().c_str());
    sim::probe("extract_error"); return;
  }
  sim::probe("extract_ok");
  compare(want, got, got.o.hard_faults ? "extraction that reported success although reading or writing failed" : "extraction", "err-faulty");
}
}  // namespace
const sim::Property sim::properties[] = {{"X01", x01}, {"X02", x02}, {"X03", x03}, {0, 0}};
