// G01 W01: text files and weights files through filelib / gzstream / weights.
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <zlib.h>
#include <algorithm>
#include <map>
#include <math.h>
#include <sstream>
#include "filelib.h"
#include "fdict.h"
#include "weights.h"
#include "verbose.h"
using sim::fmt;

namespace {
std::string S() { return sim::scratch(); }
const size_t kBuf = 47 + 1024 * 256;   // gzstream's buffer

struct Case { bool gz; std::string path, text; bool damaged, cut; std::string got; } c;

std::string make_text() {
  sim::Rng r = sim::content("c:text");
  size_t n;
  if (sim::coin("empty", 0.03)) n = 0;
  else if (sim::coin("at_buffer_end", 0.12)) n = sim::param("buffers", 1, 2) * (kBuf - sim::pick("size_base", {4, 1, 0})) + sim::param("delta", -6, 6);
  else n = sim::param_log("size", 1, 9000);
  int kind = sim::param("kind", 0, 3);
  std::string t; t.reserve(n);
  int line = kind == 0 ? 20 : kind == 1 ? 3 : kind == 2 ? 2000 : 60;
  std::string last = "abc";
  while (t.size() < n) {
    if (r.below(line) == 0) t += '\n';
    else if (kind == 3 && r.coin(0.2)) t += last;
    else if (r.coin(0.1)) t += kind == 2 && r.coin(0.5) ? '\xFF' : (char)(0x80 + r.below(0x80));
    else if (r.coin(0.15)) t += ' ';
    else t += (char)(0x21 + r.below(0x5E));
    if (kind == 3 && r.coin(0.02)) last = t.substr(t.size() - std::min<size_t>(t.size(), 30));
  }
  if (n && kind != 1 && r.coin(0.2)) t[0] = (char)(0xFF - r.below(3));
  t.resize(n);
  if (!sim::coin("no_final_newline", 0.3) && n) t[n - 1] = '\n';
  return t;
}
// writes the text in a sequence of stream operations
void write_ops(std::ostream& o, const std::string& t) {
  sim::Rng r = sim::content("c:write_ops");
  int style = sim::param("write_style", 0, 3);
  size_t i = 0;
  while (i < t.size()) {
    size_t left = t.size() - i;
    switch (style == 0 ? 1 : style == 1 ? 2 : r.below(6)) {
      case 0: o.put(t[i]); ++i; break;
      case 1: { size_t k = std::min<size_t>(left, 1 + r.below(r.coin(0.1) ? 200000 : 200)); o.write(t.data() + i, k); i += k; break; }
      case 2: {
        size_t e = t.find('\n', i);
        if (e == std::string::npos) { o << t.substr(i); i = t.size(); }
        else { o << t.substr(i, e - i) << std::endl; i = e + 1; }
        break;
      }
      case 3: if (r.coin(0.3)) o.flush(); break;
      case 4: { size_t k = std::min<size_t>(left, 1 + r.below(50)); o << t.substr(i, k); i += k; break; }
      case 5: o << t[i]; ++i; break;
    }
  }
}
int writer() {
  if (sim::coin("init", 0.3)) { WriteFile w; w.Init(c.path); write_ops(*w, c.text); return 0; }
  WriteFile w(c.path);
  write_ops(*w.stream(), c.text);
  return 0;
}
void at(const std::string& got, size_t& pos, const char* op) {
  // damage shows at the latest at the end of the gzip member, so the text before the error may be wrong
  if (c.damaged) { c.got.resize(pos); c.got += got; pos += got.size(); return; }
  if (pos + got.size() > c.text.size()) sim::fail("wrong_text", "%s at byte %zu: %zu bytes beyond the end: '%s'", op, pos, pos + got.size() - c.text.size(), sim::hexdump(got, 60).c_str());
  if (c.text.compare(pos, got.size(), got)) {
    size_t k = 0; while (c.text[pos + k] == got[k]) ++k;
    sim::fail("wrong_text", "%s at byte %zu: '%s' instead of '%s'", op, pos + k, sim::hexdump(got.substr(k), 40).c_str(), sim::hexdump(c.text.substr(pos + k), 40).c_str());
  }
  pos += got.size();
}
// reads it back in a sequence of operations; the usual loop ends when the stream is no longer good
int reader() {
  int style = sim::param("read_style", 0, 5);
  size_t pos = 0;
  const char* how = "getline loop";
  if (style == 4) {
    std::ostringstream o; how = "CopyFile";
    if (sim::coin("copy_by_name", 0.5)) CopyFile(c.path, o); else { ReadFile f(c.path); CopyFile(*f.stream(), o); }
    at(o.str(), pos, how);
  } else if (style == 5 && c.text.size() && c.text.find('\xFF') == std::string::npos &&   // where ReadAll stops
              c.text[c.text.size() - 1] == '\n') {
    ReadFile f(c.path); std::string s; f.ReadAll(s); how = "ReadAll";   // returns the text without its last character
    at(s, pos, how);
    if (pos || c.text.size() == 1) ++pos;
  } else {
    ReadFile f(c.path);
    std::istream& in = *f.stream();
    if (style == 0) { std::string l; while (std::getline(in, l)) { if (!in.eof()) l += '\n'; at(l, pos, how); } }
    else if (style == 1) { how = "get"; char ch; while (in.get(ch)) at(std::string(1, ch), pos, how); }
    else {
      how = "mixed reads";
      sim::Rng r = sim::content("c:read_ops");
      while (in) {
        switch (r.below(5)) {
          case 0: { std::string l; if (std::getline(in, l)) { if (!in.eof()) l += '\n'; at(l, pos, "getline"); } break; }
          case 1: { char ch; if (in.get(ch)) at(std::string(1, ch), pos, "get"); break; }
          case 2: { char b[700]; size_t k = 1 + r.below(sizeof b); in.read(b, k); at(std::string(b, in.gcount()), pos, "read"); break; }
          case 3: { int ch = in.peek(); if (in && ch != EOF) { size_t p = pos; at(std::string(1, (char)ch), p, "peek"); } break; }
          case 4: { char ch; int k = 0; while (k < 3 && in.get(ch)) { ++k; at(std::string(1, ch), pos, "get"); } if (in && k) for (int j = 1 + r.below(k); j > 0; --j) { if (!in.unget()) sim::fail("wrong_text", "cannot put back character %d before byte %zu", j, pos); --pos; } break; }
        }
      }
    }
  }
  if (c.damaged && style == 5) return 0;   // a damaged text may contain the character 0xFF, where ReadAll stops
  if (c.damaged) { if (c.got != c.text.substr(0, c.got.size())) sim::fail("wrong_text", "a damaged file is read to its end without an error"); }
  // zlib does not notice a cut if what the file yields ends where gzstream's buffer does
  if (c.damaged && c.cut && pos && pos % (kBuf - 4) == 0) { sim::probe("cut_at_buffer_end"); return 0; }
  if (pos != c.text.size()) sim::fail("text_cut", "%s ends as if the file were complete after %zu of %zu bytes", how, pos, c.text.size());
  return 0;
}
int copier() { CopyFile(c.path, c.path + ".copy"); return 0; }
std::string gunzip(const std::string& z, bool* ok) {
  *ok = false; std::string out;
  z_stream s; memset(&s, 0, sizeof s);
  if (inflateInit2(&s, 47)) return out;
  s.next_in = (Bytef*)z.data(); s.avail_in = z.size();
  char b[4096]; int r;
  do { s.next_out = (Bytef*)b; s.avail_out = sizeof b; r = inflate(&s, Z_NO_FLUSH); out.append(b, sizeof b - s.avail_out); } while (r == Z_OK);
  *ok = r == Z_STREAM_END && !s.avail_in;
  inflateEnd(&s);
  return out;
}
std::string gzip(const std::string& t) {
  z_stream s; memset(&s, 0, sizeof s);
  deflateInit2(&s, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
  std::string o(deflateBound(&s, t.size()) + 100, 0);
  s.next_in = (Bytef*)t.data(); s.avail_in = t.size(); s.next_out = (Bytef*)o.data(); s.avail_out = o.size();
  deflate(&s, Z_FINISH); o.resize(o.size() - s.avail_out); deflateEnd(&s);
  return o;
}
// what is on disk, uncompressed
bool disk_is(const std::string& path, const std::string& want, bool gz) {
  std::string d = sim::slurp(path);
  if (!gz) return d == want;
  bool ok; std::string t = gunzip(d, &ok);
  return ok && t == want;
}
void benign(sim::PhaseOpts& o, const char* a, const char* b) {
  o.faults.short_read = 0.01 * sim::param(a, 0, 70); o.faults.short_write = 0.01 * sim::param(b, 0, 70);
  o.malloc_fill = sim::pick("malloc_fill", {-1, 0, 255, 256, 257});
}
std::string err(const char* n) { std::string s = sim::slurp(S() + "/err-" + n); return s.size() > 300 ? s.substr(s.size() - 300) : s; }
void hung(const sim::Outcome& r, const char* what) {
  if (r.kind == sim::Outcome::DEADLOCK || r.kind == sim::Outcome::STEPLIMIT) sim::fail("never_finishes", "%s: %s", what, r.str().c_str());
}
sim::PhaseOpts opts(const char* name) { sim::PhaseOpts o; o.name = name; o.schedule = false; o.stderr_path = S() + "/err-" + name; return o; }
void hard_writes(sim::PhaseOpts& o, size_t size) {
  switch (sim::param("write_fault", 0, 4)) {
    case 0: o.faults.write_err = sim::pick("write_err", {1, 2, 10}) * 0.1; break;
    case 1: o.faults.disk_capacity = sim::param("capacity", 0, size + 20); break;
    case 2: o.faults.disk_capacity = size - std::min<size_t>(size, sim::param_log("short_by", 1, 400)); break;
    case 3: o.faults.open_err = 0.7; o.faults.match = [](const std::string&, bool w) { return w; }; break;
    case 4: o.faults.close_err = 0.7; break;
  }
}
void hard_reads(sim::PhaseOpts& o) {
  if (sim::coin("open", 0.15)) o.faults.open_err = 0.5; else o.faults.read_err = 0.1 * sim::param("read_err", 1, 7);
  o.faults.match = [](const std::string&, bool w) { return !w; };
}
// damage to a gzip file behind its two identifying bytes; false if nothing changed
bool damage(const std::string& path, const std::string& whole) {
  sim::Rng r = sim::content("c:damage");
  std::string d = whole;
  if (c.cut = sim::coin("cut", 0.5)) d.resize(2 + (sim::coin("near_end", 0.4) ? d.size() - 2 - std::min<size_t>(d.size() - 2, sim::param("cut_bytes", 1, 12)) : (size_t)(sim::param("keep", 0, 9999) * (d.size() - 2) / 10000)));
  else for (int i = sim::param("flips", 1, 3); i > 0; --i) d[2 + r.below(d.size() - 2)] ^= (char)(1 << r.below(8));
  sim::spit(path, d);
  return d != whole;
}
void g01() {
  c = Case();
  c.gz = sim::coin("gzip", 0.6);
  c.path = S() + (c.gz ? "/text.gz" : "/text");
  c.text = make_text();
  if (c.text.empty()) sim::trivial();
  int mode = sim::pick("mode", {0, 1, 2, 3, 4});   // 0 round trip, 1 failing writes, 2 failing reads, 3 damaged file, 4 copy by name
  if (mode == 3) c.gz = true, c.path = S() + "/text.gz";
  sim::PhaseOpts w = opts("write");
  if (mode == 0) benign(w, "r1", "w1");
  if (mode == 1) { w.faults.short_write = 0.01 * sim::param("w1", 0, 50); hard_writes(w, c.gz ? gzip(c.text).size() : c.text.size()); }
  sim::Outcome o = sim::run_phase(w, writer);
  hung(o, "writing");
  if (o.ok()) {
    if (!disk_is(c.path, c.text, c.gz)) sim::fail(o.hard_faults ? "lost_silently" : "wrong_file", "the file written has %zu bytes%s; the writer reports success", sim::slurp(c.path).size(), o.hard_faults ? " after a failed write" : "");
  } else if (!o.hard_faults) sim::fail("unexpected_error", "writing: %s %s", o.str().c_str(), err("write").c_str());
  else if (!o.clean_error()) sim::fail("unexpected_end", "writing: %s %s", o.str().c_str(), err("write").c_str());
  if (mode == 1) { if (!o.hard_faults) sim::trivial(); sim::probe(o.ok() ? "write_ok" : "write_error"); return; }
  if (mode == 0 && c.gz && sim::coin("members", 0.2)) {   // a file of several members
    size_t k = sim::param("split", 0, 10000) * c.text.size() / 10000;
    sim::spit(c.path, gzip(c.text.substr(0, k)) + gzip(c.text.substr(k)));
  }
  bool damaged = c.damaged = mode == 3 && damage(c.path, sim::slurp(c.path));
  if (mode == 3 && !damaged) sim::trivial();
  sim::PhaseOpts r = opts("read");
  benign(r, "r2", "w2");
  if (mode == 2) hard_reads(r);
  if (mode == 4) {
    bool hard = sim::coin("hard", 0.6);
    if (hard) { if (sim::coin("copy_read", 0.5)) hard_reads(r); else hard_writes(r, sim::slurp(c.path).size()); }
    o = sim::run_phase(r, copier);
    hung(o, "copying");
    if (o.ok()) { if (sim::slurp(c.path + ".copy") != sim::slurp(c.path)) sim::fail(o.hard_faults ? "lost_silently" : "wrong_file", "the copy has %zu of %zu bytes and no error is reported", sim::slurp(c.path + ".copy").size(), sim::slurp(c.path).size()); }
    else if (!o.hard_faults) sim::fail("unexpected_error", "copying: %s", o.str().c_str());
    else if (!o.clean_error()) sim::fail("unexpected_end", "copying: %s", o.str().c_str());
    sim::probe(o.ok() ? "copy_ok" : "copy_error");
    return;
  }
  o = sim::run_phase(r, reader);
  hung(o, "reading");
  if (o.ok()) { sim::probe("read_ok"); return; }
  if (!o.hard_faults && !damaged) sim::fail("unexpected_error", "reading: %s %s", o.str().c_str(), err("read").c_str());
  if (!o.clean_error()) sim::fail("unexpected_end", "reading: %s %s", o.str().c_str(), err("read").c_str());
  sim::probe("read_error");
}

// ------------------------------------------------------------------ weights
double value(sim::Rng& r) {
  switch (r.below(8)) {
    case 0: return 0;
    case 1: return -(double)r.below(5);
    case 2: return (r.unit() - 0.5) * 2;
    case 3: return ldexp(r.unit() - 0.5, (int)r.below(600) - 300);
    case 4: return 1.0 / (1 + r.below(1000));
    case 5: { uint64_t b = r.next(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 3.5; }
    case 6: return r.coin(0.5) ? 4.9406564584124654e-324 : 1.7976931348623157e308;
    default: return (double)(int64_t)r.below(1u << 30) / 1024;
  }
}
void w01() {
  c = Case();
  c.gz = sim::coin("gzip", 0.6);
  c.path = S() + (c.gz ? "/weights.gz" : "/weights");
  bool hide = sim::coin("hide_zero", 0.5), comment = sim::coin("comment", 0.4);
  int n = sim::coin("many", 0.03) ? sim::param("features_many", 3000, 9000) : sim::param_log("features", 1, 60), named = sim::param("unset", 0, 3);
  sim::Rng r = sim::content("c:weights");
  std::map<std::string, double> want;
  std::vector<std::string> names; std::vector<weight_t> w(1, 0.0);
  for (int i = 0; i < n + named; ++i) {
    std::string f;
    switch (r.below(4)) {
      case 0: f = fmt("Feature_%d", i); break;
      case 1: f = fmt("%c%d:%s", (char)('A' + r.below(26)), i, r.coin(0.5) ? "x" : "\xC3\xA9"); break;
      case 2: { for (int k = 1 + r.below(30); k > 0; --k) f += "abc_-/|.,:()<>[]0123#%"[r.below(k == 1 && f.empty() ? 21 : 22)]; if (f[0] == '#') f[0] = 'q'; f += fmt("~%d", i); break; }
      case 3: f = fmt("R%d", i) + std::string(r.below(r.coin(0.1) ? 500 : 5), 'z'); break;
    }
    names.push_back(f);
    double v = i < n ? value(r) : 0;
    if (i < n) w.push_back(v);
    want[f] = v;
  }
  std::string extra = "Objective = 1.5  dev score=0.25";
  int mode = sim::pick("mode", {0, 1, 2, 3});
  if (mode == 3) c.gz = true, c.path = S() + "/weights.gz";
  auto write = [&] {
    SetSilent(true);
    for (auto& f : names) FD::Convert(f);
    Weights::WriteToFile(c.path, w, hide, comment ? &extra : 0);
    return 0;
  };
  // the text it must contain, to know whether a file that failed to be written is complete
  sim::PhaseOpts o = opts("write");
  if (mode == 0) benign(o, "r1", "w1");
  if (mode == 1) hard_writes(o, 40 * n / (c.gz ? 2 : 1) + 20);
  sim::Outcome x = sim::run_phase(o, write);
  hung(x, "writing");
  if (!x.ok()) {
    if (!x.hard_faults) sim::fail("unexpected_error", "writing weights: %s %s", x.str().c_str(), err("write").c_str());
    if (!x.clean_error()) sim::fail("unexpected_end", "writing weights: %s %s", x.str().c_str(), err("write").c_str());
    sim::probe("write_error"); return;
  }
  if (mode == 1 && !x.hard_faults) sim::trivial();
  if (mode != 3 && sim::coin("binary", 0.1)) {   // the binary format (written by builds with a perfect hash) of the same weights
    bool cut = sim::coin("binary_cut", 0.4);
    std::vector<double> all(1, 0.0);
    for (auto& f : names) all.push_back(want[f]);
    uint64_t k = all.size();
    std::string d = "_PHWf" + std::string((char*)&k, 8) + std::string((char*)&all[0], 8 * k);
    if (cut) d.resize(13 + sim::param("binary_keep", 0, 999) * (8 * k) / 1000);
    sim::spit(c.path, c.gz ? gzip(d) : d);
    o = opts("read"); benign(o, "r2", "w2");
    x = sim::run_phase(o, [&] {
      SetSilent(true);
      for (auto& f : names) FD::Convert(f);
      std::vector<weight_t> v;
      Weights::InitFromFile(c.path, &v);
      if (v.size() != all.size() || memcmp(&v[0], &all[0], 8 * k)) sim::fail("wrong_weight", "a binary weights file of %d values gives other values", (int)k);
      return 0;
    });
    hung(x, "reading binary weights");
    if (!x.ok() && !cut) sim::fail("unexpected_error", "reading binary weights: %s %s", x.str().c_str(), err("read").c_str());
    if (!x.ok() && !x.clean_error()) sim::fail("unexpected_end", "reading binary weights: %s %s", x.str().c_str(), err("read").c_str());
    sim::probe(x.ok() ? "binary_ok" : "binary_error"); return;
  }
  std::string whole = sim::slurp(c.path);
  bool ok = true; std::string plain = c.gz ? gunzip(whole, &ok) : whole;
  size_t shown = 0; for (auto& p : want) shown += !hide || p.second != 0;
  if (plain.size() < 5) { if (ok && !comment && shown < 2) sim::skip("weights files shorter than five bytes are refused"); }
  bool damaged = mode == 3 && damage(c.path, whole);
  bool used = sim::coin("dictionary_in_use", 0.3);
  o = opts("read");
  if (mode != 1) benign(o, "r2", "w2");
  if (mode == 2) hard_reads(o);
  std::map<std::string, double> got;
  uint64_t write_faults = x.hard_faults;
  x = sim::run_phase(o, [&] {
    SetSilent(true);
    std::vector<weight_t> v; std::vector<std::string> list;
    if (used) { FD::Convert("Other"); for (size_t i = 0; i < names.size(); i += 2) FD::Convert(names[names.size() - 1 - i]); v.resize(2, 0.0); }
    Weights::InitFromFile(c.path, &v, &list);
    for (unsigned i = 1; i < (unsigned)FD::NumFeats(); ++i) {
      const std::string& f = FD::Convert(i);
      double g = i < v.size() ? v[i] : 0;
      if (f == "Other" && used) { if (g) sim::fail("wrong_weight", "a feature that is not in the file got the weight %.17g", g); continue; }
      auto p = want.find(f);
      if (p == want.end()) sim::fail("wrong_weight", "a feature '%s' that was never written", f.c_str());
      if (memcmp(&g, &p->second, sizeof g) && !(g == 0 && p->second == 0)) sim::fail(write_faults ? "lost_silently" : "wrong_weight", "%s was %.17g and is %.17g", f.c_str(), p->second, g);
    }
    size_t nz = 0; for (auto& p : want) nz += !hide || p.second != 0;
    if (list.size() != nz) sim::fail(write_faults ? "lost_silently" : "weights_cut", "%zu of %zu weights are read and no error is reported", list.size(), nz);
    return 0;
  });
  hung(x, "reading");
  if (x.ok()) { sim::probe("read_ok"); return; }
  if (!x.hard_faults && !damaged) sim::fail("unexpected_error", "reading weights: %s %s", x.str().c_str(), err("read").c_str());
  if (!x.clean_error()) sim::fail("unexpected_end", "reading weights: %s %s", x.str().c_str(), err("read").c_str());
  sim::probe("read_error");
}
}  // namespace
const sim::Property sim::properties[] = {{"G01", g01}, {"W01", w01}, {0, 0}};
