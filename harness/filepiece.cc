// F01, F02: FilePiece and ReadCompressed over plain and compressed files.
#include "sim.h"
#include "util/file_piece.hh"
#include "util/read_compressed.hh"
#include "util/file.hh"
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <algorithm>
#include <fstream>
#include <limits>
#include <sstream>
#include <string.h>
#include <math.h>
using sim::fmt;

static std::string gz(const std::string& d, int level, bool name) {
  z_stream s; memset(&s, 0, sizeof s);
  deflateInit2(&s, level, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
  gz_header h; memset(&h, 0, sizeof h);
  if (name) { h.name = (Bytef*)"some/name.txt"; h.comment = (Bytef*)"comment"; deflateSetHeader(&s, &h); }
  std::string out(deflateBound(&s, d.size()) + 200, 0);
  s.next_in = (Bytef*)d.data(); s.avail_in = d.size(); s.next_out = (Bytef*)&out[0]; s.avail_out = out.size();
  deflate(&s, Z_FINISH); out.resize(s.total_out); deflateEnd(&s);
  return out;
}
static std::string bz(const std::string& d, int level) {
  std::string out(d.size() + d.size() / 50 + 1000, 0);
  unsigned n = out.size();
  BZ2_bzBuffToBuffCompress(&out[0], &n, (char*)d.data(), d.size(), level < 1 ? 1 : level, 0, 0);
  out.resize(n); return out;
}
static std::string xz(const std::string& d, int level) {
  std::string out(lzma_stream_buffer_bound(d.size()), 0);
  size_t pos = 0;
  lzma_easy_buffer_encode(level > 2 ? 2 : level, LZMA_CHECK_CRC64, 0, (const uint8_t*)d.data(), d.size(), (uint8_t*)&out[0], &pos, out.size());
  out.resize(pos); return out;
}
static std::string member(const std::string& d, int kind, sim::Rng& r) {
  return kind == 1 ? gz(d, r.below(10), r.coin(0.3)) : kind == 2 ? bz(d, 1 + r.below(9)) : xz(d, r.below(3));
}
// text made of tokens, so that numbers can be read where they stand
static std::string make_text(sim::Rng& r, size_t size, int style) {
  std::string s;
  while (s.size() < size) {
    int k = r.below(10);
    if (style == 2) { size_t n = r.range(1, 5000); for (size_t i = 0; i < n; ++i) s += (char)r.next(); continue; }
    if (k < 3) { s += fmt("%lld", (long long)r.range(-1000000, 1000000)); }
    else if (k < 5) { s += r.coin(0.5) ? fmt("%.6g", (r.unit() - 0.5) * pow(10, r.range(-8, 8))) : r.coin(0.1) ? std::string(r.coin(0.5) ? "inf" : "-inf") : fmt("%lld.%lld", (long long)r.range(-99, 99), (long long)r.range(0, 99999)); }
    else {
      size_t n = style == 1 && r.coin(0.02) ? r.range(3000, 22000) : r.coin(0.1) ? r.range(1, 300) : r.range(1, 8);
      for (size_t i = 0; i < n; ++i) { char c = (char)r.range(33, 255); s += c; }
    }
    int z = r.below(20);
    s += z < 12 ? " " : z < 17 ? "\n" : z == 17 ? "\t" : z == 18 ? "\n\n" : r.coin(0.5) ? "  \n" : "\r\n";
  }
  s.resize(size);
  // nothing that looks like a compressed file
  if (s.size() >= 1 && ((unsigned char)s[0] == 0x1f || s[0] == 'B' || (unsigned char)s[0] == 0xFD)) s[0] = 'x';
  return s;
}
static bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }

static std::string plain_of(StringPiece p) { return std::string(p.data(), p.size()); }

struct Stop {};
// reads through FilePiece following a seeded sequence of operations; compares with the expected text as it goes
static void drive(util::FilePiece& f, const std::string& t, sim::Rng& r, int mix, bool* done) {
  size_t pos = 0;
  auto bad = [&](const char* op, const std::string& got, const std::string& want) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    size_t from = i > 10 ? i - 10 : 0;
    sim::fail("wrong_bytes", "%s at byte %zu of %zu: got %zu bytes, expected %zu; they differ at %zu: got '%s', expected '%s'", op, pos, t.size(), got.size(), want.size(), i,
              sim::hexdump(got.substr(std::min(from, got.size())), 30).c_str(), sim::hexdump(want.substr(std::min(from, want.size())), 30).c_str());
  };
  int eofs = 0; bool last3 = false;
  auto eof = [&](const char* op) {
    if (pos != t.size()) sim::fail("early_end", "%s reports end of input at byte %zu of %zu", op, pos, t.size());
    ++eofs;
  };
  auto skip_to = [&](size_t p) { while (p < t.size() && space(t[p])) ++p; return p; };
  for (;;) {
    if (eofs >= 1 && r.coin(0.7)) { *done = true; return; }
    int op;
    switch (mix) {
      case 0: op = 0; break;                          // lines
      case 1: op = 2; break;                          // words
      case 2: op = r.coin(0.5) ? 1 : 4; break;        // characters and words on a line
      case 4: { size_t b = skip_to(pos); op = b < t.size() && strchr("0123456789-", t[b]) ? 3 : 6; if (!last3) { last3 = op == 3; } else { last3 = false; op = 6; } break; }   // numbers
      default: op = r.below(8);
    }
    {
      uint64_t off = f.Offset();
      if (off != pos) sim::fail("wrong_offset", "Offset() is %llu after %zu bytes were consumed", (unsigned long long)off, pos);
    }
    size_t e;
    switch (op) {
      case 0: case 5: {
        char d = op == 5 && r.coin(0.3) ? " \tx\0"[r.below(4)] : '\n';
        std::string got; bool end = false;
        if (r.coin(0.5)) { try { got = plain_of(f.ReadLine(d)); } catch (util::EndOfFileException&) { end = true; } }
        else { StringPiece p; if (f.ReadLineOrEOF(p, d)) got = plain_of(p); else end = true; }
        if (end) { eof("ReadLine"); break; }
        if (pos >= t.size()) { bad("ReadLine after the end", got, ""); }
        e = t.find(d, pos);
        std::string want = t.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
        if (got != want) bad("ReadLine", got, want);
        pos = e == std::string::npos ? t.size() : e + 1;
        break;
      }
      case 1: {
        int n = mix == 2 ? r.range(1, 400) : r.range(1, 4);
        for (int i = 0; i < n; ++i) {
          char c; try { c = f.get(); } catch (util::EndOfFileException&) { eof("get"); break; }
          if (pos >= t.size() || c != t[pos]) bad("get", std::string(1, c), pos < t.size() ? std::string(1, t[pos]) : "");
          ++pos;
        }
        break;
      }
      case 2: case 6: {
        std::string got;
        try { got = plain_of(f.ReadDelimited()); } catch (util::EndOfFileException&) { pos = skip_to(pos); eof("ReadDelimited"); break; }
        pos = skip_to(pos);
        e = pos; while (e < t.size() && !space(t[e])) ++e;
        if (got != t.substr(pos, e - pos) || got.empty()) bad("ReadDelimited", got, t.substr(pos, e - pos));
        pos = e;
        break;
      }
      case 3: {   // a number, when one stands here
        size_t b = skip_to(pos); e = b; while (e < t.size() && !space(t[e])) ++e;
        std::string tok = t.substr(b, e - b);
        if (tok.empty() || tok.find_first_not_of("0123456789-+.einf") != std::string::npos) break;
        char* end; double v = strtod(tok.c_str(), &end);
        if (*end) break;
        bool integer = tok.find_first_of(".einf") == std::string::npos;
        int how = r.below(integer ? 4 : 2);
        try {
          if (how == 0) { float g = f.ReadFloat(); float w = (float)v; if (!(g == w || fabs(g - w) <= 1e-6 * fabs(w) || (isnan(g) && isnan(w)))) bad("ReadFloat", fmt("%.9g", g), tok); }
          else if (how == 1) { double g = f.ReadDouble(); if (g != v && !(isnan(g) && isnan(v))) bad("ReadDouble", fmt("%.17g", g), tok); }
          else if (how == 2) { long g = f.ReadLong(); if (g != strtol(tok.c_str(), 0, 10)) bad("ReadLong", fmt("%ld", g), tok); }
          else { unsigned long g = f.ReadULong(); if (g != strtoul(tok.c_str(), 0, 10)) bad("ReadULong", fmt("%lu", g), tok); }
        } catch (util::EndOfFileException&) { sim::fail("early_end", "a number read reports end of input before '%s' at byte %zu", tok.c_str(), b); }
        catch (util::ParseNumberException&) { sim::fail("wrong_number", "number '%s' at byte %zu is not parsed", tok.c_str(), b); }
        sim::probe("numbers");
        pos = e;
        break;
      }
      case 4: case 7: {
        StringPiece p; bool got = f.ReadWordSameLine(p);
        std::string g = got ? plain_of(p) : "";
        while (pos < t.size() && t[pos] != '\n' && space(t[pos])) ++pos;
        bool want = pos < t.size() && t[pos] != '\n';
        e = pos; if (want) while (e < t.size() && !space(t[e])) ++e;
        if (got != want) { if (!got) sim::fail("early_end", "ReadWordSameLine finds no word at byte %zu of %zu", pos, t.size()); bad("ReadWordSameLine", g, ""); }
        if (got && g != t.substr(pos, e - pos)) bad("ReadWordSameLine", g, t.substr(pos, e - pos));
        pos = e;
        if (!got) {
          if (pos == t.size()) ++eofs;
          else { char c = f.get(); if (c != '\n') bad("get", std::string(1, c), "\n"); ++pos; }
        }
        break;
      }
    }
  }
}

struct Source { std::string raw, text; int kind; size_t members; std::vector<size_t> ends; };
static Source make_source(bool compressed_only) {
  Source s;
  s.kind = sim::param("format", compressed_only ? 1 : 0, 4);   // 0 plain 1 gz 2 bz2 3 xz 4 mixed members
  size_t size = sim::param_log("size", 0, 70000);
  int style = sim::param("style", 0, 2);
  sim::Rng r = sim::content("c:text");
  s.text = make_text(r, size, style);
  s.members = 1;
  if (s.kind == 0) { s.raw = s.text; return s; }
  s.members = sim::param("members", 1, 4);
  size_t at = 0;
  for (size_t m = 0; m < s.members; ++m) {
    size_t n = m + 1 == s.members ? s.text.size() - at : r.coin(0.2) ? 0 : r.below(s.text.size() - at + 1);
    int k = s.kind == 4 ? 1 + r.below(3) : s.kind;
    s.raw += member(s.text.substr(at, n), k, r);
    s.ends.push_back(s.raw.size());
    at += n;
  }
  return s;
}
static void run_reader(const Source& src, const std::string& path, int api, int mix, size_t min_buffer, bool* done, uint64_t seed) {
  sim::Rng r(seed);
  *done = false;
  if (api <= 1) {
    if (api == 0) { util::FilePiece f(path.c_str(), NULL, min_buffer); drive(f, src.text, r, mix, done); }
    else { util::FilePiece f(util::OpenReadOrThrow(path.c_str()), NULL, NULL, min_buffer); drive(f, src.text, r, mix, done); }
  } else if (api == 2) {
    std::istringstream in(src.text);
    util::FilePiece f(in, "stream", min_buffer); drive(f, src.text, r, mix, done);
  } else {
    util::ReadCompressed rc(util::OpenReadOrThrow(path.c_str()));
    std::string got;
    size_t cap = api == 3 ? r.range(1, 64) : r.range(1, 40000);
    std::string buf(cap, 0);
    int zeros = 0;
    for (;;) {
      size_t want = 1 + r.below(cap), n;
      bool full = r.coin(0.3);
      n = full ? rc.ReadOrEOF(&buf[0], want) : rc.Read(&buf[0], want);
      if (n > want) sim::fail("wrong_bytes", "Read returned %zu bytes for a request of %zu", n, want);
      if (src.text.compare(got.size(), n, buf, 0, n) || got.size() + n > src.text.size())
        sim::fail("wrong_bytes", "Read delivers different bytes near byte %zu of %zu", got.size(), src.text.size());
      got.append(buf, 0, n);
      if (full && n < want && n) { if (got.size() != src.text.size()) sim::fail("early_end", "ReadOrEOF stops at byte %zu of %zu", got.size(), src.text.size()); }
      if (n == 0) { if (got.size() != src.text.size()) sim::fail("early_end", "Read reports end of input at byte %zu of %zu", got.size(), src.text.size()); if (++zeros == 2) break; }
    }
    *done = true;
  }
}
// damaged contents: bytes may come out wrong as long as an error follows, so compare at the end only
static void run_collect(const Source& src, const std::string& path, int api, size_t min_buffer, uint64_t seed) {
  sim::Rng r(seed);
  std::string got, want = src.text;
  if (api <= 1) {
    auto lines = [&](util::FilePiece& f) { StringPiece l; while (f.ReadLineOrEOF(l)) { got.append(l.data(), l.size()); got += '\n'; } };
    if (api == 0) { util::FilePiece f(path.c_str(), NULL, min_buffer); lines(f); }
    else { util::FilePiece f(util::OpenReadOrThrow(path.c_str()), NULL, NULL, min_buffer); lines(f); }
    if (!want.empty() && want[want.size() - 1] != '\n') want += '\n';
  } else {
    util::ReadCompressed rc(util::OpenReadOrThrow(path.c_str()));
    std::string buf(api == 3 ? r.range(1, 64) : r.range(1, 40000), 0);
    while (size_t n = r.coin(0.3) ? rc.ReadOrEOF(&buf[0], buf.size()) : rc.Read(&buf[0], buf.size() == 1 << 20 ? buf.size() : 1 + r.below(buf.size()))) {
      got.append(buf, 0, n);
      if (got.size() > want.size() + 100000 && buf.size() < 1 << 20) buf.resize(1 << 20);      // a damaged block may expand to many megabytes before its checksum is seen
    }
  }
  if (got != want) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    sim::fail("damage_not_reported", "a damaged compressed file is read to its end without an error and delivers %zu bytes instead of %zu, different from byte %zu on", got.size(), want.size(), i);
  }
}
static void run_f01() {
  Source s = make_source(false);
  std::string path = sim::scratch() + "/input";
  sim::spit(path, s.raw);
  if (s.text.empty()) sim::trivial();
  int api = sim::param("api", 0, 4);
  if (api == 2 && s.kind) api = 0;
  int mix = sim::param("operations", 0, 4);
  size_t min_buffer = sim::pick("min_buffer", {1, 1 << 20, 4096, 8192, 20000, 3 * 4096 - 1});
  sim::PhaseOpts o;
  o.step_limit = 60000000;
  o.malloc_fill = sim::coin("fill", 0.5) ? 256 : -1;
  o.faults.short_read = sim::pick("short_read", {0, 20, 300, 900}) / 1000.0;
  o.faults.eintr = sim::pick("eintr", {0, 0, 100, 500}) / 1000.0;
  o.faults.mmap_fail = sim::pick("mmap_fail", {0, 0, 300, 1000}) / 1000.0;
  uint64_t seed = sim::param("c:ops", 0, 1 << 30);
  sim::probe(fmt("format_%d", s.kind).c_str());
  sim::Outcome oc = sim::run_phase(o, [&]() {
    bool done;
    run_reader(s, path, api, mix, min_buffer, &done, seed);
    return done ? 0 : 3;
  });
  if (oc.kind == sim::Outcome::STEPLIMIT || oc.kind == sim::Outcome::DEADLOCK) sim::fail("no_progress", "reading a complete file: %s", oc.str().c_str());
  if (!oc.ok()) sim::fail(oc.kind == sim::Outcome::SIGNALLED ? "crash" : "unexpected_error", "reading a complete file (format %d, %zu bytes): %s", s.kind, s.text.size(), oc.str().c_str());
}
static void run_f02() {
  int damage = sim::param("damage", 0, 3);    // 0 I/O error, 1 cut, 2 flipped bytes, 3 lost block (zeroed or removed bytes)
  Source s = make_source(damage != 0);
  std::string path = sim::scratch() + "/input";
  std::string raw = s.raw;
  sim::PhaseOpts o;
  o.step_limit = damage >= 2 ? 1000000000 : 20000000;
  bool must_error = false;
  size_t where = 0;
  if (damage == 0) {
    o.faults.read_err = sim::pick("rate", {1000, 300, 100, 30}) / 1000.0;
    o.faults.max_hard = sim::param("max_errors", 1, 3);
  } else {
    if (raw.size() < 8) { sim::trivial(); return; }
    sim::Rng r = sim::content("c:damage");
    if (damage == 1) {
      where = r.range(6, raw.size() - 1);
      if (r.coin(0.3)) where = std::max<size_t>(6, raw.size() - 1 - r.below(std::min<size_t>(24, raw.size() - 6)));
      raw.resize(where);
      must_error = true;
      for (size_t e : s.ends) if (e == where) must_error = false;     // cut between members: a complete shorter file
      if (!must_error) { sim::trivial(); return; }
    } else if (damage == 2) {
      int n = 1 + r.below(3);
      where = raw.size();
      for (int i = 0; i < n; ++i) { size_t p = r.range(6, raw.size() - 1); raw[p] = (char)(raw[p] ^ (1 << r.below(8))); where = std::min(where, p); }
    } else {
      where = r.range(6, raw.size() - 1);
      size_t n = 1 + r.below(raw.size() - where);
      if (r.coin(0.5)) raw.erase(where, std::max<size_t>(1, n / 2)); else for (size_t i = 0; i < n; ++i) raw[where + i] = 0;
      for (size_t e : s.ends) if (raw.size() == e && raw == s.raw.substr(0, e)) { sim::trivial(); return; }
      // a whole member may have been removed
      if (raw.size() < s.raw.size() && s.members > 1) { sim::trivial(); return; }
    }
  }
  sim::spit(path, raw);
  int api = sim::param("api", 0, 3); if (api >= 2) ++api;   // FilePiece by name / descriptor, ReadCompressed small / large
  int mix = sim::param("operations", 0, 4);
  size_t min_buffer = sim::pick("min_buffer", {1, 1 << 20, 8192, 20000});
  o.faults.short_read = sim::pick("short_read", {0, 0, 20, 300}) / 1000.0;
  o.faults.eintr = sim::pick("eintr", {0, 0, 100}) / 1000.0;
  o.faults.mmap_fail = sim::pick("mmap_fail", {1000, 0, 300}) / 1000.0;
  uint64_t seed = sim::param("c:ops", 0, 1 << 30);
  sim::Outcome oc = sim::run_phase(o, [&]() {
    bool done = false;
    if (damage >= 2) run_collect(s, path, api, min_buffer, seed);
    else run_reader(s, path, api, mix, min_buffer, &done, seed);
    return 0;
  });
  const char* what[] = {"read error", "file cut short", "flipped bits", "zeroed or removed bytes"};
  if (oc.kind == sim::Outcome::STEPLIMIT || oc.kind == sim::Outcome::DEADLOCK)
    sim::fail("no_progress", "%s (format %d, %zu of %zu bytes, damage at %zu): the reader never ends: %s", what[damage], s.kind, raw.size(), s.raw.size(), where, oc.str().c_str());
  if (oc.kind == sim::Outcome::SIGNALLED) sim::fail("crash", "%s (format %d, damage at %zu): %s", what[damage], s.kind, where, oc.str().c_str());
  if (oc.kind == sim::Outcome::ABORTED) sim::fail("abort", "%s (format %d, damage at %zu): the program is aborted instead of an error being raised: %s", what[damage], s.kind, where, oc.str().c_str());
  if (oc.ok()) {
    // everything was delivered exactly (checked on the way)
    if (must_error) sim::fail("damage_not_reported", "file cut at %zu of %zu bytes is read to its end without an error", where, s.raw.size());
    if (damage == 0 && oc.hard_faults) sim::fail("damage_not_reported", "a read error is swallowed");
    sim::probe("harmless_damage");
  } else sim::probe("error_reported");
  if (damage == 0 && !oc.hard_faults) { sim::probe("no_fault_struck"); if (!oc.ok()) sim::fail("unexpected_error", "%s", oc.str().c_str()); }
}
namespace sim { const Property properties[] = {{"F01", run_f01}, {"F02", run_f02}, {0, 0}}; }
