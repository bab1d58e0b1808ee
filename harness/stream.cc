// S01 chains, S02 external sort, S03 queue and pool: klm/util/stream, pcqueue, thread_pool.
#include "sim.h"
#include "util/pcqueue.hh"
#include "util/thread_pool.hh"
#include "util/stream/chain.hh"
#include "util/stream/io.hh"
#include "util/stream/multi_stream.hh"
#include "util/stream/sort.hh"
#include "util/stream/stream.hh"
#include "util/file.hh"
#include <boost/thread/thread.hpp>
#include <algorithm>
#include <map>
#include <string.h>
#include <fcntl.h>

using namespace util::stream;
using sim::fmt;
typedef std::vector<std::string> Recs;

static std::string make_record(size_t entry, uint64_t i, uint64_t salt) {
  std::string r(entry, 0);
  uint64_t h = salt + i * 0x9E3779B97F4A7C15ull;
  for (size_t k = 0; k < entry; ++k) { h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; r[k] = (char)(h >> 40); }
  if (entry >= 4) { uint32_t v = (uint32_t)i; memcpy(&r[0], &v, 4); }
  return r;
}

// ------------------------------------------------------------------ S01
struct RecordLog { std::string bytes; bool ended = false; };

// writes records with Stream
struct StreamSource {
  const std::string* data; size_t entry;
  void Run(const ChainPosition& p) {
    Stream s(p);
    for (size_t i = 0; i < data->size(); i += entry) { memcpy(s.Get(), data->data() + i, entry); ++s; }
    s.Poison();
  }
};
// writes blocks of varying fill, including empty blocks
struct LinkSource {
  const std::string* data; size_t entry; uint64_t seed;
  void Run(const ChainPosition& p) {
    sim::Rng r(seed);
    Link l(p);
    size_t at = 0, max = p.GetChain().BlockSize() / entry;
    int empties = 0;
    while (at < data->size()) {
      size_t left = (data->size() - at) / entry;
      size_t k = std::min<size_t>(left, r.below(max + 1));
      if (k == 0 && ++empties > 50) k = 1;
      memcpy(l->Get(), data->data() + at, k * entry);
      l->SetValidSize(k * entry);
      at += k * entry;
      ++l;
    }
    l.Poison();
  }
};
// checks and transforms in place
struct Stage {
  RecordLog* log; int kind; unsigned char add; size_t entry;
  void Run(const ChainPosition& p) {
    if (kind == 0) {
      for (Link l(p); l; ++l) {
        log->bytes.append((const char*)l->Get(), l->ValidSize());
        for (size_t i = 0; i < l->ValidSize(); ++i) ((unsigned char*)l->Get())[i] += add;
      }
    } else {
      for (Stream s(p); s; ++s) {
        log->bytes.append((const char*)s.Get(), entry);
        for (size_t i = 0; i < entry; ++i) ((unsigned char*)s.Get())[i] += add;
      }
    }
    log->ended = true;
  }
};
// filters out some records: reads from the block and compacts in place
struct Compact {
  size_t entry; unsigned mod; RecordLog* log;
  void Run(const ChainPosition& p) {
    for (Link l(p); l; ++l) {
      char* b = (char*)l->Get(); char* out = b;
      for (char* c = b; c < b + l->ValidSize(); c += entry) {
        log->bytes.append(c, entry);
        if ((unsigned char)c[0] % mod) { if (out != c) memmove(out, c, entry); out += entry; }
      }
      l->SetValidSize(out - b);
    }
    log->ended = true;
  }
};
static std::string compacted(const std::string& d, size_t entry, unsigned mod) {
  std::string o;
  for (size_t i = 0; i < d.size(); i += entry) if ((unsigned char)d[i] % mod) o.append(d, i, entry);
  return o;
}
static std::string added(std::string d, unsigned char a) { for (char& c : d) c = (char)((unsigned char)c + a); return d; }

// one worker over several chains: reads chain 0, writes record i to chain 1+(i mod (n-1))
struct Splitter {
  size_t entry;
  void Run(const ChainPositions& ps) {
    Streams st(ps);
    uint64_t i = 0;
    for (; st[0]; ++st[0], ++i) {
      Stream& o = st[1 + i % (st.size() - 1)];
      memcpy(o.Get(), st[0].Get(), entry);
      ++o;
    }
    for (size_t k = 1; k < st.size(); ++k) st[k].Poison();
  }
};
struct Gather { RecordLog* log; size_t entry; void Run(const ChainPosition& p) { for (Stream s(p); s; ++s) log->bytes.append((const char*)s.Get(), entry); log->ended = true; } };

static void check_bytes(const char* who, const std::string& got, const std::string& want, size_t entry) {
  if (got == want) return;
  size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  sim::fail("records_differ", "%s: got %zu bytes, want %zu bytes, first difference in record %zu (record size %zu)", who, got.size(), want.size(), i / entry, entry);
}

static void bad_outcome(const sim::Outcome& o, const char* what) {
  if (o.ok()) return;
  const char* cls = o.kind == sim::Outcome::DEADLOCK ? "deadlock" : o.kind == sim::Outcome::STEPLIMIT ? "no_progress" : o.kind == sim::Outcome::SIGNALLED ? "crash" : "unexpected_error";
  sim::fail(cls, "%s ended with %s", what, o.str().c_str());
}

static void run_s01() {
  sim::PhaseOpts o;
  size_t entry = sim::pick("entry", {4, 1, 8, 12, 20, 5});
  size_t blocks = sim::param("blocks", 1, 6);
  size_t per_block = sim::param_log("per_block", 1, 20);
  size_t extra = sim::param("extra_bytes", 0, 7);
  size_t n = sim::param_log("records", 0, 150);
  int stages = sim::param("stages", 0, 4);
  int sink = sim::param("sink", 0, 5);
  int rounds = sim::param("rounds", 1, 3);
  bool link_source = sim::coin("link_source", 0.5);
  int multi = sim::param("multi", 0, 3);          // >0: number of output chains of a splitter
  int kinds[8]; for (int i = 0; i < stages; ++i) kinds[i] = sim::param(fmt("kind%d", i).c_str(), 0, 2);
  bool reuse_noRelease = sim::coin("keep_memory", 0.3);
  sim::Rng rc = sim::content("c:records");
  uint64_t salt = rc.next(), sseed = rc.next();
  bool io = sink >= 3 && sink <= 4;
  o.faults.short_read = sim::coin("short_reads", 0.5) ? 0.2 : 0;
  o.faults.short_write = sim::coin("short_writes", 0.5) ? 0.2 : 0;
  o.malloc_fill = 0xA5;
  o.step_limit = 20000000;
  std::string tmp = sim::scratch() + "/t";
  sim::Outcome out = sim::run_phase(o, [&]() -> int {
    ChainConfig cfg(entry, blocks, entry * blocks * per_block + extra);
    Chain chain(cfg);
    if (chain.BlockSize() % entry || chain.BlockSize() * blocks > cfg.total_memory) sim::fail("block_size", "block size %zu", chain.BlockSize());
    for (int round = 0; round < rounds; ++round) {
      std::string data;
      size_t rn = round ? (n * 7 + round * 3) % (n + 5) : n;
      for (size_t i = 0; i < rn; ++i) data += make_record(entry, i, salt + round);
      std::vector<RecordLog> logs(stages + 8);
      StreamSource ss = {&data, entry};
      LinkSource ls = {&data, entry, sseed + round};
      if (multi && sink == 5) {
        // splitter over several chains
        Chains chains(multi + 1);
        for (int k = 0; k <= multi; ++k) chains.push_back(ChainConfig(entry, 1 + (blocks + k) % 4, entry * (1 + (blocks + k) % 4) * (1 + (per_block + k) % 7)));
        if (link_source) chains[0] >> ls; else chains[0] >> ss;
        Splitter sp = {entry};
        chains >> sp;
        for (int k = 1; k <= multi; ++k) { Gather g = {&logs[k], entry}; chains[k] >> g; }
        chains >> kRecycle;
        chains.Wait();
        for (int k = 1; k <= multi; ++k) {
          std::string want;
          for (size_t i = 0; i < rn; ++i) if ((int)(i % multi) == k - 1) want.append(data, i * entry, entry);
          check_bytes("split chain", logs[k].bytes, want, entry);
        }
        continue;
      }
      if (link_source) chain >> ls; else chain >> ss;
      std::vector<std::string> want;
      std::string cur = data;
      for (int i = 0; i < stages; ++i) {
        want.push_back(cur);
        if (kinds[i] == 2) {
          Compact c = {entry, 3, &logs[i]};
          chain >> c; cur = compacted(cur, entry, 3);
        } else {
          Stage s = {&logs[i], kinds[i], (unsigned char)(3 + 2 * i), entry};
          chain >> s; cur = added(cur, 3 + 2 * i);
        }
      }
      std::string got;
      if (sink == 0 || sink == 5) {
        ChainPosition pos(chain.Add()); chain >> kRecycle; Stream s(pos);
        for (; s; ++s) got.append((const char*)s.Get(), entry);
      } else if (sink == 1) {
        ChainPosition pos(chain.Add()); chain >> kRecycle; Link l(pos);
        for (; l; ++l) got.append((const char*)l->Get(), l->ValidSize());
      } else if (sink == 2) {
        Gather g = {&logs[stages], entry};
        chain >> g;      // loop completed by Wait
      } else {
        int fd = util::CreateOrThrow((tmp + fmt("%d", round)).c_str());
        if (sink == 3) chain >> WriteAndRecycle(fd);
        else chain >> PWriteAndRecycle(fd);
        chain.Wait(!reuse_noRelease);
        // read it back through a second chain with another geometry
        Chain back(ChainConfig(entry, 1 + blocks % 3, entry * (1 + blocks % 3) * (1 + per_block / 2)));
        std::string again;
        if (sink == 3) util::SeekOrThrow(fd, 0);
        if (sink == 4) back >> PRead(fd); else back >> Read(fd);
        { ChainPosition pos(back.Add()); back >> kRecycle; Stream s(pos);
        for (; s; ++s) again.append((const char*)s.Get(), entry); }
        back.Wait();
        got = again;
        close(fd);
      }
      chain.Wait(!reuse_noRelease);
      if (sink == 2) { got = logs[stages].bytes; if (!logs[stages].ended) sim::fail("end_missing", "sink did not see the end"); }
      for (int i = 0; i < stages; ++i) {
        check_bytes(fmt("stage %d round %d", i, round).c_str(), logs[i].bytes, want[i], entry);
        if (!logs[i].ended) sim::fail("end_missing", "stage %d did not finish before Wait returned", i);
      }
      check_bytes(fmt("consumer round %d", round).c_str(), got, cur, entry);
    }
    return 0;
  });
  (void)io;
  bad_outcome(out, "chain");
  if (n == 0) sim::trivial();
  sim::note("records=%zu stages=%d sink=%d blocks=%zu ", n, stages, sink, blocks);
}

// ------------------------------------------------------------------ S02
struct KeyCompare {
  size_t klen; bool desc;
  bool operator()(const void* a, const void* b) const { int c = memcmp(a, b, klen); return desc ? c > 0 : c < 0; }
};
struct SumCombine {
  size_t klen;
  template <class C> bool operator()(void* into, const void* opt, const C& cmp) const {
    if (cmp(into, opt)) return false;
    uint64_t a, b;
    memcpy(&a, (char*)into + klen, 8); memcpy(&b, (const char*)opt + klen, 8);
    a += b; memcpy((char*)into + klen, &a, 8);
    return true;
  }
};
static void run_s02() {
  size_t klen = sim::pick("klen", {4, 1, 2, 8, 12, 5});
  bool combine = sim::coin("combine", 0.4);
  size_t entry = klen + (combine ? 8 : sim::pick("payload", {4, 0, 3, 8, 16}));
  size_t n = sim::param_log("records", 0, 400);
  size_t keyspace = sim::param_log("keyspace", 1, 5000);
  size_t blocks = sim::param("blocks", 1, 4);
  size_t per_block = sim::param_log("per_block", 1, 40);
  size_t buf_recs = sim::param("buf_recs", 1, 5);
  size_t buf_extra = sim::param("buf_extra", 0, 3);
  size_t mem_mult = sim::param("mem_mult", 4, 12);
  size_t mem_extra = sim::param("mem_extra", 0, 30);
  int method = sim::param("method", 0, 3);
  size_t lazy = sim::param_log("lazy", 0, 2000);
  size_t out_blocks = sim::param("out_blocks", 1, 3), out_per = sim::param_log("out_per", 1, 30);
  bool desc = sim::coin("desc", 0.2);
  bool presorted = sim::coin("presorted", 0.2);
  int fault = sim::param("fault", 0, 9);    // 0-4 none/benign, 5.. hard
  sim::Rng rc = sim::content("c:keys");
  sim::PhaseOpts o;
  o.step_limit = 60000000;
  o.malloc_fill = 0x5A;
  static const double rates[] = {0.002, 0.01, 0.05, 0.2};
  double rate = rates[sim::param("rate", 0, 3)];
  if (fault >= 1) { o.faults.short_read = sim::coin("short_reads", 0.6) ? 0.2 : 0; o.faults.short_write = sim::coin("short_writes", 0.6) ? 0.2 : 0; }
  if (fault == 4) o.faults.eintr = 0.05;
  if (fault == 5) o.faults.read_err = rate;
  if (fault == 6) o.faults.write_err = rate;
  if (fault == 7) o.faults.disk_capacity = sim::param_log("capacity", 0, 1 << 14);
  if (fault == 8) o.faults.pread_eof = rate;
  if (fault == 9) { o.faults.seek_err = rate; o.faults.trunc_err = rate; o.faults.mkstemp_err = rate / 2; }
  if (method == 2 && combine) method = 0;
  std::vector<std::string> in;
  for (size_t i = 0; i < n; ++i) {
    std::string r = make_record(entry, i, 99);
    uint64_t k = rc.below(keyspace);
    uint64_t kh = k * 0x9E3779B97F4A7C15ull;
    for (size_t b = 0; b < klen; ++b) r[b] = (char)(kh >> (56 - 8 * (b % 8)));
    if (combine) { uint64_t one = 1 + rc.below(5); memcpy(&r[klen], &one, 8); }
    in.push_back(r);
  }
  KeyCompare cmp = {klen, desc};
  if (presorted) std::stable_sort(in.begin(), in.end(), [&](const std::string& a, const std::string& b) { return cmp(a.data(), b.data()); });
  std::string data; for (auto& r : in) data += r;
  SortConfig sc;
  sc.temp_prefix = sim::scratch() + "/tmp";
  sc.buffer_size = buf_recs * entry + buf_extra % entry;
  sc.total_memory = sc.buffer_size * mem_mult + mem_extra;
  sim::Outcome out = sim::run_phase(o, [&]() -> int {
    std::string got;
    StreamSource src = {&data, entry};
    ChainConfig cfg(entry, blocks, entry * blocks * per_block);
    ChainConfig ocfg(entry, out_blocks, entry * out_blocks * out_per);
    auto drain = [&](Chain& c) { ChainPosition pos(c.Add()); c >> kRecycle; Stream s(pos); for (; s; ++s) got.append((const char*)s.Get(), entry); };
    if (combine) {
      SumCombine sum = {klen};
      Chain chain(cfg);
      chain >> src;
      Sort<KeyCompare, SumCombine> sorter(chain, sc, cmp, sum);
      chain.Wait(true);
      Chain oc(ocfg);
      if (method == 0) sorter.Output(oc, lazy);
      else if (method == 1) sorter.Output(oc);
      else { int fd = sorter.StealCompleted(); oc >> PRead(fd, true); }
      drain(oc);
      oc.Wait();
    } else if (method == 2) {
      Chain chain(cfg);
      chain >> src;
      uint64_t sz = BlockingSort<KeyCompare, NeverCombine>(chain, sc, cmp);
      if (sz != data.size() && sim::hard_faults() == 0) sim::fail("size", "sorted size %llu, want %zu", (unsigned long long)sz, data.size());
      drain(chain);
      chain.Wait();
    } else {
      Chain chain(cfg);
      chain >> src;
      Sort<KeyCompare> sorter(chain, sc, cmp);
      chain.Wait(true);
      Chain oc(ocfg);
      if (method == 0) { size_t l = lazy; if (sim::fmt("%zu", l).size() > 3) { size_t need = sorter.Merge(l); (void)need; } sorter.Output(oc, l); }
      else if (method == 1) sorter.Output(oc);
      else { int fd = sorter.StealCompleted(); oc >> PRead(fd, true); }
      drain(oc);
      oc.Wait();
    }
    sim::publish(got);
    return 0;
  });
  if (out.kind == sim::Outcome::DEADLOCK) sim::fail("deadlock", "sort: %s", out.str().c_str());
  if (out.kind == sim::Outcome::STEPLIMIT) sim::fail("no_progress", "sort: %s", out.str().c_str());
  if (out.kind == sim::Outcome::SIGNALLED) sim::fail("crash", "sort: %s", out.str().c_str());
  if (!out.ok()) {
    if (!out.hard_faults) sim::fail("unexpected_error", "sort without hard faults ended with %s", out.str().c_str());
    sim::probe("error_reported");
    sim::note("n=%zu fault=%d -> %s ", n, fault, out.kind_name());
    return;
  }
  if (out.hard_faults) sim::probe("survived_hard_fault");
  std::string got = sim::result();
  if (got.size() % entry) sim::fail("size", "output is not a whole number of records");
  std::vector<std::string> g;
  for (size_t i = 0; i < got.size(); i += entry) g.push_back(got.substr(i, entry));
  for (size_t i = 1; i < g.size(); ++i) if (cmp(g[i].data(), g[i - 1].data())) sim::fail("order", "output record %zu is out of order", i);
  if (combine) {
    std::map<std::string, uint64_t> want, have;
    std::map<std::string, int> times;
    for (auto& r : in) { uint64_t v; memcpy(&v, &r[klen], 8); want[r.substr(0, klen)] += v; }
    for (auto& r : g) { uint64_t v; memcpy(&v, &r[klen], 8); have[r.substr(0, klen)] += v; ++times[r.substr(0, klen)]; }
    if (want != have) sim::fail("combined_totals", "combined totals differ (%zu keys wanted, %zu delivered)", want.size(), have.size());
    // with several sorted runs everything passes a merge, so keys are unique
    size_t runs = (n + per_block - 1) / per_block;
    if (runs >= 2) for (auto& t : times) if (t.second > 1) sim::fail("not_combined", "an equal key appears %d times after a merge", t.second);
    if (runs >= 2) sim::probe("merged_with_combiner");
  } else {
    std::vector<std::string> a = in, b = g;
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (a != b) sim::fail("multiset", "delivered %zu records, want %zu, contents differ", b.size(), a.size());
  }
  if (n < 2) sim::trivial();
  sim::note("n=%zu runs=%zu method=%d fault=%d ", n, per_block ? (n + per_block - 1) / per_block : 0, method, fault);
}

// ------------------------------------------------------------------ S03
static std::vector<int>* g_handled;
static int g_in_handler;
struct PoolHandler {
  typedef int Request;
  int extra;
  std::vector<int>* log; int work;
  struct Args { std::vector<int>* log; int work; };
  PoolHandler(const Args& a) : log(a.log), work(a.work) {}
  void operator()(int r) {
    for (int i = 0; i < work; ++i) sim::yield("handler");
    sim::NoPreempt np;
    log->push_back(r);
  }
};
static void run_s03() {
  bool pool = sim::coin("pool", 0.4);
  size_t cap = sim::param_log("capacity", 1, 8);
  int prod = sim::param("producers", 1, 4), cons = sim::param("consumers", 1, 4);
  int items = sim::param_log("items", 0, 40);
  int work = sim::param("work", 0, 3);
  sim::PhaseOpts o;
  o.malloc_fill = 0xC3;
  o.step_limit = 20000000;
  sim::Outcome out = sim::run_phase(o, [&]() -> int {
    if (pool) {
      std::vector<int> log;
      PoolHandler::Args args = {&log, work};
      {
        util::ThreadPool<PoolHandler> tp(cap, cons, args, -1);
        std::vector<boost::thread*> ps;
        for (int p = 1; p < prod; ++p) ps.push_back(new boost::thread([&tp, p, items]() { for (int i = 0; i < items; ++i) tp.Produce(p * 1000 + i); }));
        for (int i = 0; i < items; ++i) tp.Produce(i);
        for (auto t : ps) { t->join(); delete t; }
      }
      size_t at_stop = log.size();
      std::vector<int> s = log;
      std::sort(s.begin(), s.end());
      std::vector<int> want;
      for (int p = 0; p < prod; ++p) for (int i = 0; i < items; ++i) want.push_back(p * 1000 + i);
      if (s != want) sim::fail("pool_requests", "%zu requests handled when the pool stopped, %zu handed in%s", at_stop, want.size(), s.size() == want.size() ? " (wrong ones)" : "");
      return 0;
    }
    util::PCQueue<int> q(cap);
    std::vector<std::vector<int> > got(cons);
    long produced_started = 0, produced = 0, consumed = 0, consumed_done = 0;
    std::vector<boost::thread*> ts;
    for (int p = 0; p < prod; ++p) ts.push_back(new boost::thread([&, p]() {
      for (int i = 0; i < items; ++i) {
        q.Produce(p * 1000 + i);
        sim::NoPreempt np;
        ++produced;
        // items whose Produce returned and that nobody started to take
        if (produced - consumed > (long)cap) sim::fail("capacity", "%ld items produced, %ld taken or being taken, capacity %zu", produced, consumed, cap);
      }
    }));
    for (int c = 0; c < cons; ++c) ts.push_back(new boost::thread([&, c]() {
      for (;;) {
        { sim::NoPreempt np; ++consumed; }
        int v = -7;
        if (c % 2) v = q.Consume(); else q.Consume(v);
        { sim::NoPreempt np; ++consumed_done; }
        if (v == -1) return;
        got[c].push_back(v);
      }
    }));
    for (int p = 0; p < prod; ++p) ts[p]->join();
    for (int c = 0; c < cons; ++c) q.Produce(-1);
    for (size_t i = prod; i < ts.size(); ++i) ts[i]->join();
    (void)produced_started; (void)consumed_done;
    std::vector<int> all;
    for (int c = 0; c < cons; ++c) {
      std::map<int, int> last;
      for (int v : got[c]) {
        all.push_back(v);
        int p = v / 1000;
        if (last.count(p) && last[p] >= v) sim::fail("fifo", "consumer %d received %d after %d of the same producer", c, v, last[p]);
        last[p] = v;
      }
    }
    std::sort(all.begin(), all.end());
    std::vector<int> want;
    for (int p = 0; p < prod; ++p) for (int i = 0; i < items; ++i) want.push_back(p * 1000 + i);
    if (all != want) sim::fail("exactly_once", "%zu items delivered, %zu produced%s", all.size(), want.size(), all.size() == want.size() ? " (contents differ)" : "");
    return 0;
  });
  bad_outcome(out, pool ? "pool" : "queue");
  if (items == 0) sim::trivial();
  sim::note("pool=%d cap=%zu producers=%d consumers=%d items=%d ", pool, cap, prod, cons, items);
}

namespace sim { const Property properties[] = {{"S01", run_s01}, {"S02", run_s02}, {"S03", run_s03}, {0, 0}}; }
