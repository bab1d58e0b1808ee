// O01: optimizers stopped and restored from their saved state (training/utils/optimize).
#include "sim.h"
#include <math.h>
#include <string.h>
#include <fstream>
#include <memory>
#include <sstream>
#include "optimize.h"
using sim::fmt;

namespace {
std::string S() { return sim::scratch(); }
typedef std::vector<double> Vec;
struct Case {
  int kind, n, m; double eta_plus, eta_minus, delta0, dmax, dmin;
  int objective; Vec a, b, q, start; int steps;
} c;

double f(const Vec& x, Vec* g) {
  int n = c.n; double v = 0; g->assign(n, 0.0);
  switch (c.objective) {
    case 0:   // convex quadratic
      for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < n; ++j) { double h = i == j ? c.a[i] : c.q[i * n + j] + c.q[j * n + i]; t += h * x[j]; } v += 0.5 * x[i] * t + c.b[i] * x[i]; (*g)[i] = t + c.b[i]; }
      break;
    case 1:   // logistic losses with L2
      for (int k = 0; k < n; ++k) { double z = c.b[k]; for (int j = 0; j < n; ++j) z += c.q[k * n + j] * x[j]; double e = z > 0 ? z + log1p(exp(-z)) : log1p(exp(z)), s = 1 / (1 + exp(-z)); v += e; for (int j = 0; j < n; ++j) (*g)[j] += s * c.q[k * n + j]; }
      for (int i = 0; i < n; ++i) { v += 0.05 * x[i] * x[i]; (*g)[i] += 0.1 * x[i]; }
      break;
    case 2:   // Rosenbrock
      for (int i = 0; i + 1 < n; ++i) { double p = x[i + 1] - x[i] * x[i], r = 1 - x[i]; v += 10 * p * p + r * r; (*g)[i] += -40 * p * x[i] - 2 * r; (*g)[i + 1] += 20 * p; }
      if (n == 1) { v = (x[0] - 3) * (x[0] - 3); (*g)[0] = 2 * (x[0] - 3); }
      break;
    case 3:   // waves
      for (int i = 0; i < n; ++i) { v += c.a[i] * x[i] * x[i] / 8 + cos(x[i] * 2 + c.b[i]); (*g)[i] = c.a[i] * x[i] / 4 - 2 * sin(x[i] * 2 + c.b[i]); }
      break;
    default:  // kinks
      for (int i = 0; i < n; ++i) { double d = x[i] - c.b[i]; v += c.a[i] * fabs(d) + 0.01 * d * d; (*g)[i] = (d > 0 ? c.a[i] : d < 0 ? -c.a[i] : 0) + 0.02 * d; }
  }
  return v;
}
std::unique_ptr<BatchOptimizer> make(int kind, int n, int m) {
  if (kind) return std::unique_ptr<BatchOptimizer>(new LBFGSOptimizer(n, m));
  return std::unique_ptr<BatchOptimizer>(new RPropOptimizer(n, c.eta_plus, c.eta_minus, c.delta0, c.dmax, c.dmin));
}
// one line per step: the parameters' bits, the evaluation count and the convergence decision
std::string show(const BatchOptimizer& o, const Vec& x) { return std::string((const char*)&x[0], 8 * x.size()) + fmt(" %d %d\n", o.EvaluationCount(), (int)o.HasConverged()); }
struct Step { std::string line; bool last; };
Step step(BatchOptimizer& o, Vec& x) {
  Vec g; double v = f(x, &g);
  try { o.Optimize(v, g, &x); }
  catch (std::exception& e) { return Step{std::string("error ") + e.what() + "\n", true}; }
  return Step{show(o, x), o.HasConverged()};
}
void save(const std::string& path, int i, const Vec& x, const BatchOptimizer& o) {
  std::ofstream f(path.c_str(), std::ios::binary | std::ios::trunc);
  int64_t h[2] = {i, (int64_t)x.size()};
  f.write((char*)h, 16); f.write((char*)&x[0], 8 * x.size());
  o.Save(&f);
  f.close();
  if (!f) throw std::runtime_error("checkpoint not written");
}
const size_t kPrefix = 16;
void o01() {
  c = Case();
  c.kind = sim::param("kind", 0, 1); c.n = sim::param_log("variables", 1, 12); c.m = sim::param("memory", 1, 6);
  c.objective = sim::param("objective", 0, 4); c.steps = sim::param("steps", 2, 40);
  c.eta_plus = 1 + 0.1 * sim::param("eta_plus", 1, 9); c.eta_minus = 0.1 * sim::param("eta_minus", 1, 9);
  c.delta0 = sim::pick("delta0", {1, 10, 200}) * 0.01; c.dmax = sim::pick("dmax", {500, 5, 1}) * 0.1; c.dmin = sim::pick("dmin", {1, 100000}) * 1e-6;
  sim::Rng r = sim::content("c:objective");
  for (int i = 0; i < c.n; ++i) { c.a.push_back(c.n + r.unit() * 3); c.b.push_back(r.coin(0.2) ? 0 : (r.unit() - 0.5) * 6); c.start.push_back(r.coin(0.2) ? 0 : (r.unit() - 0.5) * 10); }
  for (int i = 0; i < c.n * c.n; ++i) c.q.push_back(i % (c.n + 1) ? r.unit() - 0.5 : c.objective == 1 ? 2 * r.unit() : 0);
  // the run that is never stopped
  sim::PhaseOpts o; o.schedule = false; o.name = "whole"; o.stderr_path = S() + "/err";
  o.malloc_fill = sim::pick("fill_whole", {-1, 0, 255, 256});
  sim::Outcome out = sim::run_phase(o, [] {
    std::unique_ptr<BatchOptimizer> p = make(c.kind, c.n, c.m);
    Vec x = c.start; std::string all;
    for (int i = 0; i < c.steps; ++i) { Step s = step(*p, x); sim::publish(s.line); sim::publish("|"); if (s.last) break; }
    return 0;
  });
  if (!out.ok()) sim::fail("unexpected_error", "optimizing: %s", out.str().c_str());
  std::string blob = sim::result(); std::vector<std::string> want;
  size_t line = 8 * c.n;
  for (size_t at = 0; at < blob.size();) {   // binary lines: cut by their length
    size_t e = blob.compare(at, 6, "error ") ? blob.find("\n|", at + line) : blob.find("\n|", at);
    want.push_back(blob.substr(at, e + 1 - at)); at = e + 2;
  }
  if (want.size() < 2) sim::trivial();
  int every = sim::param("save_every", 1, 4), restarts = sim::param("restarts", 1, 6);
  bool used = sim::coin("used_before_load", 0.3);
  int at = 0; std::string last, before;   // checkpoints, by name; which of them are whole
  sim::Rng plan = sim::content("c:stops");
  int serial = 0;
  for (int seg = 0; seg <= restarts; ++seg) {
    int stop = seg == restarts ? (int)want.size() : std::min<int>(want.size(), at + 1 + plan.below(std::max<int>(1, (int)want.size() - at)));
    o.name = fmt("run%d", seg);
    o.malloc_fill = (int)plan.below(258) - 1;
    o.faults = sim::FaultCfg(); o.faults.short_read = 0.3 * plan.unit(); o.faults.short_write = 0.3 * plan.unit();
    bool full = plan.coin(0.15); if (full) o.faults.write_err = 0.2;
    std::string from = last; int first = serial; int junk = used ? 1 + plan.below(3) : 0;
    out = sim::run_phase(o, [&] {
      std::unique_ptr<BatchOptimizer> p = make(c.kind, c.n, c.m);
      Vec x = c.start; int i = 0;
      if (junk) { Vec y = x; for (int k = 0; k < junk; ++k) if (step(*p, y).last) break; }
      if (junk && from.empty()) p = make(c.kind, c.n, c.m);
      if (from.size()) {
        std::ifstream f(from.c_str(), std::ios::binary); int64_t h[2];
        f.read((char*)h, 16); if (!f || h[1] != c.n) throw std::runtime_error("checkpoint refused");
        f.read((char*)&x[0], 8 * c.n); if (!f) throw std::runtime_error("checkpoint refused");
        i = h[0]; p->Load(&f);
      }
      int n = first;
      for (; i < stop; ++i) {
        Step s = step(*p, x);
        if (i >= (int)want.size() || s.line != want[i]) sim::fail("other_trajectory", "step %d of %zu, after %d restarts, differs from the run that was never stopped%s", i + 1, want.size(), seg, from.empty() ? " (started anew)" : "");
        if (s.last) break;
        if ((i + 1) % every == 0) { save(S() + fmt("/state%d", n), i + 1, x, *p); sim::publish(fmt("%d %d\n", n, i + 1)); ++n; }
      }
      return 0;
    });

    if (!out.ok() && !(full && out.hard_faults && out.clean_error())) sim::fail("unexpected_error", "run %d from '%s': %s %s", seg, from.c_str(), out.str().c_str(), sim::slurp(S() + "/err").c_str());
    std::istringstream pub(sim::result()); int n, i;
    while (pub >> n >> i) { before = last; last = S() + fmt("/state%d", n); serial = n + 1; at = i; }
    if (out.hard_faults) ++serial;
    if (last.empty() || seg == restarts) continue;
    // killed while the last state was being written: a beginning of it is on disk, and it must be refused
    if (plan.coin(0.4)) {
      std::string d = sim::slurp(last), cut = S() + "/cut";
      sim::spit(cut, d.substr(0, kPrefix + 8 * c.n + (plan.coin(0.3) ? d.size() - kPrefix - 8 * c.n - 1 - plan.below(std::min<size_t>(12, d.size() - kPrefix - 8 * c.n)) : plan.below(d.size() - kPrefix - 8 * c.n))));
      int other = plan.below(4);   // 0: also a state of another optimizer
      o.faults = sim::FaultCfg();
      out = sim::run_phase(o, [&] {
        int kind = c.kind, nn = c.n, m = c.m;
        std::string name = cut;
        if (other == 0) { name = last; if (c.n > 1) --nn; else ++nn; } else if (other == 1) { name = last; kind = !kind; }
        std::unique_ptr<BatchOptimizer> p = make(kind, nn, m);
        std::ifstream f(name.c_str(), std::ios::binary); Vec x(c.n);
        f.seekg(kPrefix + 8 * c.n);
        p->Load(&f);
        return 0;
      });
      if (out.ok()) sim::fail("accepted", other == 0 ? "the state of an optimizer of another size is accepted" : other == 1 ? "the state of another kind of optimizer is accepted" : "a state cut short is accepted (%zu of %zu bytes)", sim::slurp(cut).size(), d.size());
      if (!out.clean_error()) sim::fail("unexpected_end", "loading a state that does not fit: %s", out.str().c_str());
      sim::probe("refused");

      if (other > 1) { last = before; before.clear(); if (last.empty()) at = 0; else { std::ifstream f(last.c_str(), std::ios::binary); int64_t h; f.read((char*)&h, 8); at = h; } }
    }
  }
  sim::probe("restarted", restarts);
}
}  // namespace
const sim::Property sim::properties[] = {{"O01", o01}, {0, 0}};
