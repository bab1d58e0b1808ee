// Simulated sockets, pipes, select, fork/exec/wait and signals.
//
// A simulated process is a descriptor table; the program under test is process
// 0 and uses real descriptor numbers (reserved on /dev/null), the others are
// actor threads with tables of their own.  Bytes travel in segments that become
// readable after a seeded delay (in order) and are read in seeded pieces.
#include <functional>
#include "internal.h"
#include "net.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <deque>
#include <map>
#include <string>

namespace sim {
struct Seg { std::string d; size_t off; uint64_t at; };
struct Chan {
  std::deque<Seg> q;
  size_t bytes = 0, cap = 65536;
  uint64_t last_at = 0;
  bool fin = false; uint64_t fin_at = 0;
};
struct Obj {
  enum Kind { PIPE_R, PIPE_W, SOCK, LISTEN } kind;
  int refs = 0;
  Chan* in = 0; Chan* out = 0;
  Obj* peer = 0;
  bool closed = false;        // no descriptor refers to it any more
  bool rst = false; uint64_t rst_at = 0; bool rst_epipe = false;   // reset on its way to this end
  bool dead = false;          // reset has arrived
  int err = 0;                // pending socket error
  bool linger0 = false;
  int port = 0; bool listening = false;
  std::deque<std::pair<Obj*, uint64_t> > backlog;
};
struct Proc { std::map<int, Obj*> fd; int pid = 0; int status = -1; bool reaped = false; bool exited = false; };
static Proc* procs;
static int nprocs;
static uint8_t g_proc[MAXT];
static std::map<int, Obj*>* ports;
static struct sigaction g_sig[65];
static uint64_t g_pending;
// fork
static bool in_fork, exec_failed;
static ucontext_t fork_ctx, back_ctx;
static char *stack_lo, *stack_copy; static size_t stack_n;
static char alt_stack[65536];
static int fork_saved_proc, fork_child, fork_hook;

enum { MAXPROC = 64 };
void net_reset() {
  procs = new Proc[MAXPROC]; nprocs = 1;
  memset(g_proc, 0, sizeof g_proc);
  ports = new std::map<int, Obj*>();
  memset(g_sig, 0, sizeof g_sig);
  g_pending = 0; in_fork = exec_failed = false;
}
static Proc& P() { return procs[g_proc[cur->id]]; }
bool net_child() { return g_on && procs && g_proc[cur->id] != 0; }
static Obj* get(int fd) { if (!procs) return 0; std::map<int, Obj*>& m = P().fd; std::map<int, Obj*>::iterator i = m.find(fd); return i == m.end() ? 0 : i->second; }
bool net_is(int fd) { return procs && (get(fd) != 0 || (net_child() && fd != 2)); }
void* net_handle(int fd) { return get(fd); }
bool net_peer_closed(void* h) { Obj* o = (Obj*)h; return !o || o->closed || !o->peer || o->peer->closed; }
static int newfd(Obj* o) {
  Proc& p = P();
  ++o->refs;
  if (&p == &procs[0]) {
    int fd = rawsys(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR, 0);
    p.fd[fd] = o; return fd;
  }
  int fd = 0;
  while (fd == 2 || p.fd.count(fd)) ++fd;
  p.fd[fd] = o; return fd;
}
static void check_continues() {
  if (exec_failed && in_fork) { ++cur->hook; fail("child_continues", "execvp failed in the forked child, which then goes on running its parent's code"); }
}
static void run_signals() {
  if (!g_pending || g_proc[cur->id] != 0 || cur->id != 0) return;
  while (g_pending) {
    int s = __builtin_ctzll(g_pending);
    g_pending &= g_pending - 1;
    if (g_sig[s].sa_handler == SIG_IGN) continue;
    if (g_sig[s].sa_handler == SIG_DFL) { if (s == SIGCHLD) continue; end_phase(Outcome::SIGNALLED, s, "killed by a signal"); }
    trace("signal", s, 0);
    count("f:", "signal_delivered");
    int h = cur->hook; cur->hook = 0;
    g_sig[s].sa_handler(s);
    cur->hook = h;
  }
}
static bool has_handler() { return (g_pending & (1ull << SIGCHLD)) && g_sig[SIGCHLD].sa_handler != SIG_IGN && g_sig[SIGCHLD].sa_handler != SIG_DFL; }
static void point(const char* w) { check_continues(); ++SH->ph_io; sched_point(w); run_signals(); }
static void poke(Obj* o) { if (o) wake_all(o); }
static uint64_t delay() {
  uint64_t v = choose_raw("net_delay", 1000, OPT->faults.net_delay);
  if (!v) return 0;
  count_fault("net_delay", false);
  if (v < 400) return v * 1000;                 // microseconds
  if (v < 800) return (v - 399) * 1000000ull;   // up to 0.4 s
  return (v - 799) * 50000000ull;               // up to 10 s
}
static void settle(Obj* o) {   // a reset that has arrived
  if (o->rst && !o->dead && o->rst_at <= g_now) {
    o->dead = true;
    o->err = o->rst_epipe ? EPIPE : ECONNRESET;
    if (o->in) o->in->fin = true, o->in->fin_at = 0;
  }
}
static uint64_t next_event(Obj* o) {
  uint64_t w = 0;
  if (o->rst && !o->dead) w = o->rst_at;
  if (o->in) {
    if (!o->in->q.empty() && (!w || o->in->q.front().at < w)) w = o->in->q.front().at;
    if (o->in->fin && o->in->q.empty() && (!w || o->in->fin_at < w)) w = o->in->fin_at;
  }
  if (o->kind == Obj::LISTEN && !o->backlog.empty()) w = o->backlog.front().second;
  return w;
}
static bool readable(Obj* o) {
  settle(o);
  if (o->kind == Obj::LISTEN) return !o->backlog.empty() && o->backlog.front().second <= g_now;
  if (o->err) return true;
  if (!o->in) return false;
  if (!o->in->q.empty()) return o->in->q.front().at <= g_now;
  return o->in->fin && o->in->fin_at <= g_now;
}
// has the FIN of the other side been received?
static bool fin_received(Obj* o) { return o->in && o->in->fin && o->in->fin_at <= g_now && (o->in->q.empty() || o->in->q.back().at <= g_now); }
static void send_rst(Obj* to) {
  if (!to || to->closed || to->rst) return;
  uint64_t at = g_now + delay();
  if (to->in && !to->in->q.empty() && to->in->q.back().at > at) at = to->in->q.back().at;   // never overtakes data
  to->rst = true; to->rst_at = at;
  to->rst_epipe = fin_received(to) || (to->in && to->in->fin && to->in->fin_at <= at);
  count("f:", "connection_reset");
  poke(to);
}
ssize_t net_read(int fd, void* b, size_t n, int) {
  Obj* o = get(fd);
  point("net_read");
  if (!o || !o->in) { errno = o ? EINVAL : EBADF; return -1; }
  for (;;) {
    settle(o);
    if (!n) return 0;
    Chan* c = o->in;
    if (!c->q.empty() && c->q.front().at <= g_now) {
      size_t av = 0;
      for (size_t i = 0; i < c->q.size() && c->q[i].at <= g_now; ++i) av += c->q[i].d.size() - c->q[i].off;
      size_t m = av < n ? av : n;
      if (m > 1 && OPT->faults.net_split > 0) {
        uint64_t v = choose_raw("net_split", 1000, OPT->faults.net_split);
        if (v) { size_t k = v < 400 ? 1 : v < 600 ? 1 + v % 4 : (size_t)((double)m * v / 1000.0); if (k < 1) k = 1; if (k < m) { m = k; count_fault("net_split", false); } }
      }
      for (size_t i = 0; i < m;) {
        Seg& s = c->q.front();
        size_t k = s.d.size() - s.off; if (k > m - i) k = m - i;
        memcpy((char*)b + i, s.d.data() + s.off, k);
        i += k; s.off += k;
        if (s.off == s.d.size()) c->q.pop_front();
      }
      c->bytes -= m;
      poke(o->peer);
      trace("net_read", fd, m);
      return m;
    }
    if (c->q.empty() && c->fin && c->fin_at <= g_now) {
      if (o->err && !o->rst_epipe) { errno = o->err; o->err = 0; trace("net_read_err", fd, errno); return -1; }
      trace("net_read", fd, 0);
      return 0;
    }
    if (o->err) { errno = o->err; o->err = 0; return -1; }
    if (has_handler() && cur->id == 0 && g_proc[0] == 0) { run_signals(); if (!(g_sig[SIGCHLD].sa_flags & SA_RESTART)) { count_fault("net_eintr", false); errno = EINTR; return -1; } continue; }
    block_on(o, "net_read", next_event(o));
  }
}
static ssize_t broken_pipe(int flags) {
  if (!(flags & MSG_NOSIGNAL) && g_proc[cur->id] == 0) {
    if (g_sig[SIGPIPE].sa_handler == SIG_DFL) { count("f:", "sigpipe"); end_phase(Outcome::SIGNALLED, SIGPIPE, "killed by SIGPIPE"); }
    if (g_sig[SIGPIPE].sa_handler != SIG_IGN) { int h = cur->hook; cur->hook = 0; g_sig[SIGPIPE].sa_handler(SIGPIPE); cur->hook = h; }
  }
  errno = EPIPE; return -1;
}
ssize_t net_write(int fd, const void* b, size_t n, int flags) {
  Obj* o = get(fd);
  point("net_write");
  if (!o || !o->out) { errno = EBADF; return -1; }
  size_t done = 0;
  while (done < n) {
    settle(o);
    if (o->kind == Obj::SOCK && o->dead) {
      if (done) break;
      if (o->err && o->err != EPIPE) { errno = o->err; o->err = 0; return -1; }
      o->err = 0;
      return broken_pipe(flags);
    }
    if (o->kind == Obj::PIPE_W && o->peer->closed) { if (done) break; return broken_pipe(flags); }
    if (o->kind == Obj::SOCK && o->peer->closed) {
      // the bytes go to a closed socket, which answers with a reset
      send_rst(o);
      done = n; break;
    }
    Chan* c = o->out;
    size_t room = c->cap > c->bytes ? c->cap - c->bytes : 0;
    if (!room) {
      if (has_handler() && cur->id == 0 && g_proc[0] == 0) { run_signals(); if (!(g_sig[SIGCHLD].sa_flags & SA_RESTART)) { if (done) break; errno = EINTR; return -1; } continue; }
      count("f:", "net_backpressure"); block_on(o, "net_write", o->rst && !o->dead ? o->rst_at : 0); continue;
    }
    size_t k = n - done < room ? n - done : room;
    // the stack may cut the bytes into segments
    uint64_t v = k > 1 ? choose_raw("net_segment", 1000, OPT->faults.net_split) : 0;
    if (v) { size_t m = v < 300 ? 1 : (size_t)((double)k * v / 1000.0); if (m < 1) m = 1; if (m < k) k = m; }
    Seg s; s.d.assign((const char*)b + done, k); s.off = 0;
    uint64_t at = g_now + delay();
    if (at < c->last_at) at = c->last_at;
    c->last_at = at; s.at = at;
    c->q.push_back(s); c->bytes += k; done += k;
    poke(o->peer);
    if (done < n) sched_point("net_write_more");
  }
  trace("net_write", fd, done);
  return done;
}
static void drop(Obj* o) {   // last reference gone
  o->closed = true;
  if (o->kind == Obj::LISTEN) {
    if (o->listening) ports->erase(o->port);
    while (!o->backlog.empty()) { Obj* s = o->backlog.front().first; o->backlog.pop_front(); s->refs = 0; s->closed = true; send_rst(s->peer); }
    return;
  }
  if (o->kind == Obj::PIPE_R) { poke(o->peer); return; }
  if (o->kind == Obj::PIPE_W) { if (!o->out->fin) { o->out->fin = true; o->out->fin_at = o->out->last_at; } poke(o->peer); return; }
  if (!o->peer) return;
  settle(o);
  if (o->dead) return;
  if (o->linger0 || o->in->bytes) { while (!o->out->q.empty() && o->out->q.back().at > g_now) { Seg& s = o->out->q.back(); o->out->bytes -= s.d.size() - s.off; o->out->q.pop_back(); } send_rst(o->peer); return; }   // unread data: reset
  if (!o->out->fin) {
    o->out->fin = true;
    uint64_t at = g_now + delay();
    o->out->fin_at = at > o->out->last_at ? at : o->out->last_at;
  }
  poke(o->peer);
}
static void unref(Obj* o) { if (--o->refs == 0) drop(o); }
int net_close(int fd) {
  point("net_close");
  std::map<int, Obj*>& m = P().fd;
  std::map<int, Obj*>::iterator i = m.find(fd);
  if (i == m.end()) { errno = EBADF; return -1; }
  Obj* o = i->second;
  m.erase(i);
  if (&P() == &procs[0]) rawsys(SYS_close, fd);
  trace("net_close", fd, 0);
  unref(o);
  return 0;
}
void net_abort(int fd) { Hook h; Obj* o = get(fd); if (o) { o->linger0 = true; net_close(fd); } }
int net_dup(int a, int b) {
  Obj* o = get(a);
  if (!o) { if (P().fd.count(b)) net_close(b); errno = EBADF; return -1; }
  if (b < 0) return newfd(o);
  if (a == b) return b;
  ++o->refs;
  Proc& p = P();
  if (p.fd.count(b)) { Obj* old = p.fd[b]; p.fd.erase(b); unref(old); }
  else if (&p == &procs[0]) { long t = rawsys(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR, 0); if (t != b) { rawsys(SYS_dup3, t, b, 0); rawsys(SYS_close, t); } }
  p.fd[b] = o;
  return b;
}
static void proc_done(int p, int code) {
  std::map<int, Obj*> m; m.swap(procs[p].fd);
  for (std::map<int, Obj*>::iterator i = m.begin(); i != m.end(); ++i) unref(i->second);
  procs[p].status = code; procs[p].exited = true;
  trace("proc_exit", p, code);
  if (procs[p].pid) { g_pending |= 1ull << SIGCHLD; wake_all(&procs); for (int i = 0; i < nthreads; ++i) if (TH[i].id == 0 && TH[i].st == T_BLOCKED && TH[i].wait_why && !strncmp(TH[i].wait_why, "net_", 4)) { TH[i].st = T_RUN; TH[i].wait_obj = 0; } }
}
static void back_to_parent();
void net_proc_exit(int code) {
  int p = g_proc[cur->id];
  if (in_fork && p == fork_child) { ++cur->hook; proc_done(p, code << 8); back_to_parent(); }
  { Hook h; if (!procs[p].exited) proc_done(p, code << 8); }
  pthread_exit(0);
}
int spawn_process(const char* name, std::function<void()> fn) {
  Hook h;
  int p = nprocs++;
  if (p >= MAXPROC) end_phase(Outcome::WATCHDOG, 0, "too many simulated processes");
  return spawn(name, [p, fn]() {
    g_proc[cur->id] = p;
    struct Done { int p; ~Done() { Hook h; if (!procs[p].exited) proc_done(p, 0); } } d = {p};
    fn();
  });
}
static void child_thread(int p, std::vector<std::string> argv) {
  spawn("child", [p, argv]() {
    g_proc[cur->id] = p;
    struct Done { int p; ~Done() { Hook h; if (!procs[p].exited) proc_done(p, 0); } } d = {p};
    int rc = OPT->exec_handler ? OPT->exec_handler(argv) : 127;
    { Hook h; if (!procs[p].exited) proc_done(p, rc >= 1000 ? rc - 1000 : rc << 8); }   // 1000+n: killed by signal n
  });
}
int child_status(int pid) { for (int i = 0; i < nprocs; ++i) if (procs[i].pid == pid) return procs[i].exited ? procs[i].status : -1; return -1; }
static void restore_stack() {
  memcpy(stack_lo, stack_copy, stack_n);
  setcontext(&fork_ctx);
}
static void back_to_parent() {
  in_fork = false; exec_failed = false;
  cur->hook = fork_hook;
  g_proc[cur->id] = fork_saved_proc;
  getcontext(&back_ctx);
  back_ctx.uc_stack.ss_sp = alt_stack; back_ctx.uc_stack.ss_size = sizeof alt_stack; back_ctx.uc_link = 0;
  makecontext(&back_ctx, (void (*)())restore_stack, 0);
  setcontext(&back_ctx);
  __builtin_unreachable();
}
}  // namespace sim
using namespace sim;
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)

extern "C" {
int socket(int d, int t, int pr) {
  if (!simulated()) { REAL(socket); return real(d, t, pr); }
  Hook h; point("socket");
  Obj* o = new Obj; o->kind = Obj::SOCK;
  return newfd(o);
}
int setsockopt(int fd, int, int opt, const void* v, socklen_t) {
  if (!simulated()) return 0;
  Hook h; Obj* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  if (opt == SO_LINGER) { const struct linger* l = (const struct linger*)v; if (l->l_onoff && l->l_linger == 0) o->linger0 = true; }
  return 0;
}
int getsockopt(int, int, int, void*, socklen_t*) { return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t) {
  if (!simulated()) { errno = EINVAL; return -1; }
  Hook h; point("bind");
  Obj* o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (choose_raw("bind_busy", 2, OPT->faults.bind_busy)) { count_fault("bind_busy", false); errno = EADDRINUSE; return -1; }
  o->port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  return 0;
}
int listen(int fd, int) {
  if (!simulated()) { errno = EINVAL; return -1; }
  Hook h; point("listen");
  Obj* o = get(fd); if (!o) { errno = EBADF; return -1; }
  o->kind = Obj::LISTEN; o->listening = true;
  (*ports)[o->port] = o;
  wake_all(ports);
  return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  if (!simulated()) { errno = EINVAL; return -1; }
  Hook h; Obj* o = get(fd); if (!o) { errno = EBADF; return -1; }
  struct sockaddr_in* s = (struct sockaddr_in*)a;
  memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_port = htons(o->port); *l = sizeof *s;
  return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) {
  if (!simulated()) { errno = EINVAL; return -1; }
  Hook h; point("accept");
  Obj* o = get(fd); if (!o) { errno = EBADF; return -1; }
  if (choose_raw("accept_fail", 2, OPT->faults.accept_err)) { count_fault("accept_fail", false); errno = ECONNABORTED; return -1; }
  while (!readable(o)) block_on(o, "net_accept", next_event(o));
  Obj* s = o->backlog.front().first;
  o->backlog.pop_front();
  if (a) { struct sockaddr_in* si = (struct sockaddr_in*)a; memset(si, 0, sizeof *si); si->sin_family = AF_INET; si->sin_addr.s_addr = htonl(0x7f000001); si->sin_port = htons(40000); *l = sizeof *si; }
  int r = newfd(s);
  --s->refs;     // the backlog's reference
  trace("accept", r, 0);
  return r;
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int) { return accept(fd, a, l); }
int connect(int fd, const struct sockaddr* a, socklen_t) {
  if (!simulated()) { errno = EINVAL; return -1; }
  Hook h; point("connect");
  Obj* o = get(fd); if (!o) { errno = EBADF; return -1; }
  int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  std::map<int, Obj*>::iterator i = ports->find(port);
  if (i == ports->end() || choose_raw("connect_refused", 2, OPT->faults.connect_err)) { errno = ECONNREFUSED; count_fault("connect_refused", false); return -1; }
  Obj* s = new Obj; s->kind = Obj::SOCK; s->refs = 1;
  Chan* c1 = new Chan; Chan* c2 = new Chan;
  if (OPT->faults.net_capacity) c1->cap = c2->cap = OPT->faults.net_capacity;
  o->out = c1; s->in = c1; o->in = c2; s->out = c2;
  o->peer = s; s->peer = o;
  i->second->backlog.push_back(std::make_pair(s, g_now + delay()));
  poke(i->second);
  trace("connect", fd, port);
  return 0;
}
ssize_t send(int fd, const void* b, size_t n, int flags) {
  if (!simulated()) { errno = EBADF; return -1; }
  Hook h; return net_write(fd, b, n, flags);
}
ssize_t recv(int fd, void* b, size_t n, int flags) {
  if (!simulated()) { errno = EBADF; return -1; }
  Hook h; return net_read(fd, b, n, flags);
}
int shutdown(int fd, int how) {
  if (!simulated()) { errno = EBADF; return -1; }
  Hook h; point("shutdown");
  Obj* o = get(fd); if (!o || !o->out) { errno = EBADF; return -1; }
  if (how != SHUT_RD && !o->out->fin) { o->out->fin = true; uint64_t at = g_now + delay(); o->out->fin_at = at > o->out->last_at ? at : o->out->last_at; poke(o->peer); }
  return 0;
}
int pipe(int p[2]) {
  if (!simulated()) return rawsys(SYS_pipe2, (long)p, 0);
  Hook h; point("pipe");
  if (choose_raw("pipe_fail", 2, OPT->faults.pipe_err)) { count_fault("pipe_fail", true); errno = EMFILE; return -1; }
  Chan* c = new Chan;
  if (OPT->faults.net_capacity) c->cap = OPT->faults.net_capacity;
  Obj* r = new Obj; r->kind = Obj::PIPE_R; r->in = c;
  Obj* w = new Obj; w->kind = Obj::PIPE_W; w->out = c;
  r->peer = w; w->peer = r;
  p[0] = newfd(r); p[1] = newfd(w);
  return 0;
}
int select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  if (!simulated()) { REAL(select); return real(nfds, r, w, e, tv); }
  Hook h; point("select");
  uint64_t end = tv ? g_now + tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull : 0;
  static char any;
  for (;;) {
    int n = 0; uint64_t wake = end; Obj* one = 0;
    fd_set out; FD_ZERO(&out);
    for (int i = 0; r && i < nfds && i < FD_SETSIZE; ++i) if (FD_ISSET(i, r)) {
      Obj* o = get(i);
      if (!o) continue;
      one = o;
      if (readable(o)) { FD_SET(i, &out); ++n; }
      else { uint64_t x = next_event(o); if (x && (!wake || x < wake)) wake = x; }
    }
    if (n || (tv && g_now >= end)) {
      if (r) *r = out; if (w) FD_ZERO(w); if (e) FD_ZERO(e);
      trace("select", n, 0);
      return n;
    }
    block_on(one ? (void*)one : (void*)&any, "net_select", wake);
  }
}
struct hostent* gethostbyname(const char* name) {
  if (!simulated()) { REAL(gethostbyname); return real(name); }
  static struct hostent he; static char addr[4]; static char* list[2];
  addr[0] = 127; addr[1] = 0; addr[2] = 0; addr[3] = 1;
  list[0] = addr; list[1] = 0;
  he.h_name = (char*)"host"; he.h_addrtype = AF_INET; he.h_length = 4; he.h_addr_list = list;
  return strstr(name, "unknown") ? 0 : &he;
}
int sigaction(int s, const struct sigaction* a, struct sigaction* o) {
  if (!simulated()) { REAL(sigaction); return real(s, a, o); }
  Hook h;
  if (s < 1 || s > 64) { errno = EINVAL; return -1; }
  if (o) *o = g_sig[s];
  if (a) g_sig[s] = *a;
  return 0;
}
typedef void (*sighandler)(int);
sighandler signal(int s, sighandler f) {
  if (!simulated()) { REAL(signal); return real(s, f); }
  Hook h;
  if (s < 1 || s > 64) { errno = EINVAL; return SIG_ERR; }
  sighandler o = g_sig[s].sa_handler;
  memset(&g_sig[s], 0, sizeof g_sig[s]); g_sig[s].sa_handler = f; g_sig[s].sa_flags = SA_RESTART;
  return o;
}
pid_t waitpid(pid_t pid, int* st, int flags) {
  if (!simulated()) return rawsys(SYS_wait4, pid, (long)st, flags, 0);
  Hook h; check_continues(); sched_point("waitpid");
  for (;;) {
    bool any = false;
    for (int i = 1; i < nprocs; ++i) {
      Proc& p = procs[i];
      if (!p.pid || p.reaped || (pid > 0 && p.pid != pid)) continue;
      any = true;
      if (p.exited) { p.reaped = true; if (st) *st = p.status; return p.pid; }
    }
    if (!any) { errno = ECHILD; return -1; }
    if (flags & WNOHANG) return 0;
    block_on(&procs, "net_waitpid");
  }
}
int kill(pid_t pid, int s) {
  if (!simulated()) return rawsys(SYS_kill, pid, s);
  errno = EPERM; return -1;     // nothing in the code under test needs it
}
int raise(int s) {
  if (!simulated()) { REAL(raise); return real(s); }
  Hook h; g_pending |= 1ull << s; run_signals(); return 0;
}
__attribute__((noinline)) pid_t fork(void) {
  if (!simulated()) { REAL(fork); return real(); }
  ++cur->hook;
  point("fork");
  if (choose_raw("fork_fail", 2, OPT->faults.fork_err)) { count_fault("fork_fail", true); --cur->hook; errno = EAGAIN; return -1; }
  int p = nprocs++;
  if (p >= MAXPROC) end_phase(Outcome::WATCHDOG, 0, "too many simulated processes");
  procs[p].fd = P().fd;
  for (std::map<int, Obj*>::iterator i = procs[p].fd.begin(); i != procs[p].fd.end(); ++i) ++i->second->refs;
  procs[p].pid = 5000 + p;
  fork_saved_proc = g_proc[cur->id];
  fork_child = p; fork_hook = cur->hook;
  in_fork = true; exec_failed = false;
  volatile int child = p;
  // keep the caller's stack: the child part runs first, until exec or exit
  pthread_attr_t at; void* base; size_t size;
  pthread_getattr_np((pthread_t)__builtin_thread_pointer(), &at); pthread_attr_getstack(&at, &base, &size); pthread_attr_destroy(&at);
  stack_lo = (char*)__builtin_frame_address(0) - 2048;
  size_t span = (char*)base + size - stack_lo;
  if (span > (256u << 10)) span = 256u << 10;
  stack_n = span;
  stack_copy = (char*)malloc(stack_n);
  memcpy(stack_copy, stack_lo, stack_n);
  getcontext(&fork_ctx);
  if (in_fork && child == p) {
    memcpy(stack_copy, stack_lo, stack_n);
    g_proc[cur->id] = p;
    --cur->hook;
    return 0;
  }
  free(stack_copy);
  --cur->hook;
  trace("fork", child, 0);
  return procs[child].pid;
}
int execvp(const char* file, char* const argv[]) {
  if (!simulated()) { REAL(execvp); return real(file, argv); }
  ++cur->hook;
  std::vector<std::string> v; v.push_back(file);
  for (int i = 0; argv[i]; ++i) v.push_back(argv[i]);
  if (in_fork) {
    if (choose_raw("exec_fail", 2, OPT->faults.exec_err)) { count_fault("exec_fail", true); exec_failed = true; --cur->hook; errno = ENOENT; return -1; }
    int p = g_proc[cur->id];
    --cur->hook;
    g_proc[cur->id] = fork_saved_proc;
    in_fork = false;
    ++cur->hook;
    child_thread(p, v);
    back_to_parent();
  }
  if (net_child()) {   // the actor's process image is replaced by the harness's program
    if (choose_raw("exec_fail", 2, OPT->faults.exec_err)) { count_fault("exec_fail", true); --cur->hook; errno = ENOENT; return -1; }
    --cur->hook;
    int rc = OPT->exec_handler(v);
    net_proc_exit(rc);
  }
  --cur->hook;
  errno = ENOSYS; return -1;
}
int execv(const char* f, char* const a[]) { return execvp(f, a); }
}
