// Fault-injecting POSIX file layer and crash model.  Files are real files in
// the scratch directory; every call is a scheduling point and may be given a
// fault.  With OPT->durable a second, "durable" image of each file is kept at
// page granularity; a power cut keeps an arbitrary subset of dirty pages.
#include "internal.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/select.h>
#include <poll.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <functional>
#include "net.h"

namespace sim {
void crash_tick();

enum { PAGE = 4096, NFD = 1024 };

struct Inode {
  uint64_t dev, ino;
  std::string path;
  bool durable_exists = false;         // directory entry known durable (always true here once synced or by chance)
  int64_t dsize = 0;                   // durable size
  std::map<int64_t, std::string> dpages;   // durable pages
  int fd = -1;                         // private descriptor for reading current content
  bool unlinked = false;
  bool trunc_pending = false;          // a truncation to zero that is not durable yet
};
struct Fd { int kind; Inode* inode; std::string* path; bool wr; bool urandom; };
static Fd fds[NFD];
static std::vector<Inode*>* inodes;
static int64_t g_written;   // bytes allocated on the simulated disk
static int g_fd_limit = NFD;

void posix_reset() { memset(fds, 0, sizeof fds); g_written = 0; net_reset(); }
void disk_reset() { inodes = new std::vector<Inode*>(); }

static bool matches(const std::string& p, bool w) { return !OPT->faults.match || OPT->faults.match(p, w); }

static Inode* inode_of(int fd, const std::string& path) {
  struct stat st;
  if (rawsys(SYS_newfstatat, fd, (long)"", (long)&st, AT_EMPTY_PATH) != 0 || !S_ISREG(st.st_mode)) return 0;
  for (size_t i = 0; i < inodes->size(); ++i)
    if ((*inodes)[i]->dev == st.st_dev && (*inodes)[i]->ino == st.st_ino && !(*inodes)[i]->unlinked) return (*inodes)[i];
  Inode* n = new Inode;
  n->dev = st.st_dev; n->ino = st.st_ino; n->path = path;
  inodes->push_back(n);
  if (OPT->durable) {
    std::string pr = fmt("/proc/self/fd/%d", fd);
    n->fd = rawsys(SYS_openat, AT_FDCWD, (long)pr.c_str(), O_RDONLY | O_CLOEXEC, 0);
    if (n->fd < 0) n->fd = rawsys(SYS_openat, AT_FDCWD, (long)path.c_str(), O_RDONLY | O_CLOEXEC, 0);
    if (n->fd >= 0) {
      int f2 = rawsys(SYS_fcntl, n->fd, F_DUPFD_CLOEXEC, 700);
      if (f2 >= 0) { rawsys(SYS_close, n->fd); n->fd = f2; }
    }
    // existing content is taken as durable
    struct stat s2;
    if (n->fd >= 0 && rawsys(SYS_fstat, n->fd, (long)&s2) == 0) {
      n->dsize = s2.st_size;
      char b[PAGE];
      for (int64_t o = 0; o < s2.st_size; o += PAGE) {
        long r = rawsys(SYS_pread64, n->fd, (long)b, PAGE, o);
        if (r > 0) n->dpages[o / PAGE] = std::string(b, r);
      }
      if (s2.st_size) n->durable_exists = true;
    }
  }
  return n;
}
void disk_register_fd(int fd, const std::string& path) {
  if (fd < 0 || fd >= NFD) return;
  fds[fd].kind = 1; fds[fd].path = new std::string(path); fds[fd].wr = fd == 1;
  fds[fd].inode = OPT->durable ? inode_of(fd, path) : 0;
}

// ---------------------------------------------------------------- durability
static int64_t cur_size(Inode* n) {
  struct stat st;
  if (n->fd < 0 || rawsys(SYS_fstat, n->fd, (long)&st) != 0) return 0;
  return st.st_size;
}
static bool page_now(Inode* n, int64_t pg, std::string* out) {
  char b[PAGE];
  long r = rawsys(SYS_pread64, n->fd, (long)b, PAGE, pg * PAGE);
  if (r < 0) r = 0;
  out->assign(b, r);
  return r > 0;
}
static void persist_page(Inode* n, int64_t pg) {
  std::string s;
  // journaling order: no block of the new contents is durable before the truncation is
  if (n->trunc_pending) { n->dpages.clear(); n->dsize = 0; n->trunc_pending = false; }
  page_now(n, pg, &s);
  std::string& d = n->dpages[pg];
  d = s;
}
static void sync_range(Inode* n, int64_t lo, int64_t hi) {   // bytes
  for (int64_t p = lo / PAGE; p * PAGE < hi; ++p) persist_page(n, p);
}
static void sync_all(Inode* n) {
  int64_t sz = cur_size(n);
  if (n->trunc_pending) { n->dpages.clear(); n->trunc_pending = false; }
  sync_range(n, 0, sz);
  n->dsize = sz;
  n->durable_exists = true;
}
// background writeback: with some probability some dirty pages reach the disk
static void background() {
  if (!OPT->durable || inodes->empty()) return;
  uint64_t v = choose_raw("writeback", 1 << 20, 0.15);
  if (!v) return;
  Rng r(v);
  Inode* n = (*inodes)[r.below(inodes->size())];
  if (n->fd < 0) return;
  int64_t sz = cur_size(n), pages = (sz + PAGE - 1) / PAGE;
  if (!pages) return;
  count("f:", "background_writeback");
  if (n->trunc_pending) { n->dpages.clear(); n->dsize = 0; n->trunc_pending = false; }
  if (r.coin(0.4)) { n->dsize = sz > n->dsize || r.coin(0.5) ? sz : n->dsize; n->durable_exists = true; }
  double keep = r.coin(0.2) ? 1.0 : r.unit();
  for (int64_t p = 0; p < pages; ++p) if (r.coin(keep)) persist_page(n, p);
}
std::string crash_path(const std::string& path) {
  size_t p = path.rfind('/');
  return scratch() + "/crash." + (p == std::string::npos ? path : path.substr(p + 1));
}
bool crash_file_exists(const std::string& path) {
  return rawsys(SYS_access, (long)crash_path(path).c_str(), 0) == 0;
}
void disk_power_cut() {
  uint64_t v = choose_raw("cut_pages", 1u << 30, 1.0);
  Rng r(v + 1);
  for (size_t i = 0; i < inodes->size(); ++i) {
    Inode* n = (*inodes)[i];
    if (n->fd < 0 || n->unlinked) continue;
    int64_t sz = cur_size(n);
    int style = r.below(5);   // 0 nothing more, 1 everything, 2.. random subsets
    bool exists = n->durable_exists || style == 1 || r.coin(0.7);
    if (!exists) continue;
    int64_t fsz = n->dsize;
    if (style == 1) fsz = sz;
    else if (style >= 2 && r.coin(0.6)) fsz = sz;
    double keep = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? 0.5 : style == 3 ? 0.05 : 0.95;
    if (n->trunc_pending) {
      if (style == 0 || r.coin(0.3)) { keep = 0; style = 0; fsz = n->dsize; }   // the whole old file
      else { n->dpages.clear(); n->dsize = 0; if (fsz != sz) fsz = 0; }
    }
    int64_t flip = style >= 3 && keep > 0 ? (int64_t)r.below((sz + PAGE - 1) / PAGE + 1) : -1;
    std::string img;
    int64_t pages = (fsz + PAGE - 1) / PAGE;
    for (int64_t p = 0; p < pages; ++p) {
      std::string now, d;
      page_now(n, p, &now);
      std::map<int64_t, std::string>::iterator it = n->dpages.find(p);
      if (it != n->dpages.end()) d = it->second;
      bool k = r.coin(keep);
      if (p == flip) k = !k;
      std::string c = k ? now : d;
      // torn page: sector granularity
      if (now != d && keep > 0 && r.coin(0.1)) {
        now.resize(PAGE); d.resize(PAGE);
        c.resize(PAGE);
        for (int s = 0; s < 8; ++s) { const std::string& src = r.coin(0.5) ? now : d; c.replace(s * 512, 512, src, s * 512, 512); }
        count("f:", "torn_page");
      }
      if (now != d) count("f:", k ? "dirty_page_kept" : "dirty_page_lost");
      c.resize(PAGE);
      img += c;
    }
    img.resize(fsz);
    spit(crash_path(n->path), img);
  }
  count("f:", "power_cut");
}

// -------------------------------------------------------------- fault choices
static void io_point(const char* why) {
  ++SH->ph_io;
  crash_tick();
  background();
  sched_point(why);
}
static bool hard_ok() { return (int64_t)SH->ph_hard < OPT->faults.max_hard; }
// returns true when the named hard fault strikes
static bool strike(const char* name, double p) {
  if (p <= 0) return false;
  if (!hard_ok()) return false;
  if (choose_raw(name, 2, p)) { count_fault(name, true); return true; }
  return false;
}
static bool benign(const char* name, double p) {
  if (choose_raw(name, 2, p)) { count_fault(name, false); return true; }
  return false;
}
static size_t shorten(const char* name, double p, size_t n) {
  if (n <= 1) return n;
  uint64_t v = choose_raw(name, 1000, p);
  if (!v) return n;
  size_t m;
  if (v < 150) m = 1;
  else if (v < 250) m = 2 + v % 7;
  else if (v < 350) m = n - 1;
  else m = (size_t)((double)n * v / 1000.0);
  if (m < 1) m = 1;
  if (m >= n) return n;
  count_fault(name, false);
  return m;
}

static bool managed(int fd) { return fd >= 0 && fd < NFD && fds[fd].kind == 1; }

ssize_t do_read(int fd, void* buf, size_t n, int64_t off) {
  Fd& f = fds[fd];
  io_point(off >= 0 ? "pread" : "read");
  const FaultCfg& c = OPT->faults;
  bool m = matches(*f.path, false);
  if (m) {
    if (benign("eintr_read", c.eintr)) { errno = EINTR; return -1; }
    if (strike("eio_read", c.read_err)) { errno = EIO; return -1; }
    if (n && strike("data_lost_read", c.pread_eof)) { trace("read_eof", fd, n); return 0; }
    n = shorten("short_read", c.short_read, n);
  }
  ssize_t r = off >= 0 ? rawsys(SYS_pread64, fd, (long)buf, n, off) : rawsys(SYS_read, fd, (long)buf, n);
  trace("read", fd, r);
  return r;
}
ssize_t do_write(int fd, const void* buf, size_t n, int64_t off) {
  Fd& f = fds[fd];
  io_point(off >= 0 ? "pwrite" : "write");
  const FaultCfg& c = OPT->faults;
  if (matches(*f.path, true)) {
    if (benign("eintr_write", c.eintr)) { errno = EINTR; return -1; }
    if (strike("eio_write", c.write_err)) { errno = EIO; return -1; }
    if (c.disk_capacity >= 0 && n) {
      if (g_written + (int64_t)n > c.disk_capacity) {
        int64_t room = c.disk_capacity - g_written;
        if (room <= 0) { count_fault("enospc", true); trace("enospc", fd, n); errno = ENOSPC; return -1; }
        n = room;
        count_fault("partial_write_before_enospc", false);
      }
    }
    n = shorten("short_write", c.short_write, n);
  }
  ssize_t r = off >= 0 ? rawsys(SYS_pwrite64, fd, (long)buf, n, off) : rawsys(SYS_write, fd, (long)buf, n);
  if (r > 0) g_written += r;
  trace("write", fd, r);
  return r;
}
}  // namespace sim
using namespace sim;

#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)

extern "C" {
static int do_open(int dirfd, const char* path, int flags, mode_t mode) {
  if (!simulated()) return rawsys(SYS_openat, dirfd, (long)path, flags, mode);
  Hook h;
  bool in_scratch = !strncmp(path, SH->scratch, strlen(SH->scratch)) || path[0] != '/';
  bool ur = !strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random");
  if (in_scratch) {
    io_point("open");
    if (matches(path, flags & (O_WRONLY | O_RDWR))) {
      if (strike("open_fail", OPT->faults.open_err)) { errno = (flags & O_CREAT) ? ENOSPC : EMFILE; return -1; }
    }
  }
  if (in_scratch && OPT->durable && (flags & O_TRUNC)) {   // record the old contents as durable before they go
    int t = rawsys(SYS_openat, dirfd, (long)path, O_RDONLY | O_CLOEXEC, 0);
    if (t >= 0) {
      Inode* n = inode_of(t, path);
      if (n) n->trunc_pending = true;
      rawsys(SYS_close, t);
    }
  }
  int fd = rawsys(SYS_openat, dirfd, (long)path, flags, mode);
  if (fd >= 0 && fd < NFD) {
    if (in_scratch) {
      fds[fd].kind = 1; fds[fd].path = new std::string(path); fds[fd].wr = flags & (O_WRONLY | O_RDWR);
      fds[fd].inode = OPT->durable ? inode_of(fd, path) : 0;
      trace("open", fd, flags);
    } else if (ur) { fds[fd].kind = 2; }
    else fds[fd].kind = 0;
  }
  return fd;
}
int open(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, p, flags, m); }
int open64(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int __open_2(const char* p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char* p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int openat(int d, const char* p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); return do_open(d, p, flags, m); }
int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
  if (!simulated()) return rawsys(SYS_close, fd);
  if (net_is(fd)) { Hook h; return net_close(fd); }
  if (managed(fd)) {
    Hook h;
    io_point("close");
    bool w = fds[fd].wr;
    std::string p = *fds[fd].path;
    fds[fd].kind = 0;
    int r = rawsys(SYS_close, fd);
    trace("close", fd, 0);
    if (w && matches(p, true) && strike("close_fail", OPT->faults.close_err)) { errno = EIO; return -1; }
    return r;
  }
  if (fd >= 0 && fd < NFD) fds[fd].kind = 0;
  return rawsys(SYS_close, fd);
}
ssize_t read(int fd, void* b, size_t n) {
  if (!simulated()) return rawsys(SYS_read, fd, (long)b, n);
  if (net_is(fd)) { Hook h; return net_read(fd, b, n, 0); }
  if (fd >= 0 && fd < NFD && fds[fd].kind == 2) { Hook h; Rng r(SH->seed ^ 0x5bd1e995); for (size_t i = 0; i < n; ++i) ((char*)b)[i] = (char)r.next(); return n; }
  if (!managed(fd)) return rawsys(SYS_read, fd, (long)b, n);
  Hook h; return do_read(fd, b, n, -1);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (!simulated() || !managed(fd)) return rawsys(SYS_pread64, fd, (long)b, n, o);
  Hook h; return do_read(fd, b, n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n) {
  if (!simulated()) return rawsys(SYS_write, fd, (long)b, n);
  if (net_is(fd)) { Hook h; return net_write(fd, b, n, 0); }
  if (!managed(fd)) return rawsys(SYS_write, fd, (long)b, n);
  Hook h; return do_write(fd, b, n, -1);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!simulated() || !managed(fd)) return rawsys(SYS_pwrite64, fd, (long)b, n, o);
  Hook h; return do_write(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!simulated() || !managed(fd)) return rawsys(SYS_writev, fd, (long)v, c);
  std::string s;
  { Hook h; for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); }
  Hook h; return do_write(fd, s.data(), s.size(), -1);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!simulated() || !managed(fd)) return rawsys(SYS_readv, fd, (long)v, c);
  for (int i = 0; i < c; ++i) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
off_t lseek(int fd, off_t o, int w) {
  if (!simulated() || !managed(fd)) return rawsys(SYS_lseek, fd, o, w);
  Hook h; io_point("lseek");
  if (matches(*fds[fd].path, false) && strike("lseek_fail", OPT->faults.seek_err)) { errno = EINVAL; return -1; }
  off_t r = rawsys(SYS_lseek, fd, o, w);
  trace("lseek", fd, r);
  return r;
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t n) {
  if (!simulated() || !managed(fd)) return rawsys(SYS_ftruncate, fd, n);
  Hook h; io_point("ftruncate");
  if (matches(*fds[fd].path, true)) {
    if (strike("ftruncate_fail", OPT->faults.trunc_err)) { errno = ENOSPC; return -1; }
  }
  trace("ftruncate", fd, n);
  if (fds[fd].inode && n == 0) fds[fd].inode->trunc_pending = true;
  return rawsys(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
static int do_fsync(int fd, const char* nm) {
  if (!simulated() || !managed(fd)) return rawsys(SYS_fsync, fd);
  Hook h; io_point(nm);
  if (matches(*fds[fd].path, true) && strike("fsync_fail", OPT->faults.fsync_err)) { errno = EIO; return -1; }
  if (fds[fd].inode) sync_all(fds[fd].inode);
  trace(nm, fd, 0);
  return 0;
}
int fsync(int fd) { return do_fsync(fd, "fsync"); }
int fdatasync(int fd) { return do_fsync(fd, "fdatasync"); }

// ------------------------------------------------------------------- mappings
}
namespace sim {
struct Map { char* p; size_t n; Inode* in; int64_t off; bool live; };
static Map maps[256];
static int nmaps;
}
extern "C" {
static void* do_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  if (!simulated() || fd < 0 || !managed(fd)) {
    if (simulated() && fd < 0 && (flags & MAP_ANONYMOUS)) {
      Hook h;
      if (n >= (1 << 12) && strike("mmap_anon_fail", OPT->malloc_fail)) { errno = ENOMEM; return MAP_FAILED; }
    }
    return (void*)rawsys(SYS_mmap, (long)a, n, prot, flags, fd, off);
  }
  Hook h;
  io_point("mmap");
  if ((OPT->faults.mmap_match ? OPT->faults.mmap_match(*fds[fd].path) : matches(*fds[fd].path, (flags & MAP_SHARED) && (prot & PROT_WRITE))) && choose_raw("mmap_fail", 2, OPT->faults.mmap_fail)) {
    count_fault("mmap_fail", (flags & MAP_SHARED) && (prot & PROT_WRITE));
    errno = ENODEV; return MAP_FAILED;
  }
  void* p = (void*)rawsys(SYS_mmap, (long)a, n, prot, flags, fd, off);
  trace("mmap", n, off);
  if (p != MAP_FAILED && (flags & MAP_SHARED) && (prot & PROT_WRITE) && fds[fd].inode && nmaps < 256) {
    Map m = {(char*)p, n, fds[fd].inode, off, true};
    maps[nmaps++] = m;
  }
  return p;
}
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) { return do_mmap(a, n, prot, flags, fd, off); }
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off64_t off) { return do_mmap(a, n, prot, flags, fd, off); }
int munmap(void* a, size_t n) {
  if (simulated()) {
    Hook h;
    for (int i = 0; i < nmaps; ++i) if (maps[i].live && maps[i].p == a) { maps[i].live = false; io_point("munmap"); }
  }
  return rawsys(SYS_munmap, (long)a, n);
}
void* mremap(void* a, size_t o, size_t n, int flags, ...) {
  if (simulated()) { Hook h; sched_point("mremap"); }
  return (void*)rawsys(SYS_mremap, (long)a, o, n, flags);
}
int msync(void* a, size_t n, int flags) {
  if (!simulated()) return rawsys(SYS_msync, (long)a, n, flags);
  Hook h;
  io_point("msync");
  Map* f = 0;
  for (int i = 0; i < nmaps; ++i) if (maps[i].live && (char*)a >= maps[i].p && (char*)a < maps[i].p + maps[i].n) f = &maps[i];
  if (strike("msync_fail", OPT->faults.fsync_err)) { errno = EIO; return -1; }
  trace("msync", n, flags);
  if (f && f->in && (flags & MS_SYNC)) {
    int64_t lo = f->off + ((char*)a - f->p);
    sync_range(f->in, lo, lo + n);
    int64_t sz = cur_size(f->in);
    // the metadata needed to read the synced range back becomes durable
    int64_t need = lo + (int64_t)n < sz ? lo + (int64_t)n : sz;
    if (f->in->dsize < need) f->in->dsize = need;
    f->in->durable_exists = true;
  }
  return rawsys(SYS_msync, (long)a, n, flags);
}
int unlink(const char* p) {
  if (!simulated()) return rawsys(SYS_unlink, (long)p);
  Hook h;
  bool in_scratch = !strncmp(p, SH->scratch, strlen(SH->scratch));
  if (!in_scratch) { errno = EPERM; return -1; }
  io_point("unlink");
  struct stat st;
  if (OPT->durable && rawsys(SYS_newfstatat, AT_FDCWD, (long)p, (long)&st, 0) == 0)
    for (size_t i = 0; i < inodes->size(); ++i) if ((*inodes)[i]->ino == st.st_ino && (*inodes)[i]->dev == st.st_dev) {
      Inode* n = (*inodes)[i];
      n->unlinked = true;
      if (n->fd >= 0) { rawsys(SYS_close, n->fd); n->fd = -1; }
      n->dpages.clear();
    }
  trace("unlink", 0, 0);
  return rawsys(SYS_unlink, (long)p);
}
int rename(const char* a, const char* b) {
  if (!simulated()) return rawsys(SYS_rename, (long)a, (long)b);
  Hook h; io_point("rename");
  return rawsys(SYS_rename, (long)a, (long)b);
}
int mkdir(const char* p, mode_t m) {
  if (!simulated()) return rawsys(SYS_mkdir, (long)p, m);
  Hook h; io_point("mkdir");
  bool in_scratch = !strncmp(p, SH->scratch, strlen(SH->scratch));
  if (!in_scratch) { errno = EPERM; return -1; }
  return rawsys(SYS_mkdir, (long)p, m);
}
static int g_tmpno;
static int do_mkstemp(char* t, int suffix) {
  size_t n = strlen(t);
  if (n < (size_t)(6 + suffix)) { errno = EINVAL; return -1; }
  if (simulated()) {
    Hook h; io_point("mkstemp");
    if (matches(t, true) && strike("mkstemp_fail", OPT->faults.mkstemp_err)) { errno = ENOSPC; return -1; }
  }
  for (int i = 0; i < 100000; ++i) {
    char b[8]; snprintf(b, sizeof b, "%06d", g_tmpno++ % 1000000);
    memcpy(t + n - 6 - suffix, b, 6);
    int fd = do_open(AT_FDCWD, t, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  errno = EEXIST; return -1;
}
int mkstemp(char* t) { return do_mkstemp(t, 0); }
int mkstemp64(char* t) { return do_mkstemp(t, 0); }
int mkostemp(char* t, int) { return do_mkstemp(t, 0); }
int mkstemps(char* t, int s) { return do_mkstemp(t, s); }

long sysconf(int n) {
  REAL(sysconf);
  if (simulated()) {
    if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 3;
    if (n == _SC_PHYS_PAGES || n == _SC_AVPHYS_PAGES) return (2ll << 30) / 4096;
  }
  return real(n);
}
int get_nprocs() { if (simulated()) return 3; return rawsys(SYS_getpid) ? 8 : 1; }

int dup(int fd) {
  if (!simulated()) return rawsys(SYS_dup, fd);
  Hook h;
  if (net_is(fd)) return net_dup(fd, -1);
  int r = rawsys(SYS_dup, fd);
  if (r >= 0 && r < NFD && fd >= 0 && fd < NFD) fds[r] = fds[fd];
  return r;
}
int dup2(int a, int b) {
  if (!simulated()) return rawsys(SYS_dup3, a, b, 0);
  Hook h;
  if (net_is(a) || net_is(b)) { int r = net_dup(a, b); if (r >= 0 && r < NFD && !net_child()) fds[r].kind = 0; return r; }
  int r = rawsys(SYS_dup3, a, b, 0);
  if (r >= 0 && r < NFD && a >= 0 && a < NFD) fds[r] = fds[a];
  return r;
}
int system(const char* cmd) {
  if (!simulated()) { REAL(system); return real(cmd); }
  Hook h;
  std::vector<std::string> v; v.push_back(cmd);
  if (OPT->exec_handler) return OPT->exec_handler(v);
  return -1;
}
}

// ---------------------------------------------------------------------- stdio
// fopen/fdopen inside a phase become cookie streams over the simulated calls.
namespace {
ssize_t ck_read(void* c, char* b, size_t n) { NoPreempt np; ssize_t r; do r = read((int)(intptr_t)c, b, n); while (r < 0 && errno == EINTR); return r; }
ssize_t ck_write(void* c, const char* b, size_t n) {
  NoPreempt np;
  size_t i = 0;
  while (i < n) {
    ssize_t r = write((int)(intptr_t)c, b + i, n - i);
    if (r < 0 && errno == EINTR) continue;
    if (r < 0) return i ? i : 0;   // stdio reports EIO-like failure
    i += r;
  }
  return n;
}
int ck_seek(void* c, off64_t* o, int w) { off_t r = lseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
int ck_close(void* c) { return close((int)(intptr_t)c); }
FILE* cookie(int fd, const char* mode) {
  cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
  FILE* fp = fopencookie((void*)(intptr_t)fd, mode, f);
  if (fp) fp->_fileno = fd;    // fileno() and libstdc++ file buffers
  return fp;
}
}
extern "C" {
FILE* fdopen(int fd, const char* mode) {
  if (!simulated() || !(managed(fd) || net_is(fd))) { REAL(fdopen); return real(fd, mode); }
  return cookie(fd, mode);
}
static FILE* do_fopen(const char* path, const char* mode) {
  int fl = mode[0] == 'r' ? (strchr(mode, '+') ? O_RDWR : O_RDONLY)
         : (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
  int fd = do_open(AT_FDCWD, path, fl, 0666);
  if (fd < 0) return 0;
  if (!managed(fd)) { REAL(fdopen); return real(fd, mode); }
  return cookie(fd, mode);
}
FILE* fopen(const char* p, const char* m) {
  if (!simulated()) { REAL(fopen); return real(p, m); }
  return do_fopen(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  if (!simulated()) { REAL(fopen64); return real(p, m); }
  return do_fopen(p, m);
}

// --------------------------------------------------------------------- memory
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
size_t malloc_usable_size(void*);
static uint64_t g_fillseed;
static inline void fill(void* p, size_t n) {
  if (OPT->malloc_fill < 0 || !p) return;
  if (n > (64 << 20)) n = 64 << 20;
  if (OPT->malloc_fill == 257) {      // small numbers, like the stale contents of a recycled record
    uint64_t x = g_fillseed += 0x9E3779B97F4A7C15ull; uint32_t* c = (uint32_t*)p;
    for (size_t i = 0; i < n / 4; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c[i] = x % 4; }
  } else if (OPT->malloc_fill == 256) {
    uint64_t x = g_fillseed += 0x9E3779B97F4A7C15ull; unsigned char* c = (unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c[i] = (unsigned char)x; }
  } else memset(p, OPT->malloc_fill, n);
}
static bool mfail(size_t n) {
  if (!g_on || OPT->malloc_fail <= 0 || n < OPT->malloc_fail_min || cur->hook) return false;
  Hook h;
  if (strike("malloc_fail", OPT->malloc_fail)) { errno = ENOMEM; return true; }
  return false;
}
// Blocks allocated during a phase end in a guard area, checked when they are released.
// The last word of the area holds the block's size, so that guarded blocks are recognised.
static inline uint64_t guard_key(void* p) { return ((uint64_t)p * 0x9E3779B97F4A7C15ull) ^ 0xC3A5C85C97CB3127ull; }
static inline void guard_set(void* p, size_t n) {
  size_t u = malloc_usable_size(p);
  unsigned char* c = (unsigned char*)p;
  memset(c + n, 0xEC, u - 8 - n);
  uint64_t t = (uint64_t)n ^ guard_key(p);
  memcpy(c + u - 8, &t, 8);
}
// size of a guarded block, or -1
static inline ssize_t guard_check(void* p, const char* where) {
  size_t u = malloc_usable_size(p);
  if (u < 24) return -1;
  unsigned char* c = (unsigned char*)p;
  uint64_t t; memcpy(&t, c + u - 8, 8);
  uint64_t n = t ^ guard_key(p);
  if (n + 16 > u || n + 16 + 64 < u) return -1;
  for (size_t i = n; i < u - 8; ++i)
    if (c[i] != 0xEC) sim::fail("heap_overflow", "%s: memory %zu bytes past the end of a block of %zu bytes was written", where, i - (size_t)n, (size_t)n);
  t = 0; memcpy(c + u - 8, &t, 8);
  return n;
}
void* malloc(size_t n) {
  if (!g_on) return __libc_malloc(n);
  if (mfail(n)) return 0;
  if (n > (size_t)1 << 40) return __libc_malloc(n);
  void* p = __libc_malloc(n + 16); if (!p) return 0; fill(p, n); guard_set(p, n); return p;
}
void free(void* p) {
  if (g_on && p) {
    guard_check(p, "free");
    if (OPT->malloc_fill >= 0) { size_t n = malloc_usable_size(p); if (n < (1 << 20)) memset(p, 0xDB, n); }
  }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (mfail(a * b)) return 0;
  if (!g_on || (b && a > ((size_t)1 << 40) / b)) return __libc_calloc(a, b);
  void* p = __libc_calloc(1, a * b + 16); if (p) guard_set(p, a * b); return p;
}
void* realloc(void* p, size_t n) {
  if (!g_on) return __libc_realloc(p, n);
  if (mfail(n)) return 0;
  if (p && !n) { free(p); return 0; }
  if (n > (size_t)1 << 40) return __libc_realloc(p, n);
  size_t o = p ? malloc_usable_size(p) : 0;
  if (p) { ssize_t g = guard_check(p, "realloc"); if (g >= 0) o = g; }
  void* q = __libc_realloc(p, n + 16);
  if (!q) { if (p && o + 16 <= malloc_usable_size(p)) guard_set(p, o); return 0; }
  if (n > o) fill((char*)q + o, n - o);
  guard_set(q, n);
  return q;
}
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (g_on) fill(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { if (mfail(n)) return ENOMEM; *o = memalign(a, n); return *o ? 0 : ENOMEM; }
}
