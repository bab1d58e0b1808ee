// Replacement for libtsan: code compiled with -fsanitize=thread calls these at
// every memory access; they are the preemption points of the simulator.
#include "internal.h"
#include <sys/mman.h>
using namespace sim;

namespace {
struct Shadow { uintptr_t tag; uint8_t tid; uint8_t wr; uint8_t shared; uint8_t pad[5]; };
enum { SHN = 1 << 16 };
Shadow* g_sh;

inline bool conflict(uintptr_t a, bool w) {
  uintptr_t g = a >> 3;
  Shadow& s = g_sh[(g ^ (g >> 16)) & (SHN - 1)];
  uint8_t me = (uint8_t)(cur->id + 1);
  if (s.tag != g) { s.tag = g; s.tid = me; s.wr = w; s.shared = 0; return false; }
  if (s.tid != me) {
    if (w || s.wr) s.shared = 1;
    s.tid = me; s.wr = w || (s.shared && s.wr);
  } else if (w) s.wr = 1;
  return s.shared;
}
inline __attribute__((always_inline)) void on_access(const volatile void* p, bool w, uintptr_t pc) {
  if (__builtin_expect(!g_on, 0)) return;
  Thread* t = cur;
  if (t->hook) return;
  ++t->acc;
  if (__builtin_expect(++g_steps > OPT->step_limit, 0)) { ++t->hook; end_phase(Outcome::STEPLIMIT, 0, "step limit exceeded"); }
  int64_t c = g_countdown;
  if (c != INT64_MAX) {
    if (SH->mode == 0 && nthreads > 1 && conflict((uintptr_t)p, w)) c -= 40;
    else --c;
    if (__builtin_expect(g_focus_mask != 0, 0) && (((uint32_t)pc * 0x9E3779B1u) >> 12 & g_focus_mask) == g_focus_val && focus_hit()) c = 0;
    g_countdown = c;
    if (__builtin_expect(c <= 0, 0)) mem_point();
  }
}
}  // namespace

extern "C" {
void sim_note_shadow_reset() {
  if (!g_sh) g_sh = (Shadow*)mmap(0, sizeof(Shadow) * SHN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RD(n) void __tsan_read##n(void* p) { on_access(p, false, (uintptr_t)__builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void* p) { on_access(p, false, (uintptr_t)__builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void* p) { on_access(p, false, (uintptr_t)__builtin_return_address(0)); } \
  void __tsan_unaligned_volatile_read##n(void* p) { on_access(p, false, (uintptr_t)__builtin_return_address(0)); }
#define WR(n) void __tsan_write##n(void* p) { on_access(p, true, (uintptr_t)__builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void* p) { on_access(p, true, (uintptr_t)__builtin_return_address(0)); } \
  void __tsan_volatile_write##n(void* p) { on_access(p, true, (uintptr_t)__builtin_return_address(0)); } \
  void __tsan_unaligned_volatile_write##n(void* p) { on_access(p, true, (uintptr_t)__builtin_return_address(0)); }
RD(1) RD(2) RD(4) RD(8) RD(16)
WR(1) WR(2) WR(4) WR(8) WR(16)
void __tsan_read_range(void* p, long) { on_access(p, false, (uintptr_t)__builtin_return_address(0)); }
void __tsan_write_range(void* p, long) { on_access(p, true, (uintptr_t)__builtin_return_address(0)); }
void __tsan_vptr_update(void** p, void*) { on_access(p, true, (uintptr_t)__builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { on_access(p, false, (uintptr_t)__builtin_return_address(0)); }

static inline void at(const volatile void*) {
  if (!simulated()) return;
  Hook h;
  sched_point("atomic");
}
#define ATOMICS(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int) { at(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T* a, T v, int) { at(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { at(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { at(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { at(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { at(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { at(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { at(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { at(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { at(a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { at(a); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int, int) { at(a); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
