// Instrumentation runtime.  The library under test is compiled with
// -fsanitize=thread -fsanitize-coverage=trace-pc and linked without any
// sanitizer runtime: these are its only definitions, so every memory access,
// basic block and function entry of the library is a point where the
// simulator may act.
#include "hooks.h"
#include <cstring>
#include <cerrno>
#include <dlfcn.h>

__thread Hook hk;
uint8_t *cov_map;                       // one byte per text offset, shared
uintptr_t lib_base, lib_text_end;
Range lib_data[4]; int n_lib_data;

static inline void tick (void *pc) {
  if (__builtin_expect (!hk.on, 1)) return;
  if (__builtin_expect (++hk.n >= hk.stop, 0)) sim_stop (pc);
}

static inline void access_ (void *addr, void *pc) {
  if (__builtin_expect (!hk.on, 1)) return;
  ++hk.n;
  if (__builtin_expect (hk.rec, 0)) {
    uintptr_t a = (uintptr_t) addr;
    for (int i = 0; i < n_lib_data; i++)
      if (a >= lib_data[i].lo && a < lib_data[i].hi) { sim_hot (hk.n); break; }
  }
  if (__builtin_expect (hk.n >= hk.stop, 0)) sim_stop (pc);
}

#define PC __builtin_return_address (0)
extern "C" {
void __tsan_init () {}
void __tsan_func_entry (void *) { tick (PC); }
void __tsan_func_exit () { tick (PC); }
#define RW(n) \
  void __tsan_read##n (void *a) { access_ (a, PC); } \
  void __tsan_write##n (void *a) { access_ (a, PC); } \
  void __tsan_volatile_read##n (void *a) { access_ (a, PC); } \
  void __tsan_volatile_write##n (void *a) { access_ (a, PC); } \
  void __tsan_unaligned_read##n (void *a) { access_ (a, PC); } \
  void __tsan_unaligned_write##n (void *a) { access_ (a, PC); } \
  void __tsan_unaligned_volatile_read##n (void *a) { access_ (a, PC); } \
  void __tsan_unaligned_volatile_write##n (void *a) { access_ (a, PC); } \
  void __tsan_read_write##n (void *a) { access_ (a, PC); } \
  void __tsan_unaligned_read_write##n (void *a) { access_ (a, PC); }
RW (1) RW (2) RW (4) RW (8) RW (16)
void __tsan_read_range (void *a, size_t) { access_ (a, PC); }
void __tsan_write_range (void *a, size_t) { access_ (a, PC); }
void __tsan_vptr_update (void **a, void *) { access_ (a, PC); }
void __tsan_vptr_read (void **a) { access_ (a, PC); }
void __sanitizer_cov_trace_pc () {
  if (__builtin_expect (!hk.on, 1)) return;
  uintptr_t pc = (uintptr_t) PC;
  if (pc - lib_base < lib_text_end - lib_base && cov_map) cov_map[pc - lib_base] = 1;
  if (__builtin_expect (++hk.n >= hk.stop, 0)) sim_stop ((void *) pc);
}
#define AT(n, T) \
  T __tsan_atomic##n##_load (const volatile T *a, int) { access_ ((void *) a, PC); return __atomic_load_n (a, 5); } \
  void __tsan_atomic##n##_store (volatile T *a, T v, int) { access_ ((void *) a, PC); __atomic_store_n (a, v, 5); } \
  T __tsan_atomic##n##_exchange (volatile T *a, T v, int) { access_ ((void *) a, PC); return __atomic_exchange_n (a, v, 5); } \
  T __tsan_atomic##n##_fetch_add (volatile T *a, T v, int) { access_ ((void *) a, PC); return __atomic_fetch_add (a, v, 5); } \
  T __tsan_atomic##n##_fetch_sub (volatile T *a, T v, int) { access_ ((void *) a, PC); return __atomic_fetch_sub (a, v, 5); } \
  T __tsan_atomic##n##_fetch_and (volatile T *a, T v, int) { access_ ((void *) a, PC); return __atomic_fetch_and (a, v, 5); } \
  T __tsan_atomic##n##_fetch_or (volatile T *a, T v, int) { access_ ((void *) a, PC); return __atomic_fetch_or (a, v, 5); } \
  T __tsan_atomic##n##_fetch_xor (volatile T *a, T v, int) { access_ ((void *) a, PC); return __atomic_fetch_xor (a, v, 5); } \
  T __tsan_atomic##n##_fetch_nand (volatile T *a, T v, int) { access_ ((void *) a, PC); return __atomic_fetch_nand (a, v, 5); } \
  int __tsan_atomic##n##_compare_exchange_strong (volatile T *a, T *c, T v, int, int) { access_ ((void *) a, PC); return __atomic_compare_exchange_n (a, c, v, 0, 5, 5); } \
  int __tsan_atomic##n##_compare_exchange_weak (volatile T *a, T *c, T v, int, int) { access_ ((void *) a, PC); return __atomic_compare_exchange_n (a, c, v, 0, 5, 5); } \
  T __tsan_atomic##n##_compare_exchange_val (volatile T *a, T c, T v, int, int) { access_ ((void *) a, PC); __atomic_compare_exchange_n (a, &c, v, 0, 5, 5); return c; }
AT (8, unsigned char) AT (16, unsigned short) AT (32, unsigned int) AT (64, unsigned long)
void __tsan_atomic_thread_fence (int) { tick (PC); }
void __tsan_atomic_signal_fence (int) { tick (PC); }
}
