// The runtime behind -fsanitize=thread: every memory access of jom is a potential preemption point.
#include "core.h"
using sim::point;
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
typedef __int128 a128;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *) { point(); } void __tsan_write##n(void *) { point(); } \
  void __tsan_unaligned_read##n(void *) { point(); } void __tsan_unaligned_write##n(void *) { point(); } \
  void __tsan_volatile_read##n(void *) { point(); } void __tsan_volatile_write##n(void *) { point(); } \
  void __tsan_read##n##_pc(void *, void *) { point(); } void __tsan_write##n##_pc(void *, void *) { point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *, unsigned long) { point(); }
void __tsan_write_range(void *, unsigned long) { point(); }
void __tsan_vptr_update(void **p, void *) { point(); }
void __tsan_vptr_read(void **p) { point(); }
#define AT(s, T) \
  T __tsan_atomic##s##_load(const volatile T *a, int) { point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##s##_store(volatile T *a, T v, int) { point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##s##_exchange(volatile T *a, T v, int) { point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##s##_fetch_add(volatile T *a, T v, int) { point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##s##_fetch_sub(volatile T *a, T v, int) { point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##s##_fetch_and(volatile T *a, T v, int) { point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##s##_fetch_or(volatile T *a, T v, int) { point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##s##_fetch_xor(volatile T *a, T v, int) { point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##s##_fetch_nand(volatile T *a, T v, int) { point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##s##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { point(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##s##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { point(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##s##_compare_exchange_val(volatile T *a, T c, T v, int, int) { point(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { point(); return __builtin_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { point(); return __builtin_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { point(); return __builtin_memset(d, c, n); }
}
