// Run time of drv_backoff.cpp, compiled without instrumentation.
#include "drv_backoff.hpp"
#include <cstddef>
std::string out; long fails = 0;
void emit(const std::string& s) { if (fails) { out += "f." + std::to_string(fails) + " "; fails = 0; } out += s + " "; }
bool active = false, held = false;
long ops, limit; std::vector<long> flips; size_t nflip;
std::function<void(bool)> other;
jmp_buf jb;

extern "C" {
int sched_yield() noexcept(true) { if (active) emit("y"); return 0; }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void*) {} void __tsan_write##n(void*) {} void __tsan_unaligned_read##n(void*) {} void __tsan_unaligned_write##n(void*) {} \
  void __tsan_volatile_read##n(void*) {} void __tsan_volatile_write##n(void*) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t) {}
void __tsan_write_range(void*, size_t) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
static void attempt()
{
  if (!active) return;
  ++ops;
  if (nflip < flips.size() && flips[nflip] <= ops) { nflip++; held = !held; active = false; other(held); active = true; emit(held ? "g" : "o"); }
  if (ops > limit) { active = false; emit("x"); longjmp(jb, 1); }
}
static void failed() { if (active) ++fails; }
#define AT(T, B) \
T __tsan_atomic##B##_load(const volatile T* a, int) { attempt(); T v = *a; if (v) failed(); return v; } \
void __tsan_atomic##B##_store(volatile T* a, T v, int) { *a = v; } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { attempt(); T o = *a; *a = v; if (o) failed(); return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { attempt(); T o = *a; *a = o | v; if (o) failed(); return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { attempt(); T o = *a; if (o == *e) { *a = v; return 1; } *e = o; failed(); return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { attempt(); T o = *a; if (o == *e) { *a = v; return 1; } *e = o; failed(); return 0; }
AT(unsigned char, 8) AT(unsigned short, 16) AT(unsigned int, 32) AT(unsigned long, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

