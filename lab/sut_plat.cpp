// The wrappers for Windows and Apple platforms over the native primitives of sut_plat_stub.cpp.
#define NOMINMAX
#include "sut.hpp"
#include "win_native_mutex.hpp"
#include "win_semaphore.hpp"
#include "gcd_semaphore.hpp"
#include "apple_native_mutex.hpp"
extern "C" { void stub_setup(int nfaults, int failing_creation); int stub_open(); }
namespace sut {
template <class M> void plat_ctor(void* mem, int64_t a) { stub_setup((int)(a / 1000), 0); new (mem) M(); }
template <class S> void plat_sem_ctor(void* mem, int64_t a) { stub_setup((int)(a / 1000), 0); new (mem) S((std::ptrdiff_t)(a % 1000)); }
template <class S> bool acquire_for(S& s, int64_t a)
{
  if (a < ABSNEG) return s.try_acquire_for(ns(-1));
  if (a % 1000000000 == 0) return s.try_acquire_for(std::chrono::seconds(a / 1000000000));
  if (a % 1000000 == 0) return s.try_acquire_for(std::chrono::milliseconds(a / 1000000));
  return s.try_acquire_for(ns(a));
}
template <class S> int sem_do(S& s, int op, int64_t a)
{
  switch (op) {
  case OP_ACQ: s.acquire(); return R_TRUE;
  case OP_TRYACQ: return s.try_acquire();
  case OP_REL: if (a == 1) s.release(); else s.release((std::ptrdiff_t)a); return R_TRUE;
  case OP_AFOR: return acquire_for(s, a);
  case OP_AUNT_ST: return s.try_acquire_until(at<std::chrono::steady_clock>(a));
  case OP_AUNT_SY: return s.try_acquire_until(at<std::chrono::system_clock>(a));
  case OP_AUNT_CU: return s.try_acquire_until(std::chrono::time_point_cast<ns>(at_custom(a)));
  }
  return -1;
}
// 80: an object whose native primitive could not be created is constructed; its operation "a" is called
enum { OP_BROKEN = 80 };
template <class S> int plat_sem_op(void* mem, int op, int64_t a)
{
  return guarded([&]() -> int {
    if (op == OP_BROKEN) {
      struct Restore { ~Restore() { stub_setup(0, 0); } } x;
      stub_setup(0, 1);
      int r = R_EX_OTHER;
      try { S s(1); r = guarded([&] { return sem_do(s, (int)a, 1); }); } catch (...) { return R_EX_OTHER; }
      return r;
    }
    return sem_do(*reinterpret_cast<S*>(mem), op, a);
  });
}
template <class M, unsigned C> int plat_mtx_op(void* mem, int op, int64_t a)
{
  if (op != OP_BROKEN) return mtx_op<M, C>(mem, op, a);
  return guarded([&]() -> int { struct Restore { ~Restore() { stub_setup(0, 0); } } x; stub_setup(0, 1); M m; return R_TRUE; });
}
// the same objects, used through native_handle() every other time
template <class M> struct Handle;
template <> struct Handle<yamc::win::native_mutex> {
  static void lock(yamc::win::native_mutex& m) { if (::WaitForSingleObject(m.native_handle(), INFINITE) != WAIT_OBJECT_0) throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); }
  static bool try_lock(yamc::win::native_mutex& m) { return ::WaitForSingleObject(m.native_handle(), 0) == WAIT_OBJECT_0; }
  static void unlock(yamc::win::native_mutex& m) { ::ReleaseMutex(m.native_handle()); }
};
template <> struct Handle<yamc::win::critical_section> {
  static void lock(yamc::win::critical_section& m) { ::EnterCriticalSection(m.native_handle()); }
  static bool try_lock(yamc::win::critical_section& m) { return ::TryEnterCriticalSection(m.native_handle()); }
  static void unlock(yamc::win::critical_section& m) { ::LeaveCriticalSection(m.native_handle()); }
};
template <> struct Handle<yamc::win::slim_rwlock> {
  static void lock(yamc::win::slim_rwlock& m) { ::AcquireSRWLockExclusive(m.native_handle()); }
  static bool try_lock(yamc::win::slim_rwlock& m) { return ::TryAcquireSRWLockExclusive(m.native_handle()); }
  static void unlock(yamc::win::slim_rwlock& m) { ::ReleaseSRWLockExclusive(m.native_handle()); }
};
template <> struct Handle<yamc::apple::unfair_lock> {
  static void lock(yamc::apple::unfair_lock& m) { ::os_unfair_lock_lock(m.native_handle()); }
  static bool try_lock(yamc::apple::unfair_lock& m) { return ::os_unfair_lock_trylock(m.native_handle()); }
  static void unlock(yamc::apple::unfair_lock& m) { ::os_unfair_lock_unlock(m.native_handle()); }
};
template <class M, unsigned C> int handle_op(void* mem, int op, int64_t a)
{
  M& m = *reinterpret_cast<M*>(mem);
  if ((op == OP_LOCK || op == OP_TRY) && lab_thread() % 2) return guarded([&]() -> int { if (op == OP_LOCK) { Handle<M>::lock(m); return R_TRUE; } return Handle<M>::try_lock(m); });
  if (op == OP_UNLOCK && lab_thread() % 3 == 1) return guarded([&]() -> int { Handle<M>::unlock(m); return R_TRUE; });
  return plat_mtx_op<M, C>(mem, op, a);
}
}
constexpr unsigned X = CAP_X | CAP_TRY, T = CAP_X | CAP_TRY | CAP_TIMED, R = CAP_REC, N = CAP_NATIVE;
#define PM(name, type, caps) { name, sizeof(type), alignof(type), &sut::plat_ctor<type>, &sut::dtor<type>, &sut::plat_mtx_op<type, (caps)>, (caps) }
#define PH(name, type, caps) { name, sizeof(type), alignof(type), &sut::plat_ctor<type>, &sut::dtor<type>, &sut::handle_op<type, (caps)>, (caps) }
#define PS(name, type) { name, sizeof(type), alignof(type), &sut::plat_sem_ctor<type>, &sut::dtor<type>, &sut::plat_sem_op<type>, CAP_SEM }
using w5 = yamc::win::counting_semaphore<6>; using w = yamc::win::counting_semaphore<>; using w1 = yamc::win::binary_semaphore;
using g5 = yamc::gcd::counting_semaphore<6>; using g = yamc::gcd::counting_semaphore<>; using g1 = yamc::gcd::binary_semaphore;
static const TypeDesc tab[] = {
  PM("win.native_mutex", yamc::win::native_mutex, T | R | N), PM("win.critical_section", yamc::win::critical_section, X | R | N),
  PM("win.timed_mutex", yamc::win::timed_mutex, T | R | N), PM("win.recursive_timed_mutex", yamc::win::recursive_timed_mutex, T | R | N),
  PM("win.mutex", yamc::win::mutex, X | N), PM("win.recursive_mutex", yamc::win::recursive_mutex, X | R | N),
  PM("win.slim_rwlock", yamc::win::slim_rwlock, X | CAP_SHARED | N), PM("win.shared_mutex", yamc::win::shared_mutex, X | CAP_SHARED | N),
  PM("apple.unfair_lock", yamc::apple::unfair_lock, X | N),
  PH("win.native_mutex/handle", yamc::win::native_mutex, T | R | N), PH("win.critical_section/handle", yamc::win::critical_section, X | R | N), PH("win.slim_rwlock/handle", yamc::win::slim_rwlock, X | CAP_SHARED | N), PH("apple.unfair_lock/handle", yamc::apple::unfair_lock, X | N),
  PS("win.counting_semaphore", w), PS("win.counting_semaphore6", w5), PS("win.binary_semaphore", w1),
  PS("gcd.counting_semaphore", g), PS("gcd.counting_semaphore6", g5), PS("gcd.binary_semaphore", g1),
};
extern "C" const TypeDesc* sut_types(int* n) { *n = sizeof(tab) / sizeof(tab[0]); return tab; }
