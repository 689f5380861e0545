#include "sut.hpp"
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "checked_mutex.hpp"
#include "fair_mutex.hpp"
#include "alternate_mutex.hpp"
#include "posix_native_mutex.hpp"

constexpr unsigned X = CAP_X | CAP_TRY, T = CAP_X | CAP_TRY | CAP_TIMED, R = CAP_REC, C = CAP_CHECKED, S = X | CAP_SPIN, N = CAP_NATIVE;
using e2 = yamc::backoff::exponential<2>; using yl = yamc::backoff::yield; using bz = yamc::backoff::busy;
typedef yamc::spin::basic_mutex<e2> sp_e; typedef yamc::spin::basic_mutex<yl> sp_y; typedef yamc::spin::basic_mutex<bz> sp_b;
typedef yamc::spin_weak::basic_mutex<e2> sw_e; typedef yamc::spin_weak::basic_mutex<yl> sw_y; typedef yamc::spin_weak::basic_mutex<bz> sw_b;
typedef yamc::spin_ttas::basic_mutex<e2> st_e; typedef yamc::spin_ttas::basic_mutex<yl> st_y; typedef yamc::spin_ttas::basic_mutex<bz> st_b;

static const TypeDesc tab[] = {
  MTX("spin.mutex", yamc::spin::mutex, S), MTX("spin.exp2", sp_e, S), MTX("spin.yield", sp_y, S), MTX("spin.busy", sp_b, S),
  MTX("spin_weak.mutex", yamc::spin_weak::mutex, S), MTX("spin_weak.exp2", sw_e, S), MTX("spin_weak.yield", sw_y, S), MTX("spin_weak.busy", sw_b, S),
  MTX("spin_ttas.mutex", yamc::spin_ttas::mutex, S), MTX("spin_ttas.exp2", st_e, S), MTX("spin_ttas.yield", st_y, S), MTX("spin_ttas.busy", st_b, S),
  MTX("checked.mutex", yamc::checked::mutex, X | C), MTX("checked.timed_mutex", yamc::checked::timed_mutex, T | C),
  MTX("checked.recursive_mutex", yamc::checked::recursive_mutex, X | R | C), MTX("checked.recursive_timed_mutex", yamc::checked::recursive_timed_mutex, T | R | C),
  MTX("fair.mutex", yamc::fair::mutex, X), MTX("fair.timed_mutex", yamc::fair::timed_mutex, T),
  MTX("fair.recursive_mutex", yamc::fair::recursive_mutex, X | R), MTX("fair.recursive_timed_mutex", yamc::fair::recursive_timed_mutex, T | R),
  MTX("alternate.mutex", yamc::alternate::mutex, X), MTX("alternate.timed_mutex", yamc::alternate::timed_mutex, T),
  MTX("alternate.recursive_mutex", yamc::alternate::recursive_mutex, X | R), MTX("alternate.recursive_timed_mutex", yamc::alternate::recursive_timed_mutex, T | R),
  MTX("posix.native_mutex", yamc::posix::native_mutex, T | CAP_SYSONLY | N), MTX("posix.native_recursive_mutex", yamc::posix::native_recursive_mutex, T | R | CAP_SYSONLY | N),
#if YAMC_POSIX_SPINLOCK_SUPPORTED
  MTX("posix.spinlock", yamc::posix::spinlock, X | N),
#endif
};
extern "C" const TypeDesc* sut_types(int* n) { *n = sizeof(tab) / sizeof(tab[0]); return tab; }
