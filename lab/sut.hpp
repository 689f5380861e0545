// Thunks between the laboratory and the library's public API (compiled into the instrumented object).
#pragma once
#include "abi.hpp"
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cerrno>
#include <mutex>
#include <new>
#include <system_error>
#include <thread>
#include <type_traits>
#include <vector>

namespace sut {

// a user supplied clock: same rate as steady_clock, different epoch, coarser duration
struct custom_clock {
  using duration = std::chrono::microseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = std::chrono::time_point<custom_clock>;
  static constexpr bool is_steady = true;
  static time_point now() noexcept
  {
    // rounding up keeps "deadline passed" equivalent to the steady time line for microsecond arguments
    auto n = std::chrono::steady_clock::now().time_since_epoch() + std::chrono::nanoseconds(543211);
    return time_point(std::chrono::duration_cast<duration>(n) + std::chrono::hours(77));
  }
};

using ns = std::chrono::nanoseconds;
constexpr int64_t ABSNEG = -1000000000000000LL;  // arguments below this mean "absolute, before the epoch"

template <class Clock>
inline std::chrono::time_point<Clock, ns> at(int64_t arg)
{
  if (arg < ABSNEG) return std::chrono::time_point<Clock, ns>(ns(-1500000001LL));
  return std::chrono::time_point_cast<ns>(Clock::now()) + ns(arg);
}
inline std::chrono::time_point<custom_clock> at_custom(int64_t arg)
{
  if (arg < ABSNEG) return std::chrono::time_point<custom_clock>(std::chrono::microseconds(-1500001));
  return custom_clock::now() + std::chrono::microseconds(arg / 1000);
}

inline int map_error(const std::error_code& ec)
{
  if (ec == std::errc::resource_deadlock_would_occur) return R_EX_DEADLOCK;
  if (ec == std::errc::operation_not_permitted) return R_EX_NOTPERM;
  if (ec == std::errc::invalid_argument) return R_EX_INVAL;
  if (ec == std::errc::resource_unavailable_try_again) return R_EX_AGAIN;
  return R_EX_OTHER;
}
template <class F>
inline int guarded(F f)
{
  int r;
  try { r = f(); }
  catch (const std::system_error& e) { r = map_error(e.code()); }
  catch (...) { r = R_EX_OTHER; }
  return r;
}

template <class M> void ctor0(void* mem, int64_t) { new (mem) M(); }
template <class M> int dtor(void* mem) { return guarded([&] { reinterpret_cast<M*>(mem)->~M(); return (int)R_TRUE; }); }

template <class M> int op_x(M& m, int op, std::true_type)
{
  if (op == OP_LOCK) { m.lock(); return R_TRUE; }
  if (op == OP_UNLOCK) { m.unlock(); return R_TRUE; }
  return m.try_lock() ? R_TRUE : R_FALSE;
}
template <class M> int op_s(M& m, int op, std::true_type)
{
  if (op == OP_LOCKS) { m.lock_shared(); return R_TRUE; }
  if (op == OP_UNLOCKS) { m.unlock_shared(); return R_TRUE; }
  return m.try_lock_shared() ? R_TRUE : R_FALSE;
}
template <class M> int op_s(M&, int, std::false_type) { return -1; }
template <class M> bool lock_for(M& m, int64_t a)
{
  // different duration types for the same value
  if (a % 1000000000 == 0) return m.try_lock_for(std::chrono::seconds(a / 1000000000));
  if (a % 1000000 == 0) return m.try_lock_for(std::chrono::milliseconds(a / 1000000));
  return m.try_lock_for(ns(a));
}
template <class M> bool lock_fors(M& m, int64_t a)
{
  if (a % 1000000000 == 0) return m.try_lock_shared_for(std::chrono::seconds(a / 1000000000));
  if (a % 1000000 == 0) return m.try_lock_shared_for(std::chrono::milliseconds(a / 1000000));
  return m.try_lock_shared_for(ns(a));
}
template <class M> int op_tc(M& m, int op, int64_t a, std::true_type)
{
  if (op == OP_UNT_ST) return m.try_lock_until(at<std::chrono::steady_clock>(a));
  return m.try_lock_until(at_custom(a));
}
template <class M> int op_tc(M&, int, int64_t, std::false_type) { return -1; }
template <class M, class AnyClock> int op_t(M& m, int op, int64_t a, std::true_type, AnyClock any)
{
  if (op == OP_FOR) return lock_for(m, a < ABSNEG ? -1 : a);
  if (op == OP_UNT_SY) return m.try_lock_until(at<std::chrono::system_clock>(a));
  return op_tc(m, op, a, any);
}
template <class M, class AnyClock> int op_t(M&, int, int64_t, std::false_type, AnyClock) { return -1; }
template <class M> int op_stc(M& m, int op, int64_t a, std::true_type)
{
  if (op == OP_UNTS_ST) return m.try_lock_shared_until(at<std::chrono::steady_clock>(a));
  return m.try_lock_shared_until(at_custom(a));
}
template <class M> int op_stc(M&, int, int64_t, std::false_type) { return -1; }
template <class M, class AnyClock> int op_st(M& m, int op, int64_t a, std::true_type, AnyClock any)
{
  if (op == OP_FORS) return lock_fors(m, a < ABSNEG ? -1 : a);
  if (op == OP_UNTS_SY) return m.try_lock_shared_until(at<std::chrono::system_clock>(a));
  return op_stc(m, op, a, any);
}
template <class M, class AnyClock> int op_st(M&, int, int64_t, std::false_type, AnyClock) { return -1; }

template <unsigned C, unsigned B> using has = std::integral_constant<bool, (C & B) != 0>;

template <class M, unsigned C>
int mtx_op(void* mem, int op, int64_t a)
{
  M& m = *reinterpret_cast<M*>(mem);
  return guarded([&]() -> int {
    using any = std::integral_constant<bool, !(C & CAP_SYSONLY)>;
    if (op >= OP_LOCK && op <= OP_UNLOCK) return op_x(m, op, has<C, CAP_X>());
    if (op >= OP_LOCKS && op <= OP_UNLOCKS) return op_s(m, op, has<C, CAP_SHARED>());
    if (op >= OP_FOR && op <= OP_UNT_CU) return op_t(m, op, a, has<C, CAP_TIMED>(), any());
    if (op >= OP_FORS && op <= OP_UNTS_CU) return op_st(m, op, a, has<C, CAP_STIMED>(), any());
    return -1;
  });
}

} // namespace sut

#define MTX(name, type, caps) { name, sizeof(type), alignof(type), &sut::ctor0<type>, &sut::dtor<type>, &sut::mtx_op<type, (caps)>, (caps) }
