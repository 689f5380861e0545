#include "sut.hpp"
#include "yamc_semaphore.hpp"
#include "posix_semaphore.hpp"
#include "yamc_latch.hpp"
#include "yamc_barrier.hpp"
extern "C" void lab_point();

namespace sut {
template <class S> bool acquire_for(S& s, int64_t a)
{
  if (a < ABSNEG) return s.try_acquire_for(ns(-1));
  if (a % 1000000000 == 0) return s.try_acquire_for(std::chrono::seconds(a / 1000000000));
  if (a % 1000000 == 0) return s.try_acquire_for(std::chrono::milliseconds(a / 1000000));
  return s.try_acquire_for(ns(a));
}
template <class S> int sem_op(void* mem, int op, int64_t a)
{
  S& s = *reinterpret_cast<S*>(mem);
  return guarded([&]() -> int {
    switch (op) {
    case OP_ACQ: s.acquire(); return R_TRUE;
    case OP_TRYACQ: return s.try_acquire();
    case OP_REL: if (a == 1) s.release(); else s.release((std::ptrdiff_t)a); return R_TRUE;
    case OP_AFOR: return acquire_for(s, a);
    case OP_AUNT_ST: return s.try_acquire_until(at<std::chrono::steady_clock>(a));
    case OP_AUNT_SY: return s.try_acquire_until(at<std::chrono::system_clock>(a));
    case OP_AUNT_CU: return s.try_acquire_until(std::chrono::time_point_cast<ns>(at_custom(a)));
    }
    return -1;
  });
}
template <class S> void sem_ctor(void* mem, int64_t a) { new (mem) S((std::ptrdiff_t)a); }

void latch_ctor(void* mem, int64_t a) { new (mem) yamc::latch((std::ptrdiff_t)a); }
int latch_op(void* mem, int op, int64_t a)
{
  yamc::latch& l = *reinterpret_cast<yamc::latch*>(mem);
  return guarded([&]() -> int {
    switch (op) {
    case OP_CDOWN: if (a == 1) l.count_down(); else l.count_down((std::ptrdiff_t)a); return R_TRUE;
    case OP_TRYWAIT: return l.try_wait();
    case OP_LWAIT: l.wait(); return R_TRUE;
    case OP_LARRWAIT: if (a == 1) l.arrive_and_wait(); else l.arrive_and_wait((std::ptrdiff_t)a); return R_TRUE;
    }
    return -1;
  });
}

bool quiet;          // the completion function of a macro step is only counted
long completions;
struct completion { void operator()() const { if (quiet) { ++completions; return; } lab_event('B', 0); lab_point(); lab_event('E', 0); } };
template <class B> struct bar {
  B b;
  struct { bool have; alignas(typename B::arrival_token) char tok[sizeof(typename B::arrival_token)]; } t[6];
  std::ptrdiff_t expected;
  template <class... A> bar(std::ptrdiff_t e, A... a) : b(e, a...), expected(e) { for (auto& x : t) x.have = false; lab_private(t, sizeof t + sizeof expected); }
};
template <class B> void keep(bar<B>& x, typename B::arrival_token&& k) { auto& t = x.t[lab_thread()]; new (t.tok) typename B::arrival_token(std::move(k)); t.have = true; }
template <class B> int bar_op(void* mem, int op, int64_t a)
{
  bar<B>& x = *reinterpret_cast<bar<B>*>(mem);
  return guarded([&]() -> int {
    auto& t = x.t[lab_thread()];
    switch (op) {
    case OP_BARR: if (a == 1) keep(x, x.b.arrive()); else keep(x, x.b.arrive((std::ptrdiff_t)a)); return R_TRUE;
    case OP_BWAIT: {
      if (!t.have) return -1;
      typename B::arrival_token k(*reinterpret_cast<typename B::arrival_token*>(t.tok));
      x.b.wait(std::move(k)); return R_TRUE;
    }
    case OP_BARRWAIT: x.b.arrive_and_wait(); return R_TRUE;
    case OP_BDROP: x.b.arrive_and_drop(); return R_TRUE;
    case OP_BCYCLE: { // a complete phases, each by one arrival of everybody
      quiet = true; completions = 0;
      for (int64_t i = 0; i < a; i++) { auto k = x.b.arrive(x.expected); (void)k; }
      quiet = false;
      lab_event('Y', completions);
      return R_TRUE;
    }
    case OP_BFAR: { // nearly 2^32 phases: whatever 32-bit words of the object count phases are advanced
      uint32_t s[4][sizeof(B) / 4];
      quiet = true; completions = 0;
      for (int i = 0; i < 4; i++) { memcpy(s[i], &x.b, sizeof(B) / 4 * 4); auto k = x.b.arrive(x.expected); (void)k; }
      quiet = false;
      lab_event('Y', completions);
      bool first = true; uint32_t d = 0;
      for (size_t i = 0; i < sizeof(B) / 4; i++)
        if (s[1][i] == s[0][i] + 1 && s[2][i] == s[0][i] + 2 && s[3][i] == s[0][i] + 3) {
          uint32_t now; memcpy(&now, (char*)&x.b + 4 * i, 4);
          if (first) { d = (uint32_t)-(int)a - now; first = false; }
          now += d; memcpy((char*)&x.b + 4 * i, &now, 4);
        }
      return R_TRUE;
    }
    }
    return -1;
  });
}
template <class B> void bar_ctor(void* mem, int64_t a) { quiet = false; new (mem) bar<B>((std::ptrdiff_t)a); }
}
#define SEM(name, type, caps) { name, sizeof(type), alignof(type), &sut::sem_ctor<type>, &sut::dtor<type>, &sut::sem_op<type>, CAP_SEM | (caps) }
using gcs5 = yamc::counting_semaphore<5>; using gcs = yamc::counting_semaphore<>;
using pcs5 = yamc::posix::counting_semaphore<5>; using pcs = yamc::posix::counting_semaphore<>;
using bc = yamc::barrier<sut::completion>; using bd = yamc::barrier<>;
static const TypeDesc tab[] = {
  SEM("sem.counting", gcs, 0), SEM("sem.counting5", gcs5, 0), SEM("sem.binary", yamc::binary_semaphore, 0),
  SEM("posix.counting_semaphore", pcs, CAP_NATIVE), SEM("posix.counting_semaphore5", pcs5, CAP_NATIVE), SEM("posix.binary_semaphore", yamc::posix::binary_semaphore, CAP_NATIVE),
  { "latch", sizeof(yamc::latch), alignof(yamc::latch), &sut::latch_ctor, &sut::dtor<yamc::latch>, &sut::latch_op, CAP_LATCH },
  { "barrier.callback", sizeof(sut::bar<bc>), alignof(sut::bar<bc>), &sut::bar_ctor<bc>, &sut::dtor<sut::bar<bc>>, &sut::bar_op<bc>, CAP_BARRIER },
  { "barrier.default", sizeof(sut::bar<bd>), alignof(sut::bar<bd>), &sut::bar_ctor<bd>, &sut::dtor<sut::bar<bd>>, &sut::bar_op<bd>, CAP_BARRIER },
};
extern "C" const TypeDesc* sut_types(int* n) { *n = sizeof(tab) / sizeof(tab[0]); return tab; }
