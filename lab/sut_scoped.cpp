// scoped_lock over three mutexes of one type, used by several threads.
#include "sut.hpp"
#include "alternate_mutex.hpp"
#include "checked_mutex.hpp"
#include "fair_mutex.hpp"
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "yamc_scoped_lock.hpp"
#include <cstdlib>

enum { OP_HLOCK = 62, OP_HTRY = 63, OP_HUNLOCK = 64, OP_SADOPT = 65 };
template <class M> struct Bench {
  using L1 = yamc::scoped_lock<M>; using L2 = yamc::scoped_lock<M, M>; using L3 = yamc::scoped_lock<M, M, M>;
  M m[3];
  int n[8] = {};          // arity of the guard of each thread
  unsigned hand[8] = {};  // mutexes locked by hand
  alignas(L3) unsigned char mem[8][sizeof(L3)];
  Bench() { lab_private(n, (char*)(this + 1) - (char*)n); }
};
template <class L> void destroy(void* g) { reinterpret_cast<L*>(g)->~L(); }
template <class M> int scoped_op(void* mem, int op, int64_t a)
{
  using B = Bench<M>;
  B& b = *reinterpret_cast<B*>(mem);
  int t = lab_thread();
  return sut::guarded([&]() -> int {
    if (op == OP_HLOCK || op == OP_HTRY || op == OP_HUNLOCK) {
      unsigned bit = 1u << a;
      if (((b.hand[t] & bit) != 0) != (op == OP_HUNLOCK)) return -1;
      if (op == OP_HUNLOCK) { b.hand[t] &= ~bit; b.m[a - 1].unlock(); return R_TRUE; }
      if (op == OP_HLOCK) b.m[a - 1].lock();
      else if (!b.m[a - 1].try_lock()) return R_FALSE;
      b.hand[t] |= bit;
      return R_TRUE;
    }
    if (op == OP_SCOPED || op == OP_SADOPT) {
      if (b.n[t]) return -1;
      unsigned want = 0;
      for (int64_t x = a % 1000; x; x /= 10) want |= 1u << (x % 10);
      if (op == OP_SADOPT) { if ((b.hand[t] & want) != want) return -1; b.hand[t] &= ~want; }
      else if ((b.hand[t] & want) && a < 1000) return -1;
      int i = a % 10 - 1, j = a / 10 % 10 - 1, k = a / 100 % 10 - 1;
      void* g = b.mem[t];
      if (op == OP_SADOPT) {
        if (k >= 0) { new (g) typename B::L3(std::adopt_lock, b.m[k], b.m[j], b.m[i]); b.n[t] = 3; }
        else if (j >= 0) { new (g) typename B::L2(std::adopt_lock, b.m[j], b.m[i]); b.n[t] = 2; }
        else { new (g) typename B::L1(std::adopt_lock, b.m[i]); b.n[t] = 1; }
      }
      else if (k >= 0) { new (g) typename B::L3(b.m[k], b.m[j], b.m[i]); b.n[t] = 3; }
      else if (j >= 0) { new (g) typename B::L2(b.m[j], b.m[i]); b.n[t] = 2; }
      else { new (g) typename B::L1(b.m[i]); b.n[t] = 1; }
      return R_TRUE;
    }
    if (op == OP_UNSCOPED) {
      int n = b.n[t]; if (!n) return -1;
      b.n[t] = 0; void* g = b.mem[t];
      if (n == 3) destroy<typename B::L3>(g); else if (n == 2) destroy<typename B::L2>(g); else destroy<typename B::L1>(g);
      return R_TRUE;
    }
    return -1;
  });
}
#define SC(name, type) { name, sizeof(Bench<type>), alignof(Bench<type>), &sut::ctor0<Bench<type>>, &sut::dtor<Bench<type>>, &scoped_op<type>, CAP_X }
using YS = yamc::spin::basic_mutex<yamc::backoff::yield>;
using YT = yamc::spin_ttas::basic_mutex<yamc::backoff::yield>;
static const TypeDesc tab[] = {
  SC("scoped.alternate", yamc::alternate::mutex), SC("scoped.fair", yamc::fair::mutex), SC("scoped.checked", yamc::checked::mutex), SC("scoped.checked_timed", yamc::checked::timed_mutex),
  SC("scoped.spin", YS), SC("scoped.ttas", YT), SC("scoped.shared", yamc::alternate::shared_mutex), SC("scoped.fair_shared", yamc::fair::shared_mutex),
};
extern "C" const TypeDesc* sut_types(int* n) { *n = sizeof(tab) / sizeof(tab[0]); return tab; }
