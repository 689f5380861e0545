// Runs the spin policies and the spinlocks one attempt at a time.  The compiler's instrumentation of
// atomic operations (the interface of ThreadSanitizer's run time) gives control before every attempt.
//   in:  <id> policy.<name>.<waits>            out: <id> TAB <events>
//        <id> lock.<type>.<k0,k1,...>.<held>   another owner takes / gives back the lock before attempt k0, k1, ...
// events: c.<held> call, f.<n> n failed attempts, y yield, w.<n> n-th use of this state of a user's policy,
//         o / g the lock is given back / taken by the other owner, d done, x gave up
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "drv_backoff.hpp"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

struct probe {           // a user's policy; counts how often this state object has been used
  struct state { unsigned n = 0; };
  static void wait(state& s) { if (active) emit("w." + std::to_string(++s.n)); }
};

template <class P> void run_policy(long k)
{
  out += "c.1 ";
  typename P::state s;
  for (long i = 0; i < k; i++) { ++fails; active = true; P::wait(s); active = false; }
  if (fails) { out += "f." + std::to_string(fails) + " "; fails = 0; }
}

template <class M> void run_lock(const std::vector<long>& fl, bool h)
{
  M m;
  for (int round = 0; round < 2; round++) {
    flips = fl; nflip = 0; ops = 0; limit = (fl.empty() ? 0 : fl.back()) + 20; held = h;
    other = [&](bool l) { if (l) m.lock(); else m.unlock(); };
    if (held) m.lock();
    out += h ? "c.1 " : "c.0 ";
    if (setjmp(jb)) return;
    active = true; m.lock(); active = false;
    emit("d");
    if (held) return;
    m.unlock();
  }
}

static std::map<std::string, std::function<void(long)>> pol;
static std::map<std::string, std::function<void(const std::vector<long>&, bool)>> lck;
template <class P> void reg(const std::string& n)
{
  lck["spin:" + n] = run_lock<yamc::spin::basic_mutex<P>>;
  lck["spin_weak:" + n] = run_lock<yamc::spin_weak::basic_mutex<P>>;
  lck["spin_ttas:" + n] = run_lock<yamc::spin_ttas::basic_mutex<P>>;
}
template <class P> void regp(const std::string& n) { pol[n] = run_policy<P>; reg<P>(n); }
template <unsigned N> void rege() { regp<yamc::backoff::exponential<N>>("exp:" + std::to_string(N)); }

int main()
{
  rege<0>(); rege<1>(); rege<2>(); rege<3>(); rege<4>(); rege<5>(); rege<6>(); rege<7>(); rege<8>(); rege<9>(); rege<10>(); rege<15>(); rege<16>(); rege<17>(); rege<31>(); rege<32>(); rege<33>();
  rege<100>(); rege<255>(); rege<256>(); rege<257>(); rege<1000>(); rege<4000>(); rege<65535>(); rege<65536>(); rege<100000>();
  regp<yamc::backoff::exponential<>>("exp:default"); regp<yamc::backoff::yield>("yield"); regp<yamc::backoff::busy>("busy"); reg<probe>("probe");
  lck["spin:default"] = run_lock<yamc::spin::mutex>; lck["spin_weak:default"] = run_lock<yamc::spin_weak::mutex>; lck["spin_ttas:default"] = run_lock<yamc::spin_ttas::mutex>;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string id, a, part; is >> id >> a;
    std::vector<std::string> f; std::istringstream fs(a); while (std::getline(fs, part, '.')) f.push_back(part);
    out.clear(); fails = 0; active = false;
    if (f[0] == "policy") pol.at(f[1])(atol(f[2].c_str()));
    else { std::vector<long> v; std::istringstream vs(f[2]); while (std::getline(vs, part, ',')) if (!part.empty()) v.push_back(atol(part.c_str())); lck.at(f[1])(v, f[3] == "1"); }
    if (!out.empty() && out.back() == ' ') out.pop_back();
    std::cout << id << "\t" << out << "\n";
  }
}
