// Replays call sequences on shared_lock and scoped_lock over recording mutexes.
// stdin: one program per line: "<id> <op> <op> ..."; stdout: "<id>\t<trace>".
#include <cassert>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <mutex>
#include <new>
#include <sstream>
#include <string>
#include <system_error>
#include <utility>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <exception>
#include "yamc_shared_lock.hpp"
#include "yamc_scoped_lock.hpp"

static std::string out;
static void put(const char* fmt, long a = 0, long b = 0, long c = 0, long d = 0, const char* s = "")
{
  char buf[128]; snprintf(buf, sizeof buf, fmt, a, b, c, d); out += buf; (void)s;
}
static std::vector<int> answers; static size_t apos;   // what the mutexes answer: 0 false, 1 ok, 9 throw
static int answer() { return apos < answers.size() ? answers[apos++] : 1; }
struct Boom { int tag; };
static std::chrono::steady_clock::time_point base() { return std::chrono::steady_clock::time_point(); }

// a mutex that records every call; the calls are all allowed, the specification judges
struct RecMutex {
  int idx = 0;
  bool call(const char* op, long arg, bool may_fail)
  {
    int a = answer();
    if (a == 0 && !may_fail) a = 1;
    record(op, arg, a);
    if (a == 9) throw Boom{idx};
    return a == 1;
  }
  void lock_shared() { call("lock_shared", 0, false); }
  bool try_lock_shared() { return call("try_lock_shared", 0, true); }
  void unlock_shared() { call("unlock_shared", 0, false); }
  template <class R, class P> bool try_lock_shared_for(const std::chrono::duration<R, P>& d) { return call("try_lock_shared_for", (long)std::chrono::duration_cast<std::chrono::milliseconds>(d).count(), true); }
  template <class C, class D> bool try_lock_shared_until(const std::chrono::time_point<C, D>& t) { return call("try_lock_shared_until", (long)std::chrono::duration_cast<std::chrono::milliseconds>(t - base()).count(), true); }
  void lock() { call("lock", 0, false); }
  bool try_lock() { return call("try_lock", 0, true); }
  void unlock() { record("unlock", 0, 1); }
  void record(const char* op, long arg, int a) { char b[128]; snprintf(b, sizeof b, " u.%s.%d.%ld.%d", op, idx, arg, a); out += b; }   // whole or not at all: the call may be made on no object
};
template <int N> struct RecMutexN : RecMutex {};   // distinct types

using SL = yamc::shared_lock<RecMutex>;
static RecMutex mtx[8];
static int mindex(RecMutex* p) { return p == nullptr ? 0 : (p >= mtx && p < mtx + 8) ? (int)(p - mtx) : 77; }

static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> v; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) v.push_back(x); return v; }

template <class F> static void result(F f)
{
  int r;
  try { r = f(); }
  catch (const std::system_error& e) { r = e.code() == std::errc::operation_not_permitted ? 3 : e.code() == std::errc::resource_deadlock_would_occur ? 2 : 8; }
  catch (const Boom&) { r = 9; }
  catch (...) { r = 7; }
  put(" r.%ld", r);
}

static void shared_prog(const std::vector<std::string>& ops)
{
  alignas(SL) static unsigned char mem[4][sizeof(SL)];
  SL* sl[4] = {};
  auto at = [&](int s) { return reinterpret_cast<SL*>(mem[s]); };
  for (int i = 0; i < 8; i++) mtx[i].idx = i;
  long arg = 0;
  for (auto& o : ops) {
    auto f = split(o, '.'); std::string k = f[0]; int s = atoi(f[1].c_str()), s2 = atoi(f[2].c_str()), m = atoi(f[3].c_str()), a = atoi(f[4].c_str());
    if (k == "hand") { put(" h.%ld.%ld", m, a); arg++; continue; }
    answers.assign(1, a); apos = 0;
    out += " c." + k; put(".%ld.%ld.%ld.%ld", s, s2, m, arg);
    auto rel = std::chrono::milliseconds(arg); auto abs = base() + std::chrono::milliseconds(arg);
    memset(mem[0], 0xA5, sizeof(SL));
    result([&]() -> int {
      if (k == "default") { memset(mem[s], 0xA5, sizeof(SL)); sl[s] = new (mem[s]) SL(); return 1; }
      if (k == "defer") { memset(mem[s], 0xA5, sizeof(SL)); sl[s] = new (mem[s]) SL(mtx[m], std::defer_lock); return 1; }
      if (k == "lockctor") { memset(mem[s], 0xA5, sizeof(SL)); sl[s] = new (mem[s]) SL(mtx[m]); return 1; }
      if (k == "tryctor") { memset(mem[s], 0xA5, sizeof(SL)); sl[s] = new (mem[s]) SL(mtx[m], std::try_to_lock); return 1; }
      if (k == "forctor") { memset(mem[s], 0xA5, sizeof(SL)); sl[s] = new (mem[s]) SL(mtx[m], rel); return 1; }
      if (k == "untilctor") { memset(mem[s], 0xA5, sizeof(SL)); sl[s] = new (mem[s]) SL(mtx[m], abs); return 1; }
      if (k == "adopt") { memset(mem[s], 0xA5, sizeof(SL)); sl[s] = new (mem[s]) SL(mtx[m], std::adopt_lock); return 1; }
      if (k == "movector") { memset(mem[s], 0xA5, sizeof(SL)); sl[s] = new (mem[s]) SL(std::move(*sl[s2])); return 1; }
      if (k == "moveassign") { SL& r = (*sl[s] = std::move(*sl[s2])); return &r == sl[s] ? 1 : 6; }
      if (k == "swap") { sl[s]->swap(*sl[s2]); return 1; }
      if (k == "stdswap") { std::swap(*sl[s], *sl[s2]); return 1; }
      if (k == "lock") { sl[s]->lock(); return 1; }
      if (k == "try") return sl[s]->try_lock() ? 1 : 0;
      if (k == "for") return sl[s]->try_lock_for(rel) ? 1 : 0;
      if (k == "until") return sl[s]->try_lock_until(abs) ? 1 : 0;
      if (k == "unlock") { sl[s]->unlock(); return 1; }
      if (k == "release") return 100 + mindex(sl[s]->release());
      if (k == "dtor") { SL* p = sl[s]; sl[s] = nullptr; p->~SL(); return 1; }
      return 66;
    });
    (void)at;
    for (int i = 1; i < 4; i++) if (sl[i]) {
      const SL& c = *sl[i];
      bool b = static_cast<bool>(c);
      if (b != c.owns_lock()) out += " x";
      put(" v.%ld.%ld.%ld", i, mindex(c.mutex()), c.owns_lock());
    }
    arg++;
  }
}

// scoped_lock: "scoped.<type>.<adopt>.<m1,m2,..>.<answers>"; type 0: equal types, 1: distinct types
template <class... M> static void scoped_run(bool adopt, M&... m)
{
  using L = yamc::scoped_lock<M...>;
  alignas(L) unsigned char mem[sizeof(L)]; memset(mem, 0xA5, sizeof mem);
  L* l = nullptr;
  result([&]() -> int { if (adopt) l = new (mem) L(std::adopt_lock, m...); else l = new (mem) L(m...); return 1; });
  if (l) { out += " c.dtor"; result([&]() -> int { l->~L(); return 1; }); }
}
static RecMutexN<0> n0; static RecMutexN<1> n1; static RecMutexN<2> n2; static RecMutexN<3> n3;
static void scoped_prog(const std::vector<std::string>& ops)
{
  for (int i = 0; i < 8; i++) mtx[i].idx = i;
  n0.idx = 1; n1.idx = 2; n2.idx = 3; n3.idx = 4;
  for (auto& o : ops) {
    auto f = split(o, '.'); int ty = atoi(f[1].c_str()); bool ad = f[2] == "1";
    auto ms = split(f[3], ','); std::vector<int> v; for (auto& x : ms) v.push_back(atoi(x.c_str()));
    answers.clear(); apos = 0; if (f.size() > 4) for (auto& x : split(f[4], ',')) answers.push_back(atoi(x.c_str()));
    out += ad ? " c.adopt." : " c.ctor."; out += f[3] == "" ? "-" : f[3];
    auto M = [&](int i) -> RecMutex& { return mtx[v[i]]; };
    if (ty == 1) switch (v.size()) {
      case 2: scoped_run(ad, n0, n1); break;
      case 3: scoped_run(ad, n0, n1, n2); break;
      case 4: scoped_run(ad, n0, n1, n2, n3); break;
    } else switch (v.size()) {
      case 0: scoped_run(ad); break;
      case 1: scoped_run(ad, M(0)); break;
      case 2: scoped_run(ad, M(0), M(1)); break;
      case 3: scoped_run(ad, M(0), M(1), M(2)); break;
      case 4: scoped_run(ad, M(0), M(1), M(2), M(3)); break;
      case 5: scoped_run(ad, M(0), M(1), M(2), M(3), M(4)); break;
    }
  }
}

int main()
{
  std::string line;
  std::vector<std::pair<std::string, std::vector<std::string>>> progs;
  while (std::getline(std::cin, line)) { std::istringstream is(line); std::string id, t; is >> id; std::vector<std::string> v; while (is >> t) v.push_back(t); progs.push_back({id, v}); }
  size_t i = 0;
  // a worker process runs the programs; when one kills it, the next worker goes on behind it
  while (i < progs.size()) {
    int fd[2]; if (pipe(fd)) return 1;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]); if (!freopen("/dev/null", "w", stderr)) _exit(3);
      FILE* w = fdopen(fd[1], "w");
      for (size_t j = i; j < progs.size(); j++) {
        // announced first, so that a crash can be attributed
        alarm(20);
        struct Note { FILE* w; std::string id; } note{w, progs[j].first};
        out.clear();
        static FILE* gw; static std::string gid; gw = w; gid = progs[j].first;
        std::set_terminate([] { fprintf(gw, "%s\t%s x\n", gid.c_str(), out.c_str() + !out.empty()); fflush(gw); _exit(1); });
        struct H { static void on(int) { fprintf(gw, "%s\t%s x\n", gid.c_str(), out.c_str() + !out.empty()); fflush(gw); _exit(1); } };
        if (j == i) { for (int s : {6, 8, 11, 7, 14}) { if (signal(s, H::on) == (sighandler_t)-1) _exit(4); } }
        if (!progs[j].second.empty() && progs[j].second[0].compare(0, 7, "scoped.") == 0) scoped_prog(progs[j].second); else shared_prog(progs[j].second);
        fprintf(w, "%s\t%s\n", progs[j].first.c_str(), out.c_str() + !out.empty());
      }
      fclose(w); _exit(0);
    }
    close(fd[1]); FILE* r = fdopen(fd[0], "r"); char buf[65536]; size_t n = 0;
    while (fgets(buf, sizeof buf, r)) { fputs(buf, stdout); n++; }
    fclose(r); int st; waitpid(pid, &st, 0);
    if (n == 0) return 5;
    i += n;
  }
  return 0;
}
