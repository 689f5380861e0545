// Laboratory host: cooperative scheduler, interposed pthread/semaphore/clock/atomic operations,
// schedule explorer.  See DESIGN.md.  Compiled once, not instrumented, linked with -rdynamic.
#include "lab.hpp"
#include <dlfcn.h>
#include <link.h>
#include <elf.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <new>
#include <tuple>
#include <cxxabi.h>

extern "C" { struct __cxa_eh_globals_; void* __cxa_get_globals(); }

// ------------------------------------------------------------------ context switch
extern "C" void lab_switch(void** save, void* to);
asm(R"(
.text
.globl lab_switch
.type lab_switch,@function
lab_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size lab_switch,.-lab_switch
)");

// containers of the laboratory itself never live in the arena of the code under test
template <class T> struct MA { using value_type = T; MA() {} template <class U> MA(const MA<U>&) {}
  T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); }
  template <class U> bool operator==(const MA<U>&) const { return true; } template <class U> bool operator!=(const MA<U>&) const { return false; } };
template <class T> using HVec = std::vector<T, MA<T>>;
static Fiber fib[MAXF];
static int nf = 0;
static int wc_n, wc_ret, wc_op; static bool wc_called;     // the crowd: members, members that returned, operation
static Fiber* cur = nullptr;
static void* main_sp = nullptr;
static char main_exc[16];
static sigjmp_buf crash_jb;
static bool in_run = false;

// ------------------------------------------------------------------ run state
static int64_t vnow;            // virtual time since base (ns)
static int64_t sysoff;          // wall clock adjustment
static const int64_t ST_BASE = 1000LL * 1000000000 + 123456789;
static const int64_t SY_BASE = 1700000000LL * 1000000000 + 987654321;
static HVec<Event> ev;
static uint64_t epoch;
static long steps, plain;
static long STEP_LIMIT = 30000;
static bool run_over;           // crash/hang ended the run
static int budget_pre, budget_spur, budget_eintr, budget_tick, budget_wf;
static HVec<ScriptOp> clk; static size_t clkpc;

// ------------------------------------------------------------------ high level objects
struct Obj { const TypeDesc* td; char* mem; bool alive; int64_t ctorarg; int64_t permits, cap; };
static std::vector<Obj> objs;
static int hx[MAXF][8], hs[MAXF][8], crowd[MAXF][8];
static bool g_hb = false;
static bool g_uad = false;
struct Range { uintptr_t a, b; };
static HVec<Range> dead, priv;

// ------------------------------------------------------------------ HB log
struct HB { char k; int t; int loc; int mo; };
static HVec<HB> hblog;
static std::unordered_map<uintptr_t, int, std::hash<uintptr_t>, std::equal_to<uintptr_t>, MA<std::pair<const uintptr_t, int>>> hbloc;
static int hb_loc(uintptr_t a) { auto it = hbloc.find(a); if (it != hbloc.end()) return it->second; int n = (int)hbloc.size() + 1; hbloc[a] = n; return n; }
static inline void hb(char k, const void* a, int mo = 0) { if (g_hb && cur) hblog.push_back({k, cur->id, hb_loc((uintptr_t)a), mo}); }
static inline void hb_t(char k, int t, const void* a, int mo = 0) { if (g_hb) hblog.push_back({k, t, hb_loc((uintptr_t)a), mo}); }

// ------------------------------------------------------------------ choices
struct Choice { int n, idx; };
static HVec<Choice> ch;
static size_t chpos;
enum Mode { M_DFS, M_RAND, M_REPLAY };
static Mode mode;
static uint64_t rng;
static double pcont = 0.8, ptick = 0.06;
static inline uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }
static inline double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static bool verbose = false;

static int choose(int n, const double* w = nullptr)
{
  if (n <= 1) return 0;
  int idx = 0;
  if (chpos < ch.size()) {
    idx = ch[chpos].idx; if (idx >= n) idx = n - 1;
    ch[chpos].n = n;
  } else {
    if (mode == M_RAND) {
      if (w) { double s = 0; for (int i = 0; i < n; i++) s += w[i]; double x = rnd01() * s; while (idx < n - 1 && x >= w[idx]) x -= w[idx++]; }
      else idx = (int)(rnd() % (uint64_t)n);
    }
    ch.push_back({n, idx});
  }
  ++chpos;
  return idx;
}

// ------------------------------------------------------------------ memory
static char* arena; static size_t arena_sz = 64u << 20, arena_pos;
static bool arena_on = false;
static void* arena_alloc(size_t n, size_t al = 16) {
  arena_pos = (arena_pos + al - 1) & ~(al - 1);
  if (arena_pos + n > arena_sz) abort();
  void* p = arena + arena_pos; arena_pos += n ? n : 1; return p;
}
static bool in_arena(void* p) { return (char*)p >= arena && (char*)p < arena + arena_sz; }
void* operator new(size_t n) { if (arena_on && cur) return arena_alloc(n); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && !in_arena(p)) free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------------ SUT segments
struct Seg { char* a; size_t n; std::vector<char> snap; };
static std::vector<Seg> segs;
static size_t sut_tlsmod = 0, sut_tlssz = 0, sut_tlsinit = 0, sut_tlsalign = 16; static char* sut_tlsimg = nullptr;
static std::string sut_path_base;
static int phdr_cb(struct dl_phdr_info* i, size_t, void*)
{
  std::string nm = i->dlpi_name ? i->dlpi_name : "";
  if (nm.find(sut_path_base) == std::string::npos) return 0;
  uintptr_t relro_a = 0, relro_b = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_GNU_RELRO) { relro_a = i->dlpi_addr + p.p_vaddr; relro_b = relro_a + p.p_memsz; relro_b = (relro_b + 4095) & ~4095UL; } }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      uintptr_t a = i->dlpi_addr + p.p_vaddr, b = a + p.p_memsz;
      if (relro_a <= a && a < relro_b) a = std::min(relro_b, b);
      if (a < b) { Seg s; s.a = (char*)a; s.n = b - a; segs.push_back(s); }
    }
    if (p.p_type == PT_TLS) { sut_tlsmod = i->dlpi_tls_modid; sut_tlssz = p.p_memsz; sut_tlsinit = p.p_filesz; sut_tlsimg = (char*)(i->dlpi_addr + p.p_vaddr); sut_tlsalign = p.p_align; }
  }
  return 0;
}
static void snap_segs() { for (auto& s : segs) s.snap.assign(s.a, s.a + s.n); }
static void restore_segs() { for (auto& s : segs) memcpy(s.a, s.snap.data(), s.n); }

struct tls_index { unsigned long ti_module, ti_offset; };
extern "C" void* __tls_get_addr(void* v)
{
  tls_index* ti = (tls_index*)v;
  if (cur && sut_tlsmod && ti->ti_module == sut_tlsmod) {
    if (!cur->tls) { cur->tls = arena_alloc(sut_tlssz, 64); memset(cur->tls, 0, sut_tlssz); memcpy(cur->tls, sut_tlsimg, sut_tlsinit); }
    return (char*)cur->tls + ti->ti_offset;
  }
  static void* (*real)(void*) = nullptr;
  if (!real) real = (void* (*)(void*))dlsym(RTLD_NEXT, "__tls_get_addr");
  return real(v);
}

// ------------------------------------------------------------------ events
static bool is_timed(int op) { return (op >= OP_FOR && op <= OP_UNTS_CU) || (op >= OP_AFOR && op <= OP_AUNT_CU); }
static bool is_sysop(int op) { return op == OP_UNT_SY || op == OP_UNTS_SY || op == OP_AUNT_SY; }
static int64_t now_of(Fiber* f) { return f->sysop ? vnow + sysoff : vnow; }     // on the clock of the operation's deadline
static void log_call(Fiber* f)
{
  if (!f->in_op || f->call_logged) return;
  f->call_logged = true;
  if (f->pid != f->id) { if (wc_called) return; wc_called = true; }
  int64_t a = f->cur_arg;
  if (f->timed_op) { a = f->early <= now_of(f) ? 1 : 0; if (a) f->expired_logged = true; }
  ev.push_back({'c', f->pid, f->cur_obj, f->cur_op, a, 0});
}
static inline void touch() { if (cur && cur->in_op && !cur->call_logged) log_call(cur); }
static void progress() { epoch++; if (cur) cur->idle = 0; }

static int64_t dl_of(Fiber* f) { return f->clk_sys ? f->deadline - sysoff : f->deadline; }
static bool expired(Fiber* f) { return f->deadline != INT64_MIN && f->deadline != -1 && dl_of(f) <= vnow; }

// ------------------------------------------------------------------ enabledness
static inline int* I(void* p, int off) { return (int*)((char*)p + off); }
static bool mtx_free(void* m, Fiber* f) { return *I(m, 0) == 0 || ((*I(m, 16) & 3) == 1 && *I(m, 8) == f->id + 1); }
static bool enabled(Fiber* f)
{
  switch (f->st) {
    case F_RUN: return true;
    case F_MUTEX: return mtx_free(f->waddr, f) || expired(f);
    case F_COND: return f->signaled || expired(f);
    case F_SEM: return *I(f->waddr, 0) > 0 || expired(f);
    case F_RWR: return *I(f->waddr, 0) == 0 || expired(f);
    case F_RWW: return (*I(f->waddr, 0) == 0 && *I(f->waddr, 4) == 0) || expired(f);
    case F_PSPIN: return *I(f->waddr, 0) == 0;
    case F_GATE: return f->gate_open;
    case F_SPINPARK: return f->parkepoch != epoch;
    case F_HARDPARK: return f->parkepoch != epoch;
    case F_SLEEP: return expired(f);
    case F_GUARD: return *I(f->waddr, 4) == 0;
    case F_EXT: return f->ext_ready(f) || expired(f);
    case F_DONE: return false;
  }
  return false;
}

static void do_tick(int64_t to)
{
  if (to > vnow) vnow = to;
  unsigned mask = 0;
  for (int i = 0; i < nf; i++) {
    Fiber& f = fib[i];
    if (f.in_op && f.timed_op && !f.expired_logged && f.early <= now_of(&f)) {
      if (!f.call_logged) { if (f.st == F_RUN || f.st == F_GATE) continue; log_call(&f); if (f.expired_logged) continue; }
      f.expired_logged = true; mask |= 1u << i;
    }
  }
  if (mask) ev.push_back({'k', 0, 0, 0, 0, mask});
  epoch++;
}
static int64_t late_slack = 1000000;   // how late a timed call may end (quiescence after that is a missed deadline)
static int64_t next_deadline(bool api_late)
{
  int64_t best = INT64_MAX;
  for (int i = 0; i < nf; i++) {
    Fiber& f = fib[i];
    if (f.st == F_DONE) continue;
    if (f.deadline != -1 && f.st != F_RUN && f.st != F_GATE) { int64_t d = dl_of(&f); if (d > vnow) best = std::min(best, d); }
    if (f.in_op && f.timed_op) {
      if (f.early > now_of(&f)) best = std::min(best, f.early - now_of(&f) + vnow);
      if (api_late && !f.in_op) continue;
      if (api_late) { int64_t l = f.late_base + f.dur + 2 * late_slack - now_of(&f) + vnow; if (l > vnow) best = std::min(best, l); }
    }
  }
  return best == INT64_MAX ? -1 : best;
}

// ------------------------------------------------------------------ scheduling
static void save_exc(char* to) { memcpy(to, __cxa_get_globals(), 16); }
static void load_exc(const char* from) { memcpy(__cxa_get_globals(), from, 16); }
static void to_fiber(Fiber* g)
{
  Fiber* me = cur;
  if (me == g) return;
  save_exc(me ? me->exc : main_exc);
  load_exc(g->exc);
  cur = g;
  lab_switch(me ? &me->sp : &main_sp, g->sp);
}
static void to_main()
{
  Fiber* me = cur;
  save_exc(me->exc); load_exc(main_exc);
  cur = nullptr;
  lab_switch(&me->sp, main_sp);
}
[[noreturn]] static void end_run(const char* kind)
{
  // abandon the current fiber; the run is over
  if (cur) { log_call(cur); }
  ev.push_back({'x', cur ? cur->pid : -1, 0, 0, 0, 0});
  ev.back().a = kind[0];
  run_over = true;
  if (cur) { to_main(); }
  abort();
}
extern "C" void lab_crash_hook(const char* kind) { end_run(kind); }

struct Opt { int kind; Fiber* f; };
// kind: 0 run, 1 spurious cond wakeup, 2 EINTR, 3 tick
static bool pick(bool can_continue)
{
  for (;;) {
    Opt o[4 * MAXF + 2]; double w[4 * MAXF + 2]; int n = 0;
    Fiber* me = cur;
    if (can_continue) { o[n] = {0, me}; w[n++] = pcont * 4; }
    if (!can_continue || budget_pre > 0) {
      for (int i = 0; i < nf; i++) {
        Fiber* f = &fib[i];
        if (can_continue && f == me) continue;
        if (enabled(f)) { o[n] = {0, f}; w[n++] = can_continue ? (1 - pcont) * 4 : 1.0; }
      }
    }
    if (budget_spur > 0) for (int i = 0; i < nf; i++) if (fib[i].st == F_COND && !fib[i].signaled) { o[n] = {1, &fib[i]}; w[n++] = ptick; }
    if (budget_eintr > 0) for (int i = 0; i < nf; i++) if (fib[i].st == F_SEM && !enabled(&fib[i])) { o[n] = {2, &fib[i]}; w[n++] = ptick * 2; }
    if (budget_tick > 0 && next_deadline(false) > 0) { o[n] = {3, nullptr}; w[n++] = ptick * 2; }
    if (n == 0 || (!can_continue && o[0].kind == 3 && n == 1)) return false; // quiescent (ticks then happen there)
    if (!can_continue) { bool anyrun = false; for (int i = 0; i < n; i++) if (o[i].kind == 0) anyrun = true;
      if (!anyrun) { // only faults possible: also allow "none"
        Opt none = {9, nullptr}; for (int i = n; i > 0; i--) { o[i] = o[i - 1]; w[i] = w[i - 1]; } o[0] = none; w[0] = 1; n++; } }
    int c = choose(n, w);
    if (o[c].kind == 9) return false;
    if (o[c].kind == 1) { budget_spur--; o[c].f->signaled = true; continue; }
    if (o[c].kind == 2) { budget_eintr--; o[c].f->timedout = true; o[c].f->signaled = true; o[c].f->st = F_RUN; continue; }
    if (o[c].kind == 3) { budget_tick--; do_tick(next_deadline(false)); continue; }
    if (can_continue && o[c].f != me) budget_pre--;
    if (o[c].f != me) to_fiber(o[c].f);
    return true;
  }
}
static void sched_point()
{
  if (!cur || cur->macro) return;
  if (++steps > STEP_LIMIT) end_run("livelock");
  plain = 0;
  pick(true);
}
// the current fiber's state was set to a blocked state; returns when it has been scheduled again
static void block()
{
  if (++steps > STEP_LIMIT) end_run("livelock");
  plain = 0;
  if (!pick(false)) to_main();   // quiescent: main decides and switches back when enabled
}
static void noprogress()
{
  // spinning detection: called after an operation that changed nothing
  Fiber* f = cur;
  if (!f || !f->in_op) return;
  if (++f->idle < 4) return;
  if (f->extra > 0) { f->extra--; return; }
  f->st = F_SPINPARK; f->parkepoch = epoch; f->idle = 0;
  block();
  f->st = F_RUN;
}

// ------------------------------------------------------------------ interposed: mutexes
static void chk_dead(const void* p) { if (dead.empty()) return; uintptr_t a = (uintptr_t)p; for (auto& r : dead) if (r.a <= a && a < r.b) end_run("use-after-destroy"); }

static bool ts_bad(const struct timespec* ts) { return ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000; }
static int64_t sat(const struct timespec* ts, int64_t base)
{
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - base;
  if (v > (__int128)INT64_MAX / 4) v = INT64_MAX / 4;
  if (v < -((__int128)INT64_MAX / 4)) v = -(INT64_MAX / 4);
  return (int64_t)v == -1 ? -2 : (int64_t)v;
}
static void set_deadline(const struct timespec* ts, bool sys)
{
  cur->clk_sys = sys; cur->deadline = sat(ts, sys ? SY_BASE : ST_BASE);
  cur->blocked_timed = true;
}
static void clr_deadline() { cur->deadline = -1; cur->clk_sys = false; }

static void mtx_take(void* m) { *I(m, 0) = 1; *I(m, 8) = cur->id + 1; (*I(m, 4))++; cur->held++; hb('A', m); progress(); }

static int mtx_lock(void* m, const struct timespec* ts, bool sys)
{
  sched_point(); chk_dead(m);
  if (ts && !mtx_free(m, cur)) {
    if (ts_bad(ts)) { touch(); return EINVAL; }
    set_deadline(ts, sys);
  }
  if (!mtx_free(m, cur)) {
    cur->st = F_MUTEX; cur->waddr = m;
    do { block(); } while (!mtx_free(m, cur) && !expired(cur));
    cur->st = F_RUN;
    if (!mtx_free(m, cur)) { clr_deadline(); touch(); chk_dead(m); return ETIMEDOUT; }
    clr_deadline();
    chk_dead(m);
  }
  touch();
  mtx_take(m);
  return 0;
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept(true) { if (!cur) return 0; return mtx_lock(m, nullptr, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept(true)
{
  if (!cur) return 0;
  sched_point(); chk_dead(m); touch();
  if (!mtx_free(m, cur)) { noprogress(); return EBUSY; }
  mtx_take(m); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept(true) { if (!cur) return 0; return mtx_lock(m, ts, true); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept(true) { if (!cur) return 0; return mtx_lock(m, ts, c != CLOCK_MONOTONIC); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept(true)
{
  if (!cur) return 0;
  sched_point(); chk_dead(m); touch();
  int kind = *I(m, 16) & 3;
  if (kind != 0 && *I(m, 8) != cur->id + 1) return EPERM;
  hb('R', m);
  if (cur->held > 0) cur->held--;
  if (--(*I(m, 4)) <= 0) { *I(m, 4) = 0; *I(m, 0) = 0; *I(m, 8) = 0; }
  progress();
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept(true)
{ int k = a ? (*(const int*)a & 3) : 0; memset((void*)m, 0, sizeof *m); *I(m, 16) = k; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept(true) { (void)m; return 0; }

// ------------------------------------------------------------------ condition variables
static int cond_wait(void* c, void* m, const struct timespec* ts, bool sys)
{
  if (!cur) return 0;
  sched_point(); chk_dead(c); touch();
  if (ts && ts_bad(ts)) return EINVAL;
  int cnt = *I(m, 4);
  hb('R', m); cur->held -= cnt;
  *I(m, 4) = 0; *I(m, 0) = 0; *I(m, 8) = 0;
  progress();
  if (ts) set_deadline(ts, sys);
  cur->st = F_COND; cur->waddr = c; cur->signaled = false; cur->timedout = false;
  // a wait whose deadline has passed still releases the mutex and may run later
  block();
  bool to = !cur->signaled;
  clr_deadline();
  cur->st = F_MUTEX; cur->waddr = m; cur->signaled = false;
  // dequeued; the mutex has to be taken again
  if (!mtx_free(m, cur)) { block(); }
  else { cur->st = F_RUN; sched_point(); if (!mtx_free(m, cur)) { cur->st = F_MUTEX; do block(); while (!mtx_free(m, cur)); } }
  cur->st = F_RUN;
  while (!mtx_free(m, cur)) { cur->st = F_MUTEX; block(); cur->st = F_RUN; }
  chk_dead(m);
  mtx_take(m); *I(m, 4) = cnt; cur->held += cnt - 1;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, nullptr, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_wait(c, m, ts, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) { return cond_wait(c, m, ts, ck != CLOCK_MONOTONIC); }
int pthread_cond_signal(pthread_cond_t* c) noexcept(true)
{
  if (!cur) return 0;
  sched_point(); chk_dead(c); touch();
  Fiber* w[MAXF]; int n = 0;
  for (int i = 0; i < nf; i++) if (fib[i].st == F_COND && fib[i].waddr == (void*)c && !fib[i].signaled) w[n++] = &fib[i];
  if (n) { w[choose(n)]->signaled = true; }
  progress();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept(true)
{
  if (!cur) return 0;
  sched_point(); chk_dead(c); touch();
  for (int i = 0; i < nf; i++) if (fib[i].st == F_COND && fib[i].waddr == (void*)c) fib[i].signaled = true;
  progress();
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept(true) { memset((void*)c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept(true) { return 0; }

// ------------------------------------------------------------------ rwlocks   (@0 writer, @4 readers, @8 writer id)
static int rw_wait(void* l, bool wr, const struct timespec* ts)
{
  if (!cur) return 0;
  sched_point(); chk_dead(l);
  auto fr = [&] { return wr ? (*I(l, 0) == 0 && *I(l, 4) == 0) : *I(l, 0) == 0; };
  if (ts && ts_bad(ts)) { touch(); return EINVAL; }     // glibc looks at the deadline first, also when the lock is free
  if (!fr()) {
    if (ts) set_deadline(ts, true);
    cur->st = wr ? F_RWW : F_RWR; cur->waddr = l;
    do { block(); } while (!fr() && !expired(cur));
    cur->st = F_RUN; clr_deadline();
    if (!fr()) { touch(); return ETIMEDOUT; }
  }
  touch();
  if (wr) { *I(l, 0) = 1; *I(l, 8) = cur->id + 1; hb('A', l); } else { ++*I(l, 4); hb('a', l); }
  progress();
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept(true) { return rw_wait(l, false, nullptr); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept(true) { return rw_wait(l, true, nullptr); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) noexcept(true) { return rw_wait(l, false, ts); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) noexcept(true) { return rw_wait(l, true, ts); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept(true)
{ if (!cur) return 0; sched_point(); chk_dead(l); touch(); if (*I(l, 0)) { noprogress(); return EBUSY; } ++*I(l, 4); hb('a', l); progress(); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept(true)
{ if (!cur) return 0; sched_point(); chk_dead(l); touch(); if (*I(l, 0) || *I(l, 4)) { noprogress(); return EBUSY; } *I(l, 0) = 1; *I(l, 8) = cur->id + 1; hb('A', l); progress(); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept(true)
{
  if (!cur) return 0;
  sched_point(); chk_dead(l); touch();
  if (*I(l, 0)) { hb('R', l); *I(l, 0) = 0; *I(l, 8) = 0; } else if (*I(l, 4) > 0) { hb('r', l); --*I(l, 4); } else return EPERM;
  progress(); return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept(true) { memset((void*)l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept(true) { return 0; }

// ------------------------------------------------------------------ pthread spinlocks
int pthread_spin_init(pthread_spinlock_t* s, int) noexcept(true) { *(volatile int*)s = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) noexcept(true) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* s) noexcept(true)
{
  if (!cur) return 0;
  sched_point(); chk_dead((void*)s);
  if (*I((void*)s, 0)) { cur->st = F_PSPIN; cur->waddr = (void*)s; do block(); while (*I((void*)s, 0)); cur->st = F_RUN; }
  touch(); *I((void*)s, 0) = cur->id + 1; hb('A', (void*)s); progress(); return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* s) noexcept(true)
{ if (!cur) return 0; sched_point(); chk_dead((void*)s); touch(); if (*I((void*)s, 0)) { noprogress(); return EBUSY; } *I((void*)s, 0) = cur->id + 1; hb('A', (void*)s); progress(); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* s) noexcept(true)
{ if (!cur) return 0; sched_point(); chk_dead((void*)s); touch(); hb('R', (void*)s); *I((void*)s, 0) = 0; progress(); return 0; }

// ------------------------------------------------------------------ semaphores
int sem_init(sem_t* s, int, unsigned v) noexcept(true) { memset((void*)s, 0, sizeof *s); *I(s, 0) = (int)v; if (v > 0x7fffffffu) { errno = EINVAL; return -1; } return 0; }
int sem_destroy(sem_t*) noexcept(true) { return 0; }
int sem_post(sem_t* s) noexcept(true)
{ if (!cur) return 0; sched_point(); chk_dead(s); touch(); if (*I(s, 0) == 0x7fffffff) { errno = EOVERFLOW; return -1; } hb('r', s); ++*I(s, 0); progress(); return 0; }
int sem_trywait(sem_t* s) noexcept(true)
{ if (!cur) return 0; sched_point(); chk_dead(s); touch(); if (*I(s, 0) <= 0) { noprogress(); errno = EAGAIN; return -1; } --*I(s, 0); hb('A', s); progress(); return 0; }
static int semwait(sem_t* s, const struct timespec* ts, bool sys)
{
  if (!cur) return 0;
  sched_point(); chk_dead(s);
  if (ts && ts_bad(ts)) { touch(); errno = EINVAL; return -1; }
  if (*I(s, 0) <= 0) {
    if (ts) set_deadline(ts, sys);
    cur->st = F_SEM; cur->waddr = s; cur->signaled = cur->timedout = false;
    do { block(); } while (*I(s, 0) <= 0 && !expired(cur) && !cur->timedout);
    cur->st = F_RUN; 
    bool intr = cur->timedout, ex = expired(cur);
    cur->timedout = cur->signaled = false; clr_deadline();
    if (intr) { touch(); errno = EINTR; return -1; }
    if (*I(s, 0) <= 0 && ex) { touch(); errno = ETIMEDOUT; return -1; }
  }
  touch(); --*I(s, 0); hb('A', s); progress();
  return 0;
}
int sem_wait(sem_t* s) { return semwait(s, nullptr, false); }
int sem_timedwait(sem_t* s, const struct timespec* ts) { return semwait(s, ts, true); }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) { return semwait(s, ts, c != CLOCK_MONOTONIC); }
int sem_getvalue(sem_t* s, int* v) noexcept(true) { *v = *I(s, 0); return 0; }

// ------------------------------------------------------------------ time, identity, yield
static void tsput(struct timespec* ts, int64_t v) { ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; } }
int clock_gettime(clockid_t c, struct timespec* ts) noexcept(true)
{
  if (!in_run) { static int (*real)(clockid_t, struct timespec*) = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime"); return real(c, ts); }
  if (cur && cur->in_op && !cur->blocked_timed) cur->late_base = now_of(cur);
  bool sys = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
  tsput(ts, sys ? SY_BASE + vnow + sysoff : ST_BASE + vnow);
  return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept(true) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* p) noexcept(true) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
static int do_sleep(int64_t ns)
{
  if (!cur) return 0;
  sched_point(); touch();
  if (ns <= 0) return 0;
  cur->st = F_SLEEP; cur->clk_sys = false; cur->deadline = vnow + ns; cur->blocked_timed = true;
  do block(); while (!expired(cur));
  cur->st = F_RUN; clr_deadline(); return 0;
}
void lab_sleep_ns(int64_t ns) { do_sleep(ns); }
int nanosleep(const struct timespec* ts, struct timespec*) { return do_sleep(ts->tv_sec * 1000000000LL + ts->tv_nsec); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec*)
{
  int64_t v = ts->tv_sec * 1000000000LL + ts->tv_nsec;
  if (fl & TIMER_ABSTIME) v -= (c == CLOCK_REALTIME ? SY_BASE + sysoff : ST_BASE) + vnow;
  return do_sleep(v);
}
int usleep(useconds_t u) { return do_sleep(u * 1000LL); }
pthread_t pthread_self(void) noexcept(true) { return cur ? (pthread_t)(0x7000 + 0x100 * (cur->id + 1) + 0x10000 * cur->alias) : (pthread_t)0x7000; }
int sched_yield(void) noexcept(true)
{
  if (!cur) return 0;
  lab_event('y', 0);
  sched_point();
  noprogress();
  return 0;
}
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept(true)
{ if (verbose) fprintf(stderr, "assert: %s %s:%u %s\n", e, f, l, fn); if (cur) end_run("Assert"); fprintf(stderr, "host assert %s\n", e); _exit(70); }
void abort(void) noexcept(true) { if (cur) end_run("abort"); fprintf(stderr, "lab: abort in host\n"); _exit(71); }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_guard_acquire(long long* g)
{
  char* b = (char*)g;
  if (*b) return 0;
  if (!cur) { return 1; }
  while (*I(g, 4)) { cur->st = F_GUARD; cur->waddr = g; block(); cur->st = F_RUN; }
  if (*b) return 0;
  *I(g, 4) = 1; return 1;
}
void __cxa_guard_release(long long* g) { hb('s', g, 3); *(char*)g = 1; *I(g, 4) = 0; }
void __cxa_guard_abort(long long* g) { *I(g, 4) = 0; }

int lab_thread() { return cur ? cur->id : -1; }
int lab_spurious_gate() { return 0; }
void lab_event(int kind, int64_t a)
{
  if (!cur) return;
  if (kind == 'y') { cur->extra += 0; return; }
  touch();
  if (g_hb && kind == 'B') { for (int i = 0; i < 16; i++) hblog.push_back({'L', cur->id, -(100 + i), 0}); hblog.push_back({'W', cur->id, -200, 0}); }
  ev.push_back({(char)kind, cur->pid, (int)a, 0, 0, 0});
}

// ------------------------------------------------------------------ tsan run time
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
static const int64_t PLAIN_LIMIT = 200000;
static bool ours(char* a)
{
  if (in_arena(a)) return true;
  for (int i = 0; i < nf; i++) if (fib[i].stack <= a && a < fib[i].stack + STACKSZ) return true;
  for (auto& s : segs) if (s.a <= a && a < s.a + s.n) return true;
  return false;
}
static bool shared_mem(char* a)
{
  if (!in_arena(a)) return false;
  for (auto& r : priv) if (r.a <= (uintptr_t)a && (uintptr_t)a < r.b) return false;
  return true;
}
static inline void mem(char k, void* a, size_t n)
{
  if (!cur) return;
  if (++plain > PLAIN_LIMIT) end_run("hang");
  // shared memory accessed while no internal mutex is held: other threads may come in between
  if (cur->held <= 0 && cur->in_op && shared_mem((char*)a)) { sched_point(); touch(); }
  if (!dead.empty()) chk_dead(a);
  if (g_hb && cur->in_op && ours((char*)a)) {
    // memory cells: 4-byte words for accesses of at least 4 bytes, single bytes otherwise
    uintptr_t x = (uintptr_t)a;
    if (n >= 4) for (size_t i = 0; i < n; i += 4) hblog.push_back({k, cur->id, hb_loc(((x + i) & ~3UL) * 8), 0});
    else hblog.push_back({k, cur->id, hb_loc(x * 8 + 1), 0});
  }
}
#define RW(n) void __tsan_read##n(void* a) { mem('L', a, n); } void __tsan_write##n(void* a) { mem('W', a, n); } \
  void __tsan_unaligned_read##n(void* a) { mem('L', a, n); } void __tsan_unaligned_write##n(void* a) { mem('W', a, n); } \
  void __tsan_volatile_read##n(void* a) { mem('L', a, n); } void __tsan_volatile_write##n(void* a) { mem('W', a, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { for (size_t i = 0; i < n; i += 8) mem('L', (char*)a + i, 8); }
void __tsan_write_range(void* a, size_t n) { for (size_t i = 0; i < n; i += 8) mem('W', (char*)a + i, 8); }
void __tsan_vptr_update(void** p, void*) { mem('W', p, 8); }
void __tsan_vptr_read(void** p) { mem('L', p, 8); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { __tsan_read_range((void*)s, n); __tsan_write_range(d, n); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { __tsan_read_range((void*)s, n); __tsan_write_range(d, n); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { __tsan_write_range(d, n); return memset(d, c, n); }

static inline void at_pre(const volatile void* a) { sched_point(); if (!dead.empty()) chk_dead((const void*)a); touch(); }
#define AT(T, B) \
T __tsan_atomic##B##_load(const volatile T* a, int mo) { at_pre(a); T v = *a; hb('l', (void*)a, mo); noprogress(); return v; } \
void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { at_pre(a); bool chg = *a != v; *a = v; hb('s', (void*)a, mo); if (chg) progress(); else noprogress(); } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { at_pre(a); T o = *a; *a = v; hb('u', (void*)a, mo); if (o != v) progress(); else noprogress(); return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { at_pre(a); T o = *a; *a = o + v; hb('u', (void*)a, mo); progress(); return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a); T o = *a; *a = o - v; hb('u', (void*)a, mo); progress(); return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { at_pre(a); T o = *a; *a = o & v; hb('u', (void*)a, mo); if (o != *a) progress(); else noprogress(); return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { at_pre(a); T o = *a; *a = o | v; hb('u', (void*)a, mo); if (o != *a) progress(); else noprogress(); return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a); T o = *a; *a = o ^ v; hb('u', (void*)a, mo); progress(); return o; } \
static int cas##B(volatile T* a, T* e, T v, int mo, int fmo, bool weak) { \
  at_pre(a); T o = *a; \
  if (o == *e) { \
    if (weak && cur && budget_wf > 0 && choose(2)) { budget_wf--; cur->extra |= 0; wf_note(); hb('l', (void*)a, fmo); return 0; } \
    *a = v; hb('u', (void*)a, mo); if (o != v) progress(); return 1; } \
  *e = o; hb('l', (void*)a, fmo); noprogress(); return 0; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return cas##B(a, e, v, mo, fmo, false); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return cas##B(a, e, v, mo, fmo, true); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { T x = e; cas##B(a, &x, v, mo, fmo, false); return x; }
static int spurmask; static void wf_note() { if (cur && cur->id < 16) spurmask |= 1 << cur->id; }
AT(unsigned char, 8) AT(unsigned short, 16) AT(unsigned int, 32) AT(unsigned long, 64)
void __tsan_atomic_thread_fence(int mo) { if (cur) { sched_point(); touch(); if (g_hb) hblog.push_back({'f', cur->id, 0, mo}); } }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// ------------------------------------------------------------------ external blocking service for stub platforms
static bool block_ext(bool (*ready)(void*), void* arg, int64_t rel_ns /*<0: forever*/, const int64_t* wall)
{
  // blocks until ready(arg) or until rel_ns passed (counted from the call); true: ready. A scheduling point comes first.
  int64_t start = vnow;
  // a thread may have been preempted before it begins a wait of at most one tick: that does not make it late
  if (rel_ns > 0 && rel_ns <= 1000000 && cur->in_op) cur->late_base = std::max(cur->late_base, now_of(cur) - cur->dur);
  sched_point();
  if (ready(arg)) { touch(); progress(); return true; }
  struct Ctx { bool (*r)(void*); void* a; } cx{ready, arg};
  cur->ext = &cx; cur->ext_ready = [](Fiber* f) { Ctx* c = (Ctx*)f->ext; return c->r(c->a); };
  if (wall) { cur->clk_sys = true; cur->deadline = *wall - SY_BASE; cur->blocked_timed = true; }
  else if (rel_ns >= 0) { cur->clk_sys = false; cur->deadline = start + rel_ns; cur->blocked_timed = true; }
  cur->st = F_EXT;
  while (!ready(arg) && !expired(cur)) block();
  cur->st = F_RUN; clr_deadline();
  touch();
  progress();
  return ready(arg);
}
extern "C" bool lab_block_ext(bool (*ready)(void*), void* arg, int64_t rel_ns) { return block_ext(ready, arg, rel_ns, nullptr); }
extern "C" bool lab_block_wall(bool (*ready)(void*), void* arg, int64_t abs_ns) { return block_ext(ready, arg, 0, &abs_ns); }   // until a time of the wall clock
extern "C" void lab_point() { sched_point(); touch(); progress(); }
extern "C" int64_t lab_now(int sys) { if (cur && cur->in_op && !cur->blocked_timed) cur->late_base = now_of(cur); return sys ? SY_BASE + vnow + sysoff : ST_BASE + vnow; }
extern "C" int lab_fault(int n) { return choose(n); }
extern "C" void lab_private(void* a, size_t n) { priv.push_back({(uintptr_t)a, (uintptr_t)a + n}); }
extern "C" void lab_dead_add(void* a, size_t n) { dead.push_back({(uintptr_t)a, (uintptr_t)a + n}); }

// ------------------------------------------------------------------ script interpretation
static bool op_is_x(int op) { return op == OP_LOCK || op == OP_TRY || (op >= OP_FOR && op <= OP_UNT_CU); }
static bool op_is_s(int op) { return op == OP_LOCKS || op == OP_TRYS || (op >= OP_FORS && op <= OP_UNTS_CU); }
static bool cap_ok(const TypeDesc* td, int op)
{
  unsigned c = td->caps;
  if (op == OP_LOCK || op == OP_UNLOCK) return c & CAP_X;
  if (op == OP_TRY) return c & CAP_TRY;
  if (op == OP_LOCKS || op == OP_TRYS || op == OP_UNLOCKS) return c & CAP_SHARED;
  if (op == OP_NESTN || op == OP_UNNESTN) return (c & CAP_REC) && (c & CAP_TRY);
  if (op == OP_CROWDN || op == OP_UNCROWDN || op == OP_CYCLESN) return c & CAP_SHARED;
  if (op == OP_CYCLEN) return (c & CAP_X) && (c & CAP_TRY);
  if (op == OP_FOR || op == OP_UNT_SY) return c & CAP_TIMED;
  if (op == OP_UNT_ST || op == OP_UNT_CU) return (c & CAP_TIMED) && !(c & CAP_SYSONLY);
  if (op == OP_FORS || op == OP_UNTS_SY) return c & CAP_STIMED;
  if (op == OP_UNTS_ST || op == OP_UNTS_CU) return (c & CAP_STIMED) && !(c & CAP_SYSONLY);
  return true;
}

static void __attribute__((noinline)) clobber_stack() { volatile char buf[3072]; memset((void*)buf, 0xDD, sizeof buf); asm volatile("" ::: "memory"); }

static void ud(char k, int o) { if (g_hb && cur) hblog.push_back({k, cur->id, -(o + 1), 0}); }

// long repetitions without preemption: one operation of the specification with a weight
static int repeat_op(Fiber* f, Obj& ob, int op, int64_t n)
{
  const unsigned c = ob.td->caps; int r = R_TRUE;
  auto one = [&](int k) { plain = 0; f->idle = 0; int x = ob.td->op(ob.mem, k, 0); if (x != R_TRUE) r = x; };
  int o = (int)(&ob - &objs[0]);
  touch(); f->macro = true;
  for (int64_t i = 0; i < n && r == R_TRUE; i++) switch (op) {
    case OP_NESTN: one(i % 3 == 0 ? OP_LOCK : i % 3 == 1 || !(c & CAP_TIMED) ? OP_TRY : OP_FOR); break;
    case OP_UNNESTN: one(OP_UNLOCK); break;
    case OP_CROWDN: f->alias = ++crowd[f->id][o]; one(i % 3 == 0 ? OP_LOCKS : i % 3 == 1 || !(c & CAP_STIMED) ? OP_TRYS : OP_FORS); break;
    case OP_UNCROWDN: f->alias = crowd[f->id][o]--; one(OP_UNLOCKS); break;
    case OP_CYCLEN: one(i % 2 ? OP_TRY : OP_LOCK); if (r == R_TRUE) one(OP_UNLOCK); break;
    case OP_CYCLESN: one(i % 2 ? OP_TRYS : OP_LOCKS); if (r == R_TRUE) one(OP_UNLOCKS); break;
  }
  f->macro = false; f->alias = 0;
  return r;
}
static bool is_repeat(int op) { return (op >= OP_NESTN && op <= OP_UNCROWDN) || op == OP_CYCLEN || op == OP_CYCLESN; }
static int api_op(Fiber* f, int op, int o, int64_t arg)
{
  Obj& ob = objs[o];
  f->in_op = true; f->call_logged = false; f->cur_op = op; f->cur_obj = o; f->cur_arg = arg;
  f->timed_op = is_timed(op); f->blocked_timed = false; f->expired_logged = false; f->idle = 0; f->extra = 0;
  f->sysop = is_sysop(op); f->early = f->late_base = now_of(f); f->dur = arg < -1000000000000000LL ? -1 : (arg > INT64_MAX / 4 ? INT64_MAX / 4 : arg);
  if (f->timed_op) { f->early = now_of(f) + f->dur; }
  if (f->id < 16) spurmask &= ~(1 << f->id);
  int r;
  if (g_hb) {
    if (op == OP_UNLOCK && hx[f->id][o] == 1) ud('W', o);
    if (op == OP_UNLOCKS) ud('L', o);
  }
  if (op == OP_DTOR) { 
    if (!ob.alive) { f->in_op = false; return -1; }
    ob.alive = false; r = ob.td->dtor(ob.mem); if (g_uad) lab_dead_add(ob.mem, ob.td->size); }
  else r = is_repeat(op) ? repeat_op(f, ob, op, arg) : ob.td->op(ob.mem, op, arg);
  if (r == -1) { f->in_op = false; return -1; }
  touch();
  // a crowd of writers has been served when the first of them has; a crowd of readers when all of them have
  if (f->pid == f->id || ++wc_ret == wc_n || wc_op == OP_WCROWDX || r != R_TRUE) ev.push_back({'r', f->pid, r, f->id < 16 ? (spurmask >> f->id) & 1 : 0, 0, 0});
  f->in_op = false;
  clobber_stack();
  if (r == R_TRUE) {
    if (op_is_x(op)) { hx[f->id][o]++; if (g_hb && hx[f->id][o] == 1) ud('W', o); }
    else if (op_is_s(op)) { hs[f->id][o]++; ud('L', o); }
    else if (op >= OP_ACQ && op <= OP_AUNT_CU && op != OP_REL) ob.permits--;
    else if (op == OP_NESTN) hx[f->id][o] += (int)arg; else if (op == OP_UNNESTN) hx[f->id][o] -= (int)arg;
    else if (op == OP_CROWDN) hs[f->id][o] += (int)arg; else if (op == OP_UNCROWDN) hs[f->id][o] -= (int)arg;
    else if (op == OP_UNLOCK) { if (hx[f->id][o] > 0) hx[f->id][o]--; }
    else if (op == OP_UNLOCKS) { if (hs[f->id][o] > 0) hs[f->id][o]--; }
  }
  return r;
}
static int nobj_; static int refs;
static bool any_dead_obj(int o) { return !objs[o].alive; }
static void init_fiber(Fiber* f);
static void call_up(Fiber* f, const ScriptOp& s)
{
  const int op = s.op == OP_WCROWDX ? OP_LOCK : OP_LOCKS;
  if (wc_n || nf > 16 || nf + s.arg > MAXF || s.obj >= nobj_ || !cap_ok(objs[s.obj].td, op)) return;
  wc_n = (int)s.arg; wc_op = s.op;
  arena_on = false;      // the scripts belong to the laboratory
  for (int i = 0; i < wc_n; i++) { Fiber* m = &fib[nf + i]; m->id = nf + i; m->script.assign(1, ScriptOp{op, s.obj, 0, -1, false, false, false}); init_fiber(m); m->pid = f->id; }
  arena_on = true;
  nf += wc_n;
}
static void run_script(Fiber* f)
{
  f->last = R_TRUE; f->lastref = false;
  for (f->pc = 0; f->pc < f->script.size(); f->pc++) {
    const ScriptOp s = f->script[f->pc];
    if (s.gate >= 0) { f->st = F_GATE; f->gate_open = false; block(); f->st = F_RUN; }
    if (s.op == OP_RELALL) {
      for (int o = 0; o < nobj_; o++) { if (any_dead_obj(o)) continue; while (hx[f->id][o] > 0) if (api_op(f, OP_UNLOCK, o, 0) != R_TRUE) break; if (crowd[f->id][o]) api_op(f, OP_UNCROWDN, o, crowd[f->id][o]); while (hs[f->id][o] > 0 && !crowd[f->id][o]) if (api_op(f, OP_UNLOCKS, o, 0) != R_TRUE) break; }
      continue;
    }
    if (s.op == OP_NOP) continue;
    if (s.op == OP_WCROWDX || s.op == OP_WCROWDS) { call_up(f, s); continue; }
    if (s.op == OP_UDW || s.op == OP_UDR) {   // the user's own data, only after a successful operation
      if (g_hb && (f->last == R_TRUE || s.force)) hblog.push_back({s.op == OP_UDW ? 'W' : 'L', f->id, -(int)(100 + s.arg), 0});
      continue;
    }
    if (s.op == OP_DECREF) { f->lastref = --refs == 0; continue; }
    if (s.cond && f->last != R_TRUE) continue;
    if (s.iflast && !f->lastref) continue;
    if (s.obj < 0 || s.obj >= nobj_) continue;
    if (any_dead_obj(s.obj)) continue;
    const TypeDesc* td = objs[s.obj].td;
    if (s.op < OP_DTOR && !cap_ok(td, s.op)) continue;
    if (!s.force) {
      int x = hx[f->id][s.obj], h = hs[f->id][s.obj];
      if (op_is_x(s.op) && (h > 0 || (x > 0 && !(td->caps & CAP_REC)))) continue;
      if (op_is_s(s.op) && (h > 0 || x > 0)) continue;
      if ((s.op == OP_NESTN && x == 0) || (s.op == OP_UNNESTN && x < s.arg) || ((s.op == OP_CYCLEN || s.op == OP_CYCLESN) && (x || h))) continue;
      if ((s.op == OP_CROWDN && (x > 0 || h > crowd[f->id][s.obj])) || (s.op == OP_UNCROWDN && crowd[f->id][s.obj] < s.arg)) continue;
      if (s.op == OP_UNLOCK && x == 0) continue;
      if (s.op == OP_UNLOCKS && h == 0) continue;
      if (s.op == OP_REL && objs[s.obj].cap) {   // never more permits than the maximum (acquisitions under way do not count)
        Obj& ob = objs[s.obj]; if (ob.permits + s.arg > ob.cap) continue;
        ob.permits += s.arg;
      }
    }
    f->last = api_op(f, s.op, s.obj, s.arg);
  }
}
static void fiber_main()
{
  Fiber* f = cur;
  try { run_script(f); }
  catch (...) { end_run("exception"); }
  f->st = F_DONE;
  block();
  abort();
}
extern "C" void lab_fiber_entry() { fiber_main(); abort(); }
asm(R"(
.text
.globl lab_tramp
.type lab_tramp,@function
lab_tramp:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp,%ebp
  andq $-16,%rsp
  call lab_fiber_entry
  hlt
  .cfi_endproc
.size lab_tramp,.-lab_tramp
)");
extern "C" void lab_tramp();

static void init_fiber(Fiber* f)
{
  char* top = f->stack + STACKSZ;
  uintptr_t* s = (uintptr_t*)((uintptr_t)top & ~15UL);
  *--s = 0; *--s = 0;
  *--s = (uintptr_t)&lab_tramp;
  for (int i = 0; i < 6; i++) *--s = 0;
  f->sp = s; f->pid = f->id; f->st = F_RUN; f->deadline = -1; f->clk_sys = false; f->signaled = f->timedout = false;
  f->in_op = false; f->call_logged = false; f->idle = f->extra = 0; f->held = 0; f->alias = 0; f->macro = f->sysop = false; f->pc = 0; f->gate_open = false; f->tls = nullptr; f->timed_op = false; f->expired_logged = false; f->parkepoch = 0;
  memset(f->exc, 0, 16);
}

// ------------------------------------------------------------------ programs
struct Program {
  std::string id; std::vector<std::string> objt; std::vector<int64_t> objarg;
  std::vector<std::vector<ScriptOp>> th; std::vector<ScriptOp> clk;
  int rtick = 0, spur = 0, eintr = 0, wf = 0, pb = -1; long maxr = -1, rnd = -1;
};
static std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> r; std::string c; for (char x : s) { if (x == d) { r.push_back(c); c.clear(); } else c += x; } r.push_back(c); return r; }

static const Program* curp;
static std::map<std::string, const TypeDesc*> types;

static void crash_handler(int sig, siginfo_t*, void*)
{
  if (!in_run || !cur) { const char m[] = "lab: host crash\n"; (void)!write(2, m, sizeof m - 1); _exit(72); }
  (void)sig;
  siglongjmp(crash_jb, sig == SIGVTALRM || sig == SIGALRM ? 2 : 1);
}

// one execution
static void run_once(const Program& p, const std::vector<const TypeDesc*>& tds)
{
  restore_segs();
  arena_pos = 0; ev.clear(); hblog.clear(); hbloc.clear(); dead.clear(); priv.clear(); epoch = 1; steps = plain = 0; run_over = false; vnow = 0; sysoff = 0; chpos = 0; spurmask = 0;
  memset(hx, 0, sizeof hx); memset(hs, 0, sizeof hs); memset(crowd, 0, sizeof crowd);
  budget_spur = p.spur; budget_eintr = p.eintr; budget_tick = p.rtick; budget_wf = p.wf;
  clk.assign(p.clk.begin(), p.clk.end()); clkpc = 0;
  wc_n = wc_ret = wc_op = 0; wc_called = false;
  refs = 0; for (auto& th : p.th) for (auto& o : th) if (o.op == OP_DECREF) refs++;
  nf = (int)p.th.size(); nobj_ = (int)tds.size();
  late_slack = 1000000; for (auto* d : tds) if (!strncmp(d->name, "win.", 4)) late_slack = 4000000;   // millisecond rounding and one Sleep tick
  objs.clear();
  in_run = true; arena_on = true; curp = &p;
  for (int i = 0; i < nf; i++) { fib[i].id = i; fib[i].script = p.th[i]; init_fiber(&fib[i]); }
  // construct the objects outside of any thread, like a main function would before starting threads
  for (int i = 0; i < nobj_; i++) {
    Obj o; o.td = tds[i]; o.mem = (char*)arena_alloc(o.td->size + 64, std::max<size_t>(64, o.td->align)); memset(o.mem, 0xAB, o.td->size);
    o.cap = 0; { std::string nm = tds[i]->name; if (nm.rfind("sem.", 0) == 0 || nm.rfind("posix.", 0) == 0) o.cap = nm.find("binary") != std::string::npos ? 1 : nm.back() == '5' ? 5 : 0; }
    o.alive = true; o.ctorarg = i < (int)p.objarg.size() ? p.objarg[i] : 0;
    o.permits = o.ctorarg;
    o.td->ctor(o.mem, o.ctorarg);
    objs.push_back(o);
  }
  int sj = sigsetjmp(crash_jb, 1);
  if (sj) {
    Fiber* f = cur; load_exc(main_exc); cur = nullptr;
    if (!f->call_logged && f->in_op) log_call(f);
    ev.push_back({'x', f->pid, sj == 2 ? 'h' : 's', 0, 0, 0}); run_over = true;
  }
  memset(main_exc, 0, 16);
  while (!run_over) {
    // choose any enabled fiber
    Fiber* en[MAXF]; int n = 0;
    for (int i = 0; i < nf; i++) if (enabled(&fib[i])) en[n++] = &fib[i];
    if (n) { to_fiber(en[choose(n)]); continue; }
    // racing tick / fault opportunities are handled in pick(); here nothing can run
    bool unpark = false;
    for (int i = 0; i < nf; i++) if (fib[i].st == F_SPINPARK) { fib[i].st = F_RUN; fib[i].extra = 300; fib[i].idle = 0; unpark = true; int save = budget_pre; Fiber* f = &fib[i];
      uint64_t e0 = epoch; to_fiber(f); budget_pre = save; if (f->st == F_SPINPARK && epoch == e0) { f->st = F_HARDPARK; f->parkepoch = epoch; } break; }
    if (unpark) continue;
    // quiescent
    for (int i = 0; i < nf; i++) if (fib[i].in_op) log_call(&fib[i]);
    // gather overdue (members of a crowd have no deadlines)
    unsigned over = 0;
    for (int i = 0; i < nf; i++) if (fib[i].in_op && fib[i].timed_op && fib[i].late_base + fib[i].dur + late_slack < now_of(&fib[i])) over |= 1u << i;
    if (ev.empty() || ev.back().k != 'q' || ev.back().mask != over) ev.push_back({'q', 0, 0, 0, 0, over});
    if (over) break;   // nothing legitimate can follow
    int g = INT32_MAX;
    for (int i = 0; i < nf; i++) if (fib[i].st == F_GATE) g = std::min(g, fib[i].script[fib[i].pc].gate);
    if (clkpc < clk.size()) g = std::min(g, clk[clkpc].gate);
    if (g != INT32_MAX) {
      for (int i = 0; i < nf; i++) if (fib[i].st == F_GATE && fib[i].script[fib[i].pc].gate == g) fib[i].gate_open = true;
      while (clkpc < clk.size() && clk[clkpc].gate == g) {
        ScriptOp s = clk[clkpc++];
        if (s.op == OP_TICK) { int64_t d = s.arg ? vnow + s.arg : next_deadline(false); if (d > 0) do_tick(d); }
        else if (s.op == OP_JUMP) { sysoff += s.arg; epoch++; ev.push_back({'j', 0, 0, 0, 0, 0}); do_tick(vnow); }
      }
      continue;
    }
    int64_t d = next_deadline(true);
    if (d > 0) { do_tick(d); continue; }
    break;
  }
  in_run = false; arena_on = false; cur = nullptr;
}

static std::string trace_string()
{
  // normal form: maximal runs of calls are sorted, likewise maximal runs of returns (their relative order is not
  // observable); threads are renamed in the order of their first appearance
  HVec<Event> e = ev;
  int ren[MAXF], nr = 0; for (int i = 0; i < MAXF; i++) ren[i] = -1;
  auto nm = [&](int t) { if (t < 0) return 0; if (ren[t] < 0) ren[t] = nr++; return ren[t]; };
  auto key = [&](const Event& x) { return std::make_tuple(ren[x.t] < 0 ? 99 : ren[x.t], x.a, x.b, x.c, x.t); };
  std::string s; char b[96];
  auto mask = [&](unsigned m) { unsigned r = 0; for (int i = 0; i < 16; i++) if (m >> i & 1) r |= 1u << nm(i); return r; };
  for (size_t i = 0; i < e.size();) {
    size_t j = i + 1;
    if (e[i].k == 'c' || e[i].k == 'r') { while (j < e.size() && e[j].k == e[i].k) j++; std::sort(e.begin() + i, e.begin() + j, [&](const Event& a, const Event& b) { return key(a) < key(b); }); }
    for (; i < j; i++) {
      auto& x = e[i];
      switch (x.k) {
        case 'c': snprintf(b, sizeof b, "c.%d.%d.%d.%lld ", nm(x.t), x.a, x.b, (long long)x.c); break;
        case 'r': snprintf(b, sizeof b, "r.%d.%d.%d ", nm(x.t), x.a, x.b); break;
        case 'q': case 'k': snprintf(b, sizeof b, "%c.%u ", x.k, mask(x.mask)); break;
        case 'x': snprintf(b, sizeof b, "x.%d.%c ", nm(x.t), (char)x.a); break;
        case 'j': snprintf(b, sizeof b, "j "); break;
        default: snprintf(b, sizeof b, "%c.%d.%d ", x.k, nm(x.t), x.a);
      }
      s += b;
    }
  }
  if (!s.empty()) s.pop_back();
  return s;
}
static std::string hb_string()
{
  // only locations touched by at least two threads matter; renumber in order of appearance; collapse repeats
  std::map<int, int> own; std::map<int, int> ren; // loc -> thread or -2
  for (auto& h : hblog) { if (h.k == 'f') continue; auto it = own.find(h.loc); if (it == own.end()) own[h.loc] = h.t; else if (it->second != h.t) it->second = -2; }
  std::string s; char b[64]; int nx = 0;
  std::map<int, std::pair<int, char>> last; // plain loc -> last accessor since its last sync
  std::vector<int> syncgen(MAXF, 0); std::map<int, std::pair<std::pair<int, int>, char>> seen;
  for (auto& h : hblog) {
    if (h.k != 'f' && own[h.loc] != -2) continue;
    int l = h.loc;
    if (h.k == 'f') l = 0; else if (l > 0) { auto it = ren.find(l); if (it == ren.end()) { ren[l] = ++nx; l = nx; } else l = it->second; }
    bool plainacc = h.k == 'L' || h.k == 'W';
    if (plainacc) {
      auto it = seen.find(h.loc);
      if (it != seen.end() && it->second.first == std::make_pair(h.t, syncgen[h.t]) && (it->second.second == 'W' || h.k == 'L')) continue;
      seen[h.loc] = {{h.t, syncgen[h.t]}, h.k};
    } else syncgen[h.t]++;
    snprintf(b, sizeof b, "%c.%d.%d.%d ", h.k, h.t, l, h.mo);
    s += b;
  }
  if (!s.empty()) s.pop_back();
  return s;
}

// ------------------------------------------------------------------ main
struct Rec { long n; std::string type, prog, mode; std::vector<int> choices; };

int main(int argc, char** argv)
{
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i] + 2] = argv[i + 1];
  auto num = [&](const char* k, long d) { return a.count(k) ? atol(a[k].c_str()) : d; };
  g_hb = num("hb", 0); g_uad = num("uad", 0); verbose = num("verbose", 0);
  STEP_LIMIT = num("steps", 30000);
  arena = (char*)mmap(nullptr, arena_sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXF; i++) {
    char* m = (char*)mmap(nullptr, STACKSZ + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(m, 4096, PROT_NONE);
    fib[i].stack = m + 4096;
  }
  stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);

  std::string path = a["sut"];
  sut_path_base = path.substr(path.rfind('/') + 1);
  void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 3; }
  auto st = (const TypeDesc* (*)(int*))dlsym(h, "sut_types");
  int nt; const TypeDesc* td = st(&nt);
  for (int i = 0; i < nt; i++) types[td[i].name] = &td[i];
  if (a.count("list")) { for (int i = 0; i < nt; i++) printf("%s %u\n", td[i].name, td[i].caps); return 0; }
  dl_iterate_phdr(phdr_cb, nullptr);
  std::cout.rdbuf(nullptr);
  snap_segs();

  // programs
  std::vector<Program> progs;
  {
    std::ifstream in(a["prog"]); std::string line;
    Program p; bool have = false;
    auto parse_ops = [](const std::string& rest) { std::vector<ScriptOp> v; std::istringstream is(rest); std::string tok;
      while (is >> tok) { ScriptOp s{0, 0, 0, -1, false, false, false}; auto f = split(tok, ':'); s.op = atoi(f[0].c_str()); if (f.size() > 1) s.obj = atoi(f[1].c_str()); if (f.size() > 2) s.arg = atoll(f[2].c_str()); if (f.size() > 3 && !f[3].empty()) s.gate = atoi(f[3].c_str()); if (f.size() > 4) { int x = atoi(f[4].c_str()); s.force = x & 1; s.cond = x & 2; s.iflast = x & 4; } v.push_back(s); } return v; };
    while (std::getline(in, line)) {
      if (line.empty()) continue;
      if (line[0] == 'P') {
        if (have) progs.push_back(p);
        p = Program(); have = true;
        std::istringstream is(line.substr(1)); is >> p.id; std::string kv;
        while (is >> kv) {
          auto q = kv.find('='); std::string k = kv.substr(0, q), v = kv.substr(q + 1);
          if (k == "objs") { p.objt = split(v, ','); }
          else if (k == "args") { for (auto& x : split(v, ',')) p.objarg.push_back(atoll(x.c_str())); }
          else if (k == "rtick") p.rtick = atoi(v.c_str()); else if (k == "spur") p.spur = atoi(v.c_str());
          else if (k == "eintr") p.eintr = atoi(v.c_str()); else if (k == "wf") p.wf = atoi(v.c_str());
          else if (k == "pb") p.pb = atoi(v.c_str()); else if (k == "max") p.maxr = atol(v.c_str()); else if (k == "rnd") p.rnd = atol(v.c_str());
        }
      } else if (line[0] == 'T') p.th.push_back(parse_ops(line.substr(1)));
      else if (line[0] == 'C') p.clk = parse_ops(line.substr(1));
    }
    if (have) progs.push_back(p);
  }
  std::vector<std::string> tl = a.count("types") ? split(a["types"], ',') : std::vector<std::string>{""};
  for (auto& t : tl) if (!t.empty() && !types.count(t)) { fprintf(stderr, "unknown type %s\n", t.c_str()); return 4; }
  int shard = (int)num("shard", 0), nshard = (int)num("nshard", 1);
  int pb = (int)num("pb", 2); long maxr = num("max", 2000), rndr = num("rand", 50);
  uint64_t seed = (uint64_t)num("seed", 1);
  // a watchdog for loops that contain neither scheduling points nor instrumented accesses
  auto arm = [&](int s) { struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = s; setitimer(ITIMER_REAL, &tv, nullptr); };
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  double wall = (double)num("wall", 600);

  if (a.count("replay")) {
    // --replay "c,c,c"  with a single program/type
    const Program& p = progs.at(0);
    std::vector<const TypeDesc*> tds;
    for (auto& o : p.objt) tds.push_back(types.at(o == "*" ? tl[0] : o));
    if (p.objt.empty()) tds.push_back(types.at(tl[0]));
    mode = M_REPLAY; budget_pre = a["mode"] == "rand" ? 1000000 : pb;
    for (auto& c : split(a["replay"], ',')) if (!c.empty()) ch.push_back({1 << 20, atoi(c.c_str())});
    arm(20);
    run_once(p, tds);
    arm(0);
    fprintf(stdout, "%s\n", trace_string().c_str());
    if (g_hb) fprintf(stdout, "%s\n", hb_string().c_str());
    fflush(stdout); _exit(0);
  }

  std::unordered_map<std::string, size_t> idx; std::vector<std::pair<std::string, Rec>> recs;
  long total = 0, truncated = 0, maxdepth = 0; bool timeup = false;
  size_t job = 0;
  for (size_t pi = 0; pi < progs.size() && !timeup; pi++) for (auto& tn : tl) {
    if ((int)(job++ % (size_t)nshard) != shard) continue;
    const Program& p = progs[pi];
    std::vector<const TypeDesc*> tds;
    for (auto& o : p.objt) { const std::string& nm = o == "*" ? tn : o; if (!types.count(nm)) { fprintf(stderr, "unknown type %s\n", nm.c_str()); return 4; } tds.push_back(types.at(nm)); }
    if (p.objt.empty()) tds.push_back(types.at(tn));
    auto rec = [&](const char* m) {
      total++;
      std::string s = g_hb ? hb_string() : trace_string();
      auto it = idx.find(s);
      if (it == idx.end()) { Rec r; r.n = 1; r.type = tn; r.prog = p.id; r.mode = m; for (size_t i = 0; i < chpos; i++) r.choices.push_back(ch[i].idx); idx[s] = recs.size(); recs.push_back({s, r}); }
      else recs[it->second].second.n++;
      maxdepth = std::max<long>(maxdepth, (long)chpos);
    };
    // systematic part
    mode = M_DFS; ch.clear();
    long lim = p.maxr >= 0 ? p.maxr : maxr, cnt = 0; int mypb = p.pb >= 0 ? p.pb : pb;
    while (cnt < lim) {
      budget_pre = mypb;
      arm(10); run_once(p, tds); arm(0); cnt++;
      rec("dfs");
      ch.resize(chpos);
      while (!ch.empty() && ch.back().idx + 1 >= ch.back().n) ch.pop_back();
      if (ch.empty()) break;
      ch.back().idx++;
      if ((cnt & 255) == 0) { struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec > wall) { timeup = true; break; } }
    }
    if (!ch.empty()) truncated++;
    // random part
    mode = M_RAND;
    long rr = p.rnd >= 0 ? p.rnd : rndr;
    for (long k = 0; k < rr && !timeup; k++) {
      ch.clear(); budget_pre = 1000000;
      rng = seed * 0x9E3779B97F4A7C15ULL + (pi + 1) * 0xD1B54A32D192ED03ULL + (uint64_t)(k + 1) * 0x94D049BB133111EBULL; for (char c : tn) rng = rng * 131 + (unsigned char)c; if (!rng) rng = 88172645463325252ULL; rnd(); rnd();
      pcont = 0.3 + 0.65 * rnd01(); ptick = 0.02 + 0.2 * rnd01();
      arm(10); run_once(p, tds); arm(0);
      rec("rand");
    }
    { struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec > wall) { timeup = true; break; } }
  }
  FILE* out = fopen(a["out"].c_str(), "w");
  fprintf(out, "# total=%ld unique=%zu truncated=%ld maxdepth=%ld timeup=%d jobs=%zu\n", total, recs.size(), truncated, maxdepth, (int)timeup, job);
  for (auto& r : recs) {
    fprintf(out, "%ld\t%s\t%s\t%s\t", r.second.n, r.second.type.c_str(), r.second.prog.c_str(), r.second.mode.c_str());
    for (size_t i = 0; i < r.second.choices.size(); i++) fprintf(out, "%s%d", i ? "," : "", r.second.choices[i]);
    fprintf(out, "\t%s\n", r.first.c_str());
  }
  fclose(out);
  fflush(stdout);
  _exit(0);
}
