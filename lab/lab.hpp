// Deterministic laboratory: fibers + virtual time + scheduler choice points.
#pragma once
#include "abi.hpp"
#include <string>
#include <vector>
#include <cstring>
#include <cstdio>
#include <cstdlib>

constexpr int MAXF = 320;        // at most 16 of them are threads of a program, the others are members of a crowd
constexpr size_t STACKSZ = 192 * 1024;

enum FState { F_RUN, F_MUTEX, F_COND, F_SEM, F_RWR, F_RWW, F_PSPIN, F_GATE, F_SPINPARK, F_HARDPARK, F_SLEEP, F_GUARD, F_EXT, F_DONE };

struct ScriptOp { int op; int obj; int64_t arg; int gate; bool force, cond, iflast; };

struct Fiber {
  void* sp = nullptr;
  char* stack = nullptr;
  int id = 0;
  int pid = 0;                    // the thread it stands for: members of a crowd stand for the thread that called them up
  FState st = F_DONE;
  void* waddr = nullptr;          // object waited for
  void* relock = nullptr;         // mutex to take after condition wait
  int64_t deadline = -1;          // OS-level deadline on steady time line (ns), -1: none
  bool clk_sys = false;           // deadline is on the system clock
  bool signaled = false, timedout = false;
  uint64_t parkepoch = 0;
  int idle = 0;                   // consecutive no-progress operations
  bool lastref = false; int last = 1;   // result of the last operation
  int extra = 0;                  // extra spins granted
  int held = 0;                   // internal mutexes held
  int alias = 0;                  // identity of one thread of a crowd
  bool macro = false;             // a long repetition: no preemption
  bool sysop = false;             // the current operation's deadline is a time of the wall clock
  // current API operation
  bool in_op = false, call_pending = false, call_logged = false, timed_op = false, blocked_timed = false;
  int cur_op = 0, cur_obj = 0; int64_t cur_arg = 0;
  int64_t early = 0, late_base = 0, dur = 0; bool expired_logged = false;
  size_t pc = 0;
  bool gate_open = false;
  std::vector<ScriptOp> script;
  char exc[16];
  // pseudo data for tokens
  std::vector<unsigned> tokens;
  void* tls = nullptr;
  bool (*ext_ready)(Fiber*) = nullptr; void* ext = nullptr;
};

struct Event { char k; int t; int a, b; int64_t c; unsigned mask; };
