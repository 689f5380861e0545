// Interface between the laboratory (host executable) and the instrumented library under test.
#pragma once
#include <cstdint>
#include <cstddef>

enum Op : int {
  OP_NONE = 0,
  // mutex-like
  OP_LOCK = 1, OP_TRY, OP_UNLOCK, OP_LOCKS, OP_TRYS, OP_UNLOCKS,
  OP_FOR, OP_UNT_ST, OP_UNT_SY, OP_UNT_CU,       // timed exclusive: _for, _until(steady/system/custom)
  OP_FORS, OP_UNTS_ST, OP_UNTS_SY, OP_UNTS_CU,   // timed shared
  OP_NESTN = 15, OP_UNNESTN, OP_CROWDN, OP_UNCROWDN, // arg times: nested lock / unlock; lock_shared / unlock_shared by as many threads
  // semaphore
  OP_ACQ = 20, OP_TRYACQ, OP_REL, OP_AFOR, OP_AUNT_ST, OP_AUNT_SY, OP_AUNT_CU,
  OP_CYCLEN = 27, OP_CYCLESN,                      // arg times: lock and unlock, lock_shared and unlock_shared
  // latch
  OP_CDOWN = 30, OP_TRYWAIT, OP_LWAIT, OP_LARRWAIT,
  // barrier
  OP_WCROWDX = 36, OP_WCROWDS,                     // arg threads that lock / lock_shared and never release
  OP_BARR = 40, OP_BWAIT, OP_BARRWAIT, OP_BDROP, OP_BCYCLE, OP_BFAR,
  // life cycle
  OP_DTOR = 50, OP_CTOR = 51,
  // scoped_lock over several objects / backoff
  OP_SCOPED = 60, OP_UNSCOPED, OP_BACKOFF = 70,
  // laboratory pseudo operations
  OP_RELALL = 90, OP_TICK = 91, OP_JUMP = 92, OP_NOP = 93, OP_UDW = 95, OP_UDR = 96, OP_DECREF = 97
};

// result codes
enum Res : int { R_FALSE = 0, R_TRUE = 1, R_EX_DEADLOCK = 2, R_EX_NOTPERM = 3, R_EX_INVAL = 4, R_EX_AGAIN = 5, R_EX_OTHER = 9 };

struct TypeDesc {
  const char* name;
  size_t size, align;
  void (*ctor)(void* mem, int64_t arg);
  int (*dtor)(void* mem);                       // result code
  int (*op)(void* mem, int op, int64_t arg);    // result code; -1: operation not available on this type
  unsigned caps;                                // Caps
};
enum Caps : unsigned {
  CAP_X = 1, CAP_TRY = 2, CAP_TIMED = 4, CAP_SHARED = 8, CAP_STIMED = 16, CAP_REC = 32, CAP_CHECKED = 64,
  CAP_SPIN = 128, CAP_SYSONLY = 256, CAP_SEM = 512, CAP_LATCH = 1024, CAP_BARRIER = 2048, CAP_NATIVE = 4096
};

extern "C" {
  // exported by the library under test
  const TypeDesc* sut_types(int* n);
  // provided by the host
  void lab_event(int kind, int64_t a);          // user callback event (e.g. barrier completion)
  void lab_private(void* p, size_t n);          // memory of the driver inside an object: accesses are no events
  int lab_thread();                             // current laboratory thread (0-based)
  int lab_spurious_gate();                      // unused, reserved
}
