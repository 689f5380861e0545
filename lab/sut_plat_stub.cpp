// Conforming native primitives of Windows and Apple platforms on top of the laboratory's services.
// Not instrumented: one call of the system is one step.
// Win32 waits end at a clock tick of 1 ms, up to one tick before the interval has passed ("wait functions" in the
// documentation of Windows); a native call may fail as often as stub_faults() allows.
#define NOMINMAX
#include <windows.h>
#include <dispatch/dispatch.h>
#include <os/lock.h>
#include "abi.hpp"
#include <cstring>
extern "C" { bool lab_block_ext(bool (*ready)(void*), void* arg, int64_t rel_ns); bool lab_block_wall(bool (*ready)(void*), void* arg, int64_t abs_ns); void lab_point(); int64_t lab_now(int sys); int lab_fault(int n); void abort(); }
namespace {
int faults; bool fail_create; DWORD last_error; int open_handles;
struct Obj { int kind; int owner, depth; int64_t count, max; };   // kind 1: mutex, 2: semaphore
Obj pool[64]; int npool;
bool fault(int code) { if (faults > 0 && lab_fault(2)) { --faults; lab_event('F', code); return true; } return false; }
int me() { return lab_thread() + 1; }
Obj* get(HANDLE h, int kind = 0) { Obj* o = (Obj*)h; if (o < pool || o >= pool + npool || ((char*)h - (char*)pool) % sizeof(Obj) || !o->kind || (kind && o->kind != kind)) { last_error = ERROR_INVALID_HANDLE; return 0; } return o; }
bool ready_obj(void* p) { Obj* o = (Obj*)p; return o->kind == 1 ? o->owner == 0 || o->owner == me() : o->count > 0; }
void take(Obj* o) { if (o->kind == 1) { o->owner = me(); o->depth++; } else o->count--; }
HANDLE make(int kind, int64_t c, int64_t m) { if (fail_create || npool == 64) { last_error = 8; return 0; } Obj* o = &pool[npool++]; o->kind = kind; o->owner = kind == 1 && c ? me() : 0; o->depth = c && kind == 1; o->count = c; o->max = m; ++open_handles; return o; }
const int64_t TICK = 1000000;
int64_t to_tick(uint64_t ms) { int64_t now = lab_now(0); return (now / TICK + (int64_t)ms) * TICK - now; }
bool never(void*) { return false; }
// the threads that wait ask with their own identity; the laboratory evaluates readiness in any thread's context
struct Want { Obj* o; int who; };
bool ready_want(void* p) { Want* w = (Want*)p; return w->o->kind == 1 ? w->o->owner == 0 || w->o->owner == w->who : w->o->count > 0; }
struct CsWant { CRITICAL_SECTION* c; int who; };
bool ready_cs(void* p) { CsWant* w = (CsWant*)p; return w->c->owner == 0 || w->c->owner == w->who; }
// SRWLOCK: 1 = owned exclusively, 2 * n = n shared owners
bool ready_srwx(void* p) { return ((SRWLOCK*)p)->Ptr == 0; }
bool ready_srws(void* p) { return ((uintptr_t)((SRWLOCK*)p)->Ptr & 1) == 0; }
bool ready_ul(void* p) { return ((os_unfair_lock*)p)->_os_unfair_lock_opaque == 0; }
}
extern "C" {
void stub_setup(int nfaults, int failing_creation) { faults = nfaults; fail_create = failing_creation; }
int stub_open() { return open_handles; }

HANDLE CreateMutexW(LPSECURITY_ATTRIBUTES, BOOL own, LPCWSTR) { return make(1, own, 0); }
HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES, BOOL own, LPCSTR) { return make(1, own, 0); }
HANDLE CreateMutexExW(LPSECURITY_ATTRIBUTES, LPCWSTR, DWORD f, DWORD) { return make(1, f & 1, 0); }
HANDLE CreateMutexExA(LPSECURITY_ATTRIBUTES, LPCSTR, DWORD f, DWORD) { return make(1, f & 1, 0); }
HANDLE CreateSemaphoreW(LPSECURITY_ATTRIBUTES, LONG c, LONG m, LPCWSTR) { if (c < 0 || m <= 0 || c > m) { last_error = 87; return 0; } return make(2, c, m); }
HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES a, LONG c, LONG m, LPCSTR) { return CreateSemaphoreW(a, c, m, 0); }
HANDLE CreateSemaphoreExW(LPSECURITY_ATTRIBUTES a, LONG c, LONG m, LPCWSTR, DWORD, DWORD) { return CreateSemaphoreW(a, c, m, 0); }
HANDLE CreateSemaphoreExA(LPSECURITY_ATTRIBUTES a, LONG c, LONG m, LPCSTR, DWORD, DWORD) { return CreateSemaphoreW(a, c, m, 0); }
BOOL CloseHandle(HANDLE h) { Obj* o = get(h); if (!o) return 0; o->kind = 0; --open_handles; return 1; }
BOOL ReleaseMutex(HANDLE h) { lab_point(); Obj* o = get(h, 1); if (!o) return 0; if (o->owner != me()) { last_error = ERROR_NOT_OWNER; return 0; } if (--o->depth == 0) o->owner = 0; return 1; }
BOOL ReleaseSemaphore(HANDLE h, LONG n, LPLONG prev)
{
  lab_point(); Obj* o = get(h, 2); if (!o) return 0;
  if (fault(1)) return 0;
  if (n <= 0 || n > o->max - o->count) { last_error = ERROR_TOO_MANY_POSTS; return 0; }
  if (prev) *prev = (LONG)o->count;
  o->count += n; return 1;
}
DWORD WaitForSingleObject(HANDLE h, DWORD ms)
{
  Obj* o = get(h);
  if (!o) { lab_point(); return WAIT_FAILED; }
  if (faults > 0) { lab_point(); if (fault(2)) return WAIT_FAILED; }
  Want w = {o, me()};
  if (ms == 0) { lab_point(); if (!ready_want(&w)) return WAIT_TIMEOUT; take(o); return WAIT_OBJECT_0; }
  if (!lab_block_ext(ready_want, &w, ms == INFINITE ? -1 : to_tick(ms))) return WAIT_TIMEOUT;
  take(o); return WAIT_OBJECT_0;
}
DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL) { return WaitForSingleObject(h, ms); }
VOID Sleep(DWORD ms) { if (ms == 0) lab_point(); else lab_block_ext(never, 0, ms == INFINITE ? -1 : to_tick(ms)); }
DWORD SleepEx(DWORD ms, BOOL) { Sleep(ms); return 0; }
BOOL SwitchToThread() { lab_point(); return 1; }
DWORD GetLastError() { return last_error; }
VOID SetLastError(DWORD e) { last_error = e; }
DWORD GetCurrentThreadId() { return 100 + me(); }
ULONGLONG GetTickCount64() { return lab_now(0) / TICK; }
DWORD GetTickCount() { return (DWORD)(lab_now(0) / TICK); }
VOID InitializeCriticalSection(LPCRITICAL_SECTION c) { memset((void*)c, 0, sizeof *c); }
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION c, DWORD) { memset((void*)c, 0, sizeof *c); return 1; }
BOOL InitializeCriticalSectionEx(LPCRITICAL_SECTION c, DWORD, DWORD) { memset((void*)c, 0, sizeof *c); return 1; }
VOID DeleteCriticalSection(LPCRITICAL_SECTION) {}
VOID EnterCriticalSection(LPCRITICAL_SECTION c) { CsWant w = {c, me()}; lab_block_ext(ready_cs, &w, -1); c->owner = me(); c->depth++; }
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION c) { lab_point(); CsWant w = {c, me()}; if (!ready_cs(&w)) return 0; c->owner = me(); c->depth++; return 1; }
VOID LeaveCriticalSection(LPCRITICAL_SECTION c) { lab_point(); if (c->owner != me()) abort(); if (--c->depth == 0) c->owner = 0; }
VOID InitializeSRWLock(PSRWLOCK l) { l->Ptr = 0; }
VOID AcquireSRWLockExclusive(PSRWLOCK l) { lab_block_ext(ready_srwx, l, -1); l->Ptr = (void*)1; }
VOID AcquireSRWLockShared(PSRWLOCK l) { lab_block_ext(ready_srws, l, -1); l->Ptr = (void*)((uintptr_t)l->Ptr + 2); }
BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK l) { lab_point(); if (!ready_srwx(l)) return 0; l->Ptr = (void*)1; return 4; }
BOOLEAN TryAcquireSRWLockShared(PSRWLOCK l) { lab_point(); if (!ready_srws(l)) return 0; l->Ptr = (void*)((uintptr_t)l->Ptr + 2); return 4; }
VOID ReleaseSRWLockExclusive(PSRWLOCK l) { lab_point(); if (l->Ptr != (void*)1) abort(); l->Ptr = 0; }
VOID ReleaseSRWLockShared(PSRWLOCK l) { lab_point(); if (!l->Ptr || (uintptr_t)l->Ptr & 1) abort(); l->Ptr = (void*)((uintptr_t)l->Ptr - 2); }

void os_unfair_lock_lock(os_unfair_lock_t l) { lab_point(); if (l->_os_unfair_lock_opaque == (uint32_t)me()) abort(); lab_block_ext(ready_ul, l, -1); l->_os_unfair_lock_opaque = me(); }
bool os_unfair_lock_trylock(os_unfair_lock_t l) { lab_point(); if (l->_os_unfair_lock_opaque) return false; l->_os_unfair_lock_opaque = me(); return true; }
void os_unfair_lock_unlock(os_unfair_lock_t l) { lab_point(); if (l->_os_unfair_lock_opaque != (uint32_t)me()) abort(); l->_os_unfair_lock_opaque = 0; }
void os_unfair_lock_assert_owner(const os_unfair_lock* l) { if (l->_os_unfair_lock_opaque != (uint32_t)me()) abort(); }
void os_unfair_lock_assert_not_owner(const os_unfair_lock* l) { if (l->_os_unfair_lock_opaque == (uint32_t)me()) abort(); }

struct dispatch_semaphore_s { int64_t count; };
static bool ready_ds(void* p) { return ((dispatch_semaphore_t)p)->count > 0; }
dispatch_semaphore_t dispatch_semaphore_create(intptr_t v) { if (fail_create || v < 0) return 0; dispatch_semaphore_t s = (dispatch_semaphore_t)malloc(sizeof *s); s->count = v; return s; }
intptr_t dispatch_semaphore_signal(dispatch_semaphore_t s) { lab_point(); ++s->count; return 0; }
// a dispatch_time_t is a point of the steady time line (positive) or of the wall clock (negative), as in libdispatch
intptr_t dispatch_semaphore_wait(dispatch_semaphore_t s, dispatch_time_t t)
{
  if (faults > 0) { lab_point(); if (fault(3)) return KERN_TERMINATED; }
  if (t == DISPATCH_TIME_NOW) { lab_point(); if (s->count <= 0) return KERN_OPERATION_TIMED_OUT; --s->count; return KERN_SUCCESS; }
  if ((int64_t)t < 0 && t != DISPATCH_TIME_FOREVER) { if (!lab_block_wall(ready_ds, s, -(int64_t)t)) return KERN_OPERATION_TIMED_OUT; --s->count; return KERN_SUCCESS; }
  int64_t rel = -1;
  if (t != DISPATCH_TIME_FOREVER) { rel = (int64_t)t - lab_now(0); if (rel < 0) rel = 0; }
  if (!lab_block_ext(ready_ds, s, rel)) return KERN_OPERATION_TIMED_OUT;
  --s->count; return KERN_SUCCESS;
}
dispatch_time_t dispatch_time(dispatch_time_t when, int64_t delta)
{
  if (when == DISPATCH_TIME_FOREVER) return when;
  if ((int64_t)when < 0) { __int128 v = -(__int128)(int64_t)when + delta; if (v > INT64_MAX) return DISPATCH_TIME_FOREVER; if (v < 3) v = 3; return (dispatch_time_t)-(int64_t)v; }
  __int128 v = (__int128)(when == DISPATCH_TIME_NOW ? lab_now(0) : (int64_t)when) + delta;
  if (v > INT64_MAX) return DISPATCH_TIME_FOREVER;
  return v < 1 ? 1 : (dispatch_time_t)v;
}
dispatch_time_t dispatch_walltime(const struct timespec* when, int64_t delta)
{
  __int128 v = (when ? (__int128)when->tv_sec * 1000000000 + when->tv_nsec : (__int128)lab_now(1)) + delta;
  if (v > INT64_MAX) return DISPATCH_TIME_FOREVER;
  if (v < 3) v = 3;
  return (dispatch_time_t)-(int64_t)v;
}
}
