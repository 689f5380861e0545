/* The part of the Win32 API used by (or close to) the wrappers of the library; implemented by sut_plat_stub.cpp.
   Windows is LLP64: LONG and DWORD have 32 bits. */
#pragma once
#include <stdint.h>
#include <stddef.h>
typedef void* HANDLE; typedef void* LPVOID; typedef uint32_t DWORD; typedef int32_t LONG; typedef int BOOL; typedef LONG* LPLONG;
typedef uint64_t ULONGLONG; typedef int64_t LONGLONG; typedef uint32_t UINT; typedef uint32_t ULONG; typedef unsigned char BOOLEAN; typedef unsigned char BYTE; typedef uint16_t WORD;
typedef const char* LPCSTR; typedef const wchar_t* LPCWSTR; typedef struct SECURITY_ATTRIBUTES_* LPSECURITY_ATTRIBUTES; typedef void VOID;
#ifndef FALSE
#define FALSE 0
#define TRUE 1
#endif
#ifndef NULL
#define NULL 0
#endif
#define WINAPI
#define INFINITE 0xFFFFFFFFu
#define MAXDWORD 0xFFFFFFFFu
#define WAIT_OBJECT_0 0u
#define WAIT_ABANDONED 0x80u
#define WAIT_ABANDONED_0 0x80u
#define WAIT_IO_COMPLETION 0xC0u
#define WAIT_TIMEOUT 258u
#define WAIT_FAILED 0xFFFFFFFFu
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define ERROR_SUCCESS 0u
#define ERROR_INVALID_HANDLE 6u
#define ERROR_NOT_OWNER 288u
#define ERROR_TOO_MANY_POSTS 298u
#define SYNCHRONIZE 0x00100000u
#define MUTEX_ALL_ACCESS 0x1F0001u
#define SEMAPHORE_ALL_ACCESS 0x1F0003u
#define CREATE_MUTEX_INITIAL_OWNER 1u
typedef struct { int owner, depth; void* pad[4]; } CRITICAL_SECTION; typedef CRITICAL_SECTION* LPCRITICAL_SECTION; typedef CRITICAL_SECTION* PCRITICAL_SECTION;
typedef struct { void* Ptr; } SRWLOCK; typedef SRWLOCK* PSRWLOCK;
#define SRWLOCK_INIT { NULL }
#ifdef __cplusplus
extern "C" {
#endif
HANDLE CreateMutexA(LPSECURITY_ATTRIBUTES, BOOL, LPCSTR); HANDLE CreateMutexW(LPSECURITY_ATTRIBUTES, BOOL, LPCWSTR);
HANDLE CreateMutexExW(LPSECURITY_ATTRIBUTES, LPCWSTR, DWORD, DWORD); HANDLE CreateMutexExA(LPSECURITY_ATTRIBUTES, LPCSTR, DWORD, DWORD);
HANDLE CreateSemaphoreA(LPSECURITY_ATTRIBUTES, LONG, LONG, LPCSTR); HANDLE CreateSemaphoreW(LPSECURITY_ATTRIBUTES, LONG, LONG, LPCWSTR);
HANDLE CreateSemaphoreExW(LPSECURITY_ATTRIBUTES, LONG, LONG, LPCWSTR, DWORD, DWORD); HANDLE CreateSemaphoreExA(LPSECURITY_ATTRIBUTES, LONG, LONG, LPCSTR, DWORD, DWORD);
BOOL ReleaseMutex(HANDLE); BOOL ReleaseSemaphore(HANDLE, LONG, LPLONG); BOOL CloseHandle(HANDLE);
DWORD WaitForSingleObject(HANDLE, DWORD); DWORD WaitForSingleObjectEx(HANDLE, DWORD, BOOL);
VOID Sleep(DWORD); DWORD SleepEx(DWORD, BOOL); BOOL SwitchToThread(VOID); DWORD GetLastError(VOID); VOID SetLastError(DWORD); DWORD GetCurrentThreadId(VOID); ULONGLONG GetTickCount64(VOID); DWORD GetTickCount(VOID);
VOID InitializeCriticalSection(LPCRITICAL_SECTION); BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION, DWORD); BOOL InitializeCriticalSectionEx(LPCRITICAL_SECTION, DWORD, DWORD); VOID DeleteCriticalSection(LPCRITICAL_SECTION);
VOID EnterCriticalSection(LPCRITICAL_SECTION); BOOL TryEnterCriticalSection(LPCRITICAL_SECTION); VOID LeaveCriticalSection(LPCRITICAL_SECTION);
VOID InitializeSRWLock(PSRWLOCK); VOID AcquireSRWLockExclusive(PSRWLOCK); VOID AcquireSRWLockShared(PSRWLOCK);
BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK); BOOLEAN TryAcquireSRWLockShared(PSRWLOCK); VOID ReleaseSRWLockExclusive(PSRWLOCK); VOID ReleaseSRWLockShared(PSRWLOCK);
#ifdef __cplusplus
}
#endif
#define CreateMutex CreateMutexW
#define CreateMutexEx CreateMutexExW
#define CreateSemaphore CreateSemaphoreW
#define CreateSemaphoreEx CreateSemaphoreExW
#ifndef NOMINMAX
#define max(a, b) (((a) > (b)) ? (a) : (b))
#define min(a, b) (((a) < (b)) ? (a) : (b))
#endif
