/* Dispatch semaphores of Grand Central Dispatch; implemented by sut_plat_stub.cpp. */
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
typedef struct dispatch_semaphore_s* dispatch_semaphore_t;
typedef uint64_t dispatch_time_t;
#define NSEC_PER_SEC 1000000000ull
#define NSEC_PER_MSEC 1000000ull
#define NSEC_PER_USEC 1000ull
#define USEC_PER_SEC 1000000ull
#define DISPATCH_TIME_NOW (0ull)
#define DISPATCH_TIME_FOREVER (~0ull)
#define DISPATCH_WALLTIME_NOW (~1ull)
#define KERN_SUCCESS 0
#define KERN_TERMINATED 37
#define KERN_OPERATION_TIMED_OUT 49
#ifdef __cplusplus
extern "C" {
#endif
dispatch_semaphore_t dispatch_semaphore_create(intptr_t value);
intptr_t dispatch_semaphore_wait(dispatch_semaphore_t, dispatch_time_t timeout);
intptr_t dispatch_semaphore_signal(dispatch_semaphore_t);
dispatch_time_t dispatch_time(dispatch_time_t when, int64_t delta);
dispatch_time_t dispatch_walltime(const struct timespec* when, int64_t delta);
#ifdef __cplusplus
}
#endif
