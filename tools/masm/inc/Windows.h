/* the parts of Windows the generator's seeding uses, on top of this system's calls (so that h_rand's environment answers them) */
#pragma once
#include <time.h>
#include <stdint.h>
typedef unsigned long DWORD32_; typedef int BOOL; typedef unsigned char BYTE; typedef uint32_t DWORD;
static inline DWORD GetTickCount(void)
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (uint32_t)(((uint64_t)(uint32_t)ts.tv_sec * 1000) + (ts.tv_nsec / 1000000));
}
