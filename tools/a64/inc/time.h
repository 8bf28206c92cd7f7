#pragma once
typedef long time_t; typedef long clock_t; typedef int clockid_t; struct timespec { time_t tv_sec; long tv_nsec; }; int clock_gettime(clockid_t, struct timespec *); time_t time(time_t *);
#define CLOCK_REALTIME 0
#define CLOCK_MONOTONIC 1
#define CLOCK_PROCESS_CPUTIME_ID 2
#define CLOCK_THREAD_CPUTIME_ID 3
clock_t clock(void);
