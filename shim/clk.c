// clk: the wall clock stands still at $FAKE_EPOCH.
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
static time_t at(void) { char *e = getenv("FAKE_EPOCH"); return e ? atol(e) : 0; }
time_t time(time_t *t) { time_t v = at(); if (!v) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); v = s.tv_sec; } if (t) *t = v; return v; }
int gettimeofday(struct timeval *t, void *z) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); time_t v = at(); t->tv_sec = v ? v : s.tv_sec; t->tv_usec = v ? 0 : s.tv_nsec / 1000; return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { int r = syscall(SYS_clock_gettime, c, t); time_t v = at(); if (!r && v && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { t->tv_sec = v; t->tv_nsec = 0; } return r; }
