#include "env.h"
#include <sys/times.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/random.h>
using namespace vh;
namespace env {
bool on, rdwr; int open_answer, read_answer, open_eintr, read_eintr, ent_pos, opens, closes, reads, live, bad, calls; uint8_t ent[256]; timespec clk;
static int fds[16];
void entropy(uint64_t s) { fillbuf(ent, sizeof ent, 0xE000 + s); ent_pos = 0; }
void reset() { open_answer = 3; read_answer = -1000; open_eintr = read_eintr = 0; ent_pos = 0; opens = closes = reads = live = bad = calls = 0; rdwr = false; clk.tv_sec = 12345; clk.tv_nsec = 678000000; entropy(0); on = false; }
static bool is_dev(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random") || !strcmp(p, "/dev/srandom")); }
static int vopen() { calls++; opens++; if (open_eintr > 0) { open_eintr--; errno = EINTR; return -1; } if (open_answer < 0) { errno = -open_answer; return -1; } int f = open_answer; for (int i = 0; i < live; i++) if (fds[i] == f) { f++; i = -1; } if (live < 16) fds[live++] = f; return f; }
static int find(int fd) { for (int i = 0; i < live; i++) if (fds[i] == fd) return i; return -1; }
static ssize_t vread(void *b, size_t n) { calls++; reads++; if (read_eintr > 0) { read_eintr--; errno = EINTR; return -1; } if (read_answer != -1000 && read_answer < 0) { errno = -read_answer; return -1; } size_t k = n; if (read_answer >= 0 && (size_t)read_answer < k) k = read_answer; for (size_t i = 0; i < k; i++) ((uint8_t *)b)[i] = ent[ent_pos++ % sizeof ent]; return (ssize_t)k; }
}
using namespace env;
extern "C" {
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_openat(int, const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int); int __real_clock_gettime(clockid_t, struct timespec *); ssize_t __real_getrandom(void *, size_t, unsigned); int __real_getentropy(void *, size_t); FILE *__real_fopen(const char *, const char *); time_t __real_time(time_t *); clock_t __real_times(struct tms *);
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (env::on && is_dev(p)) return vopen(); return __real_open(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (env::on && is_dev(p)) return vopen(); return __real_open(p, fl, m); }
int __wrap_openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (env::on && is_dev(p)) return vopen(); return __real_openat(d, p, fl, m); }
int __wrap___open_2(const char *p, int fl) { if (env::on && is_dev(p)) return vopen(); return __real_open(p, fl, 0); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (env::on) { if (find(fd) >= 0) return vread(b, n); bad++; errno = EBADF; return -1; } return __real_read(fd, b, n); }
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t) { return __wrap_read(fd, b, n); }
int __wrap_close(int fd) { if (env::on) { calls++; closes++; int i = find(fd); if (i < 0) { if (fd >= 0) bad++; errno = EBADF; return -1; } fds[i] = fds[--live]; return 0; } return __real_close(fd); }
clock_t __wrap_times(struct tms *b) { if (env::on) { if (b) memset(b, 0x5a, sizeof *b); return (clock_t)(clk.tv_sec * sysconf(_SC_CLK_TCK) + clk.tv_nsec / (1000000000L / sysconf(_SC_CLK_TCK))); } return __real_times(b); }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (env::on) { *t = clk; return 0; } return __real_clock_gettime(c, t); }
time_t __wrap_time(time_t *t) { time_t v = env::on ? clk.tv_sec : __real_time(NULL); if (t) *t = v; return v; }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl) { if (env::on) { if (open_answer < 0) { calls++; errno = -open_answer; return -1; } return vread(b, n); } return __real_getrandom(b, n, fl); }
int __wrap_getentropy(void *b, size_t n) { if (env::on) { if (open_answer < 0) { calls++; errno = -open_answer; return -1; } ssize_t r = vread(b, n); if (r == (ssize_t)n) return 0; errno = EIO; return -1; } return __real_getentropy(b, n); }
static ssize_t ck_read(void *, char *b, size_t n) { return vread(b, n); }
static int ck_close(void *c) { calls++; closes++; int i = find((int)(intptr_t)c); if (i < 0) bad++; else fds[i] = fds[--live]; return 0; }
FILE *__wrap_fopen(const char *p, const char *m) {
	if (env::on && is_dev(p)) { int f = vopen(); if (f < 0) return NULL; cookie_io_functions_t io = {ck_read, NULL, NULL, ck_close}; return fopencookie((void *)(intptr_t)f, "r", io); }
	return __real_fopen(p, m);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
}
