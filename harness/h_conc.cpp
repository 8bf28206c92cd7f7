// P10: distinct contexts in two threads.  The library is compiled with the compiler's thread instrumentation but linked
// with the runtime below: every memory access of the library is seen.  For every pair of programs both sequential orders
// are recorded (each in a fresh process); when no byte is accessed by both threads with at least one write, no two steps
// depend on each other and all interleavings are one equivalence class, represented by the recorded run.  Otherwise the
// interleavings at the conflicting accesses are enumerated up to a preemption bound and every thread's results compared
// with those it computes alone.
#include "ciphers.h"
#include "digests.h"
#include "bn.h"
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/random.h>
#include <threads.h>
#include <time.h>
#include <stdarg.h>
#include <signal.h>
typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- state of a run (one run = one process)
static thread_local int me = -1;             // 0, 1: the two threads under test, while they are inside the library
static thread_local int tid = -1, depth;
static const size_t ARENA = 64UL << 20, STK = 1 << 20;
static uint8_t *arena[2], *stk[2]; static size_t apos[2];
struct Gran { uint64_t key; uint8_t r[2], w[2]; };
static Gran *tab; static const uint32_t TABN = 1 << 20; static uint32_t tabn; static bool taboverflow;
static uint64_t naccess;
struct Point { uint8_t thread; };
enum { MAXCON = 1 << 14, MAXPRE = 8 };
struct Shared {                               // what a run reports to its parent
	volatile int finished, deadlock, overflow; uint32_t ncon; uint64_t con[MAXCON]; uint64_t accesses; uint32_t npoints; uint32_t nres[2]; uint8_t res[2][65536];
};
static Shared *sh;
// schedule of this run
static bool exploring; static std::vector<uint64_t> *hot;      // conflicting granules, sorted
static int pre[MAXPRE], npre; static uint32_t points;
static volatile int turn; static volatile bool done_[2], blocked[2]; static const void *waits[2]; static uint32_t streak;
static pthread_mutex_t bm = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t bc = PTHREAD_COND_INITIALIZER;
extern "C" { int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_once(pthread_once_t *, void (*)(void)); int __real_sched_yield(void); }
static void baton(int to) { // hand over and wait until it is this thread's turn again
	__real_pthread_mutex_lock(&bm); turn = to; pthread_cond_broadcast(&bc); while (turn != me) pthread_cond_wait(&bc, &bm); __real_pthread_mutex_unlock(&bm);
}
static void point() {
	uint32_t p = points++; bool sw = false; for (int i = 0; i < npre; i++) if ((uint32_t)pre[i] == p) sw = true;
	if (++streak > 20000) sw = true; // a thread that only waits for the other lets it run
	int o = 1 - me; if (sw && !done_[o] && !blocked[o]) { streak = 0; baton(o); }
}
static void rec(const void *ap, size_t n, bool w) {
	int t = me; if (t < 0 || !n) return; uint64_t a = (uint64_t)ap, e = a + n; naccess++;
	bool isp = false;
	for (uint64_t g = a >> 3; g <= (e - 1) >> 3; g++) {
		uint64_t lo = std::max(a, g << 3), hi = std::min(e, (g + 1) << 3); uint8_t m = (uint8_t)((0xff >> (8 - (hi - lo))) << (lo & 7));
		if (exploring && !isp && std::binary_search(hot->begin(), hot->end(), g)) isp = true;
		uint32_t h = (uint32_t)((g * 0x9e3779b97f4a7c15ULL) >> 44) & (TABN - 1);
		for (;;) { if (tab[h].key == g) break; if (!tab[h].key) { if (tabn > TABN / 2) { taboverflow = true; return; } tab[h].key = g; tabn++; break; } h = (h + 1) & (TABN - 1); }
		if (w) tab[h].w[t] |= m; else tab[h].r[t] |= m;
	}
	if (isp) point();
}
extern "C" {
#define RW(N) void __tsan_read##N(void *p) { rec(p, N, false); } void __tsan_write##N(void *p) { rec(p, N, true); } void __tsan_unaligned_read##N(void *p) { rec(p, N, false); } void __tsan_unaligned_write##N(void *p) { rec(p, N, true); } \
	void __tsan_volatile_read##N(void *p) { rec(p, N, false); } void __tsan_volatile_write##N(void *p) { rec(p, N, true); } void __tsan_unaligned_volatile_read##N(void *p) { rec(p, N, false); } void __tsan_unaligned_volatile_write##N(void *p) { rec(p, N, true); } void __tsan_read_write##N(void *p) { rec(p, N, true); } void __tsan_unaligned_read_write##N(void *p) { rec(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {} void __tsan_func_entry(void *) { if (tid >= 0 && depth++ == 0) me = tid; } void __tsan_func_exit() { if (tid >= 0 && --depth == 0) me = -1; } void __tsan_read_range(void *p, size_t n) { rec(p, n, false); } void __tsan_write_range(void *p, size_t n) { rec(p, n, true); } void __tsan_vptr_update(void **p, void *) { rec(p, 8, true); } void __tsan_vptr_read(void **p) { rec(p, 8, false); }
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
	T __tsan_atomic##B##_load(const volatile T *p, int) { rec((void *)p, sizeof(T), false); return __atomic_load_n(p, 5); } void __tsan_atomic##B##_store(volatile T *p, T v, int) { rec((void *)p, sizeof(T), true); __atomic_store_n(p, v, 5); } \
	T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { rec((void *)p, sizeof(T), true); return __atomic_exchange_n(p, v, 5); } T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { rec((void *)p, sizeof(T), true); return __atomic_fetch_add(p, v, 5); } \
	T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { rec((void *)p, sizeof(T), true); return __atomic_fetch_sub(p, v, 5); } T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { rec((void *)p, sizeof(T), true); return __atomic_fetch_and(p, v, 5); } \
	T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { rec((void *)p, sizeof(T), true); return __atomic_fetch_or(p, v, 5); } T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { rec((void *)p, sizeof(T), true); return __atomic_fetch_xor(p, v, 5); } T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { rec((void *)p, sizeof(T), true); return __atomic_fetch_nand(p, v, 5); } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { rec((void *)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { rec((void *)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { rec((void *)p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
// ---- library functions that access memory on the library's behalf
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void *__real_memmove(void *, const void *, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (me >= 0) { rec(s, n, false); rec(d, n, true); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (me >= 0) { rec(s, n, false); rec(d, n, true); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (me >= 0) rec(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (me >= 0) { rec(a, n, false); rec(b, n, false); } return __real_memcmp(a, b, n); }
// hidden state of the C library that a random number maker might use
static uint64_t hidden_rand; int __real_rand(); void __real_srand(unsigned); long __real_random(); void __real_srandom(unsigned);
int __wrap_rand() { rec(&hidden_rand, 8, true); return __real_rand(); } void __wrap_srand(unsigned s) { rec(&hidden_rand, 8, true); __real_srand(s); } long __wrap_random() { rec(&hidden_rand, 8, true); return __real_random(); } void __wrap_srandom(unsigned s) { rec(&hidden_rand, 8, true); __real_srandom(s); }
// ---- memory: never reused, and at the same addresses in every schedule
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static bool mine(void *p) { for (int i = 0; i < 2; i++) if ((uint8_t *)p >= arena[i] && (uint8_t *)p < arena[i] + ARENA) return true; return false; }
static void *bump(size_t n) { size_t k = (n + 15 + 16) & ~(size_t)15; if (apos[me] + k > ARENA) return NULL; uint8_t *p = arena[me] + apos[me]; apos[me] += k; *(size_t *)p = n; return p + 16; }
void *__wrap_malloc(size_t n) { if (me < 0) return __real_malloc(n); void *p = bump(n); if (p) __real_memset(p, 0xA7, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (me < 0) return __real_calloc(a, b); return bump(a * b); }
void *__wrap_realloc(void *o, size_t n) { if (me < 0 && !mine(o)) return __real_realloc(o, n); void *p = bump(n); if (p && o) __real_memcpy(p, o, std::min(n, ((size_t *)o)[-2])); return p; }
void __wrap_free(void *p) { if (mine(p)) return; __real_free(p); }
// ---- locks, cooperatively
static void wait_for(const void *l) { waits[me] = l; blocked[me] = true; int o = 1 - me; if (done_[o] || blocked[o]) { sh->deadlock = 1; _exit(0); } streak = 0; baton(o); }
static void wake(const void *l) { for (int i = 0; i < 2; i++) if (blocked[i] && waits[i] == l) blocked[i] = false; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (me < 0) return __real_pthread_mutex_lock(m); if (exploring) point(); while (__real_pthread_mutex_trylock(m) == EBUSY) wait_for(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (me >= 0 && exploring) point(); return __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); if (me >= 0) { wake(m); if (exploring) point(); } return r; }
static std::map<const void *, int> onces;
static int once(const void *c, void (*f)(void)) { if (exploring) point(); for (;;) { int &s = onces[c]; if (s == 2) return 0; if (s == 0) { s = 1; f(); onces[c] = 2; wake(c); return 0; } wait_for(c); } }
int __wrap_pthread_once(pthread_once_t *c, void (*f)(void)) { if (me < 0) return __real_pthread_once(c, f); return once(c, f); }
void __real_call_once(once_flag *, void (*)(void)); void __wrap_call_once(once_flag *c, void (*f)(void)) { if (me < 0) __real_call_once(c, f); else once(c, f); }
int __real_mtx_lock(mtx_t *); int __real_mtx_unlock(mtx_t *); int __real_mtx_trylock(mtx_t *);
int __wrap_mtx_lock(mtx_t *m) { if (me < 0) return __real_mtx_lock(m); if (exploring) point(); while (__real_mtx_trylock(m) == thrd_busy) wait_for(m); return thrd_success; }
int __wrap_mtx_trylock(mtx_t *m) { if (me >= 0 && exploring) point(); return __real_mtx_trylock(m); }
int __wrap_mtx_unlock(mtx_t *m) { int r = __real_mtx_unlock(m); if (me >= 0) { wake(m); if (exploring) point(); } return r; }
int __wrap_sched_yield() { if (me >= 0 && exploring) { streak = 100000; point(); return 0; } return __real_sched_yield(); }
// ---- the environment answers each thread by itself
static thread_local uint64_t entp; static bool dev(const char *p) { return p && !strncmp(p, "/dev/", 5) && strstr(p, "random"); }
int __real_open(const char *, int, ...); int __wrap_open(const char *p, int f, ...) { if (me >= 0 && dev(p)) return 900 + me; va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { if (me >= 0 && dev(p)) return 900 + me; va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(p, f, m); }
ssize_t __real_read(int, void *, size_t); ssize_t __wrap_read(int fd, void *b, size_t n) { if (me < 0 || fd != 900 + me) return __real_read(fd, b, n); rec(b, n, true); for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = fill(entp++, 70 + me); return n; }
int __real_close(int); int __wrap_close(int fd) { if (me >= 0 && fd == 900 + me) return 0; return __real_close(fd); }
ssize_t __real_getrandom(void *, size_t, unsigned); ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { if (me < 0) return __real_getrandom(b, n, f); rec(b, n, true); for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = fill(entp++, 70 + me); return n; }
int __real_clock_gettime(clockid_t, struct timespec *); int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (me < 0) return __real_clock_gettime(c, t); t->tv_sec = 500 + me; t->tv_nsec = 7; return 0; }
time_t __real_time(time_t *); time_t __wrap_time(time_t *t) { if (me < 0) return __real_time(t); if (t) *t = 500 + me; return 500 + me; }
}
// ---------------------------------------------------------------- programs: one thread's use of the library
struct Out { Bytes b; void add(const void *p, size_t n) { b.insert(b.end(), (const uint8_t *)p, (const uint8_t *)p + n); } void num(int64_t v) { add(&v, 8); } };
// the harness's own buffers are per thread and not instrumented
static BN rbn(int bits, int salt) { BN b = BnNew(2 * bits + 128); uint8_t t[1024]; int n = bits / 8; fillbuf(t, n, salt); t[0] |= 0x80; BnSetUByteArray(b, t, n); return b; }
static void addbn(Out &o, BN b) { static thread_local uint8_t t[4096]; int n = BnToByteArray(b, t, sizeof t); o.add(t, n > 0 ? n : 0); }
static Bytes *g_priv, *g_pub, *g_big; static const int NPROG = NALG + NDG + 21;
static const char *pname(int p) { static const char *n[] = {"RC4", "BN mul/div", "BN words/shift/bytes", "GCD", "Montgomery power", "prime test", "prime generation", "RSA encrypt/decrypt", "RSA sign/verify", "RSA import/export/verify", "RSA key generation", "seeded generator", "unseeded generator", "signed words", "long numbers", "long GCD", "long Montgomery power and even moduli", "long prime test", "long RSA key", "damaged keys", "all signs"}; return p < NALG ? ALG[p].name : p < NALG + NDG ? DG[p - NALG].name : n[p - NALG - NDG]; }
static int never(int, void *) { return 0; }
static void prog(int p, int v, Out &o) { // v: which thread's data
	uint8_t in[300], out[400]; fillbuf(in, 300, 10 + v);
	if (p < NALG) {
		int B = ALG[p].blk; uint8_t key[64], iv[16], back[400]; fillbuf(key, 64, 20 + v);
		for (int mode = 0; mode < 4; mode++) {
			void *c = NULL; o.num(alg_create(p, &c, key, mode)); if (!c) return; alg_setiv(p, c, in); int n = alg_proc(p, c, false, in, 2 * B + 3, out); n += alg_final(p, c, false, in + 40, B, out + n, 2); alg_getiv(p, c, iv); o.add(iv, B); o.add(out, n);
			alg_setiv(p, c, in); int m = alg_final(p, c, true, out, n, back, 2); o.num(m); o.add(back, m > 0 ? m : 0);
			alg_setiv(p, c, in + 16); n = alg_proc(p, c, false, in, 13 * B, out); n += alg_proc(p, c, false, in + 3, 5, out + n); n += alg_final(p, c, false, in, 2 * B - 1, out + n, mode & 1 ? 1 : 2); o.add(out, n); // whole blocks, then parts
			alg_setiv(p, c, in + 16); m = alg_proc(p, c, true, out, 7, back); m += alg_proc(p, c, true, out + 7, 9 * B, back + m); m += alg_final(p, c, true, out + 7 + 9 * B, n - 7 - 9 * B, back + m, mode & 1 ? 1 : 2); o.num(m); o.add(back, m > 0 ? m : 0);
			alg_init(p, c, key + 1, mode); memcpy(out, in, 4 * B); n = alg_final(p, c, false, out, 4 * B, out, 0); o.add(out, n); n = alg_final(p, c, true, out, 4 * B, out, 0); o.add(out, n > 0 ? n : 0); // in place
			alg_destroy(p, c);
		}
		return;
	}
	p -= NALG; if (p < NDG) { void *c = NULL; o.num(dg_create(p, &c)); if (!c) return; dg_update(p, c, in, 70 + v); dg_update(p, c, in, 80); dg_final(p, c, out); o.add(out, DG[p].len); dg_init(p, c); for (int n = 50; n < 130; n += n < 64 ? 1 : 7) { dg_update(p, c, in, n + v); dg_final(p, c, out); o.add(out, DG[p].len); dg_init(p, c); } for (int i = 0; i < 9; i++) dg_update(p, c, in + i, i); dg_update(p, c, in, 300); dg_update(p, c, in, 219); dg_final(p, c, out); o.add(out, DG[p].len); dg_destroy(p, c); if (dg_oneshot(p, in, 33, out)) o.add(out, DG[p].len); return; }
	p -= NDG; BN a, b, c, d;
	switch (p) {
	case 0: { RaRc4Ctx *r = NULL; o.num(RaRc4Create(in, 16 + v, &r)); if (!r) return; RaRc4Encrypt(r, in, 100, out); RaRc4Encrypt(r, in + 100, 20, out + 100); o.add(out, 120); RaRc4Init(r, in, 256); memcpy(out, in, 50); RaRc4Decrypt(r, out, 50, out); o.add(out, 50); RaRc4Init(r, in, 0); RaRc4Decrypt(r, out, 50, out); o.add(out, 50); RaRc4Destroy(r); break; }
	case 1: a = rbn(512, v); b = rbn(256, v + 5); c = rbn(1024, 9); d = rbn(1024, 9); o.num(BnMul(c, a, b)); addbn(o, c); o.num(BnSqr(d, a)); addbn(o, d); o.num(BnDiv(c, d, a, b)); addbn(o, c); addbn(o, d); o.num(BnMod(d, a, b)); addbn(o, d); o.num(BnAdd(c, a, b)); o.num(BnSub(d, b, a)); addbn(o, c); addbn(o, d); BnFree(a); BnFree(b); BnFree(c); BnClearFree(d); break;
	case 2: { a = rbn(320, v); bn_uint_t r = 0; BnMulUInt(a, 77777 + v); BnAddInt(a, -5); BnDivUInt(a, 991, &r); o.num(r); BnShiftL(a, 71); BnShiftR(a, 9); addbn(o, a); b = BnClone(a); BnSetByteArray(b, in, 25); addbn(o, b); o.num(BnGetBitLength(b)); o.num(BnToFixedByteArray(a, out, 60)); o.add(out, 60); BnFree(a); BnFree(b); break; }
	case 3: a = rbn(192, v); b = rbn(160, v + 3); c = rbn(256, 1); d = rbn(256, 1); { BN g = rbn(256, 2); o.num(GetGCD(g, a, b)); addbn(o, g); o.num(GetGCDEx(g, c, d, a, b, v)); addbn(o, g); addbn(o, c); addbn(o, d); BnFree(g); } BnFree(a); BnFree(b); BnFree(c); BnFree(d); break;
	case 4: { a = rbn(192, v); b = rbn(128, v + 3); c = rbn(192, 1); BnShiftL(a, 1); BnAddUInt(a, 1); RaMontCtx *m = NULL; o.num(RaMontCreate(a, &m)); if (m) { o.num(RaMontExpMod(m, c, b, b)); addbn(o, c); o.num(RaMontExpMod(m, c, c, b)); addbn(o, c); RaMontDestroy(m); } BnFree(a); BnFree(b); BnFree(c); break; }
	case 5: a = BnNew(256); BnSetUInt(a, 1); BnShiftL(a, v ? 127 : 89); BnSubUInt(a, 1); o.num(RaIsPrimeNumber(a)); BnAddUInt(a, 30); o.num(RaIsPrimeNumber(a)); BnFree(a); break;
	case 6: { a = BnNew(96); struct RaRandom *r = NULL; RaRandomCreate(RA_RAND_SHA256, in, 20, &r); o.num(RaGenPrimeNumberEx(a, 64 + v, never, NULL, r)); addbn(o, a); RaRandomDestroy(r); BnFree(a); break; }
	case 7: case 8: { RaRsaKeyPair *k = NULL; Bytes &x = g_priv[v]; o.num(RaRsaCreateKeyPriv(x.data(), (int)x.size(), &k)); if (!k) break; a = rbn(64, v); b = BnNew(512); c = BnNew(512); if (p == 7) { o.num(RaRsaEncrypt(k, a, b)); o.num(RaRsaDecrypt(k, b, c)); } else { o.num(RaRsaSign(k, a, b)); o.num(RaRsaVerify(k, b, a)); BnSet(c, b); } addbn(o, b); addbn(o, c); BnFree(a); BnFree(b); BnFree(c); RaRsaDestroyKeyPair(k); break; }
	case 9: { RaRsaKeyPair *k = NULL, *k2 = NULL; Bytes &x = g_priv[v], &y = g_pub[v]; o.num(RaRsaCreateKeyFromByteArray(x.data(), (int)x.size(), &k)); o.num(RaRsaCreateKeyPub(y.data(), (int)y.size(), &k2)); int l = 0; if (k) { o.num(RaRsaVerifyKey(k)); o.num(RaRsaPrivKeyToByteArray(k, out, 400, &l)); o.add(out, l); o.num(RaRsaKeyBitLength(k)); RaRsaDestroyKeyPair(k); } if (k2) { o.num(RaRsaPubKeyToByteArray(k2, out, 400, &l)); o.add(out, l); RaRsaDestroyKeyPair(k2); } break; }
	case 10: { RaRsaKeyPair *k = NULL; int l = 0; o.num(RaRsaCreateKeyPair(64 + 2 * v, &k)); if (k) { o.num(RaRsaPrivKeyToByteArray(k, out, 400, &l)); o.add(out, l); RaRsaDestroyKeyPair(k); } break; }
	case 11: { struct RaRandom *r = NULL; for (int al = 0; al < 4; al++) { o.num(RaRandomCreate((RaRandomAlgorithm)al, in, 10 + v, &r)); if (!r) return; RaRandomBytes(r, 70, out); o.add(out, 70); double x = RaRandom(r); o.add(&x, 8); o.num(RaRandomInt(r, 3, 1000)); RaRandomDestroy(r); } break; }
	case 12: { for (int al = 0; al < 4; al++) { struct RaRandom *r = NULL; o.num(RaRandomCreate((RaRandomAlgorithm)al, NULL, 0, &r)); if (!r) return; RaRandomBytes(r, 140, out); o.add(out, 140); o.num(RaRandomInt(r, 0, 0xffffffff)); RaRandomDestroy(r); } BnGenRandomByteArray(out, 30, NULL); o.add(out, 30); a = BnNew(200); o.num(BnGenRandom(a, 130, NULL)); addbn(o, a); o.num(BnGetRandomRSA(a, 90, NULL)); addbn(o, a); o.num(BnGetRandomOdd(a, 100, NULL)); addbn(o, a); o.num(RaGenPrimeNumber(a, 40 + v)); addbn(o, a); BnFree(a); break; }
	case 13: { a = rbn(320, v); bn_uint_t r = 0; BnSetByteArray(a, in, 33); b = BnNew(400); BnSetInt64(b, -5 - v); o.num(BnMulInt(a, -77 - v)); o.num(BnSubInt(a, 5)); o.num(BnSubUInt(a, 9)); o.num(BnDivInt(a, -1001, &r)); o.num(r); o.num(BnModUInt(a, 77, &r)); o.num(r); o.num(BnDouble(a, a)); addbn(o, a); o.num(BnCmp(a, b)); o.num(BnCmpInt(b, -5)); o.num(BnCmpUInt(a, 4)); o.num(BnAdd(b, b, a)); o.num(BnSub(b, a, b)); addbn(o, b); BnSetInt32(b, -v); addbn(o, b); BnSetUInt32(b, v); o.num(BnSub(b, b, a)); addbn(o, b); BnSetUInt64(b, 7); o.num(BnMulUInt(b, 7)); o.num(BnGetLength(a)); BnShiftR(a, 1000); BnShiftL(a, 3); addbn(o, a); BnClearFree(a); BnFree(b); break; }
	case 14: a = rbn(4800, v); b = rbn(2400, v + 5); c = rbn(4800, 9); d = rbn(4800, 9); o.num(BnMul(c, a, b)); addbn(o, c); o.num(BnSqr(d, a)); addbn(o, d); o.num(BnDiv(c, d, a, b)); addbn(o, c); addbn(o, d); o.num(BnMod(d, a, b)); addbn(o, d); o.num(BnMul(c, b, b)); addbn(o, c); o.num(BnMod(a, b, a)); addbn(o, a); o.num(BnAdd(c, a, b)); o.num(BnSub(d, b, a)); BnShiftL(c, 777); BnShiftR(d, 777); addbn(o, c); addbn(o, d); BnFree(a); BnFree(b); BnFree(c); BnClearFree(d); break;
	case 15: a = rbn(1600, v); b = rbn(1400, v + 3); c = rbn(1700, 1); d = rbn(1700, 1); { BN g = rbn(1700, 2); o.num(GetGCD(g, a, b)); addbn(o, g); o.num(GetGCDEx(g, c, d, a, b, 1 - v)); addbn(o, g); addbn(o, c); addbn(o, d); o.num(GetGCDEx(NULL, c, d, b, a, v)); addbn(o, c); BnFree(g); } BnFree(a); BnFree(b); BnFree(c); BnFree(d); break;
	case 16: for (int k = 0; k < 3; k++) { static const int mb[] = {1032, 520, 192}, eb[] = {24, 264, 128}; a = rbn(mb[k], v + k); b = rbn(eb[k], v + 3); c = rbn(mb[k], 1); d = rbn(mb[k] - 16, 4 + v); BnShiftL(a, 1); if (k < 2) BnAddUInt(a, 1); RaMontCtx *m = NULL; o.num(RaMontCreate(a, &m)); if (m) { o.num(RaMontExpMod(m, c, d, b)); addbn(o, c); BnSetUInt(b, 3 + v); o.num(RaMontExpMod(m, c, c, b)); addbn(o, c); RaMontDestroy(m); } BnFree(a); BnFree(b); BnFree(c); BnFree(d); } break;
	case 17: a = BnNew(700); BnSetUInt(a, 1); BnShiftL(a, v ? 607 : 521); BnSubUInt(a, 1); o.num(RaIsPrimeNumber(a)); BnAddUInt(a, 30); o.num(RaIsPrimeNumber(a)); BnFree(a); break;
	case 18: { RaRsaKeyPair *k = NULL; Bytes &x = g_big[v]; o.num(RaRsaCreateKeyFromByteArray(x.data(), (int)x.size(), &k)); if (!k) break; o.num(RaRsaKeyBitLength(k)); a = rbn(300, v); b = BnNew(1100); c = BnNew(1100); o.num(RaRsaEncrypt(k, a, b)); o.num(RaRsaDecrypt(k, b, c)); addbn(o, b); addbn(o, c); o.num(RaRsaVerify(k, b, a)); static thread_local uint8_t ex[1000]; int l = 0; o.num(RaRsaPrivKeyToByteArray(k, ex, 1000, &l)); o.add(ex, l); o.num(RaRsaPubKeyToByteArray(k, ex, 1000, &l)); o.add(ex, l); BnFree(a); BnFree(b); BnFree(c); RaRsaDestroyKeyPair(k); break; }
	case 19: { for (int i = 0; i < 3; i++) { Bytes x = i == 1 ? g_pub[v] : g_priv[v]; for (size_t at = 1; at < x.size(); at += i == 2 ? 1 : 5) { Bytes y(x.begin(), i == 2 ? x.begin() + at : x.end()); if (i < 2) y[at] ^= 0x81; RaRsaKeyPair *k = NULL; int r = at % 3 == 0 ? RaRsaCreateKeyPub(y.data(), (int)y.size(), &k) : at % 3 == 1 ? RaRsaCreateKeyPriv(y.data(), (int)y.size(), &k) : RaRsaCreateKeyFromByteArray(y.data(), (int)y.size(), &k); o.num(r); if (r == 0 && k) { o.num(RaRsaKeyBitLength(k)); RaRsaDestroyKeyPair(k); } } } break; }
	case 20: { // every pair of small and boundary values of both signs
		static const int NV = 11; auto val = [&](BN x, int k) { BnSetInt(x, 0); switch (k) { case 0: return; case 1: BnSetInt(x, 1 + v); return; case 2: BnSetInt(x, -1 - v); return; case 3: BnSetUInt(x, ~(bn_uint_t)0); return; case 4: BnSetUInt(x, ~(bn_uint_t)0); BnAddUInt(x, 1); return; case 5: BnSetUInt(x, 1); BnShiftL(x, 128); BnSubUInt(x, 1 + v); return; case 6: BnSetUByteArray(x, in, 20); return; case 7: BnSetByteArray(x, in, 33); return; case 8: memset(out, 0xff, 24); out[23] = v; BnSetByteArray(x, out, 24); return; case 9: BnSetUInt(x, 1); BnShiftL(x, 192); BnAddUInt(x, v); _BnInvert(x); return; default: memset(out, 0, 9); out[9] = 0x80; memset(out + 10, 0, 23 + v); BnSetByteArray(x, out, 33 + v); return; } };
		a = BnNew(700); b = BnNew(700); c = BnNew(1500); d = BnNew(1500); BN g = BnNew(1500); bn_uint_t r = 0;
		for (int i = 0; i < NV; i++) { val(a, i); addbn(o, a); o.num(BnToFixedByteArray(a, out, 100)); o.add(out, 100); o.num(BnGetBitLength(a)); o.num(RaIsPrimeNumber(a));
			static const bn_int_t w[] = {0, 1, -1, 3, -7}; for (bn_int_t x : w) { val(a, i); o.num(BnAddInt(a, x)); o.num(BnSubInt(a, x * 2)); addbn(o, a); o.num(BnMulInt(a, x)); addbn(o, a); val(a, i); o.num(BnMulUInt(a, x)); o.num(BnAddUInt(a, x)); o.num(BnSubUInt(a, x)); addbn(o, a); if (x) { o.num(BnDivInt(a, x, &r)); o.num(r); o.num(BnModUInt(a, x, &r)); o.num(r); o.num(BnDivUInt(a, x, &r)); o.num(r); addbn(o, a); } o.num(BnCmpInt(a, x)); o.num(BnCmpUInt(a, x)); }
			for (uint32_t sft = 0; sft < 260; sft += 64 + (sft & 1)) { val(a, i); BnShiftR(a, sft + v); addbn(o, a); BnShiftL(a, sft); addbn(o, a); }
			for (int k = 0; k < NV; k++) { val(a, i); val(b, k); o.num(BnCmp(a, b)); o.num(BnAdd(c, a, b)); o.num(BnSub(d, a, b)); o.num(BnMul(g, c, d)); addbn(o, g); o.num(BnSqr(d, a)); o.num(BnDouble(d, d)); addbn(o, d); o.num(BnAdd(a, a, b)); o.num(BnSub(b, a, b)); addbn(o, b); val(a, i); val(b, k); if (BnCmpInt(b, 0)) { o.num(BnDiv(c, d, a, b)); addbn(o, c); addbn(o, d); o.num(BnMod(d, a, b)); addbn(o, d); } if (BnCmpInt(a, 0) > 0 && BnCmpInt(b, 0) > 0) { o.num(GetGCD(g, a, b)); addbn(o, g); o.num(GetGCDEx(g, c, d, a, b, v)); addbn(o, c); addbn(o, d); } } }
		BnSetUInt(a, 2 + v); o.num(RaIsPrimeNumber(a)); BnSetUInt(a, 25); o.num(RaIsPrimeNumber(a)); BnSetUInt(a, 1); BnShiftL(a, 64); BnAddUInt(a, 1); o.num(RaIsPrimeNumber(a)); { struct RaRandom *rr = NULL; o.num(RaRandomCreate(RA_RAND_SHA256, in, 0, &rr)); if (rr) { RaRandomBytes(rr, 9, out); o.add(out, 9); RaRandomDestroy(rr); } }
		BnFree(a); BnFree(b); BnFree(c); BnFree(d); BnFree(g); break; }
	}
}
struct Arg { int t, p; bool managed; };
static void *thr(void *x) {
	Arg *a = (Arg *)x; entp = 0;
	if (a->managed) { __real_pthread_mutex_lock(&bm); while (turn != a->t) pthread_cond_wait(&bc, &bm); __real_pthread_mutex_unlock(&bm); }
	tid = a->t; depth = 0; static Out o[2]; prog(a->p, a->t, o[a->t]); int t = a->t; tid = me = -1;
	sh->nres[t] = (uint32_t)std::min<size_t>(o[t].b.size(), sizeof sh->res[t]); __real_memcpy(sh->res[t], o[t].b.data(), sh->nres[t]);
	if (a->managed) { __real_pthread_mutex_lock(&bm); done_[t] = true; blocked[t] = false; turn = 1 - t; pthread_cond_broadcast(&bc); __real_pthread_mutex_unlock(&bm); }
	return NULL;
}
static void start(pthread_t *th, Arg *a) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk[a->t], STK); if (pthread_create(th, &at, thr, a)) _exit(9); }
static void setup() {
	static bool ok; if (ok) return; ok = true; auto mm = [](size_t n) { void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(9); return (uint8_t *)p; };
	for (int i = 0; i < 2; i++) arena[i] = mm(ARENA), stk[i] = mm(STK); tab = (Gran *)mm(sizeof(Gran) * TABN); sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	// two keys, made with GMP
	g_priv = new Bytes[2]; g_pub = new Bytes[2]; g_big = new Bytes[2]; extern void conc_keys(Bytes *, Bytes *, int); conc_keys(g_priv, g_pub, 64); Bytes none[2]; conc_keys(g_big, none, 448);
}
// one run in a fresh process.  order: 0/1 sequential starting with that thread; 2/3: only thread 0/1; explore: schedule in pre[]
static bool run(int pa, int pb, int first, int only, bool expl, std::vector<uint64_t> *h) {
	setup(); sh->finished = sh->deadlock = sh->overflow = 0; sh->ncon = 0; sh->nres[0] = sh->nres[1] = 0; sh->npoints = 0; fflush(stdout); st->beat++;
	pid_t c = fork(); if (c < 0) { perror("fork"); _exit(9); }
	if (c == 0) {
		exploring = expl; hot = h; points = 0; streak = 0; turn = first; Arg a[2] = {{0, pa, expl}, {1, pb, expl}}; pthread_t t[2];
		if (only >= 0) { start(&t[only], &a[only]); pthread_join(t[only], NULL); }
		else if (!expl) { for (int i = 0; i < 2; i++) { int k = i ? 1 - first : first; start(&t[k], &a[k]); pthread_join(t[k], NULL); } }
		else { start(&t[0], &a[0]); start(&t[1], &a[1]); pthread_join(t[0], NULL); pthread_join(t[1], NULL); }
		sh->accesses = naccess; sh->npoints = points; sh->overflow = taboverflow; uint32_t n = 0;
		if (only < 0) for (uint32_t i = 0; i < TABN && n < MAXCON; i++) if (tab[i].key && ((tab[i].w[0] & (tab[i].r[1] | tab[i].w[1])) | (tab[i].w[1] & tab[i].r[0]))) sh->con[n++] = tab[i].key;
		sh->ncon = n; sh->finished = 1; _exit(0);
	}
	int s = 0; struct timespec t0, t1; __real_clock_gettime(CLOCK_MONOTONIC, &t0);
	for (;;) { pid_t w = waitpid(c, &s, WNOHANG); if (w == c) break; __real_clock_gettime(CLOCK_MONOTONIC, &t1); long ms = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000; if (ms > 40000) { kill(c, SIGKILL); waitpid(c, &s, 0); break; } if (ms > 5) { struct timespec ts = {0, 1000000}; nanosleep(&ts, NULL); } else __real_sched_yield(); }
	trans += sh->accesses; return sh->finished;
}
static Bytes got(int t) { return Bytes(sh->res[t], sh->res[t] + sh->nres[t]); }
static Bytes alone(int p, int t) { static std::map<int, Bytes> m; int k = p * 2 + t; auto i = m.find(k); if (i != m.end()) return i->second; if (!run(p, p, t, t, false, NULL)) fail("%s alone in a thread does not finish%s", pname(p), sh->overflow ? " (table full)" : ""); if (sh->overflow) fail("harness table too small for %s", pname(p)); return m[k] = got(t); }
static void pair_case(int pa, int pb) {
	setup(); note("%s beside %s", pname(pa), pname(pb)); Bytes ra = alone(pa, 0), rb = alone(pb, 1); std::set<uint64_t> con;
	auto judge = [&](bool fin, const char *how) {
		evals++; nontriv++; traces++;
		if (sh->deadlock) fail("%s beside %s: %s: the two threads wait for each other", pname(pa), pname(pb), how);
		if (!fin) fail("%s beside %s: %s: the process crashes or does not finish", pname(pa), pname(pb), how);
		if (got(0) != ra || got(1) != rb) fail("%s beside %s: %s: thread %d gets another result than alone (it shares state with the other thread)", pname(pa), pname(pb), how, got(0) != ra ? 1 : 2);
		for (uint32_t i = 0; i < sh->ncon; i++) con.insert(sh->con[i]);
		if (sh->ncon == MAXCON) con.insert(0);
	};
	judge(run(pa, pb, 0, -1, false, NULL), "first then second"); state(mix(pa * 64 + pb, 0)); judge(run(pa, pb, 1, -1, false, NULL), "second then first"); state(mix(pa * 64 + pb, 1));
	sample("%s beside %s: %zu bytes shared with writes", pname(pa), pname(pb), con.size() * 8);
	// conflicts: enumerate the interleavings of the conflicting accesses
	const uint32_t LIM1 = thorough ? 20000 : 1500, LIM2 = thorough ? 400 : 40; size_t known = 0; char how[200];
	for (int round = 0; round < 4 && con.size() > known; round++) {
		known = con.size(); std::vector<uint64_t> h(con.begin(), con.end());
		for (int first = 0; first < 2; first++) {
			npre = 0; bool f = run(pa, pb, first, -1, true, &h); snprintf(how, sizeof how, "thread %d first, no preemption", first + 1); judge(f, how); uint32_t n = sh->npoints; state(mix(mix(pa * 64 + pb, 2), first));
			for (uint32_t i = 0; i < n && i < LIM1; i++) {
				npre = 1; pre[0] = i; f = run(pa, pb, first, -1, true, &h); snprintf(how, sizeof how, "thread %d first, preempted at shared access %u", first + 1, i); judge(f, how); uint32_t n2 = sh->npoints; state(mix(mix(pa * 64 + pb, 3 + i), first));
				if (n <= LIM2) for (uint32_t j = i + 1; j < n2 && j < 2 * LIM2; j++) { npre = 2; pre[0] = i; pre[1] = j; f = run(pa, pb, first, -1, true, &h); snprintf(how, sizeof how, "thread %d first, preempted at shared accesses %u and %u", first + 1, i, j); judge(f, how); state(mix(mix(mix(pa * 64 + pb, 3 + i), j), first)); }
			}
		}
	}
}
SPACE("P10", "conc_pairs", 0, "every ordered pair of 43 programs (each cipher, digest, RC4, big-number, primality, RSA and generator use), thread data different: both orders recorded; where bytes are shared with a write, all interleavings of these accesses with at most one preemption (two where there are few)", NPROG * NPROG) { pair_case(idx % NPROG, idx / NPROG); }
// keys
#include <memory>
void conc_keys(Bytes *pv, Bytes *pu, int half) {
	for (int v = 0; v < 2; v++) {
		Z p, q, n, e(17), d, p1, q1, m, t[3]; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, half - 1 + v); mpz_add_ui(p, p, 12345 + 999 * v); mpz_set_ui(q, 1); mpz_mul_2exp(q, q, half); mpz_sub_ui(q, q, 77777 * (v + 1));
		for (;;) { mpz_nextprime(p, p); mpz_sub_ui(p1, p, 1); mpz_nextprime(q, q); mpz_sub_ui(q1, q, 1); mpz_mul(m, p1, q1); if (mpz_invert(d, e, m)) break; }
		mpz_mul(n, p, q); mpz_mod(t[0], d, p1); mpz_mod(t[1], d, q1); mpz_invert(t[2], q, p);
		auto tlv = [](int tag, const Bytes &b) { Bytes o; o.push_back((uint8_t)tag); if (b.size() < 128) o.push_back((uint8_t)b.size()); else if (b.size() < 256) { o.push_back(0x81); o.push_back((uint8_t)b.size()); } else { o.push_back(0x82); o.push_back((uint8_t)(b.size() >> 8)); o.push_back((uint8_t)b.size()); } o.insert(o.end(), b.begin(), b.end()); return o; };
		auto in = [&](mpz_srcptr z) { Bytes b((mpz_sizeinbase(z, 2) + 8) / 8 + 1, 0); size_t c; uint8_t x[300]; mpz_export(x, &c, 1, 1, 0, 0, z); b.assign(x, x + c); if (b[0] & 0x80) b.insert(b.begin(), 0); return tlv(2, b); };
		auto cat = [](std::initializer_list<Bytes> l) { Bytes o; for (auto &b : l) o.insert(o.end(), b.begin(), b.end()); return o; };
		Bytes alg = tlv(0x30, cat({tlv(6, {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01}), tlv(5, {})}));
		pv[v] = tlv(0x30, cat({tlv(2, {0}), alg, tlv(4, tlv(0x30, cat({tlv(2, {0}), in(n), in(e), in(d), in(p), in(q), in(t[0]), in(t[1]), in(t[2])})))}));
		Bytes pk = tlv(0x30, cat({in(n), in(e)})); pk.insert(pk.begin(), 0); pu[v] = tlv(0x30, cat({alg, tlv(3, pk)}));
	}
}
