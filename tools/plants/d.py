BC = "src/cipher/block_cipher.c"; BN = "src/com/bignumber.c"; RND = "src/com/random.c"; RSA = "src/pk/rsa.c"; ASN = "src/pk/asn1.c"; PR = "src/com/prime.c"; MO = "src/com/montexpmod.c"; GC = "src/com/gcd.c"
HDR = r'''static int bneq(struct RaBigNumber *x, const char *h) { struct RaBigNumber *y = bnhex(h, 512); int r = BnCmp(x, y); BnFree(y); return r == 0; }
'''
THR = r'''#include <pthread.h>
#include <unistd.h>
'''
BUGS = {
"s25-no-rounds-uneven-size": dict(property="P25",
 edits=[(PR, "	if (bit >= 1024) {\n		checkCount = 3;", "	if (bit >= 1024) {\n		checkCount = bit % 32 ? 0 : 3;", 0)],
 needs="generating a prime of more than 1024 bits, not a multiple of 32", breaks="the first number without small factors is handed out untested",
 demo=r'''int main(void) { int i, bad = 0; struct RaBigNumber *x = BnNew(1060); struct RaRandom *r; uint8_t s[4] = {1, 2, 3, 4}; EXPECT(RaRandomCreate(RA_RAND_SHA256, s, 4, &r) == 0); for (i = 0; i < 3; i++) { EXPECT(RaGenPrimeNumberEx(x, 1060, NULL, NULL, r) == 0); bad += RaIsPrimeNumber(x) != 0; } EXPECT(bad == 0); return 0; }'''),
"s13-page-sized-pieces": dict(property="P13",
 edits=[("src/digest/md5.c", "bufferRemain <= len) {", "bufferRemain <= (len & 0xfff)) {")],
 needs="a pending partial block followed by a piece of a multiple of 4096 bytes", breaks="the pending bytes are not completed first",
 demo=r'''static uint8_t m[5000]; int main(void) { uint8_t a[16], b[16]; struct RaMd5Ctx c; size_t i; for (i = 0; i < sizeof m; i++) m[i] = (uint8_t)(i * 7 + i / 251); RaMd5(m, 4196, a); RaMd5Init(&c); RaMd5Update(&c, m, 20); RaMd5Update(&c, m + 20, 4096); RaMd5Update(&c, m + 4116, 80); RaMd5Final(&c, b); EXPECT(!memcmp(a, b, 16)); return 0; }'''),
"s37-sha512-state-freed": dict(property="P37",
 edits=[(RND, "				RaSha2Destroy((struct RaSha2Ctx *)ctx->alg_ctx);", "				if (ctx->algorithm == RA_RAND_SHA512) free(ctx->alg_ctx); else RaSha2Destroy((struct RaSha2Ctx *)ctx->alg_ctx);")],
 needs="a generator of the SHA-512 kind", breaks="the keyed hash state is released without being cleared",
 cc="-O1 -fno-builtin -Wl,--wrap=free",
 demo=r'''#include <malloc.h>
void __real_free(void *p); static int dirty; static uint8_t *watch; void __wrap_free(void *p) { if (p == watch && p) { size_t n = malloc_usable_size(p), i, c = 0; for (i = 0; i < 200 && i < n; i++) c += ((uint8_t *)p)[i] != 0; if (c > 20) dirty = 1; } __real_free(p); }
struct view { int algorithm; void *alg_ctx; };
int main(void) { struct RaRandom *r; uint8_t s[40] = "0123456789012345678901234567890123456", o[100]; int k; for (k = 0; k < 4; k++) { EXPECT(RaRandomCreate((enum RaRandomAlgorithm)(RA_RAND_SHA160 + k), s, 40, &r) == 0); RaRandomBytes(r, 100, o); { size_t i; void **v = (void **)r; for (i = 0; i < malloc_usable_size(r) / sizeof(void *); i++) if (v[i] > (void *)((char *)r - 100000) && v[i] < (void *)((char *)r + 100000) && v[i] != (void *)r) watch = v[i]; } RaRandomDestroy(r); EXPECT(!dirty); } return 0; }'''),
"s34-clock-overlaps": dict(property="P34",
 edits=[(RND, "	seedBytes[RA_RAND_SEED_LEN - 1] = (uint8_t)(seed);", "	seedBytes[RA_RAND_SEED_LEN - 5] = (uint8_t)(seed);")],
 needs="two pieces of system entropy that differ in their last byte only", breaks="the clock overwrites a byte of the entropy",
 cc="-O1 -Wl,--wrap=read -Wl,--wrap=open -Wl,--wrap=clock_gettime",
 demo=r'''#include <time.h>
#include <sys/types.h>
static int v; int __wrap_open(const char *p, int f, ...) { return 77; } ssize_t __wrap_read(int fd, void *b, size_t n) { memset(b, 5, n); ((uint8_t *)b)[n - 1] = (uint8_t)v; return (ssize_t)n; } int __wrap_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = 5; t->tv_nsec = 0; return 0; }
static void dirty(int x) { volatile uint8_t s[2000]; int i; for (i = 0; i < 2000; i++) s[i] = (uint8_t)x; }
int main(void) { uint8_t a[16], b[16]; struct RaRandom *r; dirty(1); EXPECT(RaRandomCreate(RA_RAND_SHA160, NULL, 0, &r) == 0); RaRandomBytes(r, 16, a); RaRandomDestroy(r); v = 9; dirty(1); EXPECT(RaRandomCreate(RA_RAND_SHA160, NULL, 0, &r) == 0); RaRandomBytes(r, 16, b); EXPECT(memcmp(a, b, 16)); return 0; }'''),
"s33-rounded-after-adding": dict(property="P33",
 edits=[(RND, "	return min + (uint32_t)(range * RaRandom(ctx));", "	return (uint32_t)(range * RaRandom(ctx) + min);")],
 needs="a large lower limit and a generator word next to the largest", breaks="rounding gives the value above the upper limit",
 cc="-O2",
 demo=r'''int main(void) { struct RaRandom *r; uint8_t s[4] = {7, 7, 7, 7}; long i; EXPECT(RaRandomCreate(RA_RAND_SHA512, s, 4, &r) == 0); for (i = 0; i < 60000000; i++) { uint32_t v = RaRandomInt(r, 4294967000u, 4294967000u); if (v != 4294967000u) FAIL("%u after %ld", v, i); } return 0; }'''),
"s38-seed-wiped": dict(property="P38",
 edits=[(RND, "	RaRandomUpdate(ctx, seed, seed_len);\n", "	RaRandomUpdate(ctx, seed, seed_len); if (seed_len > 128) memset(seed, 0, (size_t)seed_len);\n", 0)],
 needs="a seed of more than 128 bytes", breaks="the caller's seed is overwritten",
 demo=r'''int main(void) { struct RaRandom *r; uint8_t s[200], t[200]; memset(s, 3, 200); memset(t, 3, 200); EXPECT(RaRandomCreate(RA_RAND_SHA256, s, 200, &r) == 0); EXPECT(!memcmp(s, t, 200)); return 0; }'''),
"s10-static-draw": dict(property="P10",
 edits=[(RND, "	uint8_t rnd_buffer[4];\n", "	static uint8_t rnd_buffer[4];\n")],
 needs="two threads drawing reals or integers from generators of their own at the same time", breaks="a thread gets the other's draw", cc="-O1",
 demo=THR + r'''static double want[2][2000]; static volatile int bad; static void *run(void *p) { int k = (int)(intptr_t)p, i, j; for (j = 0; j < 3000 && !bad; j++) { uint8_t s[2] = {(uint8_t)k, 9}; struct RaRandom *r; if (RaRandomCreate(RA_RAND_MD5, s, 2, &r)) { bad = 1; break; } for (i = 0; i < 2000; i++) if (RaRandom(r) != want[k][i]) bad = 1; RaRandomDestroy(r); } return 0; }
int main(void) { pthread_t a, b; int k, i; for (k = 0; k < 2; k++) { uint8_t s[2] = {(uint8_t)k, 9}; struct RaRandom *r; EXPECT(RaRandomCreate(RA_RAND_MD5, s, 2, &r) == 0); for (i = 0; i < 2000; i++) want[k][i] = RaRandom(r); RaRandomDestroy(r); } pthread_create(&a, 0, run, (void *)0); pthread_create(&b, 0, run, (void *)1); pthread_join(a, 0); pthread_join(b, 0); EXPECT(!bad); return 0; }'''),
"s14-portable-carry": dict(property="P14",
 edits=[(MO, "	t2 += r1 >> 32;\n	t2 += t1;\n	// carry\n	if (t2 < t1)", "	t2 += t1;\n	t2 += r1 >> 32;\n	// carry\n	if (t2 < (r1 >> 32))")],
 needs="a build without a native 128-bit type, and words whose middle products overflow together", breaks="the carry into the high word is lost", cc="-O1 -U__SIZEOF_INT128__",
 demo=HDR + r'''int main(void) { struct RaBigNumber *n = bnhex("ffffffffffffffffffffffffffffffff000000000000000000000000ffffff61", 16), *a = bnhex("fffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffff", 16), *e = bnhex("02", 8), *r = BnNewW(32), *s = BnNewW(64), *w = BnNewW(32); struct RaMontCtx *m; int i; BnMod(a, a, n); EXPECT(RaMontCreate(n, &m) == 0); for (i = 0; i < 200; i++) { EXPECT(RaMontExpMod(m, r, a, e) == 0); BnSqr(s, a); BnMod(w, s, n); EXPECT(BnCmp(r, w) == 0); BnSet(a, r); BnSubUInt(a, 12345); if (a->sign) a->sign = 0; } return 0; }'''),
}
BUGS = {k: v for k, v in BUGS.items() if not v.get("skip")}
