// P32-P34: the pseudo random generator: stream, ranges, seeding.
#include "vh.h"
#include "env.h"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <errno.h>
#include <math.h>
using namespace vh;
typedef std::vector<uint8_t> Bytes;
typedef struct RaRandom *RP;
struct Alg { const char *name; RaRandomAlgorithm a; int L; };
static const Alg AL[4] = {{"SHA160", RA_RAND_SHA160, 20}, {"SHA256", RA_RAND_SHA256, 32}, {"SHA512", RA_RAND_SHA512, 64}, {"MD5", RA_RAND_MD5, 16}};
// the hash chain, made with OpenSSL
struct Ref {
	int a; uint32_t count = 0; int off = 0; uint8_t blk[64]; union { SHA_CTX s1; SHA256_CTX s2; SHA512_CTX s5; MD5_CTX m; } c;
	void absorb(const void *p, size_t n) { switch (a) { case 0: SHA1_Update(&c.s1, p, n); break; case 1: SHA256_Update(&c.s2, p, n); break; case 2: SHA512_Update(&c.s5, p, n); break; default: MD5_Update(&c.m, p, n); } }
	void step(const uint8_t *p, size_t n) { uint8_t b[4] = {(uint8_t)(count >> 24), (uint8_t)(count >> 16), (uint8_t)(count >> 8), (uint8_t)count}; absorb(p, n); absorb(b, 4); auto t = c; switch (a) { case 0: SHA1_Final(blk, &t.s1); break; case 1: SHA256_Final(blk, &t.s2); break; case 2: SHA512_Final(blk, &t.s5); break; default: MD5_Final(blk, &t.m); } count++; off = 0; }
	Ref(int al, const uint8_t *s, size_t n) : a(al) { switch (a) { case 0: SHA1_Init(&c.s1); break; case 1: SHA256_Init(&c.s2); break; case 2: SHA512_Init(&c.s5); break; default: MD5_Init(&c.m); } step(s, n); }
	void get(uint8_t *o, int n) { while (n-- > 0) { if (off >= AL[a].L) step(blk, AL[a].L); *o++ = blk[off++]; } }
};
static Guard &g1() { static Guard g(1 << 16); return g; }
static RP mk(int a, const uint8_t *s, int n) { RP r = NULL; int e = RaRandomCreate(AL[a].a, (uint8_t *)s, n, &r); if (e || !r) fail("creating a %s generator from %d seed bytes returns %d", AL[a].name, n, e); return r; }
// one request, into a buffer that ends at an inaccessible page
static void req(RP r, Ref &f, int n, const char *what) {
	uint8_t *b = g1().tail(n > 0 ? n : 0); memset(b - 16, 0x5a, 16 + (n > 0 ? n : 0)); RaRandomBytes(r, n, b); Bytes w(n > 0 ? n : 0); f.get(w.data(), n); evals++; trans++;
	if (n > 0) nontriv++; for (int i = -16; i < 0; i++) if (b[i] != 0x5a) fail("%s: bytes before the buffer are written", what);
	if (n > 0 && memcmp(b, w.data(), n)) { int i = 0; while (b[i] == w[i]) i++; fail("%s: request of %d bytes: byte %d is %02x, the hash chain has %02x", what, n, i, b[i], w[i]); }
	state(mix(mix(f.a, f.off), f.count));
}
// ---------------------------------------------------------------- P32
SPACE("P32", "seeds", 0, "4 algorithms x seed lengths 0 to 300 x 3 contents: the first seven blocks, in one request and byte by byte", 4 * 301) {
	int a = idx % 4, n = (int)(idx / 4); note("%s seed length %d", AL[a].name, n); static Guard sg(512);
	for (int k = 0; k < 3; k++) { uint8_t *s = sg.tail(n); if (k == 0) memset(s, 0, n); else if (k == 1) memset(s, 0xff, n); else fillbuf(s, n, n); Bytes c(s, s + n);
		for (int m = 0; m < 2; m++) { RP r = mk(a, s, n); if (memcmp(c.data(), s, n)) fail("%s: creating changes the seed", AL[a].name); memset(s, 0x77, n); Ref f(a, c.data(), n); memcpy(s, c.data(), n); char w[80]; snprintf(w, sizeof w, "%s seed of %d bytes, contents %d", AL[a].name, n, k); if (m == 0) req(r, f, 7 * AL[a].L + 3, w); else for (int i = 0; i < 3 * AL[a].L + 1; i++) req(r, f, 1, w); RaRandomDestroy(r); } }
}
SPACE("P32", "seeds_long", 0, "seeds of 301 to 1100 bytes and of 4095 to 1048577 bytes", 800 + 6) { static const int big[] = {4095, 65535, 65536, 262144, 1048576, 1048577}; int n = idx < 800 ? 301 + (int)idx : big[idx - 800]; Bytes s(n); fillbuf(s.data(), n, idx); for (int a = 0; a < 4; a++) { RP r = mk(a, s.data(), n); Ref f(a, s.data(), n); req(r, f, 3 * AL[a].L, "long seed"); RaRandomDestroy(r); } }
SPACE("P32", "seed_bits", 0, "every single bit of seeds of 24 lengths flipped, 4 algorithms", 24 * 4) {
	static const int ln[] = {1, 2, 3, 4, 16, 19, 20, 21, 31, 32, 33, 35, 36, 37, 48, 55, 56, 63, 64, 65, 111, 112, 128, 200}; int a = idx % 4, n = ln[idx / 4]; Bytes s(n); fillbuf(s.data(), n, n); std::set<Bytes> seen; for (int i = -1; i < 8 * n; i++) { Bytes t = s; if (i >= 0) t[i / 8] ^= 1 << (i % 8); RP r = mk(a, t.data(), n); Bytes o(16); RaRandomBytes(r, 16, o.data()); evals++; nontriv++; if (!seen.insert(o).second) fail("%s: flipping bit %d of a seed of %d bytes does not change the stream", AL[a].name, i, n); Ref f(a, t.data(), n); Bytes w(16); f.get(w.data(), 16); if (w != o) fail("%s: seed of %d bytes with bit %d flipped: not the hash chain", AL[a].name, n, i); RaRandomDestroy(r); }
}
SPACE("P32", "seed_pairs", 0, "all one and two byte seeds give different streams, 4 algorithms", 4) { std::set<Bytes> seen; for (int n = 0; n < 3; n++) for (int v = 0; v < (1 << (8 * n)); v++) { uint8_t s[2] = {(uint8_t)v, (uint8_t)(v >> 8)}; RP r = mk((int)idx, s, n); Bytes o(16); RaRandomBytes(r, 16, o.data()); evals++; nontriv++; RaRandomDestroy(r); if (!seen.insert(o).second) fail("%s: two seeds of up to two bytes give the same stream (the second: length %d value %x)", AL[idx].name, n, v); } }
static std::vector<int> sizes(int L) { return {0, 1, 2, 3, 4, L - 1, L, L + 1, 2 * L - 1, 2 * L, 2 * L + 1, 7, 5 * L + 2, -1}; }
SPACE("P32", "requests", 0, "4 algorithms x every sequence of four requests out of 14 sizes (from -1 to several blocks)", 4 * 14 * 14) {
	int a = idx % 4; std::vector<int> z = sizes(AL[a].L); uint8_t s[9]; fillbuf(s, 9, 5); for (int c = 0; c < 14; c++) for (int d = 0; d < 14; d++) { int q[4] = {z[idx / 4 % 14], z[idx / 56 % 14], z[c], z[d]}; RP r = mk(a, s, 9); Ref f(a, s, 9); char w[100]; snprintf(w, sizeof w, "%s requests %d %d %d %d", AL[a].name, q[0], q[1], q[2], q[3]); for (int i = 0; i < 4; i++) req(r, f, q[i], w); req(r, f, 5, w); RaRandomDestroy(r); traces++; } sample("%s", AL[a].name);
}
SPACE("P32", "requests_deep", 1, "4 algorithms x every sequence of six requests out of 8 sizes", 4 * 8 * 8 * 8) { int a = idx % 4; std::vector<int> z = sizes(AL[a].L); uint8_t s[9]; fillbuf(s, 9, 6); for (int v = 0; v < 512; v++) { int q[6] = {z[2 + idx / 4 % 8], z[2 + idx / 32 % 8], z[2 + idx / 256 % 8], z[2 + v % 8], z[2 + v / 8 % 8], z[2 + v / 64]}; RP r = mk(a, s, 9); Ref f(a, s, 9); for (int i = 0; i < 6; i++) req(r, f, q[i], "six requests"); RaRandomDestroy(r); traces++; } }
SPACE("P32", "request_lengths", 0, "every single request length from 0 to 1500 and some up to 1 MB, followed by another", 1501 + 6) { static const int big[] = {4096, 32767, 32768, 65535, 65536, 1 << 20}; int n = idx < 1501 ? (int)idx : big[idx - 1501]; for (int a = 0; a < 4; a++) { uint8_t s[4] = {1, 2, 3, 4}; RP r = mk(a, s, 4); Ref f(a, s, 4); if (n <= 1500) req(r, f, n, "one request"); else { Bytes o(n), w(n); RaRandomBytes(r, n, o.data()); f.get(w.data(), n); evals++; nontriv++; if (o != w) fail("%s: request of %d bytes differs from the hash chain", AL[a].name, n); } req(r, f, 9, "after one request"); RaRandomDestroy(r); } }
// two generators, and other users of the digests, interleaved
SPACE("P32", "interleaved", 0, "two generators (all pairs of algorithms, same or different seed): every sequence of five steps, each a request of 3 sizes from either, or the use of another digest or a real or integer draw from a third", 4 * 4 * 2 * 8) {
	int a = idx % 4, b = idx / 4 % 4, same = idx / 16 % 2; uint8_t s[6] = {9, 8, 7, 6, 5, 4}, t[6] = {9, 8, 7, 6, 5, 5};
	for (int v = 0; v < 8 * 8 * 8 * 8; v++) { int op[5] = {(int)(idx / 32), v % 8, v / 8 % 8, v / 64 % 8, v / 512}; RP x = mk(a, s, 6), y = mk(b, same ? s : t, 6); Ref f(a, s, 6), g(b, same ? s : t, 6); RP z = NULL;
		for (int i = 0; i < 5; i++) { int o = op[i]; if (o < 6) { int L = AL[o & 1 ? b : a].L; int n = o / 2 == 0 ? 1 : o / 2 == 1 ? L - 1 : L + 3; req(o & 1 ? y : x, o & 1 ? g : f, n, "two generators"); } else if (o == 6) { uint8_t d[64]; RaSha1((uint8_t *)"abc", 3, d); RaSha256((uint8_t *)"abc", 3, d); RaSha512((uint8_t *)"abc", 3, d); RaMd5((uint8_t *)"abc", 3, d); } else { if (!z) z = mk(a, t, 6); (void)RaRandom(z); (void)RaRandomInt(z, 3, 9); } }
		req(x, f, 4, "first generator at the end"); req(y, g, 4, "second generator at the end"); RaRandomDestroy(x); req(y, g, 70, "second generator after the first is destroyed"); RaRandomDestroy(y); if (z) RaRandomDestroy(z); traces++; }
}
SPACE("P32", "numbers_position", 0, "drawing reals and integers advances the stream by whole draws of four bytes: sequences of 6 operations", 4 * 64) {
	int a = idx % 4; uint8_t s[3] = {3, 1, 4}; RP r = mk(a, s, 3); Ref f(a, s, 3); for (int i = 0; i < 6; i++) { if (idx / 4 >> i & 1) { uint8_t b[4]; uint32_t v; do { f.get(b, 4); v = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; } while (v == 0 || v == UINT32_MAX); if (i & 1) { double d = RaRandom(r), w = (double)v / UINT32_MAX; if (fabs(d - w) > 1e-9) fail("%s: real number %.12f, the stream gives %.12f", AL[a].name, d, w); } else { uint32_t d = RaRandomInt(r, 10, 1009); if (d < 10 || d > 1009 || fabs((double)d - 10 - 1000.0 * v / 4294967295.0) > 1.001) fail("%s: integer %u from draw %08x", AL[a].name, d, v); } evals++; } else req(r, f, i + 1, "between numbers"); } req(r, f, 40, "after numbers"); RaRandomDestroy(r);
}
SPACE("P32", "many_blocks", 0, "the first 140000 blocks (two carries of the block counter's second byte)", 4) { int a = (int)idx; uint8_t s[5] = {5}; RP r = mk(a, s, 5); Ref f(a, s, 5); Bytes o(AL[a].L * 100), w(AL[a].L * 100); for (int i = 0; i < 1400; i++) { RaRandomBytes(r, (int)o.size(), o.data()); f.get(w.data(), (int)w.size()); evals++; nontriv++; trans += 100; if (o != w) { size_t k = 0; while (o[k] == w[k]) k++; fail("%s: block %d differs from the hash chain", AL[a].name, i * 100 + (int)k / AL[a].L); } } RaRandomDestroy(r); }
SPACE("P32", "more_blocks", 1, "the first 17 million blocks (carries of the block counter's third byte)", 4) { int a = (int)idx; uint8_t s[5] = {6}; RP r = mk(a, s, 5); Ref f(a, s, 5); Bytes o(AL[a].L * 1000), w(AL[a].L * 1000); for (int i = 0; i < 17000; i++) { RaRandomBytes(r, (int)o.size(), o.data()); f.get(w.data(), (int)w.size()); evals++; nontriv++; trans += 1000; if (o != w) fail("%s: within 1000 blocks from block %d: differs from the hash chain", AL[a].name, i * 1000); st->beat++; } RaRandomDestroy(r); }
// the block counter set to values before carries (the generator's own field, if it still is one)
template <class T> static auto cnt(T *r, int) -> decltype(&(r->count)) { return &r->count; }
static int *cnt(...) { return NULL; }
SPACE("P32", "counter", 0, "the block counter before each power of two and byte carry up to 2^31: the following blocks", 4 * 66) {
	int a = idx % 4, k = idx / 4; if (k >= 62) return; uint32_t v = (1u << (k / 2)) - 2 + (k & 1 ? 0 : 1); uint8_t s[5] = {7}; RP r = mk(a, s, 5); auto p = cnt((struct RaRandom *)r, 0); if (!p || *p != 1) { RaRandomDestroy(r); return; } Bytes b(AL[a].L + 1); RaRandomBytes(r, (int)b.size(), b.data()); if (*p != 2) { RaRandomDestroy(r); return; } Ref f(a, s, 5); f.get(b.data(), (int)b.size()); if (v > 0x7ffffffb) v = 0x7ffffffb; *p = (int)v; f.count = v; char w[60]; snprintf(w, sizeof w, "%s, block counter %u", AL[a].name, v); req(r, f, 4 * AL[a].L, w); RaRandomDestroy(r);
}

// ---------------------------------------------------------------- P33
// the generator's next bytes, planted in its buffer
struct Plant {
	RP r; bool ok; Plant() { uint8_t s[1] = {1}; r = mk(2, s, 1); ok = r->buffer_len >= 64; uint8_t p[16], q[16]; for (int i = 0; i < 16; i++) p[i] = (uint8_t)(200 - 7 * i); if (ok) { put(p, 16); RaRandomBytes(r, 16, q); ok = !memcmp(p, q, 16); } }
	void put(const uint8_t *p, int n) { memcpy(r->buffer, p, n); r->buffer_offset = 0; }
	void word(uint32_t v) { uint32_t x[2] = {__builtin_bswap32(v), 0x78563412}; memcpy(r->buffer, x, 8); r->buffer_offset = 0; }
	void words(std::initializer_list<uint32_t> l) { uint8_t b[64]; int n = 0; for (uint32_t v : l) { b[n++] = v >> 24; b[n++] = v >> 16; b[n++] = v >> 8; b[n++] = (uint8_t)v; } uint32_t last = 0x12345678; while (n < 64) { b[n++] = last >> 24; b[n++] = last >> 16; b[n++] = last >> 8; b[n++] = (uint8_t)last; } put(b, 64); }
};
static Plant &pl() { static Plant p; return p; }
static bool planted() { if (!pl().ok) sample("the generator's buffer cannot be planted: only seeds are enumerated"); return pl().ok; }
static std::vector<uint32_t> &vals() { static std::vector<uint32_t> v; if (v.empty()) { std::set<uint32_t> s; for (uint32_t h = 0; h < 65536; h++) for (uint32_t l : {0u, 0xffffu, 1u}) s.insert(h << 16 | l); for (uint32_t i = 0; i < 3000; i++) { s.insert(i); s.insert(UINT32_MAX - i); } for (uint64_t k = 2; k <= 64; k++) for (uint64_t i = 0; i <= k; i++) for (int d = -2; d < 3; d++) s.insert((uint32_t)((i << 32) / k + d)); for (int b = 0; b < 32; b++) for (int d = -2; d < 3; d++) s.insert((1u << b) + d); v.assign(s.begin(), s.end()); } return v; }
static void ck_real(double d, const char *what, uint32_t v) { evals++; if (!(d > 0.0 && d < 1.0)) fail("%s %08x: the real number %.20g is not between 0 and 1", what, v, d); }
static void ck_int(uint32_t x, uint32_t lo, uint32_t hi, const char *what, uint32_t v) { evals++; if (x < lo || x > hi) fail("%s %08x: the integer %u is not within %u to %u", what, v, x, lo, hi); }
SPACE("P33", "real_words", 0, "reals from about 200000 generator words, all boundary values included", 64) { if (!planted()) return; auto &v = vals(); for (size_t i = idx; i < v.size(); i += 64) { pl().word(v[i]); ck_real(RaRandom(pl().r), "generator word", v[i]); nontriv++; } }
SPACE("P33", "real_rejected", 0, "reals when the generator delivers up to fourteen words of all zero or all one bits first, every combination up to eight", 9 * 256) { if (!planted()) return; int n = idx / 256, m = idx % 256; if (n < 8 && m >> n) return; uint8_t b[64]; int k = 0; for (int i = 0; i < (n == 8 ? 14 : n); i++) { memset(b + k, m >> (i % 8) & 1 ? 0xff : 0, 4); k += 4; } for (; k < 64; k++) b[k] = (uint8_t)(k * 37 + m); pl().put(b, 64); ck_real(RaRandom(pl().r), "rejected words", m); pl().put(b, 64); ck_int(RaRandomInt(pl().r, 7, 19), 7, 19, "rejected words", m); nontriv++; }
static const uint32_t LIM[] = {0, 1, 2, 3, 4, 9, 100, 255, 256, 65535, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xaaaaaaaau, 0xfffffff0u, 0xfffffffcu, 0xfffffffdu, 0xfffffffeu, 0xffffffffu};
static const int NLIM = sizeof LIM / sizeof *LIM;
SPACE("P33", "int_words", 0, "integers within every pair out of 21 boundary limits from about 200000 generator words", NLIM * NLIM) {
	if (!planted()) return; uint32_t lo = LIM[idx % NLIM], hi = LIM[idx / NLIM]; if (lo > hi) return; note("%u to %u", lo, hi); auto &v = vals(); bool wide = hi - lo > 300; std::set<uint32_t> seen; for (size_t i = 0; i < v.size(); i++) { if (wide && !thorough && i > 7000 && i + 7000 < v.size() && i % 5) continue; pl().word(v[i]); uint32_t x = RaRandomInt(pl().r, lo, hi); ck_int(x, lo, hi, "generator word", v[i]); seen.insert(x); nontriv++; }
	if (!wide) { if (!seen.count(lo)) fail("no generator word gives the lower bound of %u to %u", lo, hi); if (!seen.count(hi)) fail("no generator word gives the upper bound of %u to %u", lo, hi); } else if (seen.size() < 5000) fail("%u to %u: only %zu different integers", lo, hi, seen.size());
}
SPACE("P33", "int_narrow", 0, "every range of 1 to 70 values at 12 places: in range, and every value of the range occurs", 70 * 12) {
	if (!planted()) return; static const uint32_t pos[] = {0, 1, 2, 1000, 65500, 0x7fffffe0, 0x7fffffff, 0x80000000u, 0xfffff000u, 0xdeadbeefu, 0, 0}; uint32_t n = 1 + idx % 70, lo = idx / 70 >= 10 ? (uint32_t)(0 - n - (idx / 70 - 10)) : pos[idx / 70], hi = lo + n - 1; auto &v = vals(); std::vector<bool> seen(n); for (size_t i = 0; i < v.size(); i += i < 6000 || i + 6000 > v.size() ? 1 : 17) { pl().word(v[i]); uint32_t x = RaRandomInt(pl().r, lo, hi); ck_int(x, lo, hi, "generator word", v[i]); seen[x - lo] = true; nontriv++; } for (uint32_t i = 0; i < n; i++) if (!seen[i]) fail("no generator word gives %u within %u to %u", lo + i, lo, hi);
}
SPACE("P33", "real_all", 0, "all 2^32 generator words: reals", 4096) { if (!planted()) return; for (uint64_t w = idx << 20; w < (idx + 1) << 20; w++) { pl().word((uint32_t)w); ck_real(RaRandom(pl().r), "generator word", (uint32_t)w); nontriv++; } }
SPACE("P33", "int_all", 1, "all 2^32 generator words: integers within 0 to 2^32-1, 1 to 6, 5 to 2^32-2 and 3 to 3", 4096) { if (!planted()) return; static const uint32_t lo[] = {0, 1, 5, 3}, hi[] = {0xffffffffu, 6, 0xfffffffeu, 3}; for (uint64_t w = idx << 20; w < (idx + 1) << 20; w++) for (int k = 0; k < 4; k++) { pl().word((uint32_t)w); ck_int(RaRandomInt(pl().r, lo[k], hi[k]), lo[k], hi[k], "generator word", (uint32_t)w); nontriv++; } }
SPACE("P33", "seeded", 0, "4 algorithms x 50 seeds: 4000 reals and integers within 15 ranges each", 200) {
	int a = idx % 4; uint8_t s[1] = {(uint8_t)(idx / 4)}; RP r = mk(a, s, 1); static const uint32_t lo[] = {0, 0, 0, 1, 7, 0, 0xfffffffeu, 0xffffffffu, 0, 0x80000000u, 0x7fffffff, 5, 0, 100, 0xfffffff0u}, hi[] = {0, 1, 2, 6, 7, 0xffffffffu, 0xffffffffu, 0xffffffffu, 0x80000000u, 0xffffffffu, 0x80000000u, 0xfffffffau, 9, 131, 0xffffffffu};
	for (int i = 0; i < 4000; i++) { ck_real(RaRandom(r), "seed", s[0]); nontriv++; } for (int k = 0; k < 15; k++) { std::set<uint32_t> seen; for (int i = 0; i < 400; i++) { uint32_t x = RaRandomInt(r, lo[k], hi[k]); ck_int(x, lo[k], hi[k], "seed", s[0]); seen.insert(x); nontriv++; } if (hi[k] - lo[k] < 10) { if (!seen.count(lo[k]) || !seen.count(hi[k])) fail("%s seed %d: in 400 draws a bound of %u to %u never occurs", AL[a].name, s[0], lo[k], hi[k]); } else if (hi[k] - lo[k] > 1000 && seen.size() < 350) fail("%s seed %d: 400 draws from %u to %u give only %zu values", AL[a].name, s[0], lo[k], hi[k], seen.size()); } RaRandomDestroy(r);
}

// ---------------------------------------------------------------- P34
__attribute__((noinline)) static void dirty_stack(int v) { volatile uint8_t b[24000]; for (size_t i = 0; i < sizeof b; i++) b[i] = v < 0 ? fill(i, -v) : (uint8_t)v; asm volatile("" ::"r"(b) : "memory"); }
struct Out { int r; Bytes b; int opens, reads, taken, calls; };
static Out unseeded(int a, int stack, int heap, const std::function<void()> &setup, const char *what, int n = 40) {
	Out o; RP r = (RP)-1; RP save = r; { env::On e; setup(); alloc_fill = heap; Track t; dirty_stack(stack); o.r = RaRandomCreate(AL[a].a, NULL, stack & 7, &r); o.opens = env::opens; o.reads = env::reads; o.taken = env::ent_pos; o.calls = env::calls; evals++; trans += env::calls;
		if (env::live) fail("%s: creating leaves %d file descriptors open", what, env::live); if (env::bad) fail("%s: creating closes or reads a descriptor that is not open", what);
		if (o.r == 0) { if (r == save || !r) fail("%s: creating reports success without a generator", what); o.b.resize(n); RaRandomBytes(r, n, o.b.data()); RaRandomDestroy(r); } else if (r != save && r != NULL) fail("%s: creating reports %d and hands out a generator", what, o.r);
		track_allocs = false; alloc_fill = -1; if (env::live) fail("%s: %d file descriptors left open", what, env::live); if (live_allocs) fail("%s: leaks %ld allocations", what, live_allocs); }
	return o;
}
static const int FDS[] = {0, 1, 2, 3, 4, 5, 10, 63, 64, 255, 256, 1023, 1024, 65535, 1 << 20, 0x7ffffffe};
SPACE("P34", "descriptors", 0, "4 algorithms x 16 descriptor numbers from 0 on x 6 entropies x 4 clocks: different entropy, different stream; same entropy and clock, same stream whatever the stack and heap held", 4 * 16) {
	int a = idx % 4, fd = FDS[idx / 4]; note("%s, descriptor %d", AL[a].name, fd); for (int c = 0; c < 4; c++) { std::set<Bytes> seen; for (int s = 0; s < 6; s++) { auto set = [&] { env::open_answer = fd; env::entropy(s); env::clk.tv_sec = c == 0 ? 0 : c == 1 ? 12345 : c == 2 ? 4294967 : 0x7fffffff; env::clk.tv_nsec = c * 333333333L; }; char w[100]; snprintf(w, sizeof w, "%s, descriptor %d, entropy %d, clock %d", AL[a].name, fd, s, c); Out o = unseeded(a, 0, 0, set, w); if (o.r) fail("%s: creating returns %d", w, o.r); nontriv++; if (o.taken < 16) fail("%s: only %d bytes of entropy are taken", w, o.taken); if (!seen.insert(o.b).second) fail("%s: the stream does not depend on the entropy", w);
		for (int k = 0; k < 3; k++) { Out p = unseeded(a, k == 0 ? 0xff : k == 1 ? -5 : 1, k == 0 ? 0xff : 0x5a + k, set, w); if (p.b != o.b || p.r != o.r) fail("%s: the stream depends on leftover memory contents", w); } } } sample("%s, descriptor %d", AL[a].name, fd);
}
SPACE("P34", "entropy_bits", 0, "every single bit of the entropy taken flipped: another stream, already in the first bytes and in later blocks; 4 algorithms x 4 base contents x 3 descriptors", 4 * 4 * 3) {
	int a = idx % 4, base = idx / 4 % 4, fd = FDS[idx / 16]; auto set = [&](int bit) { return [=] { env::open_answer = fd; if (base == 0) memset(env::ent, 0, sizeof env::ent); else if (base == 1) memset(env::ent, 0xff, sizeof env::ent); else env::entropy(base); if (bit >= 0) env::ent[bit / 8] ^= 1 << (bit % 8); }; };
	Out o = unseeded(a, 0, 0, set(-1), "entropy", 200); if (o.r) fail("creating returns %d", o.r); if (o.taken < 16 || o.taken > 256) fail("%s: %d bytes of entropy are taken", AL[a].name, o.taken); std::set<Bytes> seen; seen.insert(Bytes(o.b.begin(), o.b.begin() + 16)); std::set<Bytes> late; late.insert(Bytes(o.b.end() - 16, o.b.end()));
	for (int i = 0; i < 8 * o.taken; i++) { char w[80]; snprintf(w, sizeof w, "%s, entropy bit %d flipped", AL[a].name, i); Out p = unseeded(a, 0, 0, set(i), w, 200); nontriv++; if (p.r) fail("%s: creating returns %d", w, p.r); if (!seen.insert(Bytes(p.b.begin(), p.b.begin() + 16)).second || !late.insert(Bytes(p.b.end() - 16, p.b.end())).second) fail("%s: the stream is one seen before", w); }
}
SPACE("P34", "open_fails", 0, "opening the entropy source fails with each of 14 errors: nothing left open, no dependence on leftover memory; 4 algorithms", 4 * 14) {
	static const int er[] = {EACCES, ENOENT, EMFILE, ENFILE, EINTR, ENXIO, ENODEV, EPERM, ENOMEM, EIO, EAGAIN, EROFS, ELOOP, EBUSY}; int a = idx % 4, e = er[idx / 4]; auto set = [&] { env::open_answer = -e; }; char w[60]; snprintf(w, sizeof w, "%s, open fails with %d", AL[a].name, e); Out o = unseeded(a, 0, 0, set, w); nontriv++; for (int k = 0; k < 5; k++) { static const int s[] = {0xff, 0x55, -3, -9, 1}; Out p = unseeded(a, s[k], k * 51, set, w); if (p.r != o.r || p.b != o.b) fail("%s: the stream depends on leftover memory contents", w); }
}
SPACE("P34", "clock_fallback", 0, "no entropy (opening fails, reading fails, delivers nothing or too little): 60 times a second apart and 100 times 10 ms apart all give different streams, the same time the same stream; 4 algorithms", 4 * 4) {
	int a = idx % 4, m = idx / 4; std::set<Bytes> seen; for (int t = 0; t < 160; t++) { auto set = [&] { if (m == 0) env::open_answer = -ENOENT; else env::read_answer = m == 1 ? -EIO : m == 2 ? 0 : 7; env::clk.tv_sec = t < 60 ? 100 + t : 5000; env::clk.tv_nsec = t < 60 ? 0 : (t - 60) * 10000000L; }; char w[80]; snprintf(w, sizeof w, "%s, no entropy (%d), time %d", AL[a].name, m, t);
		Out o = unseeded(a, t & 1 ? -7 : 0x33, t, set, w); nontriv++; if (o.r) return; if (!seen.insert(o.b).second) fail("%s: the stream does not depend on the time", w); Out p = unseeded(a, t & 1 ? 0x77 : -2, 0x10 + t, set, w); if (p.b != o.b) fail("%s: the stream depends on leftover memory contents", w); } }
SPACE("P34", "read_answers", 0, "reading delivers 0 to 40 bytes, or fails with each of 8 errors, from descriptors 0, 3 and 255: nothing left open, no dependence on leftover memory; 4 algorithms", 4 * 3 * 49) {
	static const int er[] = {EIO, EAGAIN, EINTR, EBADF, EFAULT, EINVAL, EISDIR, EPERM}; int a = idx % 4, fd = idx / 4 % 3 == 0 ? 0 : idx / 4 % 3 == 1 ? 3 : 255, k = idx / 12; int ans = k <= 40 ? k : -er[k - 41]; if (ans == -EINTR) return; char w[80]; snprintf(w, sizeof w, "%s, descriptor %d, read answers %d", AL[a].name, fd, ans);
	auto set = [&] { env::open_answer = fd; env::read_answer = ans; env::entropy(3); }; if (ans >= 0 && ans < 1) { } Out o = unseeded(a, 0, 0, set, w); nontriv++; for (int j = 0; j < 5; j++) { static const int s[] = {0xff, 0x55, -3, -9, 1}; Out p = unseeded(a, s[j], j * 51, set, w); if (p.r != o.r || p.b != o.b) fail("%s: the stream depends on leftover memory contents", w); } if (ans >= 32 && o.r == 0) { auto s2 = [&] { env::open_answer = fd; env::read_answer = ans; env::entropy(4); }; Out p = unseeded(a, 0, 0, s2, w); if (p.b == o.b) fail("%s: the stream does not depend on the entropy", w); }
}
SPACE("P34", "interrupted", 0, "opening and reading are interrupted 0 to 4 times each: nothing left open, no dependence on leftover memory", 4 * 5 * 5) { int a = idx % 4, x = idx / 4 % 5, y = idx / 20; auto set = [&] { env::open_eintr = x; env::read_eintr = y; }; char w[80]; snprintf(w, sizeof w, "%s, %d opens and %d reads interrupted", AL[a].name, x, y); Out o = unseeded(a, 0, 0, set, w); nontriv++; for (int j = 0; j < 4; j++) { static const int s[] = {0xff, 0x55, -3, 1}; Out p = unseeded(a, s[j], j * 51, set, w); if (p.r != o.r || p.b != o.b) fail("%s: the stream depends on leftover memory contents", w); } }
SPACE("P34", "successive", 0, "up to 40 generators created one after another in one environment, alive together: all streams different", 4 * 3) { int a = idx % 4; env::On e; env::open_answer = FDS[idx / 4]; std::set<Bytes> seen; std::vector<RP> v; for (int i = 0; i < 40; i++) { RP r = NULL; env::entropy(idx * 100 + i); if (RaRandomCreate(AL[a].a, NULL, 0, &r) || !r) fail("creating fails"); Bytes b(16); RaRandomBytes(r, 16, b.data()); evals++; nontriv++; if (!seen.insert(b).second) fail("%s: generator %d repeats an earlier one's stream", AL[a].name, i); v.push_back(r); } for (RP r : v) RaRandomDestroy(r); if (env::live || env::bad) fail("descriptors left open or closed twice"); }
SPACE("P34", "algorithms", 0, "one entropy, the four algorithms: streams start differently", 6) { Bytes b[4]; for (int a = 0; a < 4; a++) b[a] = unseeded(a, 0, 0, [&] { env::entropy(idx); }, "algorithms", 16).b; for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) { evals++; if (b[i] == b[j]) fail("%s and %s give the same stream", AL[i].name, AL[j].name); } }
SPACE("P34", "no_memory", 0, "each allocation failing while an unseeded generator is created: no descriptor left open", 4 * 6) { int a = idx % 4, k = idx / 4; env::On e; RP r = NULL; Track t; fail_at = k; int q = RaRandomCreate(AL[a].a, NULL, 0, &r); fail_at = -1; evals++; nontriv++; if (env::live || env::bad) fail("%s: allocation %d fails: descriptors left open", AL[a].name, k); if (q == 0) RaRandomDestroy(r); track_allocs = false; if (live_allocs) fail("%s: allocation %d fails: leak", AL[a].name, k); }
// the library's own users of unseeded generators
static Bytes bnbytes(struct RaBigNumber *b) { Bytes o(BnGetBitLength(b) / 8 + 2); int n = BnToByteArray(b, o.data(), (int)o.size()); o.resize(n); return o; }
SPACE("P34", "users", 0, "primes and RSA keys made without a generator: they depend on the entropy, whatever the descriptor number, nothing left open, no dependence on leftover memory", 5 * 4) {
	int fd = FDS[idx % 5], kind = idx / 5; std::set<Bytes> seen; for (int s = 0; s < 8; s++) { Bytes first; for (int k = 0; k < 2; k++) { env::On e; env::open_answer = fd; env::entropy(s); dirty_stack(k ? 0xff : -7); Bytes o; int r;
		if (kind == 3) { struct RaRsaKeyPair *kp = NULL; r = RaRsaCreateKeyPair(96, &kp); if (r == 0) { o.resize(400); int l = 0; RaRsaPrivKeyToByteArray(kp, o.data(), 400, &l); o.resize(l); RaRsaDestroyKeyPair(kp); } } else { struct RaBigNumber *b = BnNew(128); r = kind == 0 ? RaGenPrimeNumber(b, 100) : kind == 1 ? RaGenPrimeNumberEx(b, 100, NULL, NULL, NULL) : RaGenPrimeNumberEx(b, 64, NULL, NULL, NULL); if (r == 0) o = bnbytes(b); BnFree(b); }
		evals++; nontriv++; if (r) fail("kind %d, descriptor %d: returns %d", kind, fd, r); if (env::live || env::bad) fail("kind %d, descriptor %d: descriptors left open or closed wrongly", kind, fd); if (k == 0) first = o; else if (o != first) fail("kind %d, descriptor %d: the result depends on leftover memory", kind, fd); } if (!seen.insert(first).second) fail("kind %d, descriptor %d: entropy %d gives a result seen before", kind, fd, s); }
}
