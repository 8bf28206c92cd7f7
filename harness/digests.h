// The digests of the library behind one interface, with references.
#pragma once
#include "vh.h"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/md4.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <openssl/evp.h>
enum { D_MD2, D_MD4, D_MD5, D_HAS160, D_SHA1, D_SHA224, D_SHA256, D_SHA384, D_SHA512, D_SHA512_224, D_SHA512_256, NDG };
struct Dg { const char *name; int len, blk; int ra; };
static const Dg DG[NDG] = {{"MD2", 16, 16, RA_DGST_MD2}, {"MD4", 16, 64, RA_DGST_MD4}, {"MD5", 16, 64, RA_DGST_MD5}, {"HAS-160", 20, 64, -1}, {"SHA-1", 20, 64, RA_DGST_SHA1},
	{"SHA-224", 28, 64, RA_DGST_SHA2_224}, {"SHA-256", 32, 64, RA_DGST_SHA2_256}, {"SHA-384", 48, 128, RA_DGST_SHA2_384}, {"SHA-512", 64, 128, RA_DGST_SHA2_512},
	{"SHA-512/224", 28, 128, RA_DGST_SHA2_512_224}, {"SHA-512/256", 32, 128, RA_DGST_SHA2_512_256}};
union DgCtx { RaMd2Ctx md2; RaMd4Ctx md4; RaMd5Ctx md5; RaHas160Ctx has; RaSha1Ctx sha1; RaSha2Ctx sha2; };
static inline void dg_init(int d, void *c) {
	switch (d) { case D_MD2: RaMd2Init((RaMd2Ctx *)c); break; case D_MD4: RaMd4Init((RaMd4Ctx *)c); break; case D_MD5: RaMd5Init((RaMd5Ctx *)c); break;
	case D_HAS160: RaHas160Init((RaHas160Ctx *)c); break; case D_SHA1: RaSha1Init((RaSha1Ctx *)c); break;
	default: RaSha2Init((RaSha2Ctx *)c, (RaDigestAlgorithm)DG[d].ra); }
}
static inline void dg_update(int d, void *c, const uint8_t *p, int n) {
	switch (d) { case D_MD2: RaMd2Update((RaMd2Ctx *)c, p, n); break; case D_MD4: RaMd4Update((RaMd4Ctx *)c, p, n); break; case D_MD5: RaMd5Update((RaMd5Ctx *)c, p, n); break;
	case D_HAS160: RaHas160Update((RaHas160Ctx *)c, p, n); break; case D_SHA1: RaSha1Update((RaSha1Ctx *)c, p, n); break;
	default: RaSha2Update((RaSha2Ctx *)c, p, n); }
}
static inline void dg_final(int d, void *c, uint8_t *o) {
	switch (d) { case D_MD2: RaMd2Final((RaMd2Ctx *)c, o); break; case D_MD4: RaMd4Final((RaMd4Ctx *)c, o); break; case D_MD5: RaMd5Final((RaMd5Ctx *)c, o); break;
	case D_HAS160: RaHas160Final((RaHas160Ctx *)c, o); break; case D_SHA1: RaSha1Final((RaSha1Ctx *)c, o); break;
	default: RaSha2Final((RaSha2Ctx *)c, o); }
}
static inline int dg_create_(int d, void **c) {
	switch (d) { case D_MD2: return RaMd2Create((RaMd2Ctx **)c); case D_MD4: return RaMd4Create((RaMd4Ctx **)c); case D_MD5: return RaMd5Create((RaMd5Ctx **)c);
	case D_HAS160: return RaHas160Create((RaHas160Ctx **)c); case D_SHA1: return RaSha1Create((RaSha1Ctx **)c);
	default: return RaSha2Create((RaDigestAlgorithm)DG[d].ra, (RaSha2Ctx **)c); }
}
static inline int dg_create(int d, void **c) { int r = dg_create_(d, c); vh::from_lib(c); return r; }
static inline void dg_destroy(int d, void *c) {
	switch (d) { case D_MD2: RaMd2Destroy((RaMd2Ctx *)c); break; case D_MD4: RaMd4Destroy((RaMd4Ctx *)c); break; case D_MD5: RaMd5Destroy((RaMd5Ctx *)c); break;
	case D_HAS160: RaHas160Destroy((RaHas160Ctx *)c); break; case D_SHA1: RaSha1Destroy((RaSha1Ctx *)c); break;
	default: RaSha2Destroy((RaSha2Ctx *)c); }
}
// one-shot function, where there is one
static inline bool dg_oneshot(int d, const uint8_t *p, int n, uint8_t *o) {
	switch (d) { case D_MD2: RaMd2(p, n, o); break; case D_MD4: RaMd4(p, n, o); break; case D_MD5: RaMd5(p, n, o); break; case D_HAS160: RaHas160(p, n, o); break;
	case D_SHA1: RaSha1(p, n, o); break; case D_SHA256: RaSha256(p, n, o); break; case D_SHA512: RaSha512(p, n, o); break; default: return false; }
	return true;
}
// ---- references ----
struct RefMd2 {
	uint8_t st[16], ck[16], buf[16]; int n;
	// the substitution table is generated from the digits of pi as RFC 1319 describes
	static const uint8_t *S() {
		static uint8_t t[256]; static bool ok; if (ok) return t;
		static int digits[800]; { // spigot
			const int N = 800, L = N * 10 / 3 + 2; static int a[800 * 10 / 3 + 2]; for (int i = 0; i < L; i++) a[i] = 2; int nines = 0, pre = 0, out = 0; bool first = true;
			for (int j = 0; j < N + 20 && out < 800; j++) { int q = 0; for (int i = L; i > 0; i--) { int x = 10 * a[i - 1] + q * i; a[i - 1] = x % (2 * i - 1); q = x / (2 * i - 1); } a[0] = q % 10; q /= 10;
				if (q == 9) nines++; else if (q == 10) { if (!first || 1) digits[out++] = pre + 1; for (int k = 0; k < nines && out < 800; k++) digits[out++] = 0; pre = 0; nines = 0; }
				else { if (j) digits[out++] = pre; pre = q; for (int k = 0; k < nines && out < 800; k++) digits[out++] = 9; nines = 0; } first = false; } }
		int p = 0; while (p < 800 && digits[p] != 3) p++; // starts at 3.14159...
		auto rnd = [&](int n) { for (;;) { int x = digits[p++], y = 10; if (n > 10) { x = x * 10 + digits[p++]; y = 100; } if (n > 100) { x = x * 10 + digits[p++]; y = 1000; } if (x < n * (y / n)) return x % n; } };
		for (int i = 0; i < 256; i++) t[i] = (uint8_t)i;
		for (int i = 2; i <= 256; i++) { int j = rnd(i); std::swap(t[j], t[i - 1]); }
		ok = true; return t;
	}
	void init() { memset(this, 0, sizeof *this); }
	void blk(const uint8_t *m) {
		const uint8_t *s = S(); uint8_t x[48]; for (int i = 0; i < 16; i++) { x[i] = st[i]; x[16 + i] = m[i]; x[32 + i] = st[i] ^ m[i]; }
		uint8_t l = ck[15]; for (int i = 0; i < 16; i++) { ck[i] ^= s[m[i] ^ l]; l = ck[i]; }
		uint8_t t = 0; for (int j = 0; j < 18; j++) { for (int k = 0; k < 48; k++) { x[k] ^= s[t]; t = x[k]; } t = (uint8_t)(t + j); }
		memcpy(st, x, 16);
	}
	void update(const uint8_t *p, size_t k) { while (k--) { buf[n++] = *p++; if (n == 16) { blk(buf); n = 0; } } }
	void fin(uint8_t *o) { int v = 16 - n; while (n < 16) buf[n++] = (uint8_t)v; blk(buf); uint8_t c[16]; memcpy(c, ck, 16); blk(c); memcpy(o, st, 16); }
};
struct RefHas160 {
	uint32_t h[5]; uint8_t buf[64]; int n; uint64_t len;
	void init() { static const uint32_t I[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; memcpy(h, I, 20); n = 0; len = 0; }
	void blk(const uint8_t *m) {
		static const uint8_t O[4][20] = {{18,0,1,2,3,19,4,5,6,7,16,8,9,10,11,17,12,13,14,15}, {18,3,6,9,12,19,15,2,5,8,16,11,14,1,4,17,7,10,13,0},
			{18,12,5,14,7,19,0,9,2,11,16,4,13,6,15,17,8,1,10,3}, {18,7,2,13,8,19,3,14,9,4,16,15,10,5,0,17,11,6,1,12}};
		static const uint8_t X[4][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {3,6,9,12,15,2,5,8,11,14,1,4,7,10,13,0}, {12,5,14,7,0,9,2,11,4,13,6,15,8,1,10,3}, {7,2,13,8,3,14,9,4,15,10,5,0,11,6,1,12}};
		static const uint8_t S1[20] = {5,11,7,15,6,13,8,14,7,12,9,11,8,15,6,12,9,14,5,13}; static const uint8_t S2[4] = {10,17,25,30};
		static const uint32_t K[4] = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC};
		uint32_t w[20]; for (int i = 0; i < 16; i++) w[i] = m[4 * i] | m[4 * i + 1] << 8 | m[4 * i + 2] << 16 | (uint32_t)m[4 * i + 3] << 24;
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; auto rl = [](uint32_t x, int r) { return x << r | x >> (32 - r); };
		for (int r = 0; r < 4; r++) {
			for (int k = 0; k < 4; k++) w[16 + k] = w[X[r][4 * k]] ^ w[X[r][4 * k + 1]] ^ w[X[r][4 * k + 2]] ^ w[X[r][4 * k + 3]];
			for (int j = 0; j < 20; j++) { uint32_t f = r == 0 ? (b & c) | (~b & d) : r == 2 ? c ^ (b | ~d) : b ^ c ^ d; uint32_t t = rl(a, S1[j]) + f + e + w[O[r][j]] + K[r]; e = d; d = c; c = rl(b, S2[r]); b = a; a = t; }
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
	}
	void update(const uint8_t *p, size_t k) { len += k; while (k) { if (n == 0 && k >= 64) { blk(p); p += 64; k -= 64; continue; } buf[n++] = *p++; k--; if (n == 64) { blk(buf); n = 0; } } }
	void fin(uint8_t *o) { uint64_t bits = len * 8; buf[n++] = 0x80; if (n > 56) { while (n < 64) buf[n++] = 0; blk(buf); n = 0; } while (n < 56) buf[n++] = 0; for (int i = 0; i < 8; i++) buf[56 + i] = (uint8_t)(bits >> 8 * i); blk(buf); for (int i = 0; i < 5; i++) for (int j = 0; j < 4; j++) o[4 * i + j] = (uint8_t)(h[i] >> 8 * j); }
};
static inline void sha512t_init(SHA512_CTX *c, int bits) { // initial values of SHA-512/t, generated as FIPS 180-4 prescribes
	static SHA512_CTX T[2]; static bool ok; if (!ok) { for (int k = 0; k < 2; k++) { SHA512_CTX g; SHA512_Init(&g); for (int i = 0; i < 8; i++) g.h[i] ^= 0xa5a5a5a5a5a5a5a5ULL; uint8_t o[64]; SHA512_Update(&g, k ? "SHA-512/256" : "SHA-512/224", 11); SHA512_Final(o, &g); SHA512_Init(&T[k]); for (int i = 0; i < 8; i++) { uint64_t v = 0; for (int j = 0; j < 8; j++) v = v << 8 | o[8 * i + j]; T[k].h[i] = v; } } ok = true; }
	*c = T[bits == 256];
}
struct RefDg {
	int d; RefMd2 md2; RefHas160 has; MD4_CTX md4; MD5_CTX md5; SHA_CTX sha1; SHA256_CTX s256; SHA512_CTX s512;
	void init(int dd) { d = dd; switch (d) { case D_MD2: md2.init(); break; case D_MD4: MD4_Init(&md4); break; case D_MD5: MD5_Init(&md5); break; case D_HAS160: has.init(); break; case D_SHA1: SHA1_Init(&sha1); break;
		case D_SHA224: SHA224_Init(&s256); break; case D_SHA256: SHA256_Init(&s256); break; case D_SHA384: SHA384_Init(&s512); break; case D_SHA512: SHA512_Init(&s512); break; case D_SHA512_224: sha512t_init(&s512, 224); break; default: sha512t_init(&s512, 256); } }
	void update(const uint8_t *p, size_t n) { switch (d) { case D_MD2: md2.update(p, n); break; case D_MD4: MD4_Update(&md4, p, n); break; case D_MD5: MD5_Update(&md5, p, n); break; case D_HAS160: has.update(p, n); break; case D_SHA1: SHA1_Update(&sha1, p, n); break;
		case D_SHA224: SHA224_Update(&s256, p, n); break; case D_SHA256: SHA256_Update(&s256, p, n); break; default: SHA512_Update(&s512, p, n); } }
	void fin(uint8_t *o) { uint8_t t[64]; switch (d) { case D_MD2: md2.fin(o); break; case D_MD4: MD4_Final(o, &md4); break; case D_MD5: MD5_Final(o, &md5); break; case D_HAS160: has.fin(o); break; case D_SHA1: SHA1_Final(o, &sha1); break;
		case D_SHA224: SHA224_Final(o, &s256); break; case D_SHA256: SHA256_Final(o, &s256); break; case D_SHA384: SHA384_Final(o, &s512); break; default: s512.md_len = 64; SHA512_Final(t, &s512); memcpy(o, t, DG[d].len); } }
	// the reference as if `bytes` bytes (a multiple of the block) had been absorbed into the present chaining value
	void inject(unsigned __int128 bytes) { unsigned __int128 b = bytes * 8; switch (d) { case D_HAS160: has.len = (uint64_t)bytes; break;
		case D_MD4: md4.Nl = (uint32_t)b; md4.Nh = (uint32_t)(b >> 32); break; case D_MD5: md5.Nl = (uint32_t)b; md5.Nh = (uint32_t)(b >> 32); break; case D_SHA1: sha1.Nl = (uint32_t)b; sha1.Nh = (uint32_t)(b >> 32); break;
		case D_SHA224: case D_SHA256: s256.Nl = (uint32_t)b; s256.Nh = (uint32_t)(b >> 32); break; default: s512.Nl = (uint64_t)b; s512.Nh = (uint64_t)(b >> 64); } }
};
static inline void ref_digest(int d, const uint8_t *p, size_t n, uint8_t *o) { RefDg r; r.init(d); r.update(p, n); r.fin(o); }
