// P38: what is passed in to be read is only read (not even changed for a moment), and not needed once the call returns.
#include "ciphers.h"
#include "digests.h"
#undef fail
#include "rsakeys.h"
typedef struct RaRandom *RP;
// bytes in a page of their own that can be made read-only, and taken away
struct Page {
	Guard g; Page() : g(70000) {}
	uint8_t *put(const void *p, size_t n, size_t off = 0) { mprotect(g.base, g.size, PROT_READ | PROT_WRITE); uint8_t *d = g.tail(n + off); if (n) memcpy(d, p, n); mprotect(g.base, g.size, PROT_READ); return d; }
	void gone() { mprotect(g.base, g.size, PROT_NONE); }
};
static Page &pg(int i) { static Page p[4]; return p[i]; }

SPACE("P38", "own_ciphers", 0, "every cipher x mode x direction x alignment of key, IV and data (0-7) x how the message is cut (0-3) x created or initialised", NALG * 4 * 2 * 8 * 4 * 2) {
	int a = (int)(idx % NALG), m = idx / NALG % 4; bool dec = idx / NALG / 4 % 2; int off = idx / NALG / 8 % 8, cut = idx / NALG / 64 % 4; bool cr = idx / NALG / 256 % 2; int bs = ALG[a].blk;
	uint8_t key[64], iv[16], d[80], o[2][160], v[2][16]; int n[2]; fillbuf(key, 64, 3 + idx); fillbuf(iv, 16, 9); fillbuf(d, 80, 5); int len = 4 * bs + (dec ? 0 : 3);
	for (int ro = 0; ro < 2; ro++) {
		note("%s %s %s, offset %d, cut %d, %s: %s inputs", ALG[a].name, MODE[m], dec ? "decrypt" : "encrypt", off, cut, cr ? "created" : "initialised", ro ? "read-only, then unmapped" : "ordinary");
		AnyCtx mem; void *c = &mem; const uint8_t *k = ro ? pg(0).put(key, ALG[a].keylen, off) : key; if (cr) { if (alg_create(a, &c, k, m)) fail("create"); } else alg_init(a, c, k, m); if (ro) pg(0).gone();
		const uint8_t *pi = ro ? pg(1).put(iv, bs, off) : iv; alg_setiv(a, c, pi); if (ro) pg(1).gone();
		n[ro] = 0; int pos = 0; static const int S[4][4] = {{0, 0, 0, 0}, {1, 7, 8, 0}, {16, 0, 5, 0}, {3, 20, 1, 0}}; memset(o[ro], 0, 160);
		for (int s = 0; s < 3; s++) if (S[cut][s] && pos + S[cut][s] < len) { const uint8_t *p = ro ? pg(2).put(d + pos, S[cut][s], off) : d + pos; n[ro] += alg_proc(a, c, dec, p, S[cut][s], o[ro] + n[ro]); pos += S[cut][s]; if (ro) pg(2).gone(); }
		const uint8_t *p = ro ? pg(2).put(d + pos, len - pos, off) : d + pos; n[ro] += alg_final(a, c, dec, p, len - pos, o[ro] + n[ro], dec ? RA_BLOCK_PADDING_NONE : RA_BLOCK_PADDING_PKCS7); if (ro) pg(2).gone();
		alg_getiv(a, c, v[ro]); if (cr) alg_destroy(a, c); evals++; nontriv++;
	}
	if (n[0] != n[1] || memcmp(o[0], o[1], 160) || memcmp(v[0], v[1], bs)) fail("%s %s: other result when the inputs are gone after each call", ALG[a].name, MODE[m]);
	sample("%s %s %s offset %d", ALG[a].name, MODE[m], dec ? "decrypt" : "encrypt", off);
}
SPACE("P38", "own_keylens", 0, "RC4 and Blowfish keys of every length", 256) {
	uint8_t key[256], d[40], o[2][40]; fillbuf(key, 256, 3); fillbuf(d, 40, 4); int kl = (int)idx + 1;
	for (int alg = 0; alg < 2; alg++) { if (alg && kl > 72) continue; for (int ro = 0; ro < 2; ro++) {
		note("%s key of %d bytes, %s", alg ? "Blowfish" : "RC4", kl, ro ? "read-only" : "ordinary"); const uint8_t *k = ro ? pg(0).put(key, kl) : key; RaRc4Ctx *r = NULL; RaBlowfishCtx *b = NULL; if (alg ? RaBlowfishCreate(k, kl, RA_BLOCK_MODE_CBC, &b) : RaRc4Create(k, kl, &r)) fail("create"); if (ro) pg(0).gone();
		const uint8_t *p = ro ? pg(2).put(d, 40) : d; if (alg) { RaBlowfishEncrypt(b, p, 40, o[ro]); RaBlowfishDestroy(b); } else { RaRc4Encrypt(r, p, 20, o[ro]); RaRc4Encrypt(r, p + 20, 20, o[ro] + 20); RaRc4Destroy(r); } if (ro) pg(2).gone(); evals++; nontriv++; }
	if (memcmp(o[0], o[1], 40)) fail("%s, key of %d bytes: other result when the inputs are gone after each call", alg ? "Blowfish" : "RC4", kl); }
}
SPACE("P38", "own_digests", 0, "every digest x first update of 0-200 bytes x alignment of the message (0-7)", NDG * 201 * 8) {
	int d = (int)(idx % NDG), n = idx / NDG % 201, off = (int)(idx / NDG / 201); uint8_t b[400], o[2][64] = {{0}}; fillbuf(b, 400, 7 + idx); DgCtx c;
	for (int ro = 0; ro < 2; ro++) { note("%s, updates of %d and 130 bytes, offset %d, %s", DG[d].name, n, off, ro ? "read-only" : "ordinary"); dg_init(d, &c); const uint8_t *p = ro ? pg(0).put(b, n, off) : b; dg_update(d, &c, p, n); if (ro) pg(0).gone(); p = ro ? pg(0).put(b + n, 130, off) : b + n; dg_update(d, &c, p, 130); if (ro) pg(0).gone(); dg_final(d, &c, o[ro]); evals++; nontriv++; }
	if (memcmp(o[0], o[1], 64)) fail("%s: other digest when the message is gone after each update", DG[d].name);
	uint8_t q[64]; const uint8_t *p = pg(0).put(b, n, off); dg_oneshot(d, p, n, q); pg(0).gone(); sample("%s %d+130 offset %d", DG[d].name, n, off);
}
SPACE("P38", "own_seeds", 0, "generators: every algorithm x seed lengths 1-200", 4 * 200) {
	uint8_t s[200], o[2][100]; fillbuf(s, 200, 3 + idx % 7); int n = 1 + (int)(idx / 4);
	for (int ro = 0; ro < 2; ro++) { note("generator %d, seed of %d bytes, %s", (int)(idx % 4), n, ro ? "read-only" : "ordinary"); RP g; uint8_t *p = ro ? pg(0).put(s, n) : s; if (RaRandomCreate((RaRandomAlgorithm)(RA_RAND_SHA160 + idx % 4), p, n, &g)) fail("create"); if (ro) pg(0).gone(); RaRandomBytes(g, 100, o[ro]); RaRandomDestroy(g); evals++; nontriv++; }
	if (memcmp(o[0], o[1], 100)) fail("generator %d, seed of %d bytes: other stream when the seed is gone", (int)(idx % 4), n);
}
SPACE("P38", "own_bytes", 0, "big-endian byte strings of 1-80 bytes x six leading bytes, signed and unsigned", 80 * 6) {
	static const uint8_t F0[6] = {0x80, 0xff, 0x7f, 0x01, 0x00, 0xfe}; int n = 1 + (int)(idx / 6); uint8_t b[80]; fillbuf(b, 80, idx); b[0] = F0[idx % 6];
	for (int sg = 0; sg < 2; sg++) { note("%d bytes from %02x, %s", n, b[0], sg ? "signed" : "unsigned"); BN x = BnNewW(88), y = BnNewW(88); uint8_t *p = pg(0).put(b, n); int e = sg ? BnSetByteArray(x, p, n) : BnSetUByteArray(x, p, n); pg(0).gone(); int f = sg ? BnSetByteArray(y, b, n) : BnSetUByteArray(y, b, n); evals++; nontriv++; if (e != f || BnCmp(x, y)) fail("%d bytes from %02x: other number when the bytes are gone", n, b[0]); BnFree(x); BnFree(y); }
}
// numbers that cannot be written: header and words in read-only pages
struct RoVals { std::vector<BN> v; std::vector<Z> z; };
static RoVals &rovals(bool small) {
	static RoVals s[2]; RoVals &r = s[small]; if (r.v.size()) return r; static const W A[] = {0, 1, 2, WTOP, WMAX, WMAX - 1, (W)0x123456789abcdefULL}; size_t na = sizeof A / sizeof *A; int L = small ? 2 : 3;
	std::vector<Z> &z = r.z; for (int l = 1; l <= L; l++) { size_t t = 1; for (int i = 0; i < l; i++) t *= na; for (size_t k = 0; k < t; k++) { W w[4]; size_t x = k; for (int i = 0; i < l; i++) { w[i] = A[x % na]; x /= na; } if (l > 1 && !w[l - 1]) continue; Z q; mpz_import(q, l, -1, WB, 0, 0, w); z.push_back(q); if (mpz_sgn(q)) { mpz_neg(q, q); z.push_back(q); } } }
	uint8_t *m = (uint8_t *)mmap(NULL, z.size() * 128 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) _exit(9);
	for (size_t i = 0; i < z.size(); i++) { BN b = (BN)(m + i * 128); b->data = (W *)(m + i * 128 + 64); b->max_length = 8; setbn(b, z[i]); r.v.push_back(b); }
	mprotect(m, z.size() * 128 + 4096, PROT_READ); return r;
}
struct Tmp { BN b; Tmp(int w) { b = BnNewW(w); stale(b); } ~Tmp() { BnFree(b); } operator BN() { return b; } BN operator->() { return b; } };
static bool eqb(BN x, BN y) { return x->length == y->length && x->sign == y->sign && !memcmp(x->data, y->data, (size_t)x->length * WB); }
// run once with ordinary copies, once with the unwritable originals
static void both(const char *what, BN a, BN b, mpz_srcptr za, mpz_srcptr zb, const std::function<int(BN, BN, BN, BN, BN)> &f) {
	note("%s of unwritable numbers %s, %s", what, str(za).c_str(), str(zb).c_str()); BN ca = mk(za, 8), cb = mk(zb, 8); BN o[2][3]; int e[2];
	for (int k = 0; k < 2; k++) { for (int i = 0; i < 3; i++) { o[k][i] = BnNewW(20); BnSetUInt(o[k][i], 7); } e[k] = f(k ? a : ca, k ? b : cb, o[k][0], o[k][1], o[k][2]); }
	bool bad = e[0] != e[1]; for (int i = 0; i < 3; i++) { bad = bad || !eqb(o[0][i], o[1][i]); BnFree(o[0][i]); BnFree(o[1][i]); } if (!same(ca, za) || !same(cb, zb)) bad = true; BnFree(ca); BnFree(cb); evals++; nontriv++; if (bad) fail("%s of %s, %s: other result (%d, %d) or an operand changed", what, str(za).c_str(), str(zb).c_str(), e[0], e[1]);
}
SPACE("P38", "own_numbers", 0, "every pair of a set of signed numbers of up to two words over 7 boundary words (thorough three): all operations with two operands", rovals(!thorough).v.size()) {
	RoVals &s = rovals(!thorough); BN a = s.v[idx]; mpz_srcptr za = s.z[idx];
	for (size_t j = 0; j < s.v.size(); j++) { BN b = s.v[j]; mpz_srcptr zb = s.z[j];
		both("comparison", a, b, za, zb, [](BN x, BN y, BN, BN, BN) { return BnCmp(x, y); }); both("sum", a, b, za, zb, [](BN x, BN y, BN r, BN, BN) { return BnAdd(r, x, y); }); both("difference", a, b, za, zb, [](BN x, BN y, BN r, BN, BN) { return BnSub(r, x, y); }); both("product", a, b, za, zb, [](BN x, BN y, BN r, BN, BN) { return BnMul(r, x, y); });
		if (mpz_sgn(zb)) { both("division", a, b, za, zb, [](BN x, BN y, BN q, BN r, BN) { return BnDiv(q, r, x, y); }); both("modulo", a, b, za, zb, [](BN x, BN y, BN r, BN, BN) { return BnMod(r, x, y); }); }
		if (mpz_sgn(za) > 0 && mpz_sgn(zb) > 0) { both("gcd", a, b, za, zb, [](BN x, BN y, BN r, BN, BN) { return GetGCD(r, x, y); }); for (int u = 0; u < 2; u++) both("extended gcd", a, b, za, zb, [u](BN x, BN y, BN r, BN p, BN q) { return GetGCDEx(r, p, q, x, y, u); }); }
		if (mpz_sgn(za) >= 0 && mpz_sgn(zb) >= 0 && j % 3 == 0) both("power modulo an odd number", a, b, za, zb, [](BN x, BN y, BN r, BN, BN) { Tmp n(3); n->length = 2; n->sign = 0; n->data[0] = WMAX - 4; n->data[1] = 3; RaMontCtx *c; int e = RaMontCreate(n, &c); if (e) return e; e = RaMontExpMod(c, r, x, y); RaMontDestroy(c); return e; });
	}
	sample("%s with %zu others", str(za).c_str(), s.v.size());
}
SPACE("P38", "own_number", 0, "the same set of up to three words: all operations with one operand", rovals(false).v.size()) {
	RoVals &s = rovals(false); BN a = s.v[idx]; mpz_srcptr za = s.z[idx]; const char *w = "single-operand functions";
	both(w, a, a, za, za, [](BN x, BN, BN r, BN, BN) { return BnSet(r, x); }); both("square", a, a, za, za, [](BN x, BN, BN r, BN, BN) { return BnSqr(r, x); }); both("double", a, a, za, za, [](BN x, BN, BN r, BN, BN) { return BnDouble(r, x); });
	both("clone", a, a, za, za, [](BN x, BN, BN r, BN, BN) { BN c = BnClone(x); if (!c) return -9; BnAddUInt(c, 1); BnSubUInt(c, 1); int e = BnSet(r, c); BnFree(c); return e; });
	both("bit length", a, a, za, za, [](BN x, BN, BN, BN, BN) { return BnGetBitLength(x); }); both("bytes", a, a, za, za, [](BN x, BN, BN r, BN, BN) { uint8_t b[40]; int n = BnToByteArray(x, NULL, 0); if (n <= 0 || n > 40) return n; n = BnToByteArray(x, b, 40); return n > 0 ? BnSetByteArray(r, b, n) * 100 + n : n; });
	both("fixed bytes", a, a, za, za, [](BN x, BN, BN r, BN, BN) { uint8_t b[40]; int n = BnToFixedByteArray(x, b, 40); BnSetUByteArray(r, b, 40); return n; });
	both("word remainder", a, a, za, za, [](BN x, BN, BN r, BN, BN) { bn_uint_t m = 0; int e = BnModUInt(x, 1000003, &m); BnSetUInt(r, m); return e; }); both("word comparisons", a, a, za, za, [](BN x, BN, BN, BN, BN) { return 100 + BnCmpInt(x, -1) * 3 + BnCmpUInt(x, WMAX); });
	both("lengths", a, a, za, za, [](BN x, BN, BN, BN, BN) { return BnGetLength(x) * 100 + BnGetMaxLength(x); });
	both("primality", a, a, za, za, [](BN x, BN, BN, BN, BN) { return RaIsPrimeNumber(x); });
	if (mpz_sgn(za) > 0 && mpz_odd_p(za)) both("prepared modulus", a, a, za, za, [](BN x, BN, BN r, BN, BN) { RaMontCtx *c; int e = RaMontCreate(x, &c); if (e) return e; Tmp b(1), k(1); BnSetUInt(b, 5); BnSetUInt(k, 77); e = RaMontExpMod(c, r, b, k); RaMontDestroy(c); return e; });
	sample("%s", str(za).c_str());
}
static std::vector<K> &keys() { static std::vector<K> k; if (k.empty()) for (int b : {24, 33, 64, 127, 128, 192, 256, 257, 512}) k.push_back(sized_key(b)); return k; }
SPACE("P38", "own_moduli", 0, "a prepared modulus after the number it was made from is overwritten and freed; a clone after its original is", 40) {
	K &k = keys()[3]; Z e, w, t; mpz_set(e, k.d()); mpz_add_ui(t, k.n(), 2 * idx); Z b(12345 + (long)idx); mpz_powm(w, b, e, t); BN N = mk(t, 9), B = mk(b, 4), E = mk(e, 4), r = BnNewW(12), C = BnClone(N); RaMontCtx *c; if (RaMontCreate(N, &c) || !C) fail("create"); memset(N->data, 0xEE, 9 * WB); N->length = 1; BnFree(N); evals++; nontriv++;
	if (RaMontExpMod(c, r, B, E) || !same(r, w)) fail("a prepared modulus depends on the number it was made from"); if (!same(C, t)) fail("a clone depends on its original"); memset(B->data, 0xEE, 4 * WB); memset(E->data, 0xEE, 4 * WB); BnFree(B); BnFree(E); if (!same(r, w)) fail("a result depends on its operands"); RaMontDestroy(c); BnFree(r); BnFree(C);
}
SPACE("P38", "own_rsa", 0, "keys of nine sizes x seven messages: encodings, messages and signatures unwritable and gone after the call", keys().size() * 7) {
	K &k = keys()[idx / 7]; Z m; switch (idx % 7) { case 0: break; case 1: mpz_set_ui(m, 1); break; case 2: mpz_sub_ui(m, k.n(), 1); break; case 3: mpz_fdiv_q_2exp(m, k.n(), 1); break; case 4: mpz_set(m, k.p()); break; case 5: mpz_set_ui(m, 2); break; default: mpz_fdiv_q_ui(m, k.n(), 3); mpz_mul_2exp(m, m, 1); }
	Bytes pv = enc(priv1(k)), pu = enc(pub1(k)), p8 = priv8(k); Z c, s; mpz_powm(c, m, k.e(), k.n()); mpz_powm(s, m, k.d(), k.n());
	static uint8_t *pgm; if (!pgm) pgm = (uint8_t *)mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(pgm, 8192, PROT_READ | PROT_WRITE); BN x[3]; for (int i = 0; i < 3; i++) { x[i] = (BN)(pgm + i * 2048); x[i]->data = (W *)(pgm + i * 2048 + 64); x[i]->max_length = 100; setbn(x[i], i == 0 ? m.z : i == 1 ? c.z : s.z); } mprotect(pgm, 8192, PROT_READ);
	note("RSA with a %d-bit key: unwritable inputs", (int)mpz_sizeinbase(k.n(), 2)); KP a = NULL, b = NULL; uint8_t *p = pg(0).put(pv.data(), pv.size()); int e = RaRsaCreateKeyPriv(p, (int)pv.size(), &a); pg(0).gone(); p = pg(0).put(pu.data(), pu.size()); int f = RaRsaCreateKeyPub(p, (int)pu.size(), &b); pg(0).gone(); if (e || f) fail("import of unwritable bytes returns %d, %d", e, f);
	int W0 = words_of(k.n()) + 1; Tmp r(W0); evals += 5; nontriv++;
	if (RaRsaEncrypt(b, x[0], r) || !same(r, c)) fail("encryption of an unwritable message"); if (RaRsaDecrypt(a, x[1], r) || !same(r, m)) fail("decryption of an unwritable message"); if (RaRsaSign(a, x[0], r) || !same(r, s)) fail("signature of an unwritable message"); if (RaRsaVerify(b, x[2], x[0])) fail("verification with unwritable numbers"); if (RaRsaVerify(b, x[0], x[2]) == 0 && mpz_cmp(m, s)) { Z t; mpz_powm(t, m, k.e(), k.n()); if (mpz_cmp(t, s)) fail("verification accepts a wrong signature"); }
	p = pg(0).put(p8.data(), p8.size()); KP g = NULL; e = RaRsaCreateKeyFromByteArray(p, (int)p8.size(), &g); pg(0).gone(); if (e) fail("import"); if (RaRsaVerifyKey(g)) fail("an imported key depends on the bytes it came from"); RaRsaDestroyKeyPair(a); RaRsaDestroyKeyPair(b); RaRsaDestroyKeyPair(g); sample("%d bits, message %d", (int)mpz_sizeinbase(k.n(), 2), (int)(idx % 7));
}
