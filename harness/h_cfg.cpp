// P14: one corpus of operations, executed by every build; what each case observes is hashed and compared between the builds.
// Operands are built from 32-bit pieces so that both word sizes meet their boundaries.
#include "ciphers.h"
#include "digests.h"
#include "rsakeys.h"
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
// ---------------------------------------------------------------- ciphers
static int chunkn(int B, int i) { int t[12] = {0, 1, B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B, 4 * B, 5 * B - 1, 9 * B, 5}; return t[i]; }
static void c_run(uint64_t idx, bool dec) {
	int a = idx % NALG; idx /= NALG; int mode = idx % 4; idx /= 4; int kw = idx % 5; idx /= 5; int pad = idx % 3; idx /= 3; int c1 = idx % 12; idx /= 12; int c2 = idx % 12;
	uint8_t key[64], iv[16]; key_for(a, kw, key); fillbuf(iv, 16, 8 + kw); static AnyCtx c; memset(&c, 0x3c, sizeof c); alg_init(a, &c, key, mode); if (kw) alg_setiv(a, &c, iv);
	static Guard gi(8192), go(8192); int B = ALG[a].blk, L[3] = {chunkn(B, c1), chunkn(B, c2), 2 * B + (kw & 1 ? 3 : 0)}; uint64_t pos = 0;
	for (int i = 0; i < 3; i++) { int n = L[i]; uint8_t *in = gi.tail(n); for (int j = 0; j < n; j++) in[j] = kw == 1 ? 0 : kw == 2 ? 0xff : fill(pos + j, 12 + kw); pos += n; uint8_t *o = go.head(); memset(o, 0, n + 2 * B); int r = i == 2 ? alg_final(a, &c, dec, in, n, o, pad) : alg_proc(a, &c, dec, in, n, o); emit("returned", r); if (r > 0) emit("output", o, r); }
	if (mode) { alg_getiv(a, &c, iv); emit("iv", iv, B); }
	sample("%s %s %s key %d, chunks %d %d %d, padding %d", ALG[a].name, MODE[mode], dec ? "decrypt" : "encrypt", kw, L[0], L[1], L[2], pad);
}
SPACE("P14", "cfg_encrypt", 0, "ciphers x modes x 5 keys x paddings x all pairs of 12 chunk lengths, encrypting, then the finishing call", NALG * 4 * 5 * 3 * 144) { if (idx % NALG == A_BF && idx / (NALG * 60) % 12 % 4) return; c_run(idx, false); }
SPACE("P14", "cfg_decrypt", 0, "the same, decrypting", NALG * 4 * 5 * 3 * 144) { if (idx % NALG == A_BF && idx / (NALG * 60) % 12 % 4) return; c_run(idx, true); }
SPACE("P14", "cfg_blocks", 0, "feedback chains of blocks and keys, every cipher, encrypting and decrypting", NALG * 40) {
	int a = idx % NALG; uint8_t key[64], b[16], o[16]; fillbuf(key, 64, 50 + idx); fillbuf(b, 16, idx); static AnyCtx c;
	for (int s = 0; s < (a == A_BF ? 4 : 100); s++) { alg_init(a, &c, key, 0); for (int r = 0; r < 20; r++) { alg_proc(a, &c, r & 1, b, ALG[a].blk, o); memcpy(b, o, ALG[a].blk); for (int i = 0; i < ALG[a].blk; i++) key[(r * 7 + i) % ALG[a].keylen] ^= b[i]; } }
	emit("block", b, ALG[a].blk); sample("%s chain %d", ALG[a].name, (int)(idx / NALG));
}
SPACE("P14", "cfg_bits", 0, "every key bit and every block bit set alone, every cipher", NALG * 512) {
	int a = idx % NALG, b = idx / NALG, KB = ALG[a].keylen * 8, BB = ALG[a].blk * 8; if (b >= KB) return; uint8_t key[64], p[16], o[16]; static AnyCtx c;
	for (int inv = 0; inv < 2; inv++) { memset(key, inv ? 255 : 0, 64); key[b / 8] ^= 0x80 >> b % 8; alg_init(a, &c, key, 0); for (int i = 0; i < BB; i += a == A_BF ? 7 : 1) { memset(p, inv ? 255 : 0, 16); p[i / 8] ^= 0x80 >> i % 8; alg_proc(a, &c, false, p, ALG[a].blk, o); emit("enc", o, ALG[a].blk); alg_proc(a, &c, true, p, ALG[a].blk, o); emit("dec", o, ALG[a].blk); } }
}
SPACE("P14", "cfg_bf_keys", 0, "Blowfish keys of every length 1..80", 80) { uint8_t key[80], p[8], o[8]; fillbuf(key, 80, 6); fillbuf(p, 8, 7); static AnyCtx c; alg_init(A_BF, &c, key, 0, (int)idx + 1); alg_proc(A_BF, &c, false, p, 8, o); emit("enc", o, 8); }
SPACE("P14", "cfg_rc4", 0, "RC4 keys of every length 1..256, keystream of 700 bytes in pieces", 256) { uint8_t key[256], o[700]; fillbuf(key, 256, idx); memset(o, 0, sizeof o); RaRc4Ctx c; RaRc4Init(&c, key, (int)idx + 1); int p = 0; for (int n : {1, 7, 255, 0, 256, 181}) { emit("returned", RaRc4Encrypt(&c, o + p, n, o + p)); p += n; } emit("stream", o, 700); }
// ---------------------------------------------------------------- digests
SPACE("P14", "cfg_digest", 0, "digests x all lengths 0..520 x 2 contents x one call, two and three calls", NDG * 521 * 2) {
	int d = idx % NDG, n = idx / NDG % 521, w = (int)(idx / NDG / 521); static uint8_t m[600]; if (w) memset(m, 0xff, 600); else fillbuf(m, 600, 31 + n); static Guard g(4096); uint8_t *p = g.tail(n); memcpy(p, m, n); uint8_t o[64]; static DgCtx c;
	dg_init(d, &c); dg_update(d, &c, p, n); dg_final(d, &c, o); emit("once", o, DG[d].len);
	dg_init(d, &c); dg_update(d, &c, p, n / 3); dg_update(d, &c, p + n / 3, n - n / 3); dg_final(d, &c, o); emit("twice", o, DG[d].len);
	dg_init(d, &c); dg_update(d, &c, p, n - n / 5); dg_update(d, &c, p + n - n / 5, n / 7); dg_update(d, &c, p + n - n / 5 + n / 7, n / 5 - n / 7); dg_final(d, &c, o); emit("thrice", o, DG[d].len);
	if (dg_oneshot(d, p, n, o)) emit("one-shot", o, DG[d].len); sample("%s of %d bytes", DG[d].name, n);
}
SPACE("P14", "cfg_digest_chain", 0, "digests: feedback chains over 20 message lengths, and 1 MiB", NDG * 21) {
	int d = idx % NDG, k = idx / NDG; uint8_t o[64]; static DgCtx c; if (k == 20) { if (d == D_MD2) return; static std::vector<uint8_t> b; if (b.empty()) { b.resize(1 << 20); fillbuf(b.data(), b.size(), 3); } dg_init(d, &c); dg_update(d, &c, b.data(), 1 << 20); dg_final(d, &c, o); emit("long", o, DG[d].len); return; }
	uint8_t m[400]; fillbuf(m, 400, k); int n = 30 + 17 * k; for (int i = 0; i < 150; i++) { dg_init(d, &c); dg_update(d, &c, m, n); dg_final(d, &c, o); for (int j = 0; j < DG[d].len; j++) m[(i * 31 + j) % n] ^= o[j]; } emit("chain", o, DG[d].len);
}
// ---------------------------------------------------------------- big numbers, through the public functions only
typedef std::vector<uint32_t> V32;
static BN bnew(int bits) { BN b = BnNew((bits + 63) / 64 * 64 + 128); if (!b) { fprintf(stderr, "BnNew failed\n"); _exit(9); } return b; }
static void bset(BN b, const V32 &v, bool neg) { uint8_t t[400]; int n = (int)v.size(); for (int i = 0; i < n; i++) for (int j = 0; j < 4; j++) t[4 * (n - 1 - i) + j] = (uint8_t)(v[i] >> (24 - 8 * j)); BnSetUByteArray(b, t, 4 * n); if (neg && BnCmpInt(b, 0) != 0) _BnInvert(b); }
static void bemit(const char *what, BN b, int r = 0) {
	if (r != RA_ERR_SUCCESS) { emit(what, "error", 5); return; } uint8_t t[1024]; int n = BnToByteArray(b, t, sizeof t); emit(what, t, n > 0 ? n : 0); emit("bit length", BnGetBitLength(b));
}
static const uint32_t P32[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 2, 0x10000};
static V32 v32(uint64_t k, int n, int al) { V32 v(n); for (int i = 0; i < n; i++) { v[i] = P32[k % al]; k /= al; } return v; }
static V32 vlong32(int p, int l) { V32 v(l); for (int i = 0; i < l; i++) v[i] = p == 0 ? 0xffffffffu : p == 1 ? (i == l - 1 ? 1 : 0) : p == 2 ? (i & 1 ? 0xffffffffu : 0) : p == 3 ? (i / 2 & 1 ? 0xffffffffu : 0) : p == 4 ? (i == l - 1 ? 0x80000000u : 0) : p == 5 ? (uint32_t)fill(i, 5 + l) << 24 | fill(i, 6) << 16 | fill(i, 7) << 8 | fill(i, 8) : p == 6 ? (i ? 0xffffffffu : 0xfffffffeu) : (i == l / 2 ? 0 : 0xffffffffu); if (!v[l - 1]) v[l - 1] = 1; return v; }
static void pair_ops(const V32 &va, const V32 &vb, bool na, bool nb) {
	static BN a = bnew(4096), b = bnew(4096), r = bnew(4096), q = bnew(4096); bset(a, va, na); bset(b, vb, nb);
	emit("cmp", (BnCmp(a, b) > 0) - (BnCmp(a, b) < 0)); bemit("a+b", r, BnAdd(r, a, b)); bemit("a-b", r, BnSub(r, a, b)); bemit("a*b", r, BnMul(r, a, b)); bemit("a^2", r, BnSqr(r, a)); bemit("2a", r, BnDouble(r, a));
	if (BnCmpInt(b, 0) != 0) { int e = BnDiv(q, r, a, b); bemit("a/b", q, e); bemit("a rem b", r, e); bemit("a mod b", r, BnMod(r, a, b)); }
	emit("a", (BnCmp(a, b) > 0) - (BnCmp(a, b) < 0));
}
SPACE("P14", "cfg_bn_pairs", 0, "all pairs of numbers of four 32-bit pieces over {0,1,7fffffff,80000000,ffffffff} (first) and {0,1,80000000,ffffffff} (second): compare, add, subtract, multiply, square, double, divide", 625 * 256) { pair_ops(v32(idx % 625, 4, 5), v32(idx / 625, 4, 5), idx & 1, idx & 2); }
SPACE("P14", "cfg_bn_pairs3", 0, "all pairs of a six-piece over {0,ffffffff,1} and a three-piece number over eight values", 729 * 512) { V32 a(6); uint64_t k = idx % 729; static const uint32_t t[3] = {0, 0xffffffffu, 1}; for (int i = 0; i < 6; i++) { a[i] = t[k % 3]; k /= 3; } pair_ops(a, v32(idx / 729, 3, 8), idx & 4, idx & 2); }
SPACE("P14", "cfg_bn_long", 0, "pairs of regular numbers of 1..60 pieces", 30 * 8 * 30 * 8) { int la = 1 + 2 * (idx % 30), lb = 1 + 2 * (idx / 30 % 30); pair_ops(vlong32(idx / 900 % 8, la), vlong32(idx / 7200, lb), false, idx & 1); if (lb > 1) pair_ops(vlong32(idx / 900 % 8, la), vlong32(idx / 7200, lb - 1), false, false); }
SPACE("P14", "cfg_bn_gcd", 0, "GCD, extended GCD and inverse of pairs of three-piece numbers over six values", 216 * 216) {
	static BN a = bnew(1024), b = bnew(1024), r = bnew(1024), x = bnew(1024), y = bnew(1024); bset(a, v32(idx % 216, 3, 6), false); bset(b, v32(idx / 216, 3, 6), false); if (BnCmpInt(a, 0) == 0 || BnCmpInt(b, 0) == 0) return; bemit("gcd", r, GetGCD(r, a, b));
	for (int u = 0; u < 2; u++) { int e = GetGCDEx(r, x, y, a, b, u); bemit("gcd", r, e); if (e == 0) { static BN s = bnew(4096), t = bnew(4096), w = bnew(4096); BnMul(s, a, x); BnMul(t, b, y); if (u) BnSub(w, s, t); else BnAdd(w, s, t); bemit(u ? "ax-by" : "ax+by", w); emit("x bits", u ? BnCmp(x, b) < 0 : 0); } }
}
SPACE("P14", "cfg_bn_word", 0, "numbers of four pieces over five values with one 32-bit operand out of eight, signed and unsigned", 625 * 16) {
	static BN a = bnew(1024); V32 v = v32(idx % 625, 4, 5); uint32_t u = P32[idx / 625 % 8]; bool neg = idx / 5000; int32_t s = (int32_t)u; bn_uint_t rem;
	auto z = [&]() { bset(a, v, neg); };
	z(); emit("cmpint", (BnCmpInt(a, s) > 0) - (BnCmpInt(a, s) < 0)); emit("cmpuint", (BnCmpUInt(a, u) > 0) - (BnCmpUInt(a, u) < 0));
	bemit("addint", a, BnAddInt(a, s)); z(); bemit("adduint", a, BnAddUInt(a, u)); z(); bemit("subint", a, BnSubInt(a, s)); z(); bemit("subuint", a, BnSubUInt(a, u)); z(); bemit("mulint", a, BnMulInt(a, s)); z(); bemit("muluint", a, BnMulUInt(a, u));
	if (u) { z(); rem = 0; int e = BnDivInt(a, s, &rem); bemit("divint", a, e); emit("rem", (int64_t)(uint64_t)rem); z(); e = BnDivUInt(a, u, &rem); bemit("divuint", a, e); emit("rem", (int64_t)(uint64_t)rem); z(); e = BnModUInt(a, u, &rem); emit("moduint", e == 0 ? (int64_t)(uint64_t)rem : -1); }
	BnSetInt32(a, s); bemit("set", a); BnSetUInt32(a, u); bemit("set", a); BnSetInt64(a, (int64_t)s * 0x100000001LL); bemit("set64", a); BnSetUInt64(a, (uint64_t)u << 32 | v[0]); bemit("set64", a); z(); emit("get32", (int64_t)_BnGetUInt32(a)); emit("get64", (int64_t)_BnGetUInt64(a));
}
SPACE("P14", "cfg_bn_shift", 0, "numbers of five pieces over four values shifted left and right by 0..200", 1024 * 201) { static BN a = bnew(1024); V32 v = v32(idx % 1024, 5, 4); uint32_t s = (uint32_t)(idx / 1024); bset(a, v, idx & 1); bemit("left", a, BnShiftL(a, s)); bset(a, v, idx & 1); bemit("right", a, BnShiftR(a, s)); }
SPACE("P14", "cfg_bn_bytes", 0, "byte strings of 0..40 bytes, 12 contents, read signed and unsigned and written back at every size", 41 * 12) {
	int n = idx % 41, w = idx / 41; uint8_t t[48], o[64]; for (int i = 0; i < n; i++) t[i] = w == 0 ? 0 : w == 1 ? 0xff : w == 2 ? (i ? 0 : 0x80) : w == 3 ? (i ? 0xff : 0x7f) : w == 4 ? (i == n - 1) : w == 5 ? (i ? 0xff : 0x80) : w == 6 ? (i < n / 2 ? 0 : 0xff) : w == 7 ? (i < n / 2 ? 0xff : 0) : fill(i, w * 50 + n);
	static BN a = bnew(1024); for (int sg = 0; sg < 2; sg++) { int e = sg ? BnSetByteArray(a, t, n) : BnSetUByteArray(a, t, n); bemit("number", a, e); if (e) continue; for (int l = 0; l < 44; l++) { memset(o, 0x33, 64); int r = BnToByteArray(a, o, l); emit("wrote", r > 0 ? r : -1); if (r > 0 && r <= l) emit("bytes", o, r); if (!sg) { memset(o, 0x33, 64); r = BnToFixedByteArray(a, o, l); emit("fixed", r > 0); if (r > 0) emit("fixed", o, l); } } }
}
SPACE("P14", "cfg_montgomery", 0, "powers modulo odd numbers of 1..12 pieces, 8 shapes of modulus, base and exponent", 12 * 8 * 8 * 8) {
	static BN n = bnew(2048), a = bnew(2048), e = bnew(2048), r = bnew(2048); int l = 1 + idx % 12; V32 vn = vlong32(idx / 12 % 8, l); vn[0] |= 1; if (l == 1 && vn[0] == 1) vn[0] = 3; bset(n, vn, false); bset(a, vlong32(idx / 96 % 8, 1 + (int)(idx * 5) % 12), false); BnMod(r, a, n); BnSet(a, r); bset(e, vlong32(idx / 768 % 8, 1 + (l & 3)), false);
	RaMontCtx *m = NULL; int x = RaMontCreate(n, &m); emit("create", x == 0); if (x) return; bemit("power", r, RaMontExpMod(m, r, a, e)); bset(e, V32{(uint32_t)idx & 7}, false); bemit("small power", r, RaMontExpMod(m, r, a, e)); RaMontDestroy(m);
}
static bool isp(BN b) { env::On e; for (int s = 0; s < 24; s++) { env::entropy(s); env::clk.tv_sec = 77 + s; if (RaIsPrimeNumber(b) != RA_ERR_SUCCESS) return false; } return true; } // a composite is accepted by 24 independent tests with negligible probability
SPACE("P14", "cfg_prime_small", 0, "primality of every number 0..40000 and -64..-1", 626) { static BN b = bnew(256); for (int i = 0; i < 64; i++) { BnSetInt32(b, (int)idx * 64 + i - 64); emit("prime", isp(b)); } }
SPACE("P14", "cfg_prime_large", 0, "primality of 2^n-1 for n to 260, of k 2^n+1, of numbers of 1..9 pieces over five values near powers of two", 259 + 260 * 4 + 9 * 200) {
	static BN b = bnew(1024); BnSetUInt32(b, 1); if (idx < 259) { BnShiftL(b, idx + 2); BnSubUInt(b, 1); } else if (idx < 259 + 1040) { BnSetUInt32(b, 2 * ((idx - 259) % 4) + 1); BnShiftL(b, (idx - 259) / 4 + 1); BnAddUInt(b, 1); } else { int k = idx - 1299; BnShiftL(b, 32 * (k / 200) + 20); if (k % 2) BnAddUInt(b, k % 200); else BnSubUInt(b, k % 200 + 1); } emit("prime", isp(b));
}
// ---------------------------------------------------------------- RSA
SPACE("P14", "cfg_rsa", 0, "keys of 20..700 bits (exact and uneven word counts): import, export, bit length, verification, encrypt, decrypt, sign, verify of edge messages; every damaged field", 60) {
	int bit = 20 + 2 * (int)(idx * 5) + (idx % 3 == 2 ? 90 : 0); K k = sized_key(bit, idx & 1 ? 3 : 17, idx); Bytes pv = priv8(k), pu = pub8(k);
	for (int how = 0; how < 3; how++) for (int w = 0; w < 2; w++) { KP kp = NULL; const Bytes &b = w ? pv : pu; int r = import(how, b.data(), (int)b.size(), &kp); emit("import", r == 0); if (r) continue; emit("bits", RaRsaKeyBitLength(kp));
		{ env::On e; emit("key verdict", RaRsaVerifyKey(kp) == 0); } emit("private", exported(kp, true)); emit("public", exported(kp, false));
		static BN m = bnew(2048), c = bnew(2048), d = bnew(2048); for (int i = 0; i < 10; i++) { Z z; if (i < 4) mpz_set_ui(z, i); else if (i < 7) mpz_sub_ui(z, k.n(), i - 3); else mpz_fdiv_q_2exp(z, k.n(), i * 3 - 20); uint8_t t[256]; size_t l = 0; mpz_export(t, &l, 1, 1, 0, 0, z); BnSetUByteArray(m, t, (int)l); int e1 = RaRsaEncrypt(kp, m, c); bemit("encrypted", c, e1); bemit("decrypted", d, e1 ? e1 : RaRsaDecrypt(kp, c, d)); int e2 = RaRsaSign(kp, m, c); bemit("signed", c, e2); emit("verified", e2 ? -1 : RaRsaVerify(kp, c, m) == 0); BnAddUInt(m, 1); emit("other verified", e2 ? -1 : RaRsaVerify(kp, c, m) == 0); }
		RaRsaDestroyKeyPair(kp); }
	for (int f = 0; f < 8; f++) for (int dl = -1; dl <= 1; dl += 2) { if (f == 3 || f == 4) continue; K x = k; if (dl < 0) mpz_sub_ui(x.f[f], x.f[f], 2); else mpz_add_ui(x.f[f], x.f[f], 2); Bytes b = priv8(x); KP kp = NULL; int r = import(I_PRIV, b.data(), (int)b.size(), &kp); emit("import", r == 0); if (r) continue; { env::On e; emit("damaged key verdict", RaRsaVerifyKey(kp) == 0); } RaRsaDestroyKeyPair(kp); }
	sample("%d bits", bit);
}
SPACE("P14", "cfg_import", 0, "a small key with every byte changed to every value, both key kinds: accepted or not, and the key read", 2 * 300) {
	static K k = sized_key(96, 17, 5); Bytes b = idx & 1 ? priv8(k) : pub8(k); size_t p = idx / 2; if (p >= b.size()) return; uint8_t o = b[p];
	for (int v = 0; v < 256; v++) { b[p] = (uint8_t)v; for (int how = 0; how < 3; how++) { KP kp = NULL; int r = import(how, b.data(), (int)b.size(), &kp); emit("import", r == 0); if (r) continue; emit("private", exported(kp, true)); emit("public", exported(kp, false)); RaRsaDestroyKeyPair(kp); } } b[p] = o;
}
// ---------------------------------------------------------------- generator
SPACE("P14", "cfg_random", 0, "seeded generators: four algorithms x seed lengths 1..130 x requests of many lengths", 4 * 130) {
	uint8_t s[130], o[300]; fillbuf(s, 130, 9); struct RaRandom *r = NULL; int e = RaRandomCreate((RaRandomAlgorithm)(idx % 4), s, 1 + (int)(idx / 4), &r); emit("create", e == 0); if (e) return;
	for (int n : {1, 3, 16, 0, 20, 31, 64, 65, 128, 300, 7, 1}) { memset(o, 0, n); RaRandomBytes(r, n, o); emit("bytes", o, n); } RaRandomDestroy(r);
}
