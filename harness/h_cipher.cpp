// P01-P04 block transforms, P05 RC4, P06 modes, P07 streaming, P08 padding, P09 reuse and independence.
#include "ciphers.h"
#include <openssl/rc4.h>
using namespace vh;

// ------------------------------------------------------------------ block transforms
static void check_block(int a, void *c, RefKey &k, const uint8_t *pt, const char *what) {
	int B = ALG[a].blk; uint8_t ct[16], want[16], back[16];
	k.enc(pt, want);
	int n = alg_proc(a, c, false, pt, B, ct);
	evals++; nontriv++;
	if (n != B || memcmp(ct, want, B)) fail("%s %s: encrypting %s gives %s (ret %d), the standard gives %s", ALG[a].name, what, hex(pt, B).c_str(), hex(ct, B).c_str(), n, hex(want, B).c_str());
	n = alg_proc(a, c, true, ct, B, back);
	evals++; nontriv++;
	if (n != B || memcmp(back, pt, B)) fail("%s %s: decrypting %s gives %s (ret %d), not %s", ALG[a].name, what, hex(ct, B).c_str(), hex(back, B).c_str(), n, hex(pt, B).c_str());
	// the inverse permutation at an independent point
	uint8_t d[16]; k.dec(pt, want); n = alg_proc(a, c, true, pt, B, d);
	evals++; nontriv++;
	if (n != B || memcmp(d, want, B)) fail("%s %s: decrypting %s gives %s, the standard gives %s", ALG[a].name, what, hex(pt, B).c_str(), hex(d, B).c_str(), hex(want, B).c_str());
}
static void check_key(int a, const uint8_t *key, const uint8_t *pt, int klen, const char *what) {
	static AnyCtx c; memset(&c, 0xA5, sizeof c);
	RefKey k; k.set(a, key, klen); alg_init(a, &c, key, 0, klen);
	check_block(a, &c, k, pt, what);
}
static void base(int which, uint8_t *p, int n) { if (which == 0) memset(p, 0, n); else if (which == 1) memset(p, 0xff, n); else fillbuf(p, n, 77 + which); }

// every value of every key byte on several backgrounds
static void keybytes(int a, uint64_t idx) {
	int KL = ALG[a].keylen; int bg = idx / KL, pos = idx % KL; uint8_t key[64], pt[16];
	for (int v = 0; v < 256; v++) {
		base(bg, key, 64); base((bg + v) % 3, pt, 16); key[pos] = (uint8_t)v;
		check_key(a, key, pt, -1, "key-byte");
	}
	sample("%s key byte %d takes all 256 values on background %d", ALG[a].name, pos, bg);
}
// every value of every plaintext byte on several backgrounds
static void ptbytes(int a, uint64_t idx) {
	int B = ALG[a].blk; int kw = idx / (B * 3), bg = idx / B % 3, pos = idx % B; uint8_t key[64], pt[16];
	key_for(a, kw, key); static AnyCtx c; RefKey k; k.set(a, key); alg_init(a, &c, key, 0);
	for (int v = 0; v < 256; v++) { base(bg, pt, 16); pt[pos] = (uint8_t)v; check_block(a, &c, k, pt, "block-byte"); }
	sample("%s key %d, block byte %d takes all 256 values on background %d", ALG[a].name, kw, pos, bg);
}
// all keys and blocks with at most two bits set (complemented too)
static void lowweight(int a, uint64_t idx) {
	int KL = ALG[a].keylen, kb = KL * 8; int inv = idx / kb, b1 = idx % kb; uint8_t key[64], pt[16];
	for (int b2 = b1; b2 < kb; b2++) {
		memset(key, 0, 64); key[b1 / 8] |= 0x80 >> b1 % 8; key[b2 / 8] |= 0x80 >> b2 % 8; if (inv) for (int i = 0; i < 64; i++) key[i] ^= 0xff;
		memset(pt, 0, 16); if (b2 & 1) pt[b2 / 8 % ALG[a].blk] = 0x5a;
		check_key(a, key, pt, -1, "two-bit key");
	}
	sample("%s all keys with bits %d and a later one %s", ALG[a].name, b1, inv ? "cleared" : "set");
}
static void lowpt(int a, uint64_t idx) {
	int B = ALG[a].blk, nb = B * 8; int inv = idx / nb % 2, kw = idx / nb / 2, b1 = idx % nb; uint8_t key[64], pt[16];
	key_for(a, kw, key); static AnyCtx c; RefKey k; k.set(a, key); alg_init(a, &c, key, 0);
	for (int b2 = b1; b2 < nb; b2++) {
		memset(pt, 0, 16); pt[b1 / 8] |= 0x80 >> b1 % 8; pt[b2 / 8] |= 0x80 >> b2 % 8; if (inv) for (int i = 0; i < 16; i++) pt[i] ^= 0xff;
		check_block(a, &c, k, pt, "two-bit block");
	}
}
// long deterministic trajectory: key and block fed back
static void chain(int a, uint64_t idx, int steps) {
	uint8_t key[64], pt[16], want[16]; fillbuf(key, 64, 31337 + idx); fillbuf(pt, 16, idx);
	int KL = ALG[a].keylen, B = ALG[a].blk; static AnyCtx c;
	for (int s = 0; s < steps; s++) {
		RefKey k; k.set(a, key); alg_init(a, &c, key, 0);
		int in = a == A_BF ? 64 : 24;
		for (int r = 0; r < in; r++) { check_block(a, &c, k, pt, "chain"); k.enc(pt, want); memcpy(pt, want, B); for (int i = 0; i < B; i++) key[(r * B + i) % KL] ^= pt[i]; }
	}
	sample("%s chain %llu of %d keys x 24 blocks", ALG[a].name, (unsigned long long)idx, steps);
}
// placement of key, input, output and context; in place; several blocks; guard pages right behind and before
static void placement(int a, uint64_t idx) {
	static Guard gk(4096), gi(4096), go(4096), gc(sizeof(AnyCtx) + 4096), gv(4096);
	int B = ALG[a].blk, KL = ALG[a].keylen;
	int io = idx % 16, oo = idx / 16 % 17, dir = idx / (16 * 17) % 2, mode = idx / (16 * 17 * 2) % 4; bool inplace = oo == 16;
	uint8_t kb[64], ivb[16], in[16 * 5]; key_for(a, 0, kb); RefKey *k = ref_for(a, 0); fillbuf(ivb, 16, 9); fillbuf(in, sizeof in, io * 100 + oo);
	for (int nb = 1; nb <= 4; nb++) for (int side = 0; side < 2; side++) {
		int n = nb * B; Model m; m.init(k, mode);
		// the key, the IV and the buffers may lie anywhere; the context is 8-aligned like its type
		uint8_t *key = gk.tail(KL + oo % 16) ; memcpy(key, kb, KL);
		if (side) { key = gk.head() + io; memcpy(key, kb, KL); }
		uint8_t *iv = gv.tail(B + io); memcpy(iv, ivb, B);
		uint8_t *ip = side ? gi.head() + io : gi.tail(n + io), *op = inplace ? ip : side ? go.head() + oo : go.tail(n + oo);
		void *c = gc.tail((ALG[a].ctxsize + 7) / 8 * 8 + (io & 1) * 8);
		memset(c, 0x77, ALG[a].ctxsize);
		alg_init(a, c, key, mode); alg_setiv(a, c, iv); m.setiv(ivb);
		memcpy(ip, in, n); if (!inplace) memset(op, 0xEE, n);
		std::vector<uint8_t> want = m.proc(dir, in, n); int r = alg_proc(a, c, dir, ip, n, op);
		evals++; nontriv++;
		if (r != n || memcmp(op, want.data(), n)) fail("%s %s %s input offset %d output offset %d%s, %d blocks: got %s (ret %d), want %s", ALG[a].name, MODE[mode], dir ? "dec" : "enc", io, oo, inplace ? " (in place)" : "", nb, hex(op, n).c_str(), r, hex(want.data(), n).c_str());
		if (!inplace && memcmp(ip, in, n)) fail("%s input changed", ALG[a].name);
		if (memcmp(key, kb, KL)) fail("%s key changed", ALG[a].name);
		alg_getiv(a, c, iv); if (mode && memcmp(iv, m.iv, B)) fail("%s %s IV after %d blocks is %s, want %s", ALG[a].name, MODE[mode], nb, hex(iv, B).c_str(), hex(m.iv, B).c_str());
	}
	sample("%s %s %s: input at offset %d, output %s %d", ALG[a].name, MODE[mode], dir ? "decrypt" : "encrypt", io, inplace ? "in place" : "at offset", oo);
}
#define BLOCK_SPACES(P, A, T) \
	SPACE(P, T "_key_bytes", 0, "every value of every key byte on zero, one and mixed backgrounds", 3 * ALG[A].keylen) { keybytes(A, idx); }
#define S2(P, A, T) SPACE(P, T "_block_bytes", 0, "every value of every block byte on three backgrounds under three keys", 9 * ALG[A].blk) { ptbytes(A, idx); }
#define S3(P, A, T) SPACE(P, T "_key_bits", 0, "all keys of weight one and two, and their complements", 2 * 8 * ALG[A].keylen) { lowweight(A, idx); }
#define S4(P, A, T) SPACE(P, T "_block_bits", 0, "all blocks of weight one and two, and their complements, under three keys", 6 * 8 * ALG[A].blk) { lowpt(A, idx); }
#define S5(P, A, T) SPACE(P, T "_chain", 0, "feedback chains through keys and blocks", thorough ? 256 : 16) { chain(A, idx, A == A_BF ? 8 : 250); }
#define S6(P, A, T) SPACE(P, T "_placement", 0, "16 input offsets x 16 output offsets and in place x directions x modes x 1-4 blocks x guard page before/behind", 16 * 17 * 2 * 4) { placement(A, idx); }
// (one macro per line: the space's function is named after the line)
#define DEF(P, A, T)
BLOCK_SPACES("P02", A_DES, "des")
S2("P02", A_DES, "des")
S3("P02", A_DES, "des")
S4("P02", A_DES, "des")
S5("P02", A_DES, "des")
S6("P02", A_DES, "des")
BLOCK_SPACES("P02", A_DES2, "des2")
S2("P02", A_DES2, "des2")
S3("P02", A_DES2, "des2")
S4("P02", A_DES2, "des2")
S5("P02", A_DES2, "des2")
S6("P02", A_DES2, "des2")
BLOCK_SPACES("P02", A_DES3, "des3")
S2("P02", A_DES3, "des3")
S3("P02", A_DES3, "des3")
S4("P02", A_DES3, "des3")
S5("P02", A_DES3, "des3")
S6("P02", A_DES3, "des3")
BLOCK_SPACES("P01", A_AES128, "aes128")
S2("P01", A_AES128, "aes128")
S3("P01", A_AES128, "aes128")
S4("P01", A_AES128, "aes128")
S5("P01", A_AES128, "aes128")
S6("P01", A_AES128, "aes128")
BLOCK_SPACES("P01", A_AES192, "aes192")
S2("P01", A_AES192, "aes192")
S3("P01", A_AES192, "aes192")
S4("P01", A_AES192, "aes192")
S5("P01", A_AES192, "aes192")
S6("P01", A_AES192, "aes192")
BLOCK_SPACES("P01", A_AES256, "aes256")
S2("P01", A_AES256, "aes256")
S3("P01", A_AES256, "aes256")
S4("P01", A_AES256, "aes256")
S5("P01", A_AES256, "aes256")
S6("P01", A_AES256, "aes256")
BLOCK_SPACES("P03", A_SEED, "seed")
S2("P03", A_SEED, "seed")
S3("P03", A_SEED, "seed")
S4("P03", A_SEED, "seed")
S5("P03", A_SEED, "seed")
S6("P03", A_SEED, "seed")
BLOCK_SPACES("P03", A_ARIA128, "aria128")
S2("P03", A_ARIA128, "aria128")
S3("P03", A_ARIA128, "aria128")
S4("P03", A_ARIA128, "aria128")
S5("P03", A_ARIA128, "aria128")
S6("P03", A_ARIA128, "aria128")
BLOCK_SPACES("P03", A_ARIA192, "aria192")
S2("P03", A_ARIA192, "aria192")
S3("P03", A_ARIA192, "aria192")
S4("P03", A_ARIA192, "aria192")
S5("P03", A_ARIA192, "aria192")
S6("P03", A_ARIA192, "aria192")
BLOCK_SPACES("P03", A_ARIA256, "aria256")
S2("P03", A_ARIA256, "aria256")
S3("P03", A_ARIA256, "aria256")
S4("P03", A_ARIA256, "aria256")
S5("P03", A_ARIA256, "aria256")
S6("P03", A_ARIA256, "aria256")
S2("P04", A_BF, "bf")
S4("P04", A_BF, "bf")
S5("P04", A_BF, "bf")
S6("P04", A_BF, "bf")

// the reference DES itself, against OpenSSL's
SPACE("P02", "des_reference", 0, "the reference DES agrees with OpenSSL's on chained keys and blocks, both directions", 400) {
	uint8_t key[8], pt[8], o[8]; fillbuf(key, 8, idx); fillbuf(pt, 8, idx + 1000);
	for (int i = 0; i < 100; i++) {
		RefDes r; r.set(key); DES_key_schedule ks; DES_set_key_unchecked((const_DES_cblock *)key, &ks); DES_cblock ci, co;
		for (int dir = 0; dir < 2; dir++) { r.crypt(pt, o, dir, 0); memcpy(ci, pt, 8); DES_ecb_encrypt(&ci, &co, &ks, dir ? DES_DECRYPT : DES_ENCRYPT); evals++; if (memcmp(o, co, 8)) { fprintf(stderr, "reference DES wrong\n"); abort(); } }
		memcpy(pt, o, 8); for (int j = 0; j < 8; j++) key[j] ^= o[j] * 3;
	}
}
// the one place where the library's table deviates (known finding): blocks reaching S-box 1, row 3, column 15
SPACE("P02", "des_sbox1_row3_col15", 0, "DES of the all-ones block under the zero key reaches the last entry of S-box 1", 1) {
	uint8_t key[8] = {0}, p[8], want[8], o[8]; memset(p, 255, 8); RefDes r; r.set(key); r.crypt(p, want, false, 0);
	RaDesCtx c; RaDesInit(&c, key, RA_DES, RA_BLOCK_MODE_ECB); RaDesEncrypt(&c, p, 8, o); evals++; nontriv++;
	if (memcmp(o, want, 8)) fail("DES key 0 block ffffffffffffffff gives %s, the standard gives %s", hex(o, 8).c_str(), hex(want, 8).c_str());
	sample("DES key 0 block ffffffffffffffff");
}
// DES: parity, weak and semi-weak keys, and the degenerate triple keys
static const uint64_t DESW[] = {0x0101010101010101ULL, 0xFEFEFEFEFEFEFEFEULL, 0xE0E0E0E0F1F1F1F1ULL, 0x1F1F1F1F0E0E0E0EULL,
	0x011F011F010E010EULL, 0x1F011F010E010E01ULL, 0x01E001E001F101F1ULL, 0xE001E001F101F101ULL, 0x01FE01FE01FE01FEULL, 0xFE01FE01FE01FE01ULL,
	0x1FE01FE00EF10EF1ULL, 0xE01FE01FF10EF10EULL, 0x1FFE1FFE0EFE0EFEULL, 0xFE1FFE1FFE0EFE0EULL, 0xE0FEE0FEF1FEF1FEULL, 0xFEE0FEE0FEF1FEF1ULL,
	0, 0xFFFFFFFFFFFFFFFFULL, 0x0123456789ABCDEFULL, 0x133457799BBCDFF1ULL};
static const int NDESW = sizeof DESW / 8;
static void putkey(uint64_t v, uint8_t *p) { for (int i = 0; i < 8; i++) p[i] = (uint8_t)(v >> (56 - 8 * i)); }
SPACE("P02", "des_weak_keys", 0, "all weak and semi-weak keys, every parity byte pattern, 16 blocks each", NDESW * 256) {
	uint8_t key[64]; putkey(DESW[idx / 256], key); uint8_t key2[64];
	memcpy(key2, key, 8); for (int i = 0; i < 8; i++) key2[i] ^= idx % 256 >> i & 1;
	AnyCtx c1, c2; alg_init(A_DES, &c1, key, 0); alg_init(A_DES, &c2, key2, 0);
	for (int i = 0; i < 16; i++) {
		uint8_t pt[16], o1[16], o2[16]; base(i, pt, 16); check_key(A_DES, key2, pt, -1, "weak/parity key");
		alg_proc(A_DES, &c1, false, pt, 8, o1); alg_proc(A_DES, &c2, false, pt, 8, o2);
		if (memcmp(o1, o2, 8)) fail("DES parity bits of key %s matter", hex(key2, 8).c_str());
	}
	sample("DES key %s with parity pattern %02x", hex(key, 8).c_str(), (int)(idx % 256));
}
SPACE("P02", "des3_degenerate", 0, "all triples of weak/ordinary sub-keys, all patterns of equal sub-keys", NDESW * NDESW * NDESW) {
	uint8_t key[64], pt[16]; putkey(DESW[idx % NDESW], key); putkey(DESW[idx / NDESW % NDESW], key + 8); putkey(DESW[idx / NDESW / NDESW], key + 16);
	fillbuf(pt, 16, idx); check_key(A_DES3, key, pt, -1, "triple"); check_key(A_DES2, key, pt, -1, "double");
	if (!memcmp(key, key + 8, 8) && !memcmp(key, key + 16, 8)) {
		AnyCtx c1, c3, c2; uint8_t o1[8], o3[8], o2[8]; alg_init(A_DES, &c1, key, 0); alg_init(A_DES3, &c3, key, 0); alg_init(A_DES2, &c2, key, 0);
		alg_proc(A_DES, &c1, false, pt, 8, o1); alg_proc(A_DES3, &c3, false, pt, 8, o3); alg_proc(A_DES2, &c2, false, pt, 8, o2);
		if (memcmp(o1, o3, 8) || memcmp(o1, o2, 8)) fail("triple DES with equal keys %s is not single DES", hex(key, 8).c_str());
	}
	sample("EDE3 key %s", hex(key, 24).c_str());
}
// Blowfish: every key length and, for each, every key byte; lengths beyond 72 are cut
SPACE("P04", "bf_key_lengths", 0, "key lengths 1-72 x 6 contents x 4 blocks", 72 * 6) {
	int kl = idx / 6 + 1; uint8_t key[80], pt[16]; base((int)(idx % 6), key, 80); Guard *g; static Guard gg(4096); g = &gg;
	uint8_t *k = g->tail(kl); memcpy(k, key, kl);
	for (int i = 0; i < 4; i++) { base(i, pt, 16); check_key(A_BF, k, pt, kl, "key length"); }
	sample("Blowfish key of %d bytes %s", kl, hex(k, kl).c_str());
}
SPACE("P04", "bf_key_bytes", 0, "for every key length every key byte changed to several values", 72 * 73 / 2) {
	int kl = 1; uint64_t r = idx; while (r >= (uint64_t)kl) { r -= kl; kl++; } int pos = (int)r;
	for (int v = 0; v < (thorough ? 256 : 4); v++) {
		uint8_t key[80], pt[16]; fillbuf(key, 80, 3); key[pos] = thorough ? (uint8_t)v : (uint8_t)("\x00\xff\x80\x01"[v]); fillbuf(pt, 16, idx);
		check_key(A_BF, key, pt, kl, "key byte");
	}
}
SPACE("P04", "bf_long_keys", 0, "key lengths 73-80 and 255-256: bytes beyond the 72nd have no influence", 10) {
	int kl = idx < 8 ? 73 + (int)idx : 247 + (int)idx; uint8_t key[256], pt[8];
	for (int v = 0; v < 3; v++) {
		base(v, key, 256); fillbuf(key, 72, 8); fillbuf(pt, 8, v); AnyCtx c; RefKey k; k.set(A_BF, key, 72); alg_init(A_BF, &c, key, 0, kl);
		check_block(A_BF, &c, k, pt, "long key");
	}
}

// ------------------------------------------------------------------ streaming executor: library against the model
struct Exec {
	int a, mode, B; Guard *gi, *go; void *c; AnyCtx store; Model m; RefKey *k; uint64_t pos = 0, salt = 0; std::string hist; int kw;
	bool inplace = false, wantinplace = false;
	static Guard &GI() { static Guard g(40 << 20); return g; }
	static Guard &GO() { static Guard g(40 << 20); return g; }
	Exec(int alg, int md, int keyw, uint64_t s = 0) : a(alg), mode(md), salt(s), kw(keyw) {
		B = ALG[a].blk; k = ref_for(a, kw); uint8_t key[64]; key_for(a, kw, key); memset(&store, 0x5A, sizeof store); c = &store;
		alg_init(a, c, key, mode); m.init(k, mode); gi = &GI(); go = &GO();
	}
	void reinit(int keyw, int md) { kw = keyw; mode = md; k = ref_for(a, kw); uint8_t key[64]; key_for(a, kw, key); alg_init(a, c, key, mode); m.init(k, mode); hist += " init"; st(); }
	void setiv(int which) { uint8_t iv[16]; base(which, iv, 16); uint8_t *p = gi->tail(B); memcpy(p, iv, B); alg_setiv(a, c, p); m.setiv(iv); hist += " setIV" + std::to_string(which); st(); }
	void getiv() {
		uint8_t *p = gi->tail(B); memset(p, 0xCC, B); alg_getiv(a, c, p); trans++; evals++;
		if (mode != 0 && memcmp(p, m.iv, B)) fail("%s %s:%s getIV gives %s, want %s", ALG[a].name, MODE[mode], hist.c_str(), hex(p, B).c_str(), hex(m.iv, B).c_str());
	}
	void st() { trans++; uint64_t h = mix(a * 8 + mode, m.pend.size()); h = mix(h, hashb(m.iv, B)); h = mix(h, hashb(m.pend.data(), m.pend.size())); vh::state(mix(h, kw)); }
	void proc(bool dec, int n) { op(dec, n, -1); }
	void fin(bool dec, int n, int pad) { op(dec, n, pad); }
	std::vector<uint8_t> outlog;
	void op(bool dec, int n, int pad, const uint8_t *data = nullptr) {
		static std::vector<uint8_t> inv; if ((int)inv.size() < n + 1) inv.resize(n + 1024); uint8_t *in = inv.data(); for (int i = 0; i < n; i++) in[i] = data ? data[i] : fill(pos + i, 4242 + salt);
		pos += n;
		size_t pendb = m.pend.size(); int ret; std::vector<uint8_t> want;
		if (pad < 0) { want = m.proc(dec, in, n); ret = (int)want.size(); } else want = m.fin(dec, in, n, pad, ret);
		char b[80]; snprintf(b, sizeof b, " %s%s(%d%s)", dec ? "dec" : "enc", pad < 0 ? "" : "Final", n, pad < 0 ? "" : pad == 0 ? ",none" : pad == 1 ? ",zero" : ",pkcs7"); hist += b;
		uint8_t *ip = gi->tail(n), *op; bool ipl = wantinplace && pendb == 0 && n > 0 && (int)want.size() <= n;
		size_t W = want.size();
		// output space: exactly what is returned, ending at the guard page; one canary block below it
		op = ipl ? ip : go->tail(W);
		memcpy(ip, in, n); if (!ipl) memset(op - 64, 0xD7, W + 64);
		int r = pad < 0 ? alg_proc(a, c, dec, ip, n, op) : alg_final(a, c, dec, ip, n, op, pad);
		evals++; if (n) nontriv++;
		if (r != ret) fail("%s %s:%s returns %d, want %d", ALG[a].name, MODE[mode], hist.c_str(), r, ret);
		if (memcmp(op, want.data(), pad == RA_BLOCK_PADDING_PKCS7 && dec ? ret : W)) fail("%s %s:%s%s output %s, want %s", ALG[a].name, MODE[mode], hist.c_str(), ipl ? " in place" : "", hex(op, W).c_str(), hex(want.data(), W).c_str());
		if (!ipl) { for (int i = 1; i <= 64; i++) if (op[-i] != 0xD7) fail("%s %s:%s writes below the output", ALG[a].name, MODE[mode], hist.c_str()); if (memcmp(ip, in, n)) fail("%s %s:%s changes its input", ALG[a].name, MODE[mode], hist.c_str()); }
		else if (memcmp(ip + W, in + W, n - W)) fail("%s %s:%s in place changes bytes beyond the returned length", ALG[a].name, MODE[mode], hist.c_str());
		st();
	}
};
static const int MODES = 4;
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }

// P07: all chunk sequences
static int chunk(int B, int i) { int t[10] = {0, 1, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B, 5}; return t[i]; }
static void stream_seq(uint64_t idx, int depth) {
	uint64_t s = idx % ipow(10, depth); idx /= ipow(10, depth); int a = idx % NALG; idx /= NALG; int mode = idx % 4; idx /= 4; bool dec = idx % 2; idx /= 2;
	Exec x(a, mode, 0); x.wantinplace = idx % 2; if (mode) x.setiv(3);
	for (int d = 0; d < depth; d++) { x.proc(dec, chunk(x.B, s % 10)); s /= 10; }
	x.proc(dec, x.B + 3); x.getiv(); traces++;
	sample("%s %s:%s", ALG[a].name, MODE[mode], x.hist.c_str());
}
SPACE("P07", "stream_seq4", 2, "all sequences of 4 chunks from 10 lengths around block boundaries, x ciphers x modes x directions x in place or not", 10000 * NALG * 4 * 2 * 2) { stream_seq(idx, 4); }
SPACE("P07", "stream_seq5", 1, "all sequences of 5 chunks from 10 lengths around block boundaries, x ciphers x modes x directions x in place or not", 100000 * NALG * 4 * 2 * 2) { stream_seq(idx, 5); }
SPACE("P07", "stream_pairs", 0, "all pairs of chunk lengths 0..3 blocks + 1 (every split point), then the rest", NALG * 4 * 2 * 50) {
	int a = idx % NALG, mode = idx / NALG % 4, dec = idx / NALG / 4 % 2, n1 = (int)(idx / NALG / 8); int B = ALG[a].blk; if (n1 > 3 * B + 1) return;
	for (int n2 = 0; n2 <= 3 * B + 1; n2 += (a == A_BF && !thorough) ? 3 : 1) { Exec x(a, mode, 0); x.proc(dec, n1); x.proc(dec, n2); x.proc(dec, B - 1); x.proc(dec, 1); traces++; if (n2 == 7) sample("%s %s:%s", ALG[a].name, MODE[mode], x.hist.c_str()); }
}
SPACE("P07", "stream_bytes", 0, "every constant chunk length 1..2 blocks + 1 repeated over 9 blocks; negative lengths are no-ops", NALG * 4 * 2 * 33) {
	int a = idx % NALG, mode = idx / NALG % 4, dec = idx / NALG / 4 % 2, n = 1 + (int)(idx / NALG / 8); int B = ALG[a].blk; if (n > 2 * B + 1) return;
	Exec x(a, mode, 0); for (int t = 0; t < 9 * B; t += n) { x.proc(dec, n); uint8_t o[4] = {1, 2, 3, 4}; int r = alg_proc(a, x.c, dec, o, -1, o); if (r != 0 || o[0] != 1) fail("negative length not ignored"); } traces++;
	sample("%s %s:%s", ALG[a].name, MODE[mode], x.hist.c_str());
}
SPACE("P07", "stream_long", 0, "one call over 1..40 blocks +/- 1 byte, from every number of pending bytes", NALG * 4 * 2 * 16) {
	int a = idx % NALG, mode = idx / NALG % 4, dec = idx / NALG / 4 % 2, p = (int)(idx / NALG / 8); int B = ALG[a].blk; if (p >= B) return;
	for (int nb : {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40}) for (int dl = -1; dl <= 1; dl++) { if (a == A_BF && nb > 9) continue; Exec x(a, mode, 0); x.proc(dec, p); x.proc(dec, nb * B + dl); traces++; }
}

// one call far longer than any internal counter narrower than int
SPACE("P06,P07", "stream_large", 0, "single calls of 4 KiB to 1 MiB around powers of two x 0, 1 or B-1 bytes pending x in place or not, then more data; finishing calls of the same lengths", NALG * 4 * 2 * 9 * 4) {
	int a = idx % NALG, mode = idx / NALG % 4, dec = idx / NALG / 4 % 2, li = (int)(idx / NALG / 8 % 9), k = (int)(idx / NALG / 72); int B = ALG[a].blk;
	static const int L[9] = {4096, 8191, 32767, 32768, 65535, 65536, 65553, 131072, 1048577}; int n = L[li]; if (li == 8 && !thorough && !(a == A_AES128 || a == A_SEED)) return; if (a <= A_DES3 && li == 7 && !thorough) return;
	Exec x(a, mode, 0); if (mode) x.setiv(3); if (k == 1) x.proc(dec, 1); if (k == 2) x.proc(dec, B - 1); x.wantinplace = k == 3; if (k == 3) n = n / B * B;
	x.proc(dec, n); x.proc(dec, 2 * B - 1); if (mode) x.getiv(); x.wantinplace = false; x.fin(dec, li & 1 ? 40000 : 3, dec ? 0 : 2); traces++;
	sample("%s %s:%s", ALG[a].name, MODE[mode], x.hist.c_str());
}
SPACE("P06,P07", "stream_mid", 0, "single calls of 41 to 300 blocks and of 1000 to 3900 bytes in uneven steps x 0, 1, B/2 or B-1 bytes pending or in place, then more data", NALG * 4 * 2 * 5) {
	int a = idx % NALG, mode = idx / NALG % 4, dec = idx / NALG / 4 % 2, k = (int)(idx / NALG / 8), B = ALG[a].blk; std::vector<int> L; for (int nb = 41; nb <= 300; nb += nb % 16 == 15 || nb % 16 == 0 ? 1 : nb < 70 ? 3 : 5) L.push_back(nb * B + (nb % 3 == 0 ? 0 : nb % 5 == 1 ? 1 : nb % 5 == 2 ? -1 : 0)); for (int n = 1000; n < 3900; n += 101) L.push_back(n);
	if (a == A_BF) { L.clear(); for (int n = 500; n < 3000; n += 307) L.push_back(n); }
	for (int n : L) { Exec x(a, mode, 0); if (mode) x.setiv(3); if (k == 1) x.proc(dec, 1); if (k == 2) x.proc(dec, B / 2); if (k == 3) x.proc(dec, B - 1); x.wantinplace = k == 4; if (k == 4) n = n / B * B; x.proc(dec, n); x.proc(dec, 2 * B - 1); if (mode) x.getiv(); traces++; }
}
SPACE("P07", "stream_many", 0, "3000 calls of 1, 3, B-1, B, B+1 and 2B+1 bytes one after another, in place or not", NALG * 4 * 2 * 6) {
	int a = idx % NALG, mode = idx / NALG % 4, dec = idx / NALG / 4 % 2, k = (int)(idx / NALG / 8), B = ALG[a].blk; const int N[6] = {1, 3, B - 1, B, B + 1, 2 * B + 1}; Exec x(a, mode, 0); if (mode) x.setiv(3);
	for (int i = 0; i < 3000; i++) { x.wantinplace = i & 1; x.proc(dec, N[k]); if (x.hist.size() > 400) x.hist = " (" + std::to_string(i + 1) + " calls of " + std::to_string(N[k]) + " bytes)"; } x.wantinplace = false; x.fin(dec, 3, dec ? 0 : 2); traces++; st->beat++;
}
SPACE("P06,P07", "stream_huge", 1, "single calls of 16 MiB and 32 MiB + 5 bytes", 7 * 4 * 2 * 2) {
	static const int AL[7] = {A_DES, A_AES128, A_AES192, A_AES256, A_SEED, A_ARIA128, A_BF}; int a = AL[idx % 7], mode = idx / 7 % 4, dec = idx / 28 % 2; Exec x(a, mode, 0); x.setiv(3); x.proc(dec, idx / 56 ? (32 << 20) + 5 : 16 << 20); x.proc(dec, 2 * x.B - 1); x.getiv(); traces++;
}
// P06: IV handling and continuation
static void mode_ops(uint64_t idx, int depth, int nop, bool inplace = false) {
	uint64_t s = idx % ipow(nop, depth); idx /= ipow(nop, depth); int a = idx % NALG; idx /= NALG; int mode = idx % 4; idx /= 4;
	Exec x(a, mode, 0); x.wantinplace = inplace;
	for (int d = 0; d < depth; d++) {
		int o = s % nop; s /= nop;
		switch (o) {
		case 0: x.setiv(3); break;
		case 1: x.setiv(1); break;
		case 2: x.proc(false, x.B); break;
		case 3: x.proc(true, 2 * x.B); break;
		case 4: x.proc(false, x.B / 2); break;
		case 5: x.getiv(); break;
		case 6: if (x.m.pend.empty() && mode != 0) { // move the stream to another context with the same key at the block boundary
				uint8_t iv[16]; alg_getiv(a, x.c, iv); uint8_t key[64]; key_for(a, 0, key); static AnyCtx other; memset(&other, 0x11 * d, sizeof other); alg_init(a, &other, key, mode); alg_setiv(a, &other, iv);
				memset(&x.store, 0xDB, sizeof x.store); x.c = &other; x.hist += " move"; trans++; } break;
		case 7: x.fin(false, 3, RA_BLOCK_PADDING_PKCS7); break;
		case 8: x.reinit(0, mode); break;
		}
	}
	x.proc(true, 2 * x.B - 3); x.proc(false, x.B + 3); if (mode) x.getiv(); traces++;
	sample("%s %s:%s", ALG[a].name, MODE[mode], x.hist.c_str());
}
SPACE("P06", "mode_ops5", 2, "all sequences of 5 operations from {set IV (2 values), encrypt 1 block, decrypt 2 blocks, half block, get IV, move to another context, finish, re-init} then more data", ipow(9, 5) * NALG * 4) { if (idx / ipow(9, 5) % NALG != A_BF) mode_ops(idx, 5, 9); }
SPACE("P06", "mode_ops4_in_place", 0, "all sequences of 4 of the same operations, the output replacing the input whenever nothing is pending", ipow(9, 4) * NALG * 4) { if (idx / ipow(9, 4) % NALG != A_BF) mode_ops(idx, 4, 9, true); }
SPACE("P06", "mode_ops6", 1, "all sequences of 6 operations from {set IV (2 values), encrypt 1 block, decrypt 2 blocks, half block, get IV, move to another context, finish, re-init} then more data", ipow(9, 6) * NALG * 4) { if (idx / ipow(9, 6) % NALG != A_BF) mode_ops(idx, 6, 9); }
SPACE("P06", "mode_ops3_bf", 0, "Blowfish: all sequences of 3 operations", ipow(9, 3) * 4) { uint64_t s = idx % ipow(9, 3), mode = idx / ipow(9, 3); mode_ops(s + ipow(9, 3) * (A_BF + NALG * mode), 3, 9); }
SPACE("P06", "mode_data", 0, "1..12 blocks x IV never set/zero/ones/mixed x data zero/ones/mixed/repeating x directions x in place or not", NALG * 4 * 2 * 4 * 4 * 12 * 2) {
	int a = idx % NALG; idx /= NALG; int mode = idx % 4; idx /= 4; int dec = idx % 2; idx /= 2; int ivw = idx % 4; idx /= 4; int dw = idx % 4; idx /= 4; int nb = (int)(idx % 12) + 1; idx /= 12;
	if (a == A_BF && nb > 4) return;
	Exec x(a, mode, ivw == 3 ? 2 : 0); x.wantinplace = idx; if (ivw < 3) x.setiv(ivw == 2 ? 5 : ivw); uint8_t d[16 * 12]; base(dw == 3 ? 0 : dw, d, sizeof d); if (dw == 3) for (unsigned i = 0; i < sizeof d; i++) d[i] = fill(i % x.B, 6);
	x.op(dec, nb * x.B, -1, d); x.getiv(); x.op(!dec, nb * x.B, -1, d); traces++;
	sample("%s %s iv %d data %d:%s", ALG[a].name, MODE[mode], ivw, dw, x.hist.c_str());
}

// P08: padding
static int maxlen(int a) { return 4 * ALG[a].blk + 1; }
SPACE("P08", "pad_lengths", 0, "message lengths 0..4 blocks+1 x paddings x ciphers x modes, finished in one call after re-used contexts; then decrypted in one finishing call", NALG * 4 * 3 * 66) {
	int a = idx % NALG, mode = idx / NALG % 4, pad = idx / NALG / 4 % 3, n = (int)(idx / NALG / 12); if (n > maxlen(a)) return;
	Exec x(a, mode, 0); x.setiv(3); x.fin(false, n, pad);
	// decrypt what the model says the ciphertext is; the model's own result was compared above
	Model m; m.init(ref_for(a, 0), mode); uint8_t iv[16]; base(3, iv, 16); m.setiv(iv); uint8_t in[128]; for (int i = 0; i < n; i++) in[i] = fill(i, 4242); int ret; std::vector<uint8_t> ct = m.fin(false, in, n, pad, ret);
	int want = pad == 2 ? n : pad == 1 ? (n + x.B - 1) / x.B * x.B : n / x.B * x.B;
	int wl = pad == 2 ? (n / x.B + 1) * x.B : want;
	if ((int)ct.size() != wl) fail("padding rule broken: %d bytes give %zu", n, ct.size());
	Exec y(a, mode, 0); y.setiv(3); y.op(true, (int)ct.size(), pad, ct.data()); traces++;
	sample("%s %s pad %d length %d -> %zu", ALG[a].name, MODE[mode], pad, n, ct.size());
}
SPACE("P08", "pad_splits", 0, "every split of every message of 0..3 blocks between update and finish x paddings x modes, both directions, and use of the context afterwards", NALG * 4 * 3 * 2 * 49) {
	int a = idx % NALG, mode = idx / NALG % 4, pad = idx / NALG / 4 % 3, dec = idx / NALG / 12 % 2, n = (int)(idx / NALG / 24); int B = ALG[a].blk; if (n > 3 * B) return;
	for (int k = 0; k <= n; k += (a == A_BF && !thorough) ? 5 : 1) {
		Exec x(a, mode, 0); x.setiv(2); x.wantinplace = k & 1;
		if (!dec) { x.proc(false, k); x.fin(false, n - k, pad); x.proc(false, B + 1); x.fin(false, 2, pad); traces++; continue; }
		// decrypt a correctly padded ciphertext cut at k
		Model m; m.init(ref_for(a, 0), mode); uint8_t iv[16]; base(2, iv, 16); m.setiv(iv); uint8_t in[128]; for (int i = 0; i < n; i++) in[i] = fill(i, 999); int ret; std::vector<uint8_t> ct = m.fin(false, in, n, pad, ret);
		if (k > (int)ct.size()) continue;
		x.op(true, k, -1, ct.data()); x.op(true, (int)ct.size() - k, pad, ct.data() + k); x.op(true, B + 1, -1); x.op(true, B - 1, pad); traces++;
	}
}
SPACE("P08", "pad_rest", 0, "finishing with every number of pending bytes and every further length up to two blocks, both directions, the three paddings; then both directions and finishing again: nothing of an incomplete block is left over", NALG * 4 * 3 * 2 * 16) {
	int a = idx % NALG, mode = idx / NALG % 4, pad = idx / NALG / 4 % 3, dec = idx / NALG / 12 % 2, p = (int)(idx / NALG / 24), B = ALG[a].blk; if (p >= B) return;
	for (int n = 0; n <= 2 * B; n += (a == A_BF && !thorough) ? 7 : 1) { Exec x(a, mode, 0); x.setiv(2); if (p) x.proc(dec, p); x.fin(dec, n, pad); x.proc(n & 1, B + 1); x.fin(!(n & 2), n & 4 ? 0 : B - 1, (pad + n) % 3); x.proc(dec, B); if (mode) x.getiv(); traces++; }
}
SPACE("P08", "pad_contents", 0, "decrypt-finish on every (last byte value, run length of that value, number of blocks): all 256 x (block+1) x 1..3", NALG * 2 * 256) {
	int a = idx % NALG, mode = idx / NALG % 2, v = (int)(idx / NALG / 2); int B = ALG[a].blk; RefKey *k = ref_for(a, 0);
	static AnyCtx store[NALG][2]; static bool ini[NALG][2]; if (!ini[a][mode]) { uint8_t key[64]; key_for(a, 0, key); alg_init(a, &store[a][mode], key, mode); ini[a][mode] = true; }
	static Guard gi(4096), go(4096);
	for (int run = 1; run <= B + 1; run++) for (int nb = 1; nb <= 3; nb++) for (int pad = 0; pad < 3; pad++) for (int side = 0; side < 2; side++) {
		if (run > nb * B) continue;
		int n = nb * B; uint8_t pt[48], ct[48], iv[16]; fillbuf(pt, 48, 31 + run); for (int i = 0; i < run; i++) pt[n - 1 - i] = (uint8_t)v;
		if (run < n && pt[n - 1 - run] == v) pt[n - 1 - run] ^= 0x40;
		base(4, iv, 16); Model m; m.init(k, mode); m.setiv(iv); std::vector<uint8_t> c = m.proc(false, pt, n);
		int want = n; if (pad == 2 && v >= 1 && v <= B && run >= v) want = n - v;
		uint8_t *ip = gi.tail(n), *op = side ? go.head() : go.tail(n); memcpy(ip, c.data(), n); void *x = &store[a][mode]; alg_setiv(a, x, iv);
		int r = alg_final(a, x, true, ip, n, op, pad); evals++; nontriv++;
		if (r != want || memcmp(op, pt, want)) fail("%s %s decryptFinal(pad %d) of %d blocks ending in %d bytes of %02x returns %d, want %d", ALG[a].name, MODE[mode], pad, nb, run, v, r, want);
		(void)ct;
	}
	sample("%s %s last byte %02x, runs 1..%d, 1..3 blocks", ALG[a].name, MODE[mode], v, B + 1);
}
SPACE("P08", "pad_damage", 0, "every pad length x every position inside the padding altered to every other value", NALG * 16 * 16) {
	int a = idx % NALG, v = (int)(idx / NALG % 16) + 1, pos = (int)(idx / NALG / 16); int B = ALG[a].blk; if (v > B || pos >= v || (a == A_BF && 0)) return; RefKey *k = ref_for(a, 0);
	uint8_t key[64]; key_for(a, 0, key); static AnyCtx x; alg_init(a, &x, key, 0); static Guard go(4096);
	for (int nv = 0; nv < 256; nv++) {
		uint8_t pt[32], ct[32]; fillbuf(pt, 32, 5); int n = 2 * B; for (int i = 0; i < v; i++) pt[n - 1 - i] = (uint8_t)v; pt[n - 1 - pos] = (uint8_t)nv;
		for (int i = 0; i < n; i += B) k->enc(pt + i, ct + i);
		int l = pt[n - 1], want = n; bool ok = l >= 1 && l <= B; for (int i = 0; ok && i < l; i++) ok = pt[n - 1 - i] == l; if (ok) want = n - l;
		uint8_t *op = go.tail(n); int r = alg_final(a, &x, true, ct, n, op, 2); evals++; nontriv++;
		if (r != want || memcmp(op, pt, want)) fail("%s padding %d with byte %d from the end changed to %02x: returns %d, want %d", ALG[a].name, v, pos, nv, r, want);
	}
}

// P09: reuse and independence
static void reuse(uint64_t idx, int depth, int nop) {
	uint64_t s = idx % ipow(2 * nop, depth); idx /= ipow(2 * nop, depth); int a = idx % NALG, rel = (int)(idx / NALG); int b = (a + (rel == 0 ? 0 : rel)) % NALG;
	int m1 = 1 + s % 3, m2 = (1 + (s >> 2) % 3);
	Exec x(a, m1, 0, 1), y(b, m2, rel ? 0 : 3, 2); x.setiv(3); y.setiv(4); Exec *e[2] = {&x, &y};
	for (int d = 0; d < depth; d++) {
		int o = s % (2 * nop); s /= 2 * nop; Exec &z = *e[o & 1];
		switch (o >> 1) {
		case 0: z.proc(false, z.B + 3); break;
		case 1: z.fin(false, 5, 2); break;
		case 2: z.setiv(2); break;
		case 3: z.fin(true, 2 * z.B, 2); break;
		case 4: z.reinit(z.kw == 3 ? 0 : 3, z.mode); break;
		case 5: z.reinit(z.kw, (z.mode + 1) % 4); break;
		case 6: z.proc(true, z.B - 1); break;
		case 7: z.fin(false, 2, 0); break;
		}
	}
	for (int i = 0; i < 2; i++) { e[i]->proc(true, e[i]->B + 3); e[i]->setiv(5); e[i]->fin(false, 2 * e[i]->B + 1, 2); e[i]->getiv(); }
	traces++;
	sample("%s:%s | %s:%s", ALG[a].name, x.hist.c_str(), ALG[b].name, y.hist.c_str());
}
SPACE("P09", "cipher_pairs3", 0, "two contexts (same cipher and every other cipher): all sequences of 3 operations out of 8 on either", ipow(16, 3) * NALG * 2) { int rel = (int)(idx / ipow(16, 3) / NALG); uint64_t i = idx % (ipow(16, 3) * NALG); int a = i / ipow(16, 3); if (a == A_BF) return; reuse(i + (rel ? (1 + i % 9) : 0) * ipow(16, 3) * NALG, 3, 8); }
SPACE("P09", "cipher_pairs_full4", 1, "two contexts (same cipher and every other cipher): all sequences of 4 operations out of 8 on either", ipow(16, 4) * NALG * NALG) { int a = idx / ipow(16, 4) % NALG; int rel = idx / ipow(16, 4) / NALG; if (a == A_BF || (a + rel) % NALG == A_BF) return; reuse(idx, 4, 8); }
SPACE("P09", "cipher_pairs_all2", 0, "every pair of ciphers: all sequences of 2 operations out of 8 on either", ipow(16, 2) * NALG * NALG) { reuse(idx, 2, 8); }
SPACE("P09", "create_destroy", 0, "contexts from Create: all pairs of ciphers alive at once, one destroyed between the other's calls, memory not left behind", NALG * NALG * 4) {
	int a = idx % NALG, b = idx / NALG % NALG, mode = (int)(idx / NALG / NALG); uint8_t ka[64], kb[64]; key_for(a, 0, ka); key_for(b, 3, kb);
	Model ma, mb; RefKey *ra = ref_for(a, 0), *rb = ref_for(b, 3); ma.init(ra, mode); mb.init(rb, mode);
	uint8_t in[40], o[64]; fillbuf(in, 40, idx); Track t; void *x = NULL, *y = NULL;
	if (alg_create(a, &x, ka, mode) || alg_create(b, &y, kb, mode) || !x || !y) fail("Create fails");
	auto step = [&](int al, void *c, Model &m, int n) { track_allocs = false; std::vector<uint8_t> w = m.proc(false, in, n); track_allocs = true; int r = alg_proc(al, c, false, in, n, o); evals++; trans++; if (r != (int)w.size() || memcmp(o, w.data(), r)) fail("%s beside %s gives another result", ALG[al].name, ALG[b].name); };
	step(a, x, ma, 20); step(b, y, mb, 21); step(a, x, ma, 13); alg_destroy(a, x); step(b, y, mb, 30); alg_destroy(b, y); nontriv++; traces++;
	if (live_allocs) fail("%s/%s: %ld allocations left after Destroy", ALG[a].name, ALG[b].name, live_allocs);
}

// ------------------------------------------------------------------ P05 RC4
static void rc4_stream(const uint8_t *key, int kl, uint8_t *ks, int n) { RC4_KEY k; RC4_set_key(&k, kl, key); std::vector<uint8_t> z(n, 0); RC4(&k, n, z.data(), ks); }
SPACE("P05", "rc4_keys", 0, "key lengths 1..256 x 5 contents x keystream of 600 bytes, key placed before a guard page", 256 * 5) {
	int kl = idx / 5 + 1; static Guard g(4096), gi(4096), go(4096); uint8_t *key = g.tail(kl), ks[600]; uint8_t kb[256]; base((int)(idx % 5), kb, 256); memcpy(key, kb, kl);
	rc4_stream(key, kl, ks, 600); RaRc4Ctx c; memset(&c, 0x99, sizeof c); RaRc4Init(&c, key, kl);
	uint8_t *in = gi.tail(600), *o = go.tail(600); fillbuf(in, 600, idx);
	int r = (idx & 1) ? RaRc4Decrypt(&c, in, 600, o) : RaRc4Encrypt(&c, in, 600, o); evals++; nontriv++;
	if (r != 600) fail("RC4 returns %d for 600 bytes", r);
	for (int i = 0; i < 600; i++) if (o[i] != (uint8_t)(in[i] ^ ks[i])) fail("RC4 key of %d bytes: byte %d is %02x, want %02x", kl, i, o[i], in[i] ^ ks[i]);
	sample("RC4 key of %d bytes %s", kl, hex(key, kl).c_str());
}
SPACE("P05", "rc4_key_bytes", 0, "for key lengths 1,5,16,32,255,256: every byte position (up to 32) x every value", 6 * 32) {
	static const int KL[6] = {1, 5, 16, 32, 255, 256}; int kl = KL[idx / 32], pos = idx % 32; if (pos >= kl) return;
	for (int v = 0; v < 256; v++) { uint8_t key[256], ks[300], o[300]; fillbuf(key, 256, 4); key[kl > 32 ? kl - 1 - pos : pos] = (uint8_t)v; rc4_stream(key, kl, ks, 300); memset(o, 0, 300); RaRc4Ctx c; RaRc4Init(&c, key, kl);
		int r = RaRc4Encrypt(&c, o, 300, o); evals++; nontriv++; if (r != 300 || memcmp(o, ks, 300)) fail("RC4 key length %d byte %d = %02x wrong keystream", kl, pos, v); }
}
static void rc4_seq(uint64_t idx, int depth) {
	static const int L[12] = {0, 1, 2, 7, 16, 255, 256, 257, 3, 64, 511, 1000}; uint8_t key[16]; fillbuf(key, 16, 5); static uint8_t ks[8000]; static bool ini; if (!ini) { rc4_stream(key, 16, ks, 8000); ini = true; }
	RaRc4Ctx c; RaRc4Init(&c, key, 16); int pos = 0; static Guard gi(4096), go(4096); std::string h;
	for (int d = 0; d < depth; d++) {
		int o = idx % 24; idx /= 24; int n = L[o % 12]; uint8_t *in = gi.tail(n), *out = o >= 12 ? in : go.tail(n); uint8_t w[1000]; for (int i = 0; i < n; i++) { in[i] = fill(pos + i, 3); w[i] = in[i] ^ ks[pos + i]; }
		int r = (pos ^ d) & 1 ? RaRc4Decrypt(&c, in, n, out) : RaRc4Encrypt(&c, in, n, out); pos += n; evals++; trans++; if (n) nontriv++; h += " " + std::to_string(n) + (o >= 12 ? "i" : "");
		if (r != n || memcmp(out, w, n)) fail("RC4 calls%s: wrong output or return %d", h.c_str(), r);
		vh::state(mix(hashb(c.S, 256), c.x * 1000 + c.y));
	}
	traces++; sample("RC4 calls%s", h.c_str());
}
SPACE("P05", "rc4_seq3", 0, "all sequences of 3 calls from 12 lengths, in place or not, encrypt/decrypt mixed", ipow(24, 3)) { rc4_seq(idx, 3); }
SPACE("P05", "rc4_seq4", 1, "all sequences of 4 calls from 12 lengths, in place or not, encrypt/decrypt mixed", ipow(24, 4)) { rc4_seq(idx, 4); }
SPACE("P05", "rc4_ends", 0, "a call of B+i bytes (B = 1, 256, 4096, 16384, 32768, 65536, 131072; i up to 1535, thorough 6143) between one of 3 and one of 40 bytes: the position the first call leaves takes every pair class of indexes", thorough ? 6144 : 1536) {
	static const int B[7] = {1, 256, 4096, 16384, 32768, 65536, 131072}; static std::vector<uint8_t> ks, buf; uint8_t key[7] = {9, 8, 7, 6, 5, 4, 3}; if (ks.empty()) { ks.resize(140000); buf.resize(140000); rc4_stream(key, 7, ks.data(), (int)ks.size()); }
	for (int k = 0; k < 7; k++) { int n = B[k] + (int)idx; RaRc4Ctx c; RaRc4Init(&c, key, 7); memset(buf.data(), 0, n + 43); int r = RaRc4Encrypt(&c, buf.data(), 3, buf.data()); r += idx & 1 ? RaRc4Encrypt(&c, &buf[3], n, &buf[3]) : RaRc4Decrypt(&c, &buf[3], n, &buf[3]); n += 3; r += RaRc4Encrypt(&c, &buf[n], 40, &buf[n]); evals++; nontriv++; if (r != n + 40 || memcmp(buf.data(), ks.data(), n + 40)) fail("RC4: calls of 3, %d and 40 bytes", n - 3); }
	sample("RC4 calls of 1+%d .. and 40", (int)idx);
}
SPACE("P05", "rc4_long", 0, "one keystream of 3 MiB in calls of one fixed length, for 18 lengths", 18) {
	static const int L[18] = {1, 2, 3, 5, 31, 32, 33, 100, 255, 256, 257, 4095, 4096, 65535, 65536, 65537, 131072, 1 << 20}; int n = L[idx], total = 3 << 20; static std::vector<uint8_t> ks; uint8_t key[5] = {1, 2, 3, 4, 5};
	if (ks.empty()) { ks.resize(total + (1 << 20)); rc4_stream(key, 5, ks.data(), (int)ks.size()); }
	std::vector<uint8_t> buf(n); RaRc4Ctx c; RaRc4Init(&c, key, 5); for (int p = 0; p < total; p += n) { memset(buf.data(), 0, n); int r = RaRc4Encrypt(&c, buf.data(), n, buf.data()); evals++; if (r != n || memcmp(buf.data(), &ks[p], n)) fail("RC4 keystream wrong after byte %d in calls of %d", p, n); } nontriv++;
	sample("RC4 3 MiB in calls of %d", n);
}
SPACE("P09,P05", "rc4_pairs", 0, "two RC4 contexts: all sequences of 4 operations {encrypt 1, encrypt 300, re-init same key, re-init other key} on either, then data", ipow(8, 4)) {
	uint8_t k[2][16]; fillbuf(k[0], 16, 1); fillbuf(k[1], 16, 2); static uint8_t ks[2][4000]; static bool ini; if (!ini) { rc4_stream(k[0], 16, ks[0], 4000); rc4_stream(k[1], 9, ks[1], 4000); ini = true; }
	RaRc4Ctx c[2]; int kw[2] = {0, 1}, pos[2] = {0, 0}; for (int i = 0; i < 2; i++) RaRc4Init(&c[i], k[i], i ? 9 : 16);
	auto enc = [&](int w, int n) { uint8_t b[300] = {0}; int r = RaRc4Encrypt(&c[w], b, n, b); evals++; trans++; nontriv++; if (r != n || memcmp(b, ks[kw[w]] + pos[w], n)) fail("RC4 context disturbed or stale state after re-init"); pos[w] += n; };
	for (int d = 0; d < 4; d++) { int o = idx % 8; idx /= 8; int w = o & 1; switch (o >> 1) { case 0: enc(w, 1); break; case 1: enc(w, 300); break; case 2: RaRc4Init(&c[w], k[kw[w]], kw[w] ? 9 : 16); pos[w] = 0; break; case 3: kw[w] ^= 1; RaRc4Init(&c[w], k[kw[w]], kw[w] ? 9 : 16); pos[w] = 0; break; } }
	enc(0, 20); enc(1, 20); traces++;
}
