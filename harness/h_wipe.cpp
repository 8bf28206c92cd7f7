// P37: what is destroyed is overwritten before its memory goes back to the allocator.
#include "ciphers.h"
#include "digests.h"
#undef fail
#include "rsakeys.h"
typedef struct RaRandom *RP;
static int nfreed; static size_t bad_at, bad_size; static bool bad;
static std::vector<Bytes> secrets; static int found;
static void hook_zero(void *p, size_t n) { nfreed++; const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) if (b[i]) { if (!bad) { bad = true; bad_at = i; bad_size = n; } return; } }
static void hook_secret(void *p, size_t n) { nfreed++; for (size_t s = 0; s < secrets.size(); s++) if (memmem(p, n, secrets[s].data(), secrets[s].size())) found = (int)s; }
struct Hook { Hook(void (*h)(void *, size_t)) { nfreed = 0; bad = false; found = -1; free_hook = h; } ~Hook() { free_hook = NULL; } };
// everything released by destroy is zero, and everything the object had is released
#define DESTROYED(WHAT, EXPR) do { { Hook h(hook_zero); EXPR; } evals++; nontriv++; \
	if (bad) fail("%s: byte %zu of a block of %zu is released uncleared", std::string(WHAT).c_str(), bad_at, bad_size); \
	if (!nfreed) fail("%s: nothing is released", std::string(WHAT).c_str()); if (live_allocs) fail("%s: %ld blocks are not released", std::string(WHAT).c_str(), live_allocs); } while (0)

SPACE("P37", "wipe_ciphers", 0, "every cipher x mode x six uses (created only, IV set, part of a block pending, blocks encrypted, decrypted, finished) x two memory patterns", NALG * 4 * 6 * 2) {
	int a = (int)(idx % NALG), m = idx / NALG % 4, use = idx / NALG / 4 % 6; uint8_t key[64], d[80], o[128], iv[16]; fillbuf(key, 64, 3); fillbuf(d, 80, 5); fillbuf(iv, 16, 9);
	char w[120]; snprintf(w, sizeof w, "destroying %s %s after use %d", ALG[a].name, MODE[m], use); note("%s", w); Track t; alloc_fill = idx & 1 ? 0xA5 : 0xFF; void *c = NULL; if (alg_create(a, &c, key, m) != 0) fail("create");
	if (use == 1) alg_setiv(a, c, iv); if (use == 2) alg_proc(a, c, false, d, 5, o); if (use == 3) alg_proc(a, c, false, d, 77, o); if (use == 4) alg_proc(a, c, true, d, 77, o); if (use == 5) alg_final(a, c, false, d, 77, o, 0);
	DESTROYED(w, alg_destroy(a, c)); alg_destroy(a, NULL); alloc_fill = -1; sample("%s", w);
}
SPACE("P37", "wipe_rc4", 0, "RC4 keys of every length, after 0, 1 and 300 bytes", 256) {
	uint8_t key[256], b[300] = {0}; fillbuf(key, 256, 3); for (int n : {0, 1, 300}) { char w[100]; snprintf(w, sizeof w, "destroying RC4, key length %d, after %d bytes", (int)idx + 1, n); note("%s", w); Track t; alloc_fill = 0xA5; RaRc4Ctx *c = NULL; if (RaRc4Create(key, (int)idx + 1, &c)) fail("create"); RaRc4Encrypt(c, b, n, b); DESTROYED(w, RaRc4Destroy(c)); RaRc4Destroy(NULL); alloc_fill = -1; }
}
SPACE("P37", "wipe_bf", 0, "Blowfish keys of every length", 72) {
	uint8_t key[72], b[24] = {0}; fillbuf(key, 72, 3); char w[100]; snprintf(w, sizeof w, "destroying Blowfish, key length %d", (int)idx + 1); note("%s", w); Track t; alloc_fill = 0xA5; RaBlowfishCtx *c = NULL; if (RaBlowfishCreate(key, (int)idx + 1, RA_BLOCK_MODE_CBC, &c)) fail("create"); RaBlowfishEncrypt(c, b, 20, b); DESTROYED(w, RaBlowfishDestroy(c)); alloc_fill = -1;
}
SPACE("P37", "wipe_digests", 0, "every digest x message lengths 0 to 260 x result taken or not", NDG * 261) {
	int d = (int)(idx % NDG), n = (int)(idx / NDG); uint8_t b[300], o[64]; fillbuf(b, 300, 7); for (int fin = 0; fin < 2; fin++) { char w[100]; snprintf(w, sizeof w, "destroying %s after %d bytes%s", DG[d].name, n, fin ? " and the result" : ""); note("%s", w); Track t; alloc_fill = 0xA5; void *c = NULL; if (dg_create(d, &c)) fail("create"); dg_update(d, c, b, n); if (fin) dg_final(d, c, o); DESTROYED(w, dg_destroy(d, c)); dg_destroy(d, NULL); alloc_fill = -1; }
}
SPACE("P37", "wipe_numbers", 0, "numbers of every capacity from 1 to 80 words x every length, all words in use before, made with BnNewW, BnNew and BnClone", 80) {
	int cap = 1 + (int)idx; for (int how = 0; how < 3; how++) for (int len = 1; len <= cap; len++) { char w[100]; snprintf(w, sizeof w, "clearing a number of %d of %d words, way %d", len, cap, how); note("%s", w); Track t; alloc_fill = 0xA5;
		BN x = NULL; if (how == 0) x = BnNewW(cap); else if (how == 1) x = BnNew(cap * WBITS); else { track_allocs = false; BN y = BnNewW(cap); BnSetUInt(y, 5); track_allocs = true; x = BnClone(y); track_allocs = false; BnFree(y); track_allocs = true; } if (!x) fail("new");
		memset(x->data, 0xC3, (size_t)x->max_length * WB); x->length = len; x->sign = len & 1; DESTROYED(w, BnClearFree(x)); alloc_fill = -1; }
}
SPACE("P37", "wipe_generators", 0, "generators of four algorithms, seeded (0 to 140 bytes) and not, after 0, 1 and 200 bytes; and when an allocation fails in creation", 4 * 142) {
	int a = idx % 4, sl = (int)(idx / 4) - 1; uint8_t seed[140], b[200]; fillbuf(seed, 140, 3); env::On e; env::entropy(7);
	for (int n : {0, 1, 200}) { char w[120]; snprintf(w, sizeof w, "destroying generator %d, seed length %d, after %d bytes", a, sl, n); note("%s", w); Track t; alloc_fill = 0xA5; RP g = NULL; if (RaRandomCreate((RaRandomAlgorithm)a, sl < 0 ? NULL : seed, sl < 0 ? 0 : sl, &g)) fail("create"); RaRandomBytes(g, n, b); DESTROYED(w, RaRandomDestroy(g)); RaRandomDestroy(NULL); alloc_fill = -1; }
	for (int k = 0; k < 4; k++) { char w[120]; snprintf(w, sizeof w, "generator %d, seed length %d, allocation %d fails", a, sl, k); note("%s", w); Track t; alloc_fill = 0xA5; fail_at = k; RP g = NULL; int r; { Hook h(hook_zero); r = RaRandomCreate((RaRandomAlgorithm)a, sl < 0 ? NULL : seed, sl < 0 ? 0 : sl, &g); } evals++; if (r && bad) fail("%s: byte %zu of a block of %zu is released uncleared", w, bad_at, bad_size); if (!r) RaRandomDestroy(g); alloc_fill = -1; }
}
SPACE("P37", "wipe_montgomery", 0, "prepared moduli of 1 to 24 words, unused and after exponentiations", 24) {
	int n = 1 + (int)idx; for (int ops = 0; ops < 3; ops++) { Z m, x; vpat(m, 7, n); mpz_setbit(m, 0); vpat(x, 5, n); mpz_mod(x, x, m); BN bm = ::mk(m, n), bx = ::mk(x, n), r = BnNewW(n + 1); char w[100]; snprintf(w, sizeof w, "destroying a modulus of %d words after %d exponentiations", n, ops); note("%s", w);
		{ Track t; alloc_fill = 0xA5; RaMontCtx *c = NULL; if (RaMontCreate(bm, &c)) fail("create"); for (int i = 0; i < ops; i++) RaMontExpMod(c, r, bx, bm); DESTROYED(w, RaMontDestroy(c)); RaMontDestroy(NULL); alloc_fill = -1; } BnFree(bm); BnFree(bx); BnFree(r); }
}
SPACE("P37", "wipe_rsa", 0, "private and public keys of every size from 16 to 256 bits and of 512 and 1024 bits, unused, used, checked and exported; generated keys", 243 + 20) {
	if (idx >= 243) { int bit = 16 + 2 * (int)(idx - 243); char w[100]; snprintf(w, sizeof w, "destroying a generated key of %d bits", bit); note("%s", w); env::On e; env::entropy(idx); Track t; alloc_fill = 0xA5; KP k = NULL; if (RaRsaCreateKeyPair(bit, &k)) fail("generate %d", bit); DESTROYED(w, RaRsaDestroyKeyPair(k)); RaRsaDestroyKeyPair(NULL); alloc_fill = -1; return; }
	int bit = idx == 241 ? 512 : idx == 242 ? 1024 : 16 + (int)idx; K k = sized_key(bit, 3); Bytes pv = priv8(k), pb = pub8(k), p1 = enc(priv1(k)); Z m(2); BN bm = ::mk(m, 1), r = BnNewW(bit / WBITS + 3);
	for (int how = 0; how < 3; how++) for (int use = 0; use < 2; use++) { char w[120]; snprintf(w, sizeof w, "destroying a key of %d bits, kind %d, use %d", bit, how, use); note("%s", w); Track t; alloc_fill = 0xA5; KP x = NULL; const Bytes &in = how == 0 ? pv : how == 1 ? p1 : pb; if (import(how == 1 ? I_PRIV : I_ANY, in.data(), (int)in.size(), &x)) fail("import");
		if (use) { env::On e; RaRsaEncrypt(x, bm, r); if (how < 2) { RaRsaDecrypt(x, bm, r); RaRsaVerifyKey(x); int l; RaRsaPrivKeyToByteArray(x, NULL, 0, &l); } } DESTROYED(w, RaRsaDestroyKeyPair(x)); alloc_fill = -1; } BnFree(bm); BnFree(r); sample("%d bits", bit);
}
SPACE("P37", "wipe_failed_import", 0, "imports of private keys that fail at each later field: nothing released holds a part already read", 60) {
	int bit = 128 + 8 * (int)idx; K k = sized_key(bit, 65537); for (int bad_field = 3; bad_field < 8; bad_field++) for (int wrapped = 0; wrapped < 2; wrapped++) { K c = k; mpz_set_ui(c.f[bad_field], 0); Bytes b = wrapped ? priv8(c) : enc(priv1(c));
		secrets.clear(); for (int f = 2; f < bad_field; f++) { int n = words_of(k.f[f]); std::vector<W> ws(n); to_words(k.f[f], ws.data(), n); if (n * WB >= 8) secrets.push_back(Bytes((uint8_t *)ws.data(), (uint8_t *)ws.data() + 8)); }
		char w[120]; snprintf(w, sizeof w, "import of a key of %d bits with a bad %s", bit, fname[bad_field]); note("%s", w); Track t; alloc_fill = 0; KP x = NULL; int r; { Hook h(hook_secret); r = import(wrapped ? I_ANY : I_PRIV, b.data(), (int)b.size(), &x); } evals++; nontriv++; alloc_fill = -1; if (r == 0) { RaRsaDestroyKeyPair(x); continue; } if (found >= 0) fail("%s: released memory holds the %s", w, fname[2 + found]); if (live_allocs) fail("%s: leaks", w); }
}
