// P35: every allocation of every operation that allocates fails, one at a time, in pairs, and all from one on.
#include "ciphers.h"
#include "digests.h"
#undef fail
#include "rsakeys.h"
typedef struct RaRandom *RP;
enum { BAD = -9999 };   // the operation misbehaved (handed out an object with an error, ...)
struct Scn { std::string name; std::function<int(Bytes &)> op; std::function<bool(const Bytes &)> valid; bool may_fail = false; };
static BN bnzz(mpz_srcptr z) { return ::mk(z, words_of(z)); }
static std::string bad_what;
static int misbehave(const char *w) { bad_what = w; return BAD; }
static void run_scn(Scn &s, bool pairs) {
	Bytes base; long n; int r0; note("%s", s.name.c_str()); auto once = [&](Bytes &o) { env::On e; o.clear(); bad_what.clear(); int r = s.op(o); if (env::live) { bad_what = "a file descriptor is left open"; r = BAD; } return r; };
	{ Track t; alloc_fill = 0xA5; r0 = once(base); n = alloc_count; track_allocs = false; alloc_fill = -1; if (r0 == BAD) fail("%s: %s", s.name.c_str(), bad_what.c_str()); if (live_allocs) fail("%s: leaks %ld allocations although no allocation fails", s.name.c_str(), live_allocs); if (r0 != 0 && !s.may_fail) fail("%s: returns %d although no allocation fails", s.name.c_str(), r0); }
	auto attempt = [&](long k, long k2, bool rest) {
		char w[600]; snprintf(w, sizeof w, "%s, allocation %ld%s fails%s", s.name.c_str(), k, k2 >= 0 ? (" and " + std::to_string(k2)).c_str() : "", rest ? " and all later ones" : ""); note("%s", w); Bytes o; int r;
		{ Track t; alloc_fill = (int)(k * 7 & 255); fail_at = k; fail_at2 = k2; fail_rest = rest; r = once(o); long cnt = alloc_count; track_allocs = false; alloc_fill = -1; evals++; trans += cnt; nontriv++;
			if (r == BAD) fail("%s: %s", w, bad_what.c_str()); if (live_allocs) fail("%s: leaks %ld allocations (returns %d)", w, live_allocs, r);
			if (r == 0) { if (r0 != 0) fail("%s: succeeds, without failures it returns %d", w, r0); if (s.valid ? !s.valid(o) : o != base) fail("%s: succeeds with a wrong result %s", w, hex(o.data(), o.size()).c_str()); } }
		if (!rest || n < 100) { Track t; r = once(o); track_allocs = false; if (r == BAD) fail("%s: repeated with memory available: %s", w, bad_what.c_str()); if (live_allocs) fail("%s: repeated with memory available: leaks", w); if (r != r0 || (s.valid ? r == 0 && !s.valid(o) : o != base)) fail("%s: repeated with memory available: returns %d (%d expected)%s", w, r, r0, r == r0 ? " and another result" : ""); }
	};
	for (long k = 0; k < n; k++) { attempt(k, -1, false); attempt(k, -1, true); if (pairs && (n <= 40 || (thorough && n <= 400))) for (long j = k + 1; j < n && j < k + 40; j++) attempt(k, j, false); } trans += n; sample("%s: %ld allocations", s.name.c_str(), n);
}
static void putbn(Bytes &o, BN b) { o.push_back((uint8_t)b->sign); for (int i = 0; i < b->length; i++) for (int j = 0; j < WB; j++) o.push_back((uint8_t)(b->data[i] >> (8 * j))); o.push_back(0xEE); }
#define SENT(T) ((T)(intptr_t)-64)
static bool kept(void *p) { return p == NULL || p == SENT(void *); }
static const int PAIRS = 1;
#define RUN(S) do { Scn s_ = S; run_scn(s_, thorough || PAIRS); } while (0)

SPACE("P35", "ciphers", 0, "creating every cipher in every mode", (NALG * 4 + 1)) {
	int a = idx / 4, m = idx % 4; uint8_t key[64]; fillbuf(key, 64, 7); if (a == NALG) { RUN((Scn{"creating RC4", [&](Bytes &o) { RaRc4Ctx *c = SENT(RaRc4Ctx *); int r = RaRc4Create(key, 16, &c); if (r) return kept(c) ? r : misbehave("a context is handed out with an error"); uint8_t b[20] = {0}; RaRc4Encrypt(c, b, 20, b); o.assign(b, b + 20); RaRc4Destroy(c); return r; }})); return; }
	RUN((Scn{std::string("creating ") + ALG[a].name + " " + MODE[m], [&](Bytes &o) { void *c = SENT(void *); int r = alg_create(a, &c, key, m); if (r) return kept(c) ? r : misbehave("a context is handed out with an error"); uint8_t b[64] = {0}, iv[16] = {1}; alg_setiv(a, c, iv); int n = alg_proc(a, c, false, b, 48, b); o.assign(b, b + n); alg_destroy(a, c); return r; }}));
}
SPACE("P35", "digests", 0, "creating every digest", NDG) { int d = (int)idx; RUN((Scn{std::string("creating ") + DG[d].name, [&](Bytes &o) { void *c = SENT(void *); int r = dg_create(d, &c); if (r) return kept(c) ? r : misbehave("a context is handed out with an error"); uint8_t b[64]; dg_update(d, c, (const uint8_t *)"abcdef", 6); dg_final(d, c, b); o.assign(b, b + DG[d].len); dg_destroy(d, c); return r; }})); }
SPACE("P35", "generators", 0, "creating generators of the four algorithms, seeded and not", 8) { int a = idx % 4; bool seeded = idx < 4; RUN((Scn{"creating generator " + std::to_string(idx), [&](Bytes &o) { RP c = SENT(RP); uint8_t s[3] = {1, 2, 3}; int r = RaRandomCreate((RaRandomAlgorithm)a, seeded ? s : NULL, 3, &c); if (r) return kept(c) ? r : misbehave("a generator is handed out with an error"); o.resize(100); RaRandomBytes(c, 100, o.data()); RaRandomDestroy(c); return r; }})); }
SPACE("P35", "numbers", 0, "making and copying numbers of 1 to 20 words", 20) { int w = 1 + (int)idx; Z z; vpat(z, 7, w); BN src = ::mk(z, w + 1); RUN((Scn{"new and copied numbers of " + std::to_string(w) + " words", [&](Bytes &o) { BN a = BnNewW(w), b = BnNew(w * WBITS), c = BnClone(src); int r = a && b && c ? 0 : RA_ERR_OUT_OF_MEMORY; if (a && a->length != 1) r = misbehave("length"); if (c) putbn(o, c); if (a) putbn(o, a); if (b) putbn(o, b); if (a) BnFree(a); if (b) BnFree(b); if (c) BnClearFree(c); return r; }})); BnFree(src); }
// division: dividend, divisor, which results are wanted, and which arguments are the same number
SPACE("P35", "division", 0, "quotients and remainders: 8 lengths of dividends x 7 of divisors x 2 patterns x 4 forms (modulo, both, modulo in place, both in place)", 8 * 7 * 2 * 4) {
	int la = 1 + idx % 8, lb = 1 + idx / 8 % 7, p = idx / 56 % 2 ? 7 : 0, f = idx / 112; Z a, b; vpat(a, p, la); vpat(b, p ? 5 : 8, lb); if (p) mpz_neg(a, a); BN x = ::mk(a, std::max(la, lb) + 2), y = ::mk(b, lb), q = BnNewW(la + 2), r = BnNewW(lb + 2);
	char w[100]; snprintf(w, sizeof w, "dividing %d words by %d words, form %d, pattern %d", la, lb, f, p);
	RUN((Scn{w, [&](Bytes &o) { setbn(x, a); stale(q); stale(r); int e = f == 0 ? BnMod(r, x, y) : f == 1 ? BnDiv(q, r, x, y) : f == 2 ? BnMod(x, x, y) : BnDiv(q, x, x, y); if (!same(y, b)) return misbehave("the divisor is changed"); if (e) { if (!same(x, a)) return misbehave("the dividend is changed by a failing division"); return e; } if (f & 1) putbn(o, q); putbn(o, f < 2 ? r : x); return e; }}));
	BnFree(x); BnFree(y); BnFree(q); BnFree(r);
}
SPACE("P35", "gcd", 0, "greatest common divisors and coefficients: 5 x 5 lengths x 8 choices of wanted results x signed or not, with common factors or not", 5 * 5 * 10 * 2) {
	int lm = 1 + idx % 5, ln = 1 + idx / 5 % 5, f = idx / 25 % 10, c = idx / 250; Z m, n, g; vpat(m, 7, lm); vpat(n, 6, ln); if (mpz_cmp_ui(n, 3) < 0) mpz_set_ui(n, 35); if (c) { mpz_mul_ui(m, m, 6); mpz_mul_ui(n, n, 15); } BN x = ::mk(m, lm + 3), y = ::mk(n, ln + 3), r = BnNewW(12), a = BnNewW(12), b = BnNewW(12); char w[100]; snprintf(w, sizeof w, "greatest common divisor, %d and %d words, form %d, common factor %d", lm, ln, f, c);
	RUN((Scn{w, [&](Bytes &o) { setbn(x, m); setbn(y, n); stale(r); stale(a); stale(b); int e; bool wr = true, wa = false, wb = false; if (f == 8) e = GetGCD(r, x, y); else if (f == 9) e = GetGCD(r, y, x); else { wr = !(f & 1); wa = true; wb = (f & 2) != 0; e = GetGCDEx(wr ? r : NULL, a, wb ? b : NULL, x, y, f & 4 ? 1 : 0); } if (!same(x, m) || !same(y, n)) return misbehave("an operand is changed"); if (e) return e; if (wr) putbn(o, r); if (wa) putbn(o, a); if (wb) putbn(o, b); return e; }, nullptr, true}));
	BnFree(x); BnFree(y); BnFree(r); BnFree(a); BnFree(b);
}
SPACE("P35", "exponentiation", 0, "Montgomery contexts and powers: moduli of 1 to 6 words x 7 exponent lengths, context made before or within", 6 * 7 * 2) {
	int l = 1 + idx % 6, el = idx / 6 % 7, in = idx / 42; Z n, a, e; vpat(n, 7, l); mpz_setbit(n, 0); if (mpz_cmp_ui(n, 3) < 0) mpz_set_ui(n, 101); vpat(a, 6, l); mpz_mod(a, a, n); if (el == 0) mpz_set_ui(e, 0); else if (el == 1) mpz_set_ui(e, 1); else if (el == 2) mpz_set_ui(e, 65537); else vpat(e, 7, el - 2); BN N_ = ::mk(n, l), A = ::mk(a, l), E = ::mk(e, 1), r = BnNewW(l + 1); RaMontCtx *pre = NULL; if (!in) { int q = RaMontCreate(N_, &pre); if (q) fail("RaMontCreate returns %d", q); } char w[100]; snprintf(w, sizeof w, "power, modulus of %d words, exponent form %d, context %s", l, el, in ? "within" : "before");
	RUN((Scn{w, [&](Bytes &o) { RaMontCtx *c = pre; stale(r); if (in) { c = SENT(RaMontCtx *); int q = RaMontCreate(N_, &c); if (q) return kept(c) ? q : misbehave("a context is handed out with an error"); } int q = RaMontExpMod(c, r, A, E); if (q == 0) putbn(o, r); if (in) RaMontDestroy(c); if (!same(A, a) || !same(E, e) || !same(N_, n)) return misbehave("an operand is changed"); return q; }})); if (pre) RaMontDestroy(pre); BnFree(N_); BnFree(A); BnFree(E); BnFree(r);
}
SPACE("P35", "bytes", 0, "writing numbers, negative ones included, of 1 to 9 words", 18) { int l = 1 + idx / 2; Z z; vpat(z, 7, l); if (idx & 1) mpz_neg(z, z); BN b = ::mk(z, l); RUN((Scn{"writing a number of " + std::to_string(l) + " words" + (idx & 1 ? ", negative" : ""), [&](Bytes &o) { o.assign(100, 0); int n = BnToByteArray(b, o.data(), 100); if (!same(b, z)) return misbehave("the number is changed"); if (n <= 0) { o.clear(); return RA_ERR_OUT_OF_MEMORY; } o.resize(n); Bytes f(100); if (mpz_sgn(z) > 0) n = BnToFixedByteArray(b, f.data(), 100); if (!same(b, z)) return misbehave("the number is changed"); if (n <= 0) { o.clear(); return RA_ERR_OUT_OF_MEMORY; } put(o, f); n = BnToByteArray(b, NULL, 0); o.push_back((uint8_t)n); if (n <= 0) { o.clear(); return RA_ERR_OUT_OF_MEMORY; } return 0; }})); BnFree(b); }
SPACE("P35", "primality", 0, "testing primes, composites and even numbers of 1 to 5 words, and small ones", 40) {
	int l = 1 + idx % 5, k = idx / 5; Z z; vpat(z, 7, l); if (k == 0) mpz_nextprime(z, z); else if (k == 1) { mpz_setbit(z, 0); if (pprime(z)) mpz_add_ui(z, z, 2); } else if (k == 2) mpz_set_ui(z, 2 + l); else if (k == 3) mpz_mul_2exp(z, z, 1); else if (k == 4) { vpat(z, 7, (l + 1) / 2); mpz_nextprime(z, z); mpz_mul(z, z, z); } else if (k == 5) mpz_set_ui(z, 10007 + 2 * l); else if (k == 6) mpz_set_ui(z, 3215031751u); else mpz_set_si(z, -l); BN b = ::mk(z, words_of(z)); bool pr = pprime(z); if (BnGetBitLength(b) < 1) { BnFree(b); return; }
	RUN((Scn{"primality of " + str((mpz_srcptr)z), [&](Bytes &o) { int r = RaIsPrimeNumber(b); if (!same(b, z)) return misbehave("the number is changed"); if (r == 0 && !pr) return misbehave("a composite number is reported prime"); return r; }, nullptr, !pr})); BnFree(b);
}
static int gen_progress(int, void *) { return RA_ERR_SUCCESS; }
SPACE("P35", "prime_generation", 0, "generating primes of 14 sizes, with and without a generator and a progress function", 14 * 3) {
	int bit = 3 + (int)(idx / 3) * (idx / 3 < 10 ? 3 : 4), f = idx % 3; BN b = BnNew(bit + 8); RUN((Scn{"generating a prime of " + std::to_string(bit) + " bits, form " + std::to_string(f), [&](Bytes &o) { stale(b); RP g = NULL; uint8_t s[2] = {(uint8_t)bit, 9}; if (f) { int q = RaRandomCreate(RA_RAND_SHA256, s, 2, &g); if (q) return q; } int r = f == 0 ? RaGenPrimeNumber(b, bit) : RaGenPrimeNumberEx(b, bit, f == 2 ? gen_progress : NULL, NULL, g); if (g) RaRandomDestroy(g); if (r == 0) putbn(o, b); return r; }, [&](const Bytes &) { Z z; from_bn(z, b); return pprime(z) && (int)mpz_sizeinbase(z, 2) == bit; }})); BnFree(b);
}
SPACE("P35", "random_numbers", 0, "random numbers and bytes of 8 to 150 bits, with and without a generator", 143 * 8) { int bit = 8 + idx / 8, f = idx % 4; bool own = idx / 4 % 2; BN b = BnNew(bit + 8); uint8_t s[1] = {4}; RP g; if (RaRandomCreate(RA_RAND_MD5, s, 1, &g)) fail("generator"); uint8_t raw[20]; RUN((Scn{"random number, form " + std::to_string(f) + (own ? "" : ", no generator given"), [&](Bytes &o) { stale(b); memset(raw, 0x77, 20); int r = f == 0 ? BnGenRandom(b, bit, own ? g : NULL) : f == 1 ? BnGetRandomOdd(b, bit, own ? g : NULL) : f == 2 ? BnGetRandomRSA(b, bit, own ? g : NULL) : BnGenRandomByteArray(raw, bit / 8, own ? g : NULL); if (r == 0 && f < 3 && (!wellformed(b) || BnGetBitLength(b) > bit)) return misbehave("success without a number"); if (r == 0 && f < 3 && bit >= 48) { bool old = true; for (int i = 1; i < bit / 8 - 1; i++) old = old && (uint8_t)(b->data[i / WB] >> (8 * (i % WB))) == 0xA5; if (old) return misbehave("success with the old contents"); } if (r == 0 && f == 3 && bit > 64) { int c = 0; for (int i = 0; i < bit / 8; i++) c += raw[i] == 0x77; if (c > 5) return misbehave("success without bytes"); } return r; }, [&](const Bytes &) { return true; }})); RaRandomDestroy(g); BnFree(b); }
static bool key_ok(const Bytes &b) { K k; return parse_priv(b, k) && consistent(k); }
SPACE("P35", "rsa_generation", 0, "generating RSA keys of 12 sizes", 12) { int bit = idx < 8 ? 6 + 4 * (int)idx : 40 + 16 * ((int)idx - 8); Scn s{"generating a key of " + std::to_string(bit) + " bits", [&](Bytes &o) { KP k = SENT(KP); int r = RaRsaCreateKeyPair(bit, &k); if (r) return kept(k) ? r : misbehave("a key is handed out with an error"); bool t = track_allocs; track_allocs = false; o = exported(k, true); track_allocs = t; RaRsaDestroyKeyPair(k); return r; }, [&](const Bytes &o) { K k; if (!parse_priv(o, k)) return false; if (mpz_cmp_ui(k.n(), 65537) > 0) return consistent(k); Z t; mpz_mul(t, k.p(), k.q()); return mpz_cmp(t, k.n()) == 0 && pprime(k.p()) && pprime(k.q()); }}; run_scn(s, false); }
static K &okey(int i) { static std::map<int, K> m; static const int b[] = {24, 63, 64, 65, 128, 200, 512}; if (!m.count(i)) m[i] = sized_key(b[i], 17, i); return m[i]; }
SPACE("P35", "rsa_operations", 0, "RSA operations with 7 sizes of private and public keys: encrypt, decrypt, sign, verify right and wrong signatures", 7 * 2 * 12) {
	K &k = okey(idx % 7); bool pub = idx / 7 % 2; int op = idx / 14; KP kp = need(I_ANY, pub ? pub8(k) : priv8(k), "key"); Z m, s; vpat(m, 7, words_of(k.n())); mpz_mod(m, m, k.n()); if (op == 3) mpz_set_ui(m, 0); if (op == 4) mpz_set_ui(m, 1); mpz_powm(s, m, k.d(), k.n()); Z sg(s), mm(m); bool okk = true; if (op == 5) { mpz_add_ui(sg, s, 1); okk = false; } if (op == 6) { mpz_set_ui(sg, 0); okk = false; } if (op == 7) { mpz_add_ui(mm, m, 1); okk = false; } if (op == 8) { mpz_set_ui(mm, 0); okk = false; } if (op == 9) { mpz_set_ui(mm, 0); mpz_set_ui(sg, 1); okk = false; } if (op == 10) { mpz_set_ui(sg, 0); mpz_set_ui(mm, 0); } if (op == 11) { mpz_neg(mm, m); okk = false; } BN S = bnzz(sg), M = bnzz(mm), r = BnNewW(words_of(k.n()) + 1);
	char w[100]; snprintf(w, sizeof w, "RSA operation %d, %s key of %d bits", op, pub ? "public" : "private", RaRsaKeyBitLength(kp));
	RUN((Scn{w, [&](Bytes &o) { stale(r); int q = op == 0 ? RaRsaEncrypt(kp, M, r) : op == 1 ? RaRsaDecrypt(kp, M, r) : op == 2 ? RaRsaSign(kp, M, r) : RaRsaVerify(kp, S, M); if (!same(S, sg) || !same(M, mm)) return misbehave("an operand is changed"); if (op > 2 && q == 0 && !okk) return misbehave("a wrong signature is accepted"); if (q == 0 && op < 3) putbn(o, r); return q; }, nullptr, (op > 2 && !okk) || (pub && (op == 1 || op == 2))})); BnFree(S); BnFree(M); BnFree(r); RaRsaDestroyKeyPair(kp);
}
SPACE("P35", "rsa_verify_key", 0, "verifying 7 keys, right or with each part wrong", 7 * 9) { K k = okey(idx % 7); int f = idx / 7; if (f < 8) { if (f == 0) mpz_add_ui(k.f[f], k.f[f], 2); else mpz_add_ui(k.f[f], k.f[f], 1); } bool okk = consistent(k); KP kp = need(I_ANY, priv8(k), "key"); RUN((Scn{"verifying a key of " + std::to_string(RaRsaKeyBitLength(kp)) + " bits, part " + std::to_string(f) + " wrong", [&](Bytes &o) { int r = RaRsaVerifyKey(kp); if (r == 0 && !okk) return misbehave("an inconsistent key is accepted"); return r; }, nullptr, !okk})); RaRsaDestroyKeyPair(kp); }
SPACE("P35", "rsa_import", 0, "importing keys of 7 sizes in 4 formats, sound or truncated at each of 12 places", 7 * 4 * 13) {
	K &k = okey(idx % 7); int f = idx / 7 % 4, cut = idx / 28; Bytes b = f == 0 ? enc(pub1(k)) : f == 1 ? enc(priv1(k)) : f == 2 ? pub8(k) : priv8(k); int how = f == 0 ? I_PUB : f == 1 ? I_PRIV : I_ANY; bool priv = f & 1; if (cut) b.resize(b.size() * cut / 13);
	RUN((Scn{std::string("importing, format ") + std::to_string(f) + ", cut " + std::to_string(cut), [&](Bytes &o) { KP kp = SENT(KP); int r = import(how, b.data(), (int)b.size(), &kp); if (r) return kept(kp) ? r : misbehave("a key is handed out with an error"); bool t = track_allocs; track_allocs = false; o = exported(kp, priv); track_allocs = t; RaRsaDestroyKeyPair(kp); return r; }, nullptr, cut != 0}));
}
SPACE("P35", "rsa_import_many", 0, "importing encodings of 1 to 64 elements: a public or private key with surplus elements, other structures (flat, nested, of strings), cut off before the end or not, definite and indefinite lengths", 64 * 5 * 2 * 2) {
	K &k = okey(1); int m = 1 + idx % 64, f = idx / 64 % 5; bool cut = idx / 320 % 2, ind = idx / 640; N t = f == 0 ? pub1(k) : f == 1 ? priv1(k) : tree(0x30, {}); if (f < 2) { for (int i = (int)t.kids.size() + 1; i < m; i++) t.kids.push_back(i % 3 ? leaf(2, {(uint8_t)i}) : leaf(5, {})); } else for (int i = 1; i < m; i++) { if (f == 2) t.kids.push_back(leaf(2, {(uint8_t)i})); else if (f == 3) t.kids.push_back(i % 2 ? tree(0x30, {leaf(2, {(uint8_t)i}), leaf(6, OID)}) : leaf(4, {1, 2})); else t.kids.push_back(i % 7 ? leaf(4, {}) : tree(0x31, {leaf(5, {})})); }
	if (ind) t.form = F_INDEF; Bytes b = enc(t); if (cut) b.resize(b.size() - 1 - (f == 2)); int how = f == 0 ? I_PUB : f == 1 ? I_PRIV : I_ANY;
	RUN((Scn{"importing " + std::to_string(m) + " elements, form " + std::to_string(f) + (cut ? ", cut off" : "") + (ind ? ", indefinite" : ""), [&](Bytes &o) { KP kp = SENT(KP); int r = import(how, b.data(), (int)b.size(), &kp); if (r) return kept(kp) ? r : misbehave("a key is handed out with an error"); bool t = track_allocs; track_allocs = false; o = exported(kp, f == 1); track_allocs = t; RaRsaDestroyKeyPair(kp); return r; }, nullptr, true}));
}
SPACE("P35", "rsa_export", 0, "exporting keys of 7 sizes, private and public, with and without a buffer", 7 * 2 * 3) {
	K &k = okey(idx % 7); bool priv = idx / 7 % 2; int f = idx / 14; KP kp = need(I_ANY, priv8(k), "key"); RUN((Scn{std::string("exporting, form ") + std::to_string(f), [&](Bytes &o) { o.assign(900, 0x77); int l = -5; int r = priv ? RaRsaPrivKeyToByteArray(kp, f == 0 ? NULL : o.data(), f == 1 ? 900 : 0, &l) : RaRsaPubKeyToByteArray(kp, f == 0 ? NULL : o.data(), f == 1 ? 900 : 0, &l); if (r == 0) o.push_back((uint8_t)l); else { bool touched = false; for (uint8_t x : o) touched |= x != 0x77; if (touched) return misbehave("the buffer is written by a failing export"); o.clear(); } return r; }, nullptr, f == 2})); RaRsaDestroyKeyPair(kp);
}
SPACE("P35", "whole_protocol", 0, "import, encrypt, decrypt, sign, verify, export, destroy as one history, 5 sizes", 5) { K &k = okey((int)idx); Bytes b = priv8(k); Z m(5); BN M = bnzz(m), c = BnNewW(words_of(k.n()) + 1), d = BnNewW(words_of(k.n()) + 1); RUN((Scn{"whole history, key " + std::to_string(idx), [&](Bytes &o) { KP kp = SENT(KP); int r = RaRsaCreateKeyFromByteArray(b.data(), (int)b.size(), &kp); if (r) return kept(kp) ? r : misbehave("a key is handed out with an error"); r = RaRsaEncrypt(kp, M, c); if (!r) r = RaRsaDecrypt(kp, c, d); if (!r && !same(d, m)) r = misbehave("decryption does not undo encryption"); if (!r) r = RaRsaSign(kp, M, c); if (!r) r = RaRsaVerify(kp, c, M); if (!r) { o.assign(900, 0); int l = 0; r = RaRsaPrivKeyToByteArray(kp, o.data(), 900, &l); if (!r) r = RaRsaVerifyKey(kp); } RaRsaDestroyKeyPair(kp); return r; }})); BnFree(M); BnFree(c); BnFree(d); }
