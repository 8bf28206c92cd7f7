// P26-P31: RSA keys, operations, key verification, export and import.
#include "rsakeys.h"
static std::function<int(BN, int, int &)> prime_fn; static long prime_calls;
extern "C" {
int __real_RaGenPrimeNumberEx(BN bn, int bit, int (*pr)(int, void *), void *ud, struct RaRandom *r);
int __wrap_RaGenPrimeNumberEx(BN bn, int bit, int (*pr)(int, void *), void *ud, struct RaRandom *r) { int res = 0; prime_calls++; if (prime_fn && prime_fn(bn, bit, res)) return res; return __real_RaGenPrimeNumberEx(bn, bit, pr, ud, r); }
}
static std::vector<long> &odd_primes() { static std::vector<long> v; if (v.empty()) for (long i = 3; i < 4000; i++) { Z z(i); if (pprime(z)) v.push_back(i); } return v; }
static BN bnz(mpz_srcptr z, int extra = 0) { return mk(z, words_of(z) + extra); }

// ---------------------------------------------------------------- P26
static void ck_key(KP kp, int bit, const char *what, bool use_all) {
	K k; Bytes b = exported(kp, true); if (!parse_priv(b, k)) fail("%s: %d bits: the exported key %s is not a PKCS#8 RSA key", what, bit, hex(b.data(), b.size()).c_str());
	evals++; nontriv++; Z t, u, m; std::string d = "p=" + str((mpz_srcptr)k.p()) + " q=" + str((mpz_srcptr)k.q()) + " e=" + str((mpz_srcptr)k.e()) + " d=" + str((mpz_srcptr)k.d());
	if (!pprime(k.p()) || !pprime(k.q()) || !mpz_cmp(k.p(), k.q())) fail("%s: %d bits: not two different primes: %s", what, bit, d.c_str());
	mpz_mul(t, k.p(), k.q()); if (mpz_cmp(t, k.n())) fail("%s: %d bits: modulus %s is not the product: %s", what, bit, CS(k.n()), d.c_str());
	if ((int)mpz_sizeinbase(k.n(), 2) != bit || RaRsaKeyBitLength(kp) != bit) fail("%s: asked for %d bits, the modulus %s has %d, RaRsaKeyBitLength %d", what, bit, CS(k.n()), (int)mpz_sizeinbase(k.n(), 2), RaRsaKeyBitLength(kp));
	mpz_mul(t, k.e(), k.d()); mpz_sub_ui(t, t, 1);
	for (int i = 0; i < 2; i++) { mpz_sub_ui(u, i ? k.q() : k.p(), 1); if (!mpz_divisible_p(t, u)) fail("%s: %d bits: exponents are not inverse: %s", what, bit, d.c_str()); mpz_mod(m, k.d(), u); if (mpz_cmp(m, i ? k.dq() : k.dp())) fail("%s: %d bits: CRT exponent %d is wrong: %s", what, bit, i + 1, d.c_str()); }
	if (!mpz_invert(t, k.q(), k.p()) || mpz_cmp(t, k.qi())) fail("%s: %d bits: CRT coefficient is wrong: %s", what, bit, d.c_str());
	BN c = BnNew(bit), o = BnNew(bit); long lim = use_all && mpz_cmp_ui(k.n(), 3000) < 0 ? (long)mpz_get_ui(k.n()) : 8;
	for (long i = 0; i < lim; i++) { Z mm(i); if (lim == 8 && i >= 4) mpz_sub_ui(mm, k.n(), i - 3); BN mb = bnz(mm); stale(c); stale(o); int r = RaRsaEncrypt(kp, mb, c); if (r == 0) r = RaRsaDecrypt(kp, c, o); bool okk = r == 0 && same(o, mm); BnFree(mb); evals++; if (!okk) { BnFree(c); BnFree(o); fail("%s: %d bits: decryption does not undo encryption of %s (returns %d): %s", what, bit, CS(mm), r, d.c_str()); } }
	BnFree(c); BnFree(o); if (mpz_cmp_ui(k.n(), 65537) > 0) { env::On e; int r = RaRsaVerifyKey(kp); if (r) fail("%s: %d bits: the generated key does not verify (returns %d): %s", what, bit, r, d.c_str()); }
}
SPACE("P26", "gen_sizes", 0, "every even size from 6 to 160 bits, 12 contents of the system entropy: the generated key is complete and consistent and decrypts what it encrypts", 78) {
	int bit = 6 + 2 * (int)idx; for (int s = 0; s < (bit < 80 ? 12 : 5); s++) { KP kp = NULL; note("%d bits, entropy %d", bit, s); int r; { env::On e; env::entropy(s); r = RaRsaCreateKeyPair(bit, &kp); if (env::live) fail("file descriptor left open"); } if (r || !kp) fail("generating a key of %d bits returns %d", bit, r); ck_key(kp, bit, "generated", s < 2); RaRsaDestroyKeyPair(kp); } sample("%d bits", bit);
}
SPACE("P26", "gen_sizes_large", 0, "256, 384 and 512 bits", 4) { static const int b[] = {192, 256, 384, 512}; int bit = b[idx]; KP kp = NULL; int r; { env::On e; r = RaRsaCreateKeyPair(bit, &kp); } if (r || !kp) fail("generating a key of %d bits returns %d", bit, r); ck_key(kp, bit, "generated", false); RaRsaDestroyKeyPair(kp); }
SPACE("P26", "gen_sizes_more", 1, "every even size from 162 to 400 bits, and 1024", 121) { int bit = idx < 120 ? 162 + 2 * (int)idx : 1024; KP kp = NULL; int r; { env::On e; env::entropy(idx); r = RaRsaCreateKeyPair(bit, &kp); } if (r || !kp) fail("generating a key of %d bits returns %d", bit, r); ck_key(kp, bit, "generated", false); RaRsaDestroyKeyPair(kp); }
SPACE("P26", "gen_impossible", 0, "sizes with no two different primes of half the size: an error", 20) { int bit = 4 - 2 * (int)idx; KP kp = NULL; note("%d bits", bit); env::On e; int r = RaRsaCreateKeyPair(bit, &kp); evals++; if (r == 0 || kp) fail("generating a key of %d bits returns %d", bit, r); }
// the primes the generator finds, enumerated
static void gen_script(int bit, const std::vector<Z> &seq, int err_at) {
	size_t pos = 0; prime_calls = 0; bool failed = false; std::string sq; for (auto &z : seq) sq += str((mpz_srcptr)z) + " "; note("%d bits, primes %s", bit, sq.c_str());
	prime_fn = [&](BN b, int bb, int &res) { if (err_at >= 0 && prime_calls - 1 == err_at) { res = RA_ERR_OUT_OF_MEMORY; failed = true; return true; } if (pos >= seq.size()) return false; if ((int)mpz_sizeinbase(seq[pos], 2) != bb || words_of(seq[pos]) > b->max_length) { prime_calls = -1000000; return false; } setbn(b, seq[pos++]); res = 0; return true; };
	KP kp = NULL; int r; { env::On e; Track t; r = RaRsaCreateKeyPair(bit, &kp); prime_fn = nullptr; track_allocs = false; trans += prime_calls > 0 ? prime_calls : 0; if (r && live_allocs) fail("%d bits, primes %s: %ld allocations left after an error", bit, sq.c_str(), live_allocs); }
	if (failed) { evals++; nontriv++; if (r == 0 || kp) fail("%d bits: finding prime %d fails but the key is returned (result %d)", bit, err_at, r); return; }
	if (r || !kp) { evals++; if (prime_calls < 0) return; if (kp) fail("key returned with error %d", r); return; } // failing is allowed
	ck_key(kp, bit, ("primes found: " + sq).c_str(), true); RaRsaDestroyKeyPair(kp);
}
static std::vector<Z> primes_of(int bits, size_t max) { std::vector<Z> v; Z p, top; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, bits - 1); mpz_mul_2exp(top, p, 1); std::vector<Z> all; mpz_sub_ui(p, p, 1); for (size_t i = 0; i < 4 * max; i++) { mpz_nextprime(p, p); if (mpz_cmp(p, top) >= 0) break; if (mpz_odd_p(p)) all.push_back(p); }
	if (all.size() <= max && all.size() < 4 * max) { if (all.size() <= max) return all; } for (size_t i = 0; i < max / 2; i++) v.push_back(all[i]); Z x(top); std::vector<Z> hi; while (hi.size() < max - max / 2) { mpz_sub_ui(x, x, 1); if (pprime(x)) hi.push_back(x); } for (auto &z : hi) v.push_back(z); return v; }
SPACE("P26", "gen_all_pairs", 0, "every pair of odd primes of 3 to 8 bits as the primes found, all messages", 6) { int h = 3 + (int)idx; std::vector<Z> v = primes_of(h, 64); for (auto &a : v) for (auto &b : v) gen_script(2 * h, {a, b}, -1); sample("%d-bit primes: %zu", h, v.size()); }
SPACE("P26", "gen_all_triples", 0, "every sequence of four primes from five primes of every size from 5 to 40 bits: equal primes, products too short, then usable ones", 36) { int h = 5 + (int)idx; std::vector<Z> v = primes_of(h, 5); for (auto &a : v) for (auto &b : v) for (auto &c : v) for (auto &d : v) gen_script(2 * h, {a, b, c, d}, -1); sample("%d-bit primes", h); }
// primes with p = 1 mod 65537: no private exponent exists
SPACE("P26", "gen_no_inverse", 0, "primes p with 65537 dividing p-1, of 19 to 40 bits, in every position of the first four answers", 22) {
	int h = 19 + (int)idx; Z e(65537), p; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, h - 1); std::vector<Z> bad; Z x; mpz_fdiv_q(x, p, e); for (int i = 0; i < 100000 && bad.size() < 2; i++) { mpz_add_ui(x, x, 1); mpz_mul(p, x, e); mpz_add_ui(p, p, 1); if ((int)mpz_sizeinbase(p, 2) != h) break; if (pprime(p)) bad.push_back(p); }
	if (bad.empty()) return; std::vector<Z> good = primes_of(h, 4); std::vector<Z> v = bad; v.push_back(good[2 % good.size()]); v.push_back(good[good.size() - 1]);
	for (auto &a : v) for (auto &b : v) for (auto &c : v) for (auto &d : v) gen_script(2 * h, {a, b, c, d}, -1); sample("%d bits, %zu such primes", h, bad.size());
}
SPACE("P26", "gen_error", 0, "the search for the first, second, third or fourth prime fails: an error, no key, nothing leaked", 60) { int h = 8 + (int)idx; std::vector<Z> v = primes_of(h, 4); for (int at = 0; at < 4; at++) { gen_script(2 * h, {v[0], v[0], v[0], v[1]}, at); gen_script(2 * h, {v[0], v[0], v[3], v[2]}, at); } }
SPACE("P26", "gen_far", 0, "primes of 300 to 2048 bits as the primes found, first equal ones, then usable ones, in both orders", 20) { static const int b[] = {600, 640, 704, 766, 768, 770, 832, 896, 960, 1022, 1024, 1026, 1152, 1280, 1536, 1792, 2048, 2050, 3072, 4096}; int bit = b[idx]; K k = sized_key(bit, 65537, 3 * idx); std::vector<Z> v = {k.p(), k.q()}; bool both = bit < 1200 || thorough; gen_script(bit, {v[0], v[0], v[1]}, -1); if (both) gen_script(bit, {v[1], v[0]}, -1); sample("%d bits", bit); }

// ---------------------------------------------------------------- P27
struct Ops { KP kp; K k; BN c, o; };
static void ck_op(int op, KP kp, K &k, mpz_srcptr m, BN c, bool range_ok) { // op 0 encrypt, 1 decrypt, 2 sign
	BN mb = bnz(m); stale(c); int r = op == 0 ? RaRsaEncrypt(kp, mb, c) : op == 1 ? RaRsaDecrypt(kp, mb, c) : RaRsaSign(kp, mb, c); bool ch = !same(mb, m); BnFree(mb); evals++;
	static const char *on[] = {"encrypting", "decrypting", "signing"};
	if (ch) fail("n=%s: %s changes the message %s", CS(k.n()), on[op], CS(m));
	if (!range_ok) { if (r == RA_ERR_SUCCESS) fail("n=%s: %s %s, which is not below the modulus or negative, is accepted", CS(k.n()), on[op], CS(m)); return; }
	Z w; mpz_powm(w, m, op == 0 ? k.e() : k.d(), k.n()); nontriv++; if (r) fail("n=%s e=%s d=%s: %s %s returns %d", CS(k.n()), CS(k.e()), CS(k.d()), on[op], CS(m), r); ck_same(c, w, "n=%s e=%s d=%s: %s %s", CS(k.n()), CS(k.e()), CS(k.d()), on[op], CS(m));
	if ((mpz_get_ui(m) + op) % 3 == 0) { BN x = BnNewW(words_of(k.n())); setbn(x, m); r = op == 0 ? RaRsaEncrypt(kp, x, x) : op == 1 ? RaRsaDecrypt(kp, x, x) : RaRsaSign(kp, x, x); evals++; if (r || !same(x, w)) fail("n=%s e=%s d=%s: %s %s in place returns %d, %s", CS(k.n()), CS(k.e()), CS(k.d()), on[op], CS(m), r, CS(x)); BnFree(x); }
}
static void ck_verify(KP kp, K &k, mpz_srcptr s, mpz_srcptr m) {
	BN sb = bnz(s), mb = bnz(m); int r = RaRsaVerify(kp, sb, mb); BnFree(sb); BnFree(mb); evals++; Z w; bool in = mpz_sgn(s) >= 0 && mpz_cmp(s, k.n()) < 0 && mpz_sgn(m) >= 0 && mpz_cmp(m, k.n()) < 0, want = false; if (in) { mpz_powm(w, s, k.e(), k.n()); want = !mpz_cmp(w, m); }
	if (want) nontriv++; if (want != (r == RA_ERR_SUCCESS)) fail("n=%s e=%s: verifying signature %s of message %s returns %d", CS(k.n()), CS(k.e()), CS(s), CS(m), r);
}
static std::vector<std::pair<long, long>> &small_pq() { static std::vector<std::pair<long, long>> v; if (v.empty()) { auto &p = odd_primes(); for (size_t i = 0; i < 12; i++) for (size_t j = 0; j < 12; j++) if (i != j && p[i] * p[j] < 700) v.push_back({p[i], p[j]}); } return v; }
SPACE("P27", "ops_all_messages", 0, "every pair of different odd primes with product below 700, every valid public exponent below 40 (private exponent by phi and by lcm), every message: encrypt, decrypt, sign and verify against exact powers", small_pq().size()) {
	auto pq = small_pq()[idx]; for (long e = 1; e < 40; e += 2) for (int l = 0; l < 2; l++) { K k; if (!mkkey(k, Z(pq.first), Z(pq.second), Z(e), l)) continue; Bytes b = priv8(k); note("p=%ld q=%ld e=%ld", pq.first, pq.second, e); KP kp = need(I_ANY, b, "key"); BN c = BnNewW(2); long n = pq.first * pq.second;
		for (long m = 0; m < n; m++) { Z z(m), s; for (int op = 0; op < 3; op++) ck_op(op, kp, k, z, c, true); mpz_powm(s, z, k.d(), k.n()); ck_verify(kp, k, s, z); }
		BnFree(c); RaRsaDestroyKeyPair(kp); trans++; } sample("p=%ld q=%ld", pq.first, pq.second);
}
SPACE("P27", "verify_all_pairs", 0, "every (signature, message) pair from -3 to n+3 for every key with modulus below 120", small_pq().size()) {
	auto pq = small_pq()[idx]; long n = pq.first * pq.second; if (n > 120) return; for (long e = 3; e < 12; e += 2) { K k; if (!mkkey(k, Z(pq.first), Z(pq.second), Z(e))) continue; for (int pub = 0; pub < 2; pub++) { KP kp = need(I_ANY, pub ? pub8(k) : priv8(k), "key"); for (long s = -3; s < n + 3; s++) for (long m = -3; m < n + 3; m++) ck_verify(kp, k, Z(s), Z(m)); RaRsaDestroyKeyPair(kp); } }
}
SPACE("P27", "ops_range", 0, "messages, ciphertexts and signatures that are negative or not below the modulus, at every distance up to 2n for small keys and around multiples of n for large ones", 60) {
	K k; if (idx < 30) { auto pq = small_pq()[idx * 3]; if (!mkkey(k, Z(pq.first), Z(pq.second), Z(5)) && !mkkey(k, Z(pq.first), Z(pq.second), Z(7)) && !mkkey(k, Z(pq.first), Z(pq.second), Z(11))) return; } else k = sized_key(64 + 17 * (int)(idx - 30));
	KP kp = need(I_ANY, priv8(k), "key"); BN c = BnNewW(words_of(k.n()) + 2); std::vector<Z> v; if (idx < 30) { long n = mpz_get_si(k.n()); for (long m = -2 * n; m < 3 * n; m++) v.push_back(Z(m)); }
	for (int mul = -3; mul < 4; mul++) for (int d = -2; d < 3; d++) { Z z; mpz_mul_si(z, k.n(), mul); mpz_add(z, z, Z(d)); v.push_back(z); } for (int i = 0; i < 8; i++) { Z z(k.n()); mpz_mul_2exp(z, z, i * WBITS + (i & 1)); v.push_back(z); mpz_neg(z, z); v.push_back(z); }
	for (auto &m : v) { bool in = mpz_sgn(m) >= 0 && mpz_cmp(m, k.n()) < 0; for (int op = 0; op < 3; op++) ck_op(op, kp, k, m, c, in); Z s; mpz_mod(s, m, k.n()); Z sg; mpz_powm(sg, s, k.d(), k.n()); ck_verify(kp, k, sg, m); Z sm; mpz_powm(sm, s, k.e(), k.n()); ck_verify(kp, k, m, sm); }
	BnFree(c); RaRsaDestroyKeyPair(kp);
}
static std::vector<Z> msgs(K &k, int more) { std::vector<Z> v; for (long i = 0; i < 4; i++) v.push_back(Z(i)); Z z; for (int i = 1; i < 4; i++) { mpz_sub_ui(z, k.n(), i); v.push_back(z); } v.push_back(k.p()); v.push_back(k.q()); mpz_sub(z, k.n(), k.p()); v.push_back(z); int b = (int)mpz_sizeinbase(k.n(), 2); for (int i = 0; i < b - 1; i += more > 0 ? 1 : more < 0 ? 1000000 : WBITS / 2) { mpz_set_ui(z, 1); mpz_mul_2exp(z, z, i); v.push_back(z); mpz_sub_ui(z, z, 1); v.push_back(z); } for (int p = 0; p < NPAT; p += more < 0 ? 3 : 1) { vpat(z, p, (b + WBITS - 1) / WBITS); mpz_mod(z, z, k.n()); v.push_back(z); } return v; }
static void big_ops(int bit, long e, int more) {
	K k = sized_key(bit, e, bit); note("%d bits, e=%ld", bit, e); KP kp = need(I_ANY, priv8(k), "key"), pk = need(I_ANY, pub8(k), "key"); int nb = words_of(k.n()); BN c = BnNewW(nb);
	if (RaRsaKeyBitLength(kp) != bit) fail("key of %d bits reports %d", bit, RaRsaKeyBitLength(kp));
	for (auto &m : msgs(k, more)) { for (int op = 0; op < 3; op++) ck_op(op, kp, k, m, c, true); ck_op(0, pk, k, m, c, true); Z s, t; mpz_powm(s, m, k.d(), k.n()); ck_verify(kp, k, s, m); ck_verify(pk, k, s, m); mpz_add_ui(t, m, 1); ck_verify(pk, k, s, t); mpz_add_ui(t, s, 1); ck_verify(pk, k, t, m); if (mpz_sgn(m)) { mpz_neg(t, m); ck_verify(pk, k, s, t); mpz_neg(t, s); ck_verify(pk, k, t, m); } mpz_add(t, m, k.n()); ck_verify(pk, k, s, t); }
	BN x = bnz(Z(2)); if (RaRsaDecrypt(pk, x, c) == 0 || RaRsaSign(pk, x, c) == 0) fail("%d bits: a public key decrypts or signs", bit); BnFree(x); BnFree(c); RaRsaDestroyKeyPair(kp); RaRsaDestroyKeyPair(pk);
}
SPACE("P27", "ops_sizes", 0, "every modulus size from 24 to 320 bits, structured messages: all operations against exact powers, altered messages and signatures refused", 297) { big_ops(24 + (int)idx, 65537, 0); sample("%d bits", 24 + (int)idx); }
SPACE("P27", "ops_sizes_large", 0, "512, 1024 and 2048 bits", 5) { static const int b[] = {511, 512, 768, 1024, 2048}; big_ops(b[idx], idx & 1 ? 3 : 65537, 0); }
SPACE("P27", "ops_far", 0, "sizes from 352 to 1120 bits around multiples of 32, 1536, 3072 and 4096 bits, few messages", 81) { int bit = idx < 75 ? 352 + 32 * (int)(idx / 3) + (int)(idx % 3) - 1 : idx < 78 ? 1535 + (int)(idx - 75) : idx == 78 ? 2047 : idx == 79 ? 3072 : 4096; big_ops(bit, idx & 1 ? 65537 : 17, -1); sample("%d bits", bit); }
SPACE("P27", "ops_sizes_more", 1, "every modulus size from 321 to 1100 bits", 780) { big_ops(321 + (int)idx, 17, 1); }
SPACE("P27", "verify_bits", 0, "a signature with each single bit changed and its message with each single bit changed, keys of 128 to 512 bits", 8) { K k = sized_key(128 + 55 * (int)idx); KP kp = need(I_ANY, pub8(k), "key"); Z m, s, t; vpat(m, 7, words_of(k.n())); mpz_mod(m, m, k.n()); mpz_powm(s, m, k.d(), k.n()); ck_verify(kp, k, s, m); for (size_t i = 0; i < mpz_sizeinbase(k.n(), 2) + 70; i++) { mpz_set(t, s); mpz_combit(t, i); ck_verify(kp, k, t, m); mpz_set(t, m); mpz_combit(t, i); ck_verify(kp, k, s, t); } RaRsaDestroyKeyPair(kp); }
// sequences of operations on two keys
SPACE("P27", "ops_sequences", 0, "every sequence of five operations (encrypt, decrypt, sign, verify good, verify bad, out of range) alternating over two keys, each result exact", 12 * 12 * 12 * 12 * 12) {
	static K k[2]; static KP kp[2]; static std::vector<Z> m[2]; if (!kp[0]) { k[0] = sized_key(96); k[1] = sized_key(131, 17); for (int i = 0; i < 2; i++) { kp[i] = need(I_ANY, priv8(k[i]), "key"); m[i] = msgs(k[i], 0); } } static BN c = BnNewW(6); uint64_t x = idx; traces++;
	for (int i = 0; i < 5; i++) { int a = x % 12, w = a / 6; x /= 12; a %= 6; Z &z = m[w][(i * 7 + 10) % m[w].size()]; trans++; if (a < 3) ck_op(a, kp[w], k[w], z, c, true); else if (a < 5) { Z s; mpz_powm(s, z, k[w].d(), k[w].n()); if (a == 4) mpz_combit(s, 3); ck_verify(kp[w], k[w], s, z); } else { Z t; mpz_add(t, z, k[w].n()); ck_op(i % 3, kp[w], k[w], t, c, false); } }
}

// ---------------------------------------------------------------- P28
static int vk(const Bytes &b, int &imp) { KP kp = NULL; imp = RaRsaCreateKeyFromByteArray(b.data(), (int)b.size(), &kp); if (imp || !kp) return -100; env::On e; int r = RaRsaVerifyKey(kp); RaRsaDestroyKeyPair(kp); return r; }
static std::string kstr(K &k) { std::string s; static const char *sn[] = {"n=", " e=", " d=", " p=", " q=", " dp=", " dq=", " qinv="}; for (int i = 0; i < 8; i++) s += sn[i] + str((mpz_srcptr)k.f[i]); return s; }
static void ck_vk(K &k) {
	bool want = consistent(k); int imp; Bytes b = priv8(k); int r = vk(b, imp); evals++; if (want) nontriv++;
	if (want) { if (imp) fail("the consistent key %s is not imported (returns %d)", kstr(k).c_str(), imp); if (r) fail("the consistent key %s is refused (returns %d)", kstr(k).c_str(), r); return; }
	if (r == RA_ERR_SUCCESS) { // only chance may let a composite pass as a prime
		if (mpz_odd_p(k.p()) && mpz_odd_p(k.q()) && mpz_cmp_ui(k.p(), 3) > 0 && mpz_cmp_ui(k.q(), 3) > 0 && (!pprime(k.p()) || !pprime(k.q()))) { int acc = 0; for (uint64_t s = 1; s <= 64; s++) { KP kp = NULL; if (RaRsaCreateKeyFromByteArray(b.data(), (int)b.size(), &kp)) break; env::On e; env::entropy(s); acc += RaRsaVerifyKey(kp) == 0; RaRsaDestroyKeyPair(kp); } if (acc <= 8) return; }
		fail("the inconsistent key %s is accepted", kstr(k).c_str()); }
}
SPACE("P28", "vk_all_exponents", 0, "every pair of odd primes (equal ones included) with product below 260, every public exponent up to n+2 and every private exponent up to n+2", 12 * 12) {
	auto &P = odd_primes(); long p = P[idx / 12], q = P[idx % 12], n = p * q; if (n > 260) return; K k; mpz_set_si(k.p(), p); mpz_set_si(k.q(), q);
	for (long e = 1; e < n + 3; e++) { if (e > 24 && e < n - 4 && n > 80 && !thorough) continue; for (long d = 1; d < n + 3; d++) { mpz_set_si(k.e(), e); mpz_set_si(k.d(), d); derive(k); ck_vk(k); } } sample("p=%ld q=%ld", p, q);
}
SPACE("P28", "vk_fields", 0, "for keys with modulus below 700: each part replaced by every value from 1 to 2n+8", small_pq().size()) {
	auto pq = small_pq()[idx]; K k; long e = 5; for (; e < 60; e += 2) if (mkkey(k, Z(pq.first), Z(pq.second), Z(e), (idx >> 1) & 1)) break; if (e >= 60) return; ck_vk(k); long n = pq.first * pq.second; K o = k;
	for (int f = 0; f < 8; f++) for (long v = 1; v < 2 * n + 8; v++) { if (f == 0 && !(v & 1)) continue; mpz_set_si(k.f[f], v); ck_vk(k); k = o; } sample("%s", kstr(k).c_str());
}
SPACE("P28", "vk_two_fields", 0, "for small keys: every pair of parts replaced by each combination of nearby and structurally related values", small_pq().size()) {
	auto pq = small_pq()[idx]; K k; long e = 5; for (; e < 60; e += 2) if (mkkey(k, Z(pq.first), Z(pq.second), Z(e))) break; if (e >= 60) return; K o = k;
	std::vector<std::vector<Z>> alt(8); for (int f = 0; f < 8; f++) { for (int d = -2; d < 3; d++) { Z t; mpz_add(t, o.f[f], Z(d)); if (mpz_sgn(t) > 0) alt[f].push_back(t); } for (int g = 0; g < 8; g++) alt[f].push_back(o.f[g]); Z t; mpz_add(t, o.f[f], o.n()); alt[f].push_back(t); mpz_sub_ui(t, o.p(), 1); mpz_add(t, t, o.f[f]); alt[f].push_back(t); mpz_sub_ui(t, o.q(), 1); mpz_add(t, t, o.f[f]); alt[f].push_back(t); mpz_set_ui(t, 1); alt[f].push_back(t); }
	for (int f = 0; f < 8; f++) for (int g = f + 1; g < 8; g++) for (auto &a : alt[f]) for (auto &b : alt[g]) { mpz_set(k.f[f], a); mpz_set(k.f[g], b); if (mpz_odd_p(k.n())) ck_vk(k); k = o; }
}
SPACE("P28", "vk_equal_primes", 0, "modulus p*p with every exponent pair and every coefficient for p below 32", 10) { long p = odd_primes()[idx]; K k; mpz_set_si(k.p(), p); mpz_set_si(k.q(), p); for (long e = 1; e < (p < 12 ? p * p : 9); e++) for (long d = 1; d < p * p; d++) { mpz_set_si(k.e(), e); mpz_set_si(k.d(), d); derive(k); for (long c = 1; c < ((e * d - 1) % (p - 1) == 0 || thorough ? p + 2 : 2); c++) { mpz_set_si(k.qi(), c); ck_vk(k); } } }
SPACE("P28", "vk_bits", 0, "keys of 64 to 640 bits: every single bit of every part flipped", 14) {
	K k = sized_key(64 + 44 * (int)idx + (int)(idx & 1), 65537, 7 * idx); ck_vk(k); K o = k; for (int f = 0; f < 8; f++) { int nb = (int)mpz_sizeinbase(o.f[f], 2) + 66; if (nb > 400 && f != 1 && !thorough) nb = 400; for (int i = 0; i < nb; i++) { mpz_combit(k.f[f], i); if (mpz_sgn(k.f[f]) > 0 && mpz_odd_p(k.n())) ck_vk(k); k = o; } } sample("%d bits", 64 + 44 * (int)idx);
}
SPACE("P28", "vk_good_sizes", 0, "consistent keys of every size from 11 to 400 bits, private exponent by phi and by lcm, three public exponents, primes in both orders", 390) {
	int bit = 11 + (int)idx; static const long es[] = {3, 17, 65537}; for (int s = 0; s < 2; s++) for (int i = 0; i < (bit > 20 ? 3 : 2); i++) { K k = sized_key(bit, es[i], s * 31); ck_vk(k); K w; if (mkkey(w, k.q(), k.p(), k.e(), true)) ck_vk(w); if (mkkey(w, k.q(), k.p(), k.e(), false)) ck_vk(w); Z l, p1, q1; mpz_sub_ui(p1, k.p(), 1); mpz_sub_ui(q1, k.q(), 1); mpz_lcm(l, p1, q1); mpz_add(w.d(), w.d(), l); w.qi(); if (mpz_cmp(w.d(), w.n()) < 0) { derive(w); ck_vk(w); } }
}
SPACE("P28", "vk_far", 0, "consistent keys of 400 to 1100 bits, 1536, 2048 and 3072 bits, and each with one part off by one or with one bit changed", 38) { int bit = idx < 35 ? 400 + 21 * (int)idx - (int)(idx & 1) : idx == 35 ? 1536 : idx == 36 ? 2048 : 3072; K k = sized_key(bit, 65537, idx); ck_vk(k); K o = k; for (int f = 0; f < 8; f++) { int nb = (int)mpz_sizeinbase(k.f[f], 2); for (int v = 0; v < (bit < 700 || thorough ? 5 : bit < 1100 ? 3 : 2); v++) { if (v == 0) mpz_add_ui(k.f[f], k.f[f], f == 0 ? 2 : 1); else if (v == 1) mpz_combit(k.f[f], nb - 2); else if (v == 2) mpz_combit(k.f[f], nb / 2); else if (v == 3) mpz_combit(k.f[f], nb); else mpz_combit(k.f[f], nb + WBITS); if (mpz_odd_p(k.n())) ck_vk(k); k = o; } } sample("%d bits", bit); }
SPACE("P28", "vk_composite", 0, "composite primes: products, squares, Carmichael numbers and strong pseudoprimes in place of p or q with everything else consistent", 60) {
	static const long comp[] = {9, 15, 21, 25, 27, 35, 49, 121, 169, 561, 1105, 1729, 2047, 2465, 2821, 3277, 4033, 4681, 6601, 8321, 8911, 1373653, 25326001, 3215031751}; long c = comp[idx % 24]; K k; Z p(c), q(odd_primes()[5 + idx / 24]); Z m, p1, q1; mpz_sub_ui(p1, p, 1); mpz_sub_ui(q1, q, 1); for (long e = 3; e < 30; e += 2) { mpz_lcm(m, p1, q1); Z ze(e); mpz_set(k.p(), p); mpz_set(k.q(), q); mpz_set(k.e(), ze); if (!mpz_invert(k.d(), ze, m)) continue; derive(k); ck_vk(k); mpz_swap(k.p(), k.q()); derive(k); ck_vk(k); }
}
SPACE("P28", "vk_public", 0, "public keys: accepted when the exponent is below the modulus, refused otherwise", 300) { Z n((long)(2 * idx + 3)); for (long e = 1; e < (long)(2 * idx + 3) * 2 + 3; e++) { K k; mpz_set(k.n(), n); mpz_set_si(k.e(), e); KP kp = need(I_ANY, pub8(k), "public key"); int r = RaRsaVerifyKey(kp); RaRsaDestroyKeyPair(kp); evals++; bool want = mpz_cmp(k.e(), n) < 0; if (want != (r == 0)) fail("public key n=%s e=%ld: verification returns %d", CS(n), e, r); } }

// ---------------------------------------------------------------- P29
static void ck_export(KP kp, bool priv, const Bytes &want, const char *what, int stepdiv) {
	int L = -7; int r = priv ? RaRsaPrivKeyToByteArray(kp, NULL, 0, &L) : RaRsaPubKeyToByteArray(kp, NULL, 0, &L); evals++;
	if (r || L != (int)want.size()) fail("%s: asking for the length returns %d and %d, the DER encoding has %zu bytes", what, r, L, want.size());
	int l2 = -7; r = priv ? RaRsaPrivKeyToByteArray(kp, NULL, L + 100, &l2) : RaRsaPubKeyToByteArray(kp, NULL, L + 100, &l2); if (r || l2 != L) fail("%s: asking for the length with a nonzero size returns %d and %d", what, r, l2);
	static std::map<size_t, Guard *> gs; size_t gsz = (L + 64 + 4095) / 4096 * 4096; if (!gs[gsz]) gs[gsz] = new Guard(gsz); Guard &g = *gs[gsz];
	for (int n = -2; n < L + 20; n++) { if (n > 3 && n < L - 3 && n > L / 8 && (n % stepdiv)) continue; int m = n < 0 ? 0 : n; uint8_t *b = g.tail(m); size_t back = m + 32 < (int)g.size ? 32 : 0; memset(b - back, 0x5a, m + back); int l = -7; bool nolen = n == L + 1; r = priv ? RaRsaPrivKeyToByteArray(kp, b, n, nolen ? NULL : &l) : RaRsaPubKeyToByteArray(kp, b, n, nolen ? NULL : &l); evals++;
		for (size_t i = 0; i < back; i++) if ((b - back)[i] != 0x5a) fail("%s: a byte before the buffer is written (buffer %d of %d)", what, n, L);
		if (n < L) { if (r == RA_ERR_SUCCESS) fail("%s: a buffer of %d bytes is accepted, %d are needed", what, n, L); }
		else { nontriv++; if (r || (!nolen && l != L)) fail("%s: a buffer of %d bytes for %d returns %d and length %d", what, n, L, r, l); if (memcmp(b, want.data(), L)) fail("%s: exported %s, the DER encoding is %s", what, hex(b, L).c_str(), hex(want.data(), L).c_str()); for (int i = L; i < n; i++) if (b[i] != 0x5a) fail("%s: byte %d behind the %d exported ones is written", what, i, L); } }
}
static void round_trip(K &k, const char *what, int stepdiv) {
	note("%s: %s", what, kstr(k).c_str()); Bytes pr = priv8(k), pu = pub8(k); int nb = words_of(k.n()); BN c = BnNewW(nb);
	KP a = need(I_PRIV, enc(priv1(k)), what); ck_export(a, true, pr, what, stepdiv); ck_export(a, false, pu, what, stepdiv);
	KP b = need(I_ANY, exported(a, true), what); if (exported(b, true) != pr || exported(b, false) != pu) fail("%s: the re-imported private key exports differently", what); KP d = need(I_ANY, exported(b, false), what); if (exported(d, false) != pu) fail("%s: the re-imported public key exports differently", what);
	KP f = need(I_PUB, enc(pub1(k)), what); if (exported(f, false) != pu) fail("%s: the PKCS#1 public key exports differently", what); int l; uint8_t t[8]; if (RaRsaPrivKeyToByteArray(d, NULL, 0, &l) == 0 || RaRsaPrivKeyToByteArray(d, t, 8, &l) == 0) fail("%s: a public key exports a private key", what);
	for (long m = 2; m < 4; m++) { Z z(m); if (mpz_cmp(z, k.n()) >= 0) continue; ck_op(0, b, k, z, c, true); ck_op(1, b, k, z, c, true); ck_op(0, d, k, z, c, true); ck_op(0, f, k, z, c, true); }
	BnFree(c); for (KP x : {a, b, d, f}) RaRsaDestroyKeyPair(x);
}
SPACE("P29", "rt_sizes", 0, "keys of every size from 6 to 640 bits and from there to 1112 in steps of eight, around 1016, 2040 and 2048, 3072 and 4096: export at every buffer length (exact DER compared), re-import, re-export, behaviour", 635 + 59 + 8) { static const int big[] = {1015, 1017, 2039, 2040, 2041, 2048, 3072, 4096}; int bit = idx < 635 ? 6 + (int)idx : idx < 694 ? 648 + 8 * (int)(idx - 635) : big[idx - 694]; K k = sized_key(bit, bit < 12 ? 17 : bit % 3 == 0 ? 3 : bit % 3 == 1 ? 65537 : 257, 3 * idx); char w[40]; snprintf(w, sizeof w, "%d bits", bit); round_trip(k, w, 13); sample("%d bits", bit); }
SPACE("P29", "rt_small", 0, "every pair of different odd primes with product below 700, every buffer length", small_pq().size()) { auto pq = small_pq()[idx]; for (long e = 3; e < 400; e += 2) { K k; if (!mkkey(k, Z(pq.first), Z(pq.second), Z(e), (e >> 1) & 1)) continue; round_trip(k, "small key", 1); } }
// the export only encodes: numbers of every length and leading byte in every part
SPACE("P29", "rt_parts", 0, "each part of a key set to values of 1 to 300 bits with leading bytes 01, 7f, 80 and ff", 8 * 300) {
	int f = idx / 300, bit = 1 + idx % 300; K k = sized_key(200); for (int lead = 0; lead < 4; lead++) { Z z; mpz_set_ui(z, 1); mpz_mul_2exp(z, z, bit); mpz_sub_ui(z, z, 1); if (lead == 1 && bit > 8) mpz_fdiv_q_2exp(z, z, 7); if (lead == 2) { mpz_set_ui(z, 1); mpz_mul_2exp(z, z, bit - 1); } if (lead == 3 && bit > 2) mpz_clrbit(z, bit - 2); if (f == 0) { mpz_setbit(z, 0); if (mpz_cmp_ui(z, 3) < 0) mpz_set_ui(z, 3); } mpz_set(k.f[f], z);
		Bytes b = priv8(k); KP kp = need(I_ANY, b, fname[f]); if (exported(kp, true) != b) { Bytes o = exported(kp, true); fail("key with %s %s exports %s instead of %s", fname[f], CS(z), hex(o.data(), o.size()).c_str(), hex(b.data(), b.size()).c_str()); } b = pub8(k); if (exported(kp, false) != b) fail("key with %s %s exports a different public key", fname[f], CS(z)); evals++; nontriv++; RaRsaDestroyKeyPair(kp); }
}
SPACE("P29", "rt_huge", 0, "public keys of 32 kB and 65 kB (length octets of every size)", 4) { static const int by[] = {32750, 32770, 65515, 65540}; K k; mpz_set_ui(k.n(), 1); mpz_mul_2exp(k.n(), k.n(), by[idx] * 8 - 1); mpz_add_ui(k.n(), k.n(), 12345 + 2 * idx); if (mpz_even_p(k.n())) mpz_add_ui(k.n(), k.n(), 1); mpz_set_ui(k.e(), 65537); Bytes b = pub8(k); KP kp = need(I_ANY, b, "huge key"); ck_export(kp, false, b, "huge key", 9973); RaRsaDestroyKeyPair(kp); }

static void length_edge(int f, long bytes, int top) {
	K k = sized_key(200); Z z; mpz_set_ui(z, top ? 0xc3 : 0x43); mpz_mul_2exp(z, z, (bytes - 1) * 8); mpz_add_ui(z, z, 0x12345 + 2 * bytes); mpz_set(k.f[f], z); if (mpz_even_p(k.f[f])) mpz_add_ui(k.f[f], k.f[f], 1);
	for (int priv = 0; priv < (f < 2 ? 2 : 1); priv++) { bool p = f >= 2 || priv; Bytes b = p ? priv8(k) : pub8(k); KP kp = need(I_ANY, b, "long key"); int l = -1, r = p ? RaRsaPrivKeyToByteArray(kp, NULL, 0, &l) : RaRsaPubKeyToByteArray(kp, NULL, 0, &l); if (r || l != (int)b.size()) fail("key with %s of %ld bytes: export needs %d bytes, reported %d (result %d)", fname[f], bytes, (int)b.size(), l, r); Bytes o(b.size()); r = p ? RaRsaPrivKeyToByteArray(kp, o.data(), (int)o.size(), &l) : RaRsaPubKeyToByteArray(kp, o.data(), (int)o.size(), &l); if (r || o != b) { size_t i = 0; while (i < b.size() && o[i] == b[i]) i++; fail("key with %s of %ld bytes: export returns %d and differs from byte %zu on", fname[f], bytes, r, i); } evals++; nontriv++; RaRsaDestroyKeyPair(kp); }
}
SPACE("P29", "rt_length_edges", 0, "each part of a key 65200 to 65544 bytes long, so that every number and structure takes exactly 65535 and 65536 bytes", 8 * 345) { int f = idx / 345; long by = 65200 + idx % 345; if (f == 0 && by < 65480) return; length_edge(f, by, idx & 1); if (f) length_edge(f, by, !(idx & 1)); sample("%s of %ld bytes", fname[f], by); }
SPACE("P29", "rt_length_edges_16m", 1, "each part but the modulus 16776900 to 16777220 bytes long", 7 * 320) { length_edge(1 + idx / 320, 16776900 + idx % 320, idx & 1); }

// ---------------------------------------------------------------- P30
static void use_key(KP kp, const Bytes &src) {
	env::On e; int bits = RaRsaKeyBitLength(kp); if (bits < 1) fail("imported from %s: key of %d bits", hex(src.data(), src.size()).c_str(), bits); int w = (bits + WBITS - 1) / WBITS + 1; BN a = BnNewW(w), b = BnNewW(w); BnSetUInt(a, 2); (void)RaRsaEncrypt(kp, a, b); BnSetUInt(a, 1); (void)RaRsaEncrypt(kp, a, b); (void)RaRsaSign(kp, a, b); (void)RaRsaDecrypt(kp, a, b); (void)RaRsaVerify(kp, a, a); (void)RaRsaVerifyKey(kp);
	int l; uint8_t *o = (uint8_t *)malloc(1 << 16); (void)RaRsaPrivKeyToByteArray(kp, NULL, 0, &l); (void)RaRsaPubKeyToByteArray(kp, NULL, 0, &l); (void)RaRsaPrivKeyToByteArray(kp, o, 1 << 16, &l); (void)RaRsaPubKeyToByteArray(kp, o, 1 << 16, &l); free(o); BnFree(a); BnFree(b);
}
static Guard &ig() { static Guard g(8192); return g; }
static void try_import(const uint8_t *d, size_t n, int how) {
	uint8_t *b = ig().tail(n); memcpy(b, d, n); KP kp = NULL; int r; evals++;
	{ Track t; r = import(how, b, (int)n, &kp); track_allocs = false;
	if (r) { if (kp) fail("%s of %s returns %d and a key", iname[how], hex(d, n).c_str(), r); if (live_allocs) fail("%s of %s returns %d and leaks %ld allocations", iname[how], hex(d, n).c_str(), r, live_allocs); return; }
	if (!kp) fail("%s of %s returns success without a key", iname[how], hex(d, n).c_str());
	nontriv++; long before = live_allocs; track_allocs = true; Bytes s(d, d + n); use_key(kp, s); if (live_allocs != before) fail("using the key imported from %s leaks", hex(d, n).c_str()); RaRsaDestroyKeyPair(kp); track_allocs = false; if (live_allocs) fail("destroying the key imported from %s leaves %ld allocations", hex(d, n).c_str(), live_allocs); }
	if (memcmp(b, d, n)) fail("%s of %s changes the data", iname[how], hex(d, n).c_str());
}
static void try_all(const uint8_t *d, size_t n) { st->beat++; for (int h = 0; h < 3; h++) try_import(d, n, h); }
SPACE("P30", "imp_short", 0, "every byte string of up to two bytes, at a page end, all three importers", 257) { uint8_t b[2]; if (idx == 256) { try_all(b, 0); return; } b[0] = idx; try_all(b, 1); for (int i = 0; i < 256; i++) { b[1] = i; try_all(b, 2); } }
SPACE("P30", "imp_three", 0, "every byte string of three bytes with one of 40 first bytes", 40) { static const uint8_t f[] = {0, 1, 2, 3, 4, 5, 6, 7, 0x10, 0x11, 0x1f, 0x20, 0x22, 0x23, 0x24, 0x2f, 0x30, 0x31, 0x32, 0x3f, 0x40, 0x60, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x85, 0xa0, 0xa1, 0xaf, 0xb0, 0xbf, 0xc0, 0xdf, 0xe0, 0xf0, 0xfd, 0xfe, 0xff}; uint8_t b[3]; b[0] = f[idx]; for (int i = 0; i < 65536; i++) { b[1] = i; b[2] = i >> 8; try_all(b, 3); } }
static const uint8_t al[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x06, 0x30, 0x80, 0x81, 0x82, 0x84, 0x85, 0x7f, 0xff};
SPACE("P30", "imp_alphabet", 0, "every string of up to five bytes over fourteen structural bytes", 14 * 14 * 14) { uint8_t b[8]; uint64_t x = idx; for (int i = 0; i < 3; i++) { b[i] = al[x % 14]; x /= 14; } try_all(b, 3); for (int i = 0; i < 14; i++) { b[3] = al[i]; try_all(b, 4); for (int j = 0; j < 14; j++) { b[4] = al[j]; try_all(b, 5); } } }
SPACE("P30", "imp_alphabet_more", 1, "every string of up to seven bytes over fourteen structural bytes starting with a constructed tag", 14 * 14 * 14) { uint8_t b[8]; b[0] = 0x30; uint64_t x = idx; for (int i = 1; i < 4; i++) { b[i] = al[x % 14]; x /= 14; } for (int k = 0; k < 14 * 14 * 14; k++) { int y = k; for (int i = 4; i < 7; i++) { b[i] = al[y % 14]; y /= 14; } try_all(b, 7); } }
static std::vector<Bytes> &valid() { // valid encodings of small and medium keys
	static std::vector<Bytes> v; if (v.size()) return v; std::vector<K> ks; { K k; mkkey(k, Z(11L), Z(13L), Z(7L)); ks.push_back(k); mkkey(k, Z(251L), Z(241L), Z(7L)); ks.push_back(k); ks.push_back(sized_key(64)); ks.push_back(sized_key(130)); }
	for (auto &k : ks) { v.push_back(enc(pub1(k))); v.push_back(enc(priv1(k))); v.push_back(pub8(k)); v.push_back(priv8(k)); N n = wrap_priv(priv1(k)); n.form = F_INDEF; n.kids[1].form = F_INDEF; v.push_back(enc(n)); n = priv1(k); n.form = F_INDEF; v.push_back(enc(n)); n = wrap_pub(pub1(k)); n.form = F_LONG4; n.kids[1].kids[0].form = F_INDEF; v.push_back(enc(n)); } return v;
}
SPACE("P30", "imp_one_byte", 0, "valid encodings (PKCS#1, PKCS#8, X.509, BER variants, four keys) with each byte replaced by every value, each truncation, each deletion, each insertion of a structural byte", valid().size() * 8) {
	const Bytes &b = valid()[idx / 8]; for (size_t i = idx % 8; i < b.size(); i += 8) { Bytes m = b; for (int x = 0; x < 256; x++) { m[i] = x; try_all(m.data(), m.size()); } try_all(b.data(), i); m = b; m.erase(m.begin() + i); try_all(m.data(), m.size()); for (uint8_t a : al) { m = b; m.insert(m.begin() + i, a); try_all(m.data(), m.size()); } } if (idx % 8 == 0) { try_all(b.data(), b.size()); sample("%s", hex(b.data(), b.size()).c_str()); }
}
SPACE("P30", "imp_two_bytes", 0, "encodings of the smallest key with every pair of bytes replaced by structural bytes", 7 * 64) {
	const Bytes &b = valid()[idx / 64]; for (size_t i = idx % 64; i < b.size(); i += 64) for (size_t j = i + 1; j < b.size(); j++) for (uint8_t x : al) for (uint8_t y : al) { if (!thorough && j > i + 12 && (x + y) % 3) continue; Bytes m = b; m[i] = x; m[j] = y; try_all(m.data(), m.size()); }
}
SPACE("P30", "imp_nesting", 0, "every mix of definite and indefinite nesting up to 14 levels, content and terminators present or missing", 1 << 14) {
	for (int depth = 1; depth <= 14; depth++) { if (idx >> depth) continue; for (int endc = 0; endc < 4; endc++) { Bytes c; if (endc & 1) c = {2, 1, 5}; for (int l = depth - 1; l >= 0; l--) { Bytes o; o.push_back(0x30); if (idx >> l & 1) { o.push_back(0x80); put(o, c); if (!(endc & 2)) { o.push_back(0); o.push_back(0); } } else { put(o, lenb(c.size(), 0)); put(o, c); } c = o; } try_all(c.data(), c.size()); } }
}
SPACE("P30", "imp_many_nodes", 0, "sequences of 1 to 200 elements (node storage is allocated in chunks), integers, empty sequences or nested keys", 200) { int n = (int)idx + 1; for (int kind = 0; kind < 5; kind++) { Bytes c; for (int i = 0; i < n; i++) { if (kind == 0) put(c, {2, 1, 5}); else if (kind == 1) put(c, {0x30, 0}); else if (kind == 2) put(c, {2, 0}); else if (kind == 3) put(c, {0x30, 0x80, 0, 0}); else put(c, {0x30, 3, 2, 1, 7}); } Bytes o(1, 0x30); put(o, lenb(c.size(), 0)); put(o, c); try_all(o.data(), o.size()); try_all(c.data(), c.size()); } }
SPACE("P30", "imp_lengths", 0, "every length form with values around 0, the data size, 2^7, 2^8, 2^15, 2^16, 2^24, 2^31 and 2^32 at every header of a key", valid().size()) {
	const Bytes &b = valid()[idx]; static const uint64_t val[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7ffffff0, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffe, 0xffffffff};
	for (size_t i = 1; i < b.size(); i++) for (uint64_t v0 : val) for (int k = 0; k < 6; k++) { Bytes m(b.begin(), b.begin() + i); if (k) m.push_back(0x80 + k); for (int j = (k ? k : 1) - 1; j >= 0; j--) m.push_back(j > 4 ? 0 : (uint8_t)(v0 >> (8 * j))); m.insert(m.end(), b.begin() + i + 1, b.end()); try_all(m.data(), m.size()); }
}

// ---------------------------------------------------------------- P31
struct Base { N t; int how; K k; bool priv; const char *name; };
static std::vector<Base> &bases() { static std::vector<Base> v; if (v.empty()) { std::vector<K> ks; K a; mkkey(a, Z(11L), Z(13L), Z(7L)); ks.push_back(a); ks.push_back(sized_key(200)); for (auto &k : ks) { v.push_back({pub1(k), I_PUB, k, false, "PKCS#1 public"}); v.push_back({priv1(k), I_PRIV, k, true, "PKCS#1 private"}); v.push_back({wrap_pub(pub1(k)), I_ANY, k, false, "X.509 public"}); v.push_back({wrap_priv(priv1(k)), I_ANY, k, true, "PKCS#8 private"}); } } return v; }
static void nodes(N &n, std::vector<N *> &v) { v.push_back(&n); for (auto &k : n.kids) nodes(k, v); }
static void accept(Base &b, const N &t, const char *what) {
	Bytes e = enc(t); note("%s %s: %s", b.name, what, hex(e.data(), e.size()).c_str()); KP kp = NULL; uint8_t *g = ig().tail(e.size()); memcpy(g, e.data(), e.size()); int r = import(b.how, g, (int)e.size(), &kp); evals++; nontriv++; if (r || !kp) fail("%s, %s: %s is not imported (returns %d)", b.name, what, hex(e.data(), e.size()).c_str(), r);
	Bytes want = b.priv ? priv8(b.k) : pub8(b.k), got = exported(kp, b.priv); RaRsaDestroyKeyPair(kp); if (got != want) fail("%s, %s: %s imports to a different key: it exports %s instead of %s", b.name, what, hex(e.data(), e.size()).c_str(), hex(got.data(), got.size()).c_str(), hex(want.data(), want.size()).c_str());
}
static void reject_b(Base &b, const Bytes &e, const char *what) { KP kp = NULL; note("%s %s: %s", b.name, what, hex(e.data(), e.size()).c_str()); uint8_t *g = ig().tail(e.size()); memcpy(g, e.data(), e.size()); int r = import(b.how, g, (int)e.size(), &kp); evals++; nontriv++; if (kp) { std::string s; if (b.priv) { Bytes x = exported(kp, true); s = hex(x.data(), x.size()); } RaRsaDestroyKeyPair(kp); fail("%s, %s: %s is imported%s%s", b.name, what, hex(e.data(), e.size()).c_str(), s.size() ? " as " : "", s.c_str()); } if (r == 0) fail("%s, %s: success without a key", b.name, what); }
static void reject(Base &b, const N &t, const char *what) { reject_b(b, enc(t), what); }
static int nvar(const N &n) { return n.cons() ? 6 : n.tag == 2 ? 15 : 5; }
static void setvar(N &n, int v) { if (n.tag == 2) { n.form = v % 5; n.zeros = v / 5; } else n.form = v; }
SPACE("P31", "ber_single_pair", 0, "all encodings of one or two nodes: every length form (short, long with 1 to 4 octets, indefinite) and up to two redundant leading zeros of each integer, all other nodes in DER", bases().size() * 20) {
	Base &b = bases()[idx / 20]; N t = b.t; std::vector<N *> v; nodes(t, v); size_t i = idx % 20; if (i >= v.size()) return;
	for (int a = 0; a < nvar(*v[i]); a++) { setvar(*v[i], a); if (v[i]->zeros && v[i]->body.size() == 0) continue; accept(b, t, "one node re-encoded"); for (size_t j = i + 1; j < v.size(); j++) { for (int c = 1; c < nvar(*v[j]); c++) { setvar(*v[j], c); accept(b, t, "two nodes re-encoded"); } setvar(*v[j], 0); } } sample("%s node %zu", b.name, i);
}
SPACE("P31", "ber_all_headers", 0, "all combinations of the length forms of all container and identifier nodes (integers in DER), of all integers at once, with every combination", bases().size() * 36) {
	Base &b = bases()[idx / 36]; N t = b.t; std::vector<N *> v; nodes(t, v); std::vector<N *> h, in; for (N *n : v) (n->tag == 2 ? in : h).push_back(n); int x = idx % 36; // first two headers by case number
	uint64_t tot = 1; for (size_t i = 2; i < h.size(); i++) tot *= nvar(*h[i]); for (size_t i = 0; i < 2 && i < h.size(); i++) { int c = x % 6; x /= 6; if (c >= nvar(*h[i])) return; setvar(*h[i], c); } if (h.size() < 2 && x) return;
	for (uint64_t k = 0; k < tot; k++) { uint64_t y = k; for (size_t i = 2; i < h.size(); i++) { setvar(*h[i], y % nvar(*h[i])); y /= nvar(*h[i]); } int iv = (int)(k % 15); for (N *n : in) setvar(*n, iv); accept(b, t, "all nodes re-encoded"); }
}
SPACE("P31", "ber_all_ints", 1, "all combinations of five encodings of all integers of a key", 3125 * 8) { Base &b = bases()[idx / 3125]; N t = b.t; std::vector<N *> v, in; nodes(t, v); for (N *n : v) if (n->tag == 2) in.push_back(n); static const int pick[] = {0, 1, 4, 5, 12}; uint64_t x = idx % 3125; size_t m = in.size(); uint64_t tot = 1; for (size_t i = 5; i < m; i++) tot *= 5; for (size_t i = 0; i < 5 && i < m; i++) { setvar(*in[i], pick[x % 5]); x /= 5; } for (uint64_t k = 0; k < tot; k++) { uint64_t y = k; for (size_t i = 5; i < m; i++) { setvar(*in[i], pick[y % 5]); y /= 5; } accept(b, t, "all integers re-encoded"); } }
SPACE("P31", "ber_zeros", 0, "each integer and all integers with 0 to 40 redundant leading zeros", bases().size() * 11) { Base &b = bases()[idx / 11]; N t = b.t; std::vector<N *> v, in; nodes(t, v); for (N *n : v) if (n->tag == 2) in.push_back(n); size_t i = idx % 11; if (i > in.size()) return; for (int z = 0; z <= 40; z++) { if (i < in.size()) in[i]->zeros = z; else for (N *n : in) n->zeros = z; accept(b, t, "redundant leading zeros"); } }
SPACE("P31", "ber_extra", 0, "further elements after the ones a key needs (attributes, parameters)", bases().size()) { Base &b = bases()[idx]; if (b.how == I_ANY && b.priv) { N t = b.t; t.kids.push_back(tree(0xa0, {leaf(4, {1, 2, 3})})); accept(b, t, "attributes"); t.form = F_INDEF; accept(b, t, "attributes"); t.kids.back().form = F_INDEF; accept(b, t, "attributes"); } }
SPACE("P31", "rej_missing", 0, "each needed element dropped, alone and with any second one, and all later ones", bases().size()) {
	Base &b = bases()[idx]; N t = b.t; auto list = [&](int l) -> std::vector<N> & { return l == 0 ? t.kids : t.kids[b.priv ? 2 : 1].kids[0].kids; };
	for (int l = 0; l < (b.how == I_ANY ? 2 : 1); l++) { size_t n = list(l).size(); for (size_t i = 0; i < n; i++) { t = b.t; list(l).erase(list(l).begin() + i); reject(b, t, "element missing"); for (size_t j = i; j < n - 1; j++) { t = b.t; list(l).erase(list(l).begin() + i); list(l).erase(list(l).begin() + j); reject(b, t, "two elements missing"); } t = b.t; list(l).resize(i); reject(b, t, "elements missing from one on"); t = b.t; } }
	if (b.how == I_ANY) { N &alg = t.kids[b.priv ? 1 : 0]; N s = alg; alg.kids.clear(); reject(b, t, "empty algorithm"); alg = s; alg.kids.erase(alg.kids.begin()); reject(b, t, "no identifier"); alg = s; }
}
SPACE("P31", "rej_tags", 0, "each key integer and each string container with every other tag", bases().size()) {
	Base &b = bases()[idx]; N t = b.t; std::vector<N *> v; nodes(t, v); int seen = 0; for (N *n : v) { int tag = n->tag; bool cont = tag == 3 || tag == 4; if (tag == 2) seen++; bool keyint = tag == 2; if (b.priv && tag == 2 && (b.how == I_ANY ? seen <= 2 : seen <= 1)) keyint = false; if (!cont && !keyint && tag != 6) continue; for (int x = 0; x < 256; x++) { if (x == tag) continue; n->tag = x; reject(b, t, "wrong tag"); } n->tag = tag; }
}
SPACE("P31", "rej_oid", 0, "algorithm identifiers: every byte changed to every value, every shorter and longer one, identifiers of other algorithms", bases().size()) {
	Base &b = bases()[idx]; if (b.how != I_ANY) return; N t = b.t; N &o = t.kids[b.priv ? 1 : 0].kids[0]; for (size_t i = 0; i < OID.size(); i++) { for (int x = 0; x < 256; x++) if (x != OID[i]) { o.body = OID; o.body[i] = x; reject(b, t, "wrong identifier"); } o.body = Bytes(OID.begin(), OID.begin() + i); reject(b, t, "short identifier"); o.body = Bytes(OID.begin() + i + 1, OID.end()); reject(b, t, "short identifier"); }
	for (int x = 0; x < 256; x++) { o.body = OID; o.body.push_back(x); reject(b, t, "long identifier"); o.body = OID; o.body.insert(o.body.begin(), x); reject(b, t, "long identifier"); } o.body = {0x2a, 0x86, 0x48, 0xce, 0x3d, 0x02, 0x01}; reject(b, t, "EC identifier"); o.body = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b}; reject(b, t, "signature identifier"); o.body = {}; reject(b, t, "empty identifier");
}
SPACE("P31", "rej_values", 0, "each key integer zero, negative, or without content; modulus even; bit string with unused bits or empty", bases().size()) {
	Base &b = bases()[idx]; N t = b.t; N *l = &t; if (b.how == I_ANY) l = &t.kids[b.priv ? 2 : 1].kids[0]; size_t first = b.priv ? 1 : 0;
	for (size_t i = first; i < l->kids.size(); i++) { N s = l->kids[i]; Z zero; for (int z = 0; z < 12; z++) { l->kids[i].body = Bytes(z + 1, 0); reject(b, t, "integer zero"); } l->kids[i].body = {}; reject(b, t, "integer without content");
		for (int x = 0x80; x < 256; x++) for (int len = 1; len < 20; len++) { Bytes y(len, 0x3c); y[0] = x; y[len - 1] |= 1; l->kids[i].body = y; reject(b, t, "negative integer"); } for (int len = 1; len < 40; len++) { l->kids[i].body = Bytes(len, 0xff); reject(b, t, "integer -1"); l->kids[i].body = Bytes(len, 0); l->kids[i].body[0] = 0x80; reject(b, t, "negative power"); } Bytes ng = s.body; if (ng[0] == 0) { ng.erase(ng.begin()); l->kids[i].body = ng; reject(b, t, "missing sign byte"); } l->kids[i] = s; }
	N s = l->kids[first]; for (int x = 2; x < 256; x += 2) { l->kids[first].body = {0, (uint8_t)x}; reject(b, t, "even modulus"); } Bytes ev = s.body; ev.back() &= 0xfe; l->kids[first].body = ev; reject(b, t, "even modulus"); l->kids[first] = s;
	if (b.how == I_ANY && !b.priv) { for (int x = 1; x < 256; x++) { t.kids[1].pre = x; reject(b, t, "unused bits"); } N n = leaf(3, {}); t.kids[1] = n; reject(b, t, "empty bit string"); n.body = {0}; t.kids[1] = n; reject(b, t, "bit string without a key"); }
	if (b.how == I_ANY && b.priv) { t.kids[2] = leaf(4, {}); reject(b, t, "empty octet string"); }
}
SPACE("P31", "rej_lengths", 0, "each node's length made 1 to 40 too long for the data, each truncation of the data", bases().size()) {
	Base &b = bases()[idx]; Bytes e = enc(b.t); for (size_t n = 0; n < e.size(); n++) reject_b(b, Bytes(e.begin(), e.begin() + n), "truncated"); { N t = b.t; t.form = F_INDEF; Bytes x = enc(t); for (size_t n = 0; n + 1 < x.size(); n++) reject_b(b, Bytes(x.begin(), x.begin() + n), "truncated, indefinite length"); }
	// the last node of each level: its declared end lies beyond its parent's
	for (int form = 0; form < 5; form++) for (int add = 1; add <= 40; add++) { size_t body = 0; Bytes c; for (auto &k : b.t.kids) put(c, enc(k)); body = c.size() + add; Bytes o(1, 0x30); put(o, lenb(body, form)); put(o, c); reject_b(b, o, "length beyond the data"); }
	N *l; N t = b.t; l = &t; if (b.how == I_ANY) l = &t.kids[b.priv ? 2 : 1].kids[0]; for (int add = 1; add <= 40; add++) { Bytes c; for (size_t i = 0; i + 1 < l->kids.size(); i++) put(c, enc(l->kids[i])); const N &last = l->kids.back(); c.push_back(2); put(c, lenb(last.body.size() + add, F_LONG1)); put(c, last.body); Bytes o(1, 0x30); put(o, lenb(c.size(), 0)); put(o, c);
		Bytes whole; if (b.how == I_ANY) { N w = b.t; N &box = w.kids[b.priv ? 2 : 1]; box.kids.clear(); box.body = o; whole = enc(w); } else whole = o; reject_b(b, whole, "integer beyond its sequence"); put(whole, Bytes(64, 7)); reject_b(b, whole, "integer beyond its sequence, data following"); }
	for (int k = 5; k < 128; k++) { Bytes c; for (auto &x : b.t.kids) put(c, enc(x)); Bytes o = {0x30, (uint8_t)(0x80 + k)}; for (int i = 0; i < k - 1; i++) o.push_back(0xff); o.push_back((uint8_t)c.size()); put(o, c); reject_b(b, o, "length octets beyond any data"); }
	static const uint32_t big[] = {0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x7ffffff0, 0x80000010}; for (uint32_t v : big) { Bytes c; for (auto &x : b.t.kids) put(c, enc(x)); Bytes o(1, 0x30); put(o, lenb(v, F_LONG4)); put(o, c); reject_b(b, o, "huge length"); }
}
SPACE("P31", "rej_extra", 0, "after any element of any structure, a surplus element that is damaged, or an end marker where the structure's length is given: nested 0 to 4 levels deep, definite and indefinite lengths, 12 kinds of damage", bases().size() * 12) {
	Base &b = bases()[idx / 12]; int kind = idx % 12; N t0 = b.t; std::vector<N *> v0; nodes(t0, v0);
	static const Bytes D[12] = {{2, 0x7f}, {2, 0x81, 0xff}, {4, 0x82, 0x7f, 0xff}, {2, 0x84, 0x7f, 0xff, 0xff, 0xff}, {2, 0x85, 0, 0, 0, 0, 1, 1}, {4, 0x80, 1, 0, 0}, {0x30, 0x80, 2, 1, 1}, {0x30, 0x7f, 2, 1, 1}, {0, 0}, {0, 0, 2, 0x7f}, {0, 0, 2, 1, 1}, {0x30, 3, 2, 2, 1}};
	for (size_t c = 0; c < v0.size(); c++) { if (!v0[c]->kids.size()) continue; for (int lev = 0; lev <= 4; lev++) for (int ind = 0; ind < 2; ind++) { if (ind && kind >= 6 && lev == 0) continue; for (size_t at = 0; at <= v0[c]->kids.size(); at++) {
		if (kind == 6 && !(lev == 0 && ind == 0 && at == v0[c]->kids.size())) continue; if (kind == 7 && at < v0[c]->kids.size()) continue; if (!ind && kind < 5 && at < v0[c]->kids.size() && D[kind][1] < 0x80) continue; if (v0[c]->pre >= 0 || v0[c]->tag == 4) continue; if (kind >= 8 && kind < 11 && ind && lev) continue; if (kind == 5 && ind) continue;
		N t = t0; std::vector<N *> v; nodes(t, v); N x = leaf(0x100, D[kind]); // written as it is
		Bytes raw = D[kind]; for (int l = 0; l < lev; l++) { Bytes w = {0x30}; if (ind) { w.push_back(0x80); put(w, raw); w.push_back(0); w.push_back(0); } else { w.push_back((uint8_t)raw.size()); put(w, raw); } raw = w; }
		x.body = raw; x.raw = true; v[c]->kids.insert(v[c]->kids.begin() + at, x); reject(b, t, "damaged surplus element"); } } }
	sample("%s kind %d", b.name, kind);
}
SPACE("P31", "rej_kind", 0, "a public key given to the private importer and the reverse, and wrapped keys of the other kind", bases().size()) { Base &b = bases()[idx]; Bytes e = enc(b.t); for (int h = 0; h < 3; h++) { if (h == b.how || (b.how == I_PRIV && h == I_PUB) || (b.how != I_ANY && h == I_ANY)) continue; Base c = b; c.how = h; if (b.how == I_PUB && h == I_PRIV) reject_b(c, e, "importer for another kind"); if (b.how == I_ANY && h == I_PRIV) reject_b(c, e, "importer for another kind"); } if (b.how == I_ANY) { N t = b.t; N &box = t.kids[b.priv ? 2 : 1]; box.tag = b.priv ? 3 : 4; box.pre = b.priv ? 0 : -1; reject(b, t, "the other kind of string"); } }
