// P24, P25, P36: primality verdicts, prime generation, random number makers.
// The generator's answers are enumerated: BnGenRandom, BnGetRandomRSA and RaRandomBytes can be replaced at link level;
// when the library under test no longer goes through them the harness sees that and keeps to the plain oracle.
#include "bn.h"
#include "env.h"

// ---- enumerated answers of the random number makers ----
static std::vector<Z> q_base; static size_t q_pos; static bool base_on; static long base_calls;   // bases of the primality test
static std::function<bool(BN, int)> cand_fn; static long cand_calls;                               // prime candidates
static int byte_mode; static long byte_calls; static std::vector<uint8_t> byte_script; static size_t byte_pos;
extern "C" {
int __real_BnGenRandom(BN bn, int bit, struct RaRandom *r);
int __real_BnGetRandomRSA(BN bn, int bit, struct RaRandom *r);
void __real_RaRandomBytes(struct RaRandom *r, int len, uint8_t *b);
int __wrap_BnGenRandom(BN bn, int bit, struct RaRandom *r) {
	if (!base_on) return __real_BnGenRandom(bn, bit, r);
	Z v; base_calls++;
	if (q_pos < q_base.size()) v = q_base[q_pos]; else { v = q_base.back(); mpz_add_ui(v, v, q_pos - q_base.size() + 1); mpz_fdiv_r_2exp(v, v, bit); } // never starve a caller that refuses a value
	q_pos++;
	if (words_of(v) > bn->max_length) return RA_ERR_NUMBER_SIZE;
	setbn(bn, v); return RA_ERR_SUCCESS;
}
int __wrap_BnGetRandomRSA(BN bn, int bit, struct RaRandom *r) { if (cand_fn) { cand_calls++; if (cand_fn(bn, bit)) return RA_ERR_SUCCESS; } return __real_BnGetRandomRSA(bn, bit, r); }
void __wrap_RaRandomBytes(struct RaRandom *r, int len, uint8_t *b) {
	if (!byte_mode) return __real_RaRandomBytes(r, len, b);
	byte_calls++;
	for (int i = 0; i < len; i++) b[i] = byte_script[(byte_pos + i) % byte_script.size()];
	byte_pos += len;
}
}
struct Bases { Bases(const std::vector<Z> &v) { q_base = v; q_pos = 0; base_calls = 0; base_on = true; } ~Bases() { base_on = false; } };

static int is_prime(mpz_srcptr n, int cap = 0) { BN b = mk(n, cap); env::On e; int r = RaIsPrimeNumber(b); if (!same(b, n)) { std::string s = str(b); BnFree(b); fail("primality test of %s changed its argument to %s", CS(n), s.c_str()); } BnFree(b); return r; }
static int is_prime_e(mpz_srcptr n, uint64_t seed) { BN b = mk(n, 0); env::On e; env::entropy(seed); env::clk.tv_sec = 1000 + seed; int r = RaIsPrimeNumber(b); BnFree(b); return r; }
static bool prime(mpz_srcptr n) { return mpz_sgn(n) > 0 && mpz_probab_prime_p(n, 25); }
// the verdict that holds for every generator: primes accepted, composites practically never
static void ck_verdict(mpz_srcptr n, const char *what) {
	bool p = prime(n); note("primality of %s", CS(n));
	int r = is_prime(n); evals++;
	if (p) { nontriv++; if (r != RA_ERR_SUCCESS) fail("%s: the prime %s is not accepted (returns %d)", what, CS(n), r); return; }
	if (mpz_odd_p(n) && mpz_cmp_ui(n, 8) > 0) nontriv++;
	if (r == RA_ERR_SUCCESS) {
		if (mpz_cmp_ui(n, 3) <= 0 || mpz_even_p(n)) fail("%s: %s is accepted as a prime", what, CS(n));
		int acc = 0; for (uint64_t s = 1; s <= 64; s++) acc += is_prime_e(n, s) == RA_ERR_SUCCESS;
		evals += 64;
		if (acc > 8) fail("%s: the composite %s is accepted as a prime for %d of 64 seeds of the generator", what, CS(n), acc);
	}
}
// strong probable prime to base a
static bool liar(mpz_srcptr n, mpz_srcptr a) {
	Z n1, d, x; mpz_sub_ui(n1, n, 1); unsigned long s = mpz_scan1(n1, 0); mpz_fdiv_q_2exp(d, n1, s); mpz_powm(x, a, d, n);
	if (mpz_cmp_ui(x, 1) == 0 || mpz_cmp(x, n1) == 0) return true;
	for (unsigned long i = 1; i < s; i++) { mpz_mul(x, x, x); mpz_mod(x, x, n); if (mpz_cmp(x, n1) == 0) return true; }
	return false;
}
#define SM 64
SPACE("P24", "is_all_small", 0, "every integer from -4096 to 2^16: primes accepted, everything else rejected, the argument unchanged", (65536 + 4096) / SM) { for (long i = 0; i < SM; i++) { Z n((long)idx * SM + i - 4096); ck_verdict(n, "small"); } if (idx == 70) sample("integers 384..447"); }
SPACE("P24", "is_all_small_more", 1, "every integer from 2^16 to 2^22", (4194304 - 65536) / 1024) { for (long i = 0; i < 1024; i++) { Z n((long)idx * 1024 + i + 65536); ck_verdict(n, "small"); } }
// every base for every small odd number: verdict with this base used in every round
static void all_bases(long n) {
	Z zn(n); bool p = prime(zn); BN b = mk(zn, 0);
	for (long a = 2; a <= n - 2; a++) {
		Z za(a); std::vector<Z> q(8, za); int r; { env::On e; Bases h(q); r = RaIsPrimeNumber(b); }
		evals++; if (!base_calls) break;
		nontriv++; trans++;
		if (p && r != RA_ERR_SUCCESS) fail("the prime %ld is not accepted with base %ld (returns %d)", n, a, r);
		if (!p && r == RA_ERR_SUCCESS && !liar(zn, za)) fail("the composite %ld is accepted although base %ld proves it composite", n, a);
	}
	BnFree(b);
}
SPACE("P24", "is_all_bases", 0, "every odd number from 5 to 1023 with every base: a prime passes every base, a composite fails every base that proves it composite", 510) { all_bases(2 * (long)idx + 5); sample("all bases of %ld", 2 * (long)idx + 5); }
SPACE("P24", "is_all_bases_more", 1, "every odd number from 1025 to 8191 with every base", 3584) { all_bases(2 * (long)idx + 1025); }
// a witness in any single round is enough: liars in all other rounds
static const long wit_n[] = {25, 49, 65, 85, 91, 121, 133, 145, 169, 175, 185, 217, 231, 247, 259, 289, 325, 341, 451, 481, 561, 671, 703, 781, 793, 1105, 1541, 1729, 1891, 2047, 2465, 2701, 2821, 3277, 4033, 4681, 5461, 6533, 6601, 8321, 8401, 8911, 10585, 12403, 13981, 14491, 15841, 16109, 18721, 19951, 23281, 29341, 31417, 31609, 31621, 40501, 41041, 46657, 49141, 52633, 65281, 74665, 75361, 80581, 85489, 88357, 90751};
SPACE("P24", "is_round_position", 0, "strong pseudoprimes with a proving base placed in each of the five rounds and passing bases in the others", sizeof wit_n / sizeof wit_n[0]) {
	Z n(wit_n[idx]); std::vector<Z> li, wi; for (long a = 2; a < wit_n[idx] - 1 && (li.size() < 4 || wi.size() < 4); a++) { Z za(a); (liar(n, za) ? li : wi).push_back(za); }
	if (li.empty()) return; BN b = mk(n, 0);
	for (size_t l = 0; l < li.size() && l < 4; l++) for (size_t w = 0; w < wi.size() && w < 4; w++) for (int pos = 0; pos < 5; pos++) {
		std::vector<Z> q(6, li[l]); q[pos] = wi[w]; int r; { env::On e; Bases h(q); r = RaIsPrimeNumber(b); }
		if (!base_calls) { BnFree(b); return; }
		evals++; nontriv++; if (r == RA_ERR_SUCCESS) fail("the composite %ld is accepted although the base %s of round %d proves it composite", wit_n[idx], CS(wi[w]), pos + 1);
	}
	BnFree(b); sample("n = %ld", wit_n[idx]);
}
// large composites around the size where fewer rounds are used, with a proving base in each round
SPACE("P24", "is_round_position_large", 0, "products of two primes of 900 to 1200 bits that pass some bases: a proving base placed in each round (3 from 1024 bits on, 5 below)", 12) {
	static const int bits[] = {900, 1000, 1020, 1022, 1023, 1024, 1025, 1026, 1040, 1088, 1100, 1200}; int bb = bits[idx];
	// n = p(2p-1), p = 3 mod 4: one base in about eight passes
	Z p, q, n; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, (bb - 1) / 2); for (;;) { mpz_nextprime(p, p); mpz_mul_2exp(q, p, 1); mpz_sub_ui(q, q, 1); if (mpz_probab_prime_p(q, 10)) break; }
	mpz_mul(n, p, q); long L = 0, Wt = 0; for (long a = 2; a < 400 && (!L || !Wt); a++) { Z za(a); if (liar(n, za)) { if (!L) L = a; } else if (!Wt) Wt = a; }
	if (!L || !Wt) return; int nb = (int)mpz_sizeinbase(n, 2), rounds = nb >= 1024 ? 3 : 5; BN b = mk(n, 0);
	for (int pos = 0; pos < rounds; pos++) { std::vector<Z> qq(6, Z(L)); qq[pos] = Z(Wt); int r; { env::On e; Bases h(qq); r = RaIsPrimeNumber(b); } if (!base_calls) break; evals++; nontriv++; if (r == RA_ERR_SUCCESS) fail("the composite %s (%d bits) is accepted although base %ld of round %d proves it composite", CS(n), nb, Wt, pos + 1); }
	BnFree(b); sample("%d bits, passing base %ld, proving base %ld", nb, L, Wt);
}
SPACE("P24", "is_round_position_sizes", 0, "for every size from 14 to 420 bits and every 32nd bit to 1500, a product of two primes that passes some bases: a proving base placed in each of the five (from 1024 bits on three) rounds", 407 + 34) {
	int bb = idx < 407 ? 14 + (int)idx : 420 + 32 * (int)(idx - 406); Z p, q, n; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, (bb - 1) / 2); if (bb % 2 == 0) { mpz_mul_ui(p, p, 11); mpz_tdiv_q_ui(p, p, 8); }
	for (int t = 0; t < 4000; t++) { mpz_nextprime(p, p); mpz_mul_2exp(q, p, 1); mpz_sub_ui(q, q, 1); if (!mpz_probab_prime_p(q, 2) || !mpz_probab_prime_p(q, 10)) continue;
		mpz_mul(n, p, q); long L = 0, Wt = 0; for (long a = 2; a < 400 && (!L || !Wt); a++) { Z za(a); if (liar(n, za)) { if (!L) L = a; } else if (!Wt) Wt = a; }
		if (!L || !Wt) continue; int nb = (int)mpz_sizeinbase(n, 2), rounds = nb >= 1024 ? 3 : 5; BN b = mk(n, 0);
		for (int pos = 0; pos < rounds; pos++) { std::vector<Z> qq(6, Z(L)); qq[pos] = Z(Wt); int r; { env::On e; Bases h(qq); r = RaIsPrimeNumber(b); } if (!base_calls) break; evals++; nontriv++; trans++; if (r == RA_ERR_SUCCESS) fail("the composite %s (%d bits) is accepted although base %ld of round %d proves it composite", CS(n), nb, Wt, pos + 1); }
		BnFree(b); sample("%d bits, passing base %ld, proving base %ld", nb, L, Wt); return; }
}
// primes of every size near a power of two, every base from a list
static void base_list(mpz_srcptr n, std::vector<Z> &v) { for (long a = 2; a <= 12; a++) v.push_back(Z(a)); Z t; mpz_sub_ui(t, n, 2); v.push_back(t); mpz_sub_ui(t, n, 3); v.push_back(t); mpz_fdiv_q_2exp(t, n, 1); v.push_back(t); mpz_add_ui(t, t, 1); v.push_back(t); mpz_set_ui(t, 1); mpz_mul_2exp(t, t, mpz_sizeinbase(n, 2) - 1); v.push_back(t); mpz_sqrt(t, n); v.push_back(t); }
static void ck_prime_bases(mpz_srcptr p) {
	ck_verdict(p, "prime"); if (mpz_cmp_ui(p, 40) < 0) return; std::vector<Z> v; base_list(p, v); BN b = mk(p, 0);
	for (auto &a : v) { if (mpz_cmp_ui(a, 2) < 0) continue; Z t; mpz_sub_ui(t, p, 1); if (mpz_cmp(a, t) >= 0) continue; int r; { env::On e; Bases h(std::vector<Z>(8, a)); r = RaIsPrimeNumber(b); } if (!base_calls) break; evals++; nontriv++; trans++; if (r != RA_ERR_SUCCESS) fail("the prime %s is not accepted with base %s (returns %d)", CS(p), CS(a), r); }
	BnFree(b);
}
SPACE("P24", "is_prime_sizes", 0, "for every bit length from 2 to 420, the first primes above 2^(n-1) and below 2^n, with 17 kinds of bases", 419) {
	int bit = idx + 2; Z p; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, bit - 1); mpz_sub_ui(p, p, 1); mpz_nextprime(p, p); ck_prime_bases(p); mpz_nextprime(p, p); ck_prime_bases(p);
	mpz_set_ui(p, 1); mpz_mul_2exp(p, p, bit); mpz_sub_ui(p, p, 1); if (mpz_even_p(p)) mpz_sub_ui(p, p, 1); while (mpz_cmp_ui(p, 2) > 0 && !mpz_probab_prime_p(p, 10)) mpz_sub_ui(p, p, 2); ck_prime_bases(p); sample("%d bits", bit);
}
SPACE("P24", "is_prime_sizes_more", 1, "every bit length from 421 to 1300", 880) { int bit = idx + 421; Z p; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, bit - 1); mpz_nextprime(p, p); ck_prime_bases(p); }
// n - 1 = k * 2^s for every s: the squaring loop and the word-wise count of trailing zeros
static void proth(int s) { int got = 0; for (long k = 1; got < 2; k += 2) { Z p; mpz_set_ui(p, k); mpz_mul_2exp(p, p, s); mpz_add_ui(p, p, 1); if (mpz_cmp_ui(p, 3) >= 0 && mpz_probab_prime_p(p, 10)) { got++; ck_prime_bases(p); sample("%ld*2^%d+1", k, s); } } }
SPACE("P24", "is_proth", 0, "for every s from 1 to 140, the two smallest primes k*2^s+1 (n-1 has exactly s trailing zero bits), every base kind", 140) { proth(idx + 1); }
SPACE("P24", "is_proth_more", 1, "every s from 141 to 400", 260) { proth(idx + 141); }
SPACE("P24", "is_proth_composite", 0, "for every s from 1 to 200 and odd k up to 21, k*2^s+1 when composite, bases passing and not", 200) {
	int s = idx + 1; for (long k = 1; k < 22; k += 2) { Z p; mpz_set_ui(p, k); mpz_mul_2exp(p, p, s); mpz_add_ui(p, p, 1); if (prime(p)) continue; ck_verdict(p, "k*2^s+1");
		BN b = mk(p, 0); for (long a = 2; a < 9; a++) { Z za(a); if (mpz_cmp_ui(p, 12) < 0 || liar(p, za)) continue; int r; { env::On e; Bases h(std::vector<Z>(8, za)); r = RaIsPrimeNumber(b); } if (!base_calls) break; evals++; if (r == RA_ERR_SUCCESS) fail("the composite %s is accepted although base %ld proves it composite", CS(p), a); } BnFree(b); }
}
static const int mers[] = {1279, 2203, 2281, 3217, 4253, 4423};
SPACE("P24", "is_mersenne_primes", 0, "the Mersenne primes 2^1279-1 to 2^4423-1, and neighbours 2^p+1, 2^p-3, their product with 3", 4) { Z p, q; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, mers[idx]); mpz_sub_ui(p, p, 1); note("2^%d-1", mers[idx]); if (is_prime(p) != RA_ERR_SUCCESS) fail("the prime 2^%d-1 is not accepted", mers[idx]); evals++; nontriv++; mpz_mul_ui(q, p, 3); ck_verdict(q, "3(2^p-1)"); mpz_add_ui(q, p, 2); ck_verdict(q, "2^p+1"); mpz_sub_ui(q, p, 2); ck_verdict(q, "2^p-3"); sample("2^%d-1", mers[idx]); }
SPACE("P24", "is_mersenne_primes_more", 1, "the Mersenne primes 2^4253-1 and 2^4423-1", 2) { Z p; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, mers[4 + idx]); mpz_sub_ui(p, p, 1); if (is_prime(p) != RA_ERR_SUCCESS) fail("the prime 2^%d-1 is not accepted", mers[4 + idx]); evals++; nontriv++; }
SPACE("P24", "is_large_composites", 0, "composites without small factors around every 512th bit from 1024 to 8192 bits and above: squares and products of primes", 16 * 3 + 1) {
	int bits = idx == 48 ? 12000 : 512 * (idx / 3 + 1) + (int)(idx % 3) - 1; Z p, q, n; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, 300); mpz_nextprime(p, p); mpz_set_ui(n, 1); mpz_mul_2exp(n, n, bits); mpz_fdiv_q(q, n, p); mpz_sub_ui(q, q, 100 + 2 * idx);
	for (;; mpz_sub_ui(q, q, 1)) { bool f = mpz_odd_p(q); for (unsigned long d = 3; f && d < 20000; d += 2) f = mpz_fdiv_ui(q, d); if (f) break; } // no factor a table of primes could show
	mpz_mul(n, p, q); int r = is_prime(n); evals++; nontriv++; if (r == RA_ERR_SUCCESS) fail("the composite (2^300+c)(...) of %zu bits is accepted as a prime", mpz_sizeinbase(n, 2)); sample("%d bits", bits);
}
SPACE("P24", "is_mersenne", 0, "2^n - 1 for every n from 2 to 1300 (prime or not)", 1299) { Z p; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, idx + 2); mpz_sub_ui(p, p, 1); ck_verdict(p, "2^n-1"); }
static const char *hardn[] = {"3215031751", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051", "318665857834031151167461", "3317044064679887385961981", "1195068768795265792518361315725116351898245581",
	"2821", "9439201", "56052361", "118901521", "172947529", "216821881", "228842209", "1299963601", "2301745249", "9624742921", "11346205609", "13079177569", "21515221081", "27278026129", "65700513721", "71171308081", "100264053529", "168003672409", "172018713961", "173032371289", "464052305161", "527519713969"};
SPACE("P24", "is_hard_composites", 0, "strong pseudoprimes to the first bases, Carmichael numbers, an even number of 1000 bits", sizeof hardn / sizeof hardn[0]) { Z n; mpz_set_str(n, hardn[idx], 10); ck_verdict(n, "pseudoprime"); }
SPACE("P24", "is_carmichael", 0, "Carmichael numbers (6k+1)(12k+1)(18k+1) for the first 200 k", 200) {
	static std::vector<long> ks; if (ks.empty()) for (long k = 1; ks.size() < 200; k++) { Z a(6 * k + 1), b(12 * k + 1), c(18 * k + 1); if (prime(a) && prime(b) && prime(c)) ks.push_back(k); }
	long k = ks[idx]; Z a(6 * k + 1), b(12 * k + 1), c(18 * k + 1), n; mpz_mul(n, a, b); mpz_mul(n, n, c); ck_verdict(n, "Carmichael number"); sample("k = %ld", k);
}
SPACE("P24", "is_semiprimes", 0, "squares, cubes and products of neighbouring primes of every size to 200 bits, also negative", 200) {
	Z p, q, n; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, idx + 1); mpz_nextprime(p, p); mpz_nextprime(q, p); mpz_mul(n, p, p); ck_verdict(n, "square"); mpz_neg(n, n); ck_verdict(n, "negative"); mpz_neg(n, p); ck_verdict(n, "negative prime"); mpz_mul(n, p, q); ck_verdict(n, "product"); mpz_mul(n, n, q); ck_verdict(n, "product"); mpz_mul_2exp(n, p, 1); ck_verdict(n, "twice a prime");
}
SPACE("P24", "is_word_grid", 0, "all numbers of one to three words over eight word values, both signs", (A8.size() + A8.size() * A8.size() + A8.size() * A8.size() * A8.size())) {
	std::vector<W> w; uint64_t x = idx, l = 1, t = A8.size(); while (x >= t) { x -= t; t *= A8.size(); l++; } for (uint64_t i = 0; i < l; i++) { w.push_back(A8[x % A8.size()]); x /= A8.size(); }
	Z n; mpz_import(n, l, -1, WB, 0, 0, w.data()); ck_verdict(n, "grid"); mpz_neg(n, n); ck_verdict(n, "grid");
}
SPACE("P24", "is_large", 0, "primes and composites of 512 to 2200 bits", 12) {
	static const int bits[] = {511, 512, 513, 640, 768, 1000, 1023, 1024, 1025, 1279, 1536, 2048}; Z p; vpat(p, 7, (bits[idx] + WBITS - 1) / WBITS); mpz_fdiv_r_2exp(p, p, bits[idx]); mpz_setbit(p, bits[idx] - 1); mpz_nextprime(p, p); ck_verdict(p, "large prime"); mpz_add_ui(p, p, 2); ck_verdict(p, "large"); if (idx < 8) ck_prime_bases((mpz_nextprime(p, p), p)); sample("%d bits", bits[idx]);
}
SPACE("P24", "is_stale_capacity", 0, "numbers held with every capacity from exact to 12 words more, unused words holding a pattern", 40) {
	Z p; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, 16 * (idx / 2) + 3); mpz_nextprime(p, p); if (idx & 1) mpz_mul(p, p, p); bool pr = prime(p);
	for (int c = 0; c < 13; c++) { int r = is_prime(p, words_of(p) + c); evals++; nontriv++; if ((r == RA_ERR_SUCCESS) != pr) fail("%s held with %d spare words: returns %d", CS(p), c, r); }
}

// ---------------------------------------------------------------- P25
static struct RaRandom *mkrnd(uint64_t seed, int alg = 0) { uint8_t s[24]; fillbuf(s, 24, 0x9000 + seed); struct RaRandom *r = NULL; if (RaRandomCreate((RaRandomAlgorithm)alg, s, 24, &r) != 0) { fprintf(stderr, "RaRandomCreate failed\n"); _exit(9); } return r; }
struct Prog { int stop, calls, last; bool order; int answer = 1; };
static int prog(int count, void *ud) { Prog *p = (Prog *)ud; p->calls++; if (count != p->last + 1) p->order = false; p->last = count; return count == p->stop ? p->answer : 0; }
static void ck_gen(BN b, int bit, int r, const char *what) {
	evals++; if (r != RA_ERR_SUCCESS) fail("%s: generating %d bits returns %d", what, bit, r);
	if (!wellformed(b)) fail("%s: %d bits: malformed number %s", what, bit, CS(b)); Z z; from_bn(z, b);
	if (mpz_sgn(z) < 0 || (int)mpz_sizeinbase(z, 2) != bit) fail("%s: asked for %d bits, got %s", what, bit, CS(z));
	if (!prime(z)) fail("%s: %d bits: %s is not a prime", what, bit, CS(z)); nontriv++;
}
SPACE("P25", "gen_sizes", 0, "every size from 2 to 260 bits: generators of four algorithms x seeds, exact and ample destination with stale contents", 259) {
	int bit = idx + 2, ns = bit <= 20 ? 40 : bit <= 64 ? 16 : bit < 130 ? 6 : 3; note("%d bits", bit);
	for (int s = 0; s < ns; s++) { struct RaRandom *rn = mkrnd(s * 1000 + bit, s % 4); BN b = BnNewW((bit + WBITS - 1) / WBITS + (s % 3 == 1 ? 5 : 0)); stale(b); Prog p = {0, 0, 0, true}; bool withp = s % 2;
		int r = RaGenPrimeNumberEx(b, bit, withp ? prog : NULL, &p, rn); ck_gen(b, bit, r, "seeded"); if (withp && (p.calls < 1 || !p.order)) fail("%d bits: progress counted %d calls, last %d", bit, p.calls, p.last); RaRandomDestroy(rn); BnFree(b); }
	sample("%d bits, %d seeds", bit, ns);
}
SPACE("P25", "gen_sizes_large", 0, "sizes around 384, 512 and 768 bits", 10) { static const int bits[] = {300, 319, 320, 321, 383, 384, 385, 511, 512, 768}; int bit = bits[idx]; struct RaRandom *rn = mkrnd(idx); BN b = BnNew(bit); stale(b); ck_gen(b, bit, RaGenPrimeNumberEx(b, bit, NULL, NULL, rn), "seeded"); RaRandomDestroy(rn); BnFree(b); }
SPACE("P25", "gen_sizes_larger", 1, "every size from 261 to 700 bits and 1023..1025", 443) { int bit = idx < 440 ? 261 + idx : 1023 + (idx - 440); for (int s = 0; s < 2; s++) { struct RaRandom *rn = mkrnd(s * 77 + idx); BN b = BnNew(bit); stale(b); ck_gen(b, bit, RaGenPrimeNumberEx(b, bit, NULL, NULL, rn), "seeded"); RaRandomDestroy(rn); BnFree(b); } }
SPACE("P25", "gen_unseeded", 0, "generation without a generator (fresh system entropy answered by the harness) through both entry points", 60) {
	int bit = 2 + 4 * (idx % 30); BN b = BnNew(bit); stale(b); int r; { env::On e; env::entropy(idx); r = idx < 30 ? RaGenPrimeNumber(b, bit) : RaGenPrimeNumberEx(b, bit, NULL, NULL, NULL); } ck_gen(b, bit, r, "unseeded"); BnFree(b);
}
// every first candidate of small sizes; candidates at the very top of larger sizes
static void gen_cand(int bit, const std::vector<Z> &c, uint64_t step) {
	BN b = BnNew(bit); stale(b); struct RaRandom *rn = mkrnd(bit); size_t k = 0; cand_calls = 0;
	cand_fn = [&](BN d, int bb) { if (bb != bit || k >= c.size()) return false; setbn(d, c[k++]); return true; };
	Prog p = {4000, 0, 0, true}; int r; { env::On e; r = RaGenPrimeNumberEx(b, bit, prog, &p, rn); } cand_fn = nullptr; trans += cand_calls;
	ck_gen(b, bit, r, "enumerated candidate"); RaRandomDestroy(rn); BnFree(b); (void)step;
}
SPACE("P25", "gen_candidates", 0, "every odd candidate of every size from 2 to 17 bits as the first draw", 16) { int bit = idx + 2; uint64_t n = bit < 3 ? 1 : 1ull << (bit - 2); for (uint64_t k = 0; k < n; k += (bit > 14 ? 4 : 1)) { Z z((long)((1ull << (bit - 1)) | (2 * k) | 1)); note("%d bits, candidate %s", bit, CS(z)); gen_cand(bit, std::vector<Z>(1, z), 1); } }
SPACE("P25", "gen_top", 0, "for every size from 2 to 200 bits the 60 largest and 20 smallest odd candidates as the first draw: the search must not leave the size", 199) {
	int bit = idx + 2; Z top; mpz_set_ui(top, 1); mpz_mul_2exp(top, top, bit); Z bot; mpz_set_ui(bot, 1); mpz_mul_2exp(bot, bot, bit - 1);
	for (int k = 0; k < 60; k++) { Z z; mpz_sub_ui(z, top, 2 * k + 1); if (mpz_cmp(z, bot) < 0) break; note("%d bits, candidate %s", bit, CS(z)); gen_cand(bit, std::vector<Z>(1, z), 1); }
	for (int k = 0; k < 20; k++) { Z z; mpz_add_ui(z, bot, 2 * k + 1); if (mpz_cmp(z, top) >= 0) break; gen_cand(bit, std::vector<Z>(1, z), 1); }
	for (int w = 32; w < bit; w += 32) for (int k = 0; k < 6; k++) { Z z(bot), t; mpz_set_ui(t, 1); mpz_mul_2exp(t, t, w); mpz_sub_ui(t, t, 2 * k + 1); mpz_add(z, z, t); if (mpz_cmp(z, top) < 0) { note("%d bits, candidate %s", bit, CS(z)); gen_cand(bit, std::vector<Z>(1, z), 1); } } // carries out of the low words
	sample("%d bits", bit);
}
// composites without small factors as the first draw, with answers of the generator that prove it in one round only
SPACE("P25", "gen_composite_draws", 0, "every size from 40 to 200 bits, every 16th to 520, and 21 sizes to 3072 bits: a product of two primes that passes some bases as the first draw, a proving base in each of the rounds (three from 1024 bits on), stopped at the second draw: never handed out", 161 + 20 + 21) {
	static const int big[] = {640, 768, 800, 896, 960, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1028, 1032, 1040, 1088, 1100, 1536, 2048, 3072};
	int bb = idx < 161 ? 40 + (int)idx : idx < 181 ? 200 + 16 * (int)(idx - 160) : big[idx - 181]; Z p, q, n; mpz_set_ui(p, 1); mpz_mul_2exp(p, p, (bb - 1) / 2); if (bb == 1536) mpz_add_ui(p, p, 119279); else if (bb == 2048) mpz_add_ui(p, p, 1002023); else if (bb == 3072) mpz_add_ui(p, p, 803); else if (bb % 2) { mpz_mul_ui(p, p, 6); mpz_tdiv_q_ui(p, p, 8); }
	for (int t = 0; t < 4000; t++) { if (t || bb <= 1100) { mpz_nextprime(p, p); } mpz_mul_2exp(q, p, 1); mpz_sub_ui(q, q, 1); if (bb <= 1100 && (!mpz_probab_prime_p(q, 2) || !mpz_probab_prime_p(q, 10))) continue;
		if (mpz_fdiv_ui(p, 4) != 3) continue; mpz_mul(n, p, q); if ((int)mpz_sizeinbase(n, 2) != bb) { note("%d bits: no composite", bb); return; }
		long L = 16, Wt = 0; Z zl(L); if (!liar(n, zl)) fail("the harness's composite of %d bits", bb); for (long a = 2; a < 400 && !Wt; a++) { Z za(a); if (!liar(n, za)) Wt = a; } if (!Wt) return;
		int rounds = bb >= 1024 ? 3 : 5; note("%d bits", bb);
		for (int pos = 0; pos < rounds; pos++) { std::vector<Z> qq(6, zl); qq[pos] = Z(Wt); BN b = BnNew(bb); stale(b); struct RaRandom *rn = mkrnd(bb); bool given = false; cand_calls = 0; cand_fn = [&](BN d, int nb) { if (given || nb != bb) return false; given = true; setbn(d, n); return true; }; Prog pr = {2, 0, 0, true}; int r; { env::On e; Bases h(qq); r = RaGenPrimeNumberEx(b, bb, prog, &pr, rn); } cand_fn = nullptr; evals++; trans++; bool used = cand_calls > 0 && base_calls > 0; nontriv += used; Z z; from_bn(z, b);
			if (r == RA_ERR_SUCCESS && !prime(z)) fail("generating a prime of %d bits hands out the composite %s (base %ld of round %d proves it)", bb, CS(z), Wt, pos + 1); RaRandomDestroy(rn); BnFree(b); if (!used) break; }
		sample("%d bits, proving base %ld", bb, Wt); return; }
}
SPACE("P25", "gen_stop", 0, "progress callback stopping at each of its first calls with 8 different answers: an error and no further calls", 120) {
	int bit = 2 + (int)(idx / 6) * 13, stop = 1 + (int)(idx % 6);
	static const int ANS[8] = {1, -1, 2, 256, 65536, INT32_MAX, INT32_MIN, -256}; for (int s = 0; s < 14; s++) { struct RaRandom *rn = s == 5 ? NULL : mkrnd(s + idx * 8); BN b = BnNew(bit); Prog p = {stop, 0, 0, true, ANS[s < 6 ? 0 : s - 6]}; int r; { env::On e; r = RaGenPrimeNumberEx(b, bit, prog, &p, rn); if (env::live) fail("file descriptor left open"); }
		evals++; if (!p.order) fail("%d bits: progress counts out of order", bit); if (p.last >= stop) { nontriv++; if (r == RA_ERR_SUCCESS) fail("%d bits: stopped at call %d but success is returned", bit, stop); if (p.last > stop) fail("%d bits: runs on to call %d after being stopped at %d", bit, p.last, stop); } else ck_gen(b, bit, r, "not stopped");
		if (rn) RaRandomDestroy(rn); BnFree(b); }
}
SPACE("P25", "gen_no_such_size", 0, "sizes below 2 bits have no prime: an error", 40) { int bit = 1 - (int)idx; if (idx == 39) bit = INT32_MIN; BN b = BnNewW(4); struct RaRandom *rn = mkrnd(1); Prog p = {2000, 0, 0, true}; int r = RaGenPrimeNumberEx(b, bit, prog, &p, rn); evals++; if (r == RA_ERR_SUCCESS) fail("generating a prime of %d bits succeeds with %s", bit, CS(b)); int e2; { env::On e; e2 = RaGenPrimeNumber(b, bit); } if (e2 == RA_ERR_SUCCESS) fail("generating a prime of %d bits succeeds", bit); RaRandomDestroy(rn); BnFree(b); }

// ---------------------------------------------------------------- P36
typedef int (*maker)(BN, int, struct RaRandom *);
static const maker makers[] = {BnGenRandom, BnGetRandomOdd, BnGetRandomRSA}; static const char *mname[] = {"BnGenRandom", "BnGetRandomOdd", "BnGetRandomRSA"};
static void ck_rand(int m, int n, BN b, int r, mpz_ptr z, const char *what) {
	evals++; if (n <= 0 && m) { if (r == RA_ERR_SUCCESS) { from_bn(z, b); if (!wellformed(b) || mpz_even_p(z) || n < 0 || mpz_cmp_ui(z, 0) != 0) fail("%s: %d bits succeeds with %s", mname[m], n, CS(b)); } return; }
	if (r != RA_ERR_SUCCESS) fail("%s(%d bits), %s: returns %d", mname[m], n, what, r);
	if (!wellformed(b)) fail("%s(%d bits), %s: malformed %s", mname[m], n, what, CS(b)); from_bn(z, b);
	int bl = mpz_sgn(z) ? (int)mpz_sizeinbase(z, 2) : 0; if (n < 0) n = 0;
	if (mpz_sgn(z) < 0 || bl > n) fail("%s(%d bits), %s: %s is out of range", mname[m], n, what, CS(z));
	if (m && mpz_even_p(z)) fail("%s(%d bits), %s: %s is even", mname[m], n, what, CS(z));
	if (m == 2 && bl != n) fail("%s(%d bits), %s: %s has %d bits", mname[m], n, what, CS(z), bl);
}
static void rand_size(int n, int nseeds) {
	for (int m = 0; m < 3; m++) {
		Z orv, andv(-1L), z; bool any = false;
		for (int s = 0; s < nseeds; s++) { struct RaRandom *rn = mkrnd(7000 + s, s & 3); int w = n <= 0 ? 2 : (n + WBITS - 1) / WBITS; BN b = BnNewW(w + (s % 4 == 3 ? 3 : 0)); stale(b); note("%s(%d)", mname[m], n);
			uint8_t before[16]; W *after = b->data + w; W sv[3]; bool more = s % 4 == 3 && w >= 2; if (more) memcpy(sv, after, sizeof sv); (void)before;
			int r = makers[m](b, n, rn); ck_rand(m, n, b, r, z, "seeded"); if (r == 0) { any = true; mpz_ior(orv, orv, z); mpz_and(andv, andv, z); } RaRandomDestroy(rn); BnFree(b); }
		if (any && n > 0) { Z full, low; mpz_set_ui(full, 1); mpz_mul_2exp(full, full, n); mpz_sub_ui(full, full, 1); if (mpz_cmp(orv, full)) fail("%s(%d bits): over %d seeds some bit is never set: union %s", mname[m], n, nseeds, CS(orv));
			if (m == 1) mpz_set_ui(low, 1); if (m == 2) { mpz_set_ui(low, 1); mpz_setbit(low, n - 1); } if (mpz_cmp(andv, low)) fail("%s(%d bits): over %d seeds some bit is always set: intersection %s", mname[m], n, nseeds, CS(andv)); nontriv++; }
	}
}
SPACE("P36", "rand_sizes", 0, "every size from -8 to 1600 bits, each maker, 48 seeds over four algorithms: range, parity, exact size, every bit both ways, canonical form, stale destination of exact and larger capacity", 1609) { rand_size((int)idx - 8, 48); sample("%d bits", (int)idx - 8); }
SPACE("P36", "rand_sizes_large", 0, "sizes around every 512th bit to 6400 bits", 60) { rand_size(512 * (1 + idx / 5) + (int)(idx % 5) - 2, 40); }
SPACE("P36", "rand_sizes_all", 1, "every size from 1601 to 6500 bits", 4900) { rand_size(1601 + idx, 40); }
SPACE("P36", "rand_extreme_bytes", 0, "every size from 1 to 300 bits with the generator delivering all zeros, all ones, single zero or one bytes, single bits", 300) {
	int n = idx + 1, w = (n + WBITS - 1) / WBITS; struct RaRandom *rn = mkrnd(1); Z z;
	for (int m = 0; m < 3; m++) for (int pat = 0; pat < 4 + 2 * w * WB; pat++) {
		byte_script.assign(w * WB, pat == 0 || pat == 2 ? 0 : 0xff); if (pat == 2) byte_script[0] = 0x80; if (pat == 3) byte_script[w * WB - 1] = 0x7f; if (pat >= 4) byte_script.assign(w * WB, pat & 1 ? 0xff : 0), byte_script[(pat - 4) / 2] ^= pat & 1 ? 0x81 : 0x18;
		BN b = BnNewW(w); stale(b); byte_pos = 0; byte_calls = 0; byte_mode = 1; int r = makers[m](b, n, rn); byte_mode = 0; ck_rand(m, n, b, r, z, "extreme bytes"); nontriv += byte_calls > 0;
		if (byte_calls && pat < 2) { Z want; if (pat) { mpz_set_ui(want, 1); mpz_mul_2exp(want, want, n); mpz_sub_ui(want, want, 1); } else { if (m) mpz_setbit(want, 0); if (m == 2) mpz_setbit(want, n - 1); } if (mpz_cmp(z, want)) { BnFree(b); fail("%s(%d bits) of all-%s bytes gives %s", mname[m], n, pat ? "one" : "zero", CS(z)); } }
		BnFree(b); }
	RaRandomDestroy(rn); sample("%d bits", n);
}
SPACE("P36", "rand_unseeded", 0, "every maker without a generator, sizes 1 to 130", 130) { Z z; for (int m = 0; m < 3; m++) { BN b = BnNew(idx + 1); stale(b); env::On e; env::entropy(idx); int r = makers[m](b, idx + 1, NULL); ck_rand(m, idx + 1, b, r, z, "unseeded"); nontriv++; if (env::live) fail("file descriptor left open"); BnFree(b); } }
SPACE("P36", "rand_bytes", 0, "random byte strings of every length from -2 to 300, at a page end: exactly that many bytes written, every byte position varied by the seed", 303) {
	static Guard g(512); int n = (int)idx - 2; int m = n < 0 ? 0 : n; std::vector<uint8_t> o(m, 0), a(m, 0xff);
	for (int s = 0; s < 40; s++) { uint8_t *p = g.tail(m); memset(g.head(), 0x5a, g.size); struct RaRandom *rn = s == 39 ? NULL : mkrnd(s, s & 3); int r; { env::On e; env::entropy(s); r = BnGenRandomByteArray(p, n, rn); } if (rn) RaRandomDestroy(rn); evals++; nontriv++;
		if (r != RA_ERR_SUCCESS && n >= 0) fail("%d bytes: returns %d", n, r); for (uint8_t *q = g.head(); q < p; q++) if (*q != 0x5a) fail("%d bytes: a byte before the buffer is written", n); for (int i = 0; i < m; i++) o[i] |= p[i], a[i] &= p[i]; }
	for (int i = 0; i < m; i++) if (o[i] != 0xff || a[i] != 0) fail("%d bytes: byte %d has bits that never change over 40 seeds (union %02x, intersection %02x)", n, i, o[i], a[i]);
}
#ifdef NDEBUG_LIB
SPACE("P36", "rand_no_room", 0, "destinations with fewer words than the size needs: an error, nothing outside written", 300) {
	int n = (int)idx * 3 + 1, w = (n + WBITS - 1) / WBITS; for (int m = 0; m < 3; m++) for (int c = 2; c < w && c < 20; c++) { BN b = BnNewW(c); stale(b); struct RaRandom *rn = mkrnd(1); int r = makers[m](b, n, rn); evals++; nontriv++; if (r == RA_ERR_SUCCESS) fail("%s(%d bits) into %d words succeeds with %s", mname[m], n, c, CS(b)); RaRandomDestroy(rn); BnFree(b); }
}
SPACE("P25", "gen_no_room", 0, "destinations with fewer words than the prime needs: an error, nothing outside written", 60) {
	int n = 2 * WBITS + 1 + (int)idx * 7, w = (n + WBITS - 1) / WBITS; for (int c = 2; c < w; c++) { BN b = BnNewW(c); stale(b); struct RaRandom *rn = mkrnd(1); int r = RaGenPrimeNumberEx(b, n, NULL, NULL, rn); evals++; nontriv++; if (r == RA_ERR_SUCCESS) fail("a prime of %d bits into %d words succeeds with %s", n, c, CS(b)); RaRandomDestroy(rn); BnFree(b); }
}
#endif
