// P15 add/sub/compare/assign, P16 mul/sqr/double, P17 div/mod, P18 word operations, P19 shifts, P20 byte strings,
// P21 capacity reports, P22 gcd, P23 modular exponentiation.  Reference: GMP.
#include "bn.h"
#define STALE 3
LAZY(S3, vwords(3, thorough ? A12 : A8, true))                    // signed, up to 3 words
LAZY(S4, vwords(4, thorough ? A6 : A5, true))                    // signed, up to 4 words

LAZY(S2, vwords(2, A12, true))
LAZY(LONG, vlong(1, thorough ? 40 : 24, 1, true))
LAZY(LONGU, vlong(1, thorough ? 40 : 24, 1, false))
// numbers far longer than their neighbours in LONG: keys of 4096 bits and their products, around powers of two
static VSet vfar(bool sg, int top, std::initializer_list<int> pats) { VSet s; static const int L[] = {25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 47, 48, 49, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257}; for (int l : L) if (l <= top) for (int p : pats) { Z z; vpat(z, p, l); vadd(s, z, sg); } return s; }
LAZY(FAR_, vfar(true, 257, {0, 5, 6, 7}))
LAZY(FARU, vfar(false, 130, {0, 7}))
static bool unchanged(BN x, mpz_srcptr z) { return same(x, z); }

// ---------------------------------------------------------------- P15
static void addsub(const Val &a, const Val &b, bool aliases) {
	Z s, d; mpz_add(s, a.z, b.z); mpz_sub(d, a.z, b.z); nontriv++;
	int m = std::max(a.b->length, b.b->length);
	for (int op = 0; op < 2; op++) {
		mpz_srcptr w = op ? d : s; int need = std::max(m, words_of(w)); const char *nm = op ? "BnSub" : "BnAdd"; auto F = op ? BnSub : BnAdd;
		for (int spare = 0; spare < (aliases ? 2 : 1); spare++) {
			BN r = dst(need + spare * 2); ck_ok(F(r, a.b, b.b), "%s(%s, %s) capacity %d", nm, CS(a.z), CS(b.z), r->max_length); ck_same(r, w, "%s(%s, %s)", nm, CS(a.z), CS(b.z));
		}
		if (!aliases) continue;
		BN r = dst(need, 1); setbn(r, a.z); ck_ok(F(r, r, b.b), "%s(a, a=%s, %s)", nm, CS(a.z), CS(b.z)); ck_same(r, w, "%s(a, a=%s, %s)", nm, CS(a.z), CS(b.z));
		r = dst(need, 2); setbn(r, b.z); ck_ok(F(r, a.b, r), "%s(b, %s, b=%s)", nm, CS(a.z), CS(b.z)); ck_same(r, w, "%s(b, %s, b=%s)", nm, CS(a.z), CS(b.z));
	}
	int c = mpz_cmp(a.z, b.z), g = BnCmp(a.b, b.b); evals++; if ((c > 0) - (c < 0) != g) fail("BnCmp(%s, %s) = %d", CS(a.z), CS(b.z), g);
	if (aliases) {
		Z s2; mpz_abs(s, a.z); mpz_abs(s2, b.z); mpz_add(d, s, s2); BN r = dst(std::max(m, words_of(d)), 1); // unsigned in-place forms
		 setbn(r, s); r->sign = mpz_sgn(a.z) < 0; ck_ok(_BnAddR(r, b.b), "_BnAddR(%s, %s)", CS(a.z), CS(b.z)); if (mpz_sgn(a.z) < 0) mpz_neg(d, d); else if (mpz_sgn(d) == 0) r->sign = 0; ck_same(r, d, "_BnAddR(%s, %s)", CS(a.z), CS(b.z));
		if (mpz_cmp(s, s2) >= 0) { r = dst(a.b->length, 2); mpz_sub(d, s, s2); setbn(r, s); ck_ok(_BnSubR(r, b.b), "_BnSubR"); ck_same(r, d, "_BnSubR(|%s|, |%s|)", CS(a.z), CS(b.z)); }
	}
	if (!unchanged(a.b, a.z) || !unchanged(b.b, b.z)) fail("add/sub/cmp of %s and %s changes an operand", CS(a.z), CS(b.z));
}
SPACE("P15", "addsub3", 0, "all signed pairs up to 3 boundary words x add/sub/compare x aliasing x exact and spare capacity", S3().n()) { auto &s = S3(); auto &a = s.v[idx]; for (auto &b : s.v) addsub(a, b, true); sample("%s with every number of %zu", CS(a.z), s.n()); }
SPACE("P15", "addsub4", 0, "all signed pairs up to 4 boundary words x add/sub/compare", S4().n()) { auto &s = S4(); auto &a = s.v[idx]; for (auto &b : s.v) addsub(a, b, false); sample("%s with every number of %zu", CS(a.z), s.n()); }
SPACE("P15", "addsub_long", 0, "all signed pairs of long regular numbers", LONG().n()) { auto &s = LONG(); auto &a = s.v[idx]; for (auto &b : s.v) addsub(a, b, true); sample("%s with every long number", CS(a.z)); }
SPACE("P15", "addsub_far", 0, "all signed pairs of regular numbers of 25 to 257 words", FAR_().n()) { auto &s = FAR_(); auto &a = s.v[idx]; for (auto &b : s.v) addsub(a, b, a.b->length + b.b->length < 140); }
SPACE("P15", "addsub_small", 0, "all pairs of integers -70..70 x all aliasings", 141) { static VSet s; if (s.v.empty()) for (int i = -70; i <= 70; i++) vadd(s, Z(i), false); auto &a = s.v[idx]; for (auto &b : s.v) addsub(a, b, true); sample("%s with -70..70", CS(a.z)); }
SPACE("P15", "addsub_self", 0, "a number with itself in every aliasing", S4().n()) {
	auto &a = S4().v[idx]; Z z; mpz_add(z, a.z, a.z); BN r = dst(std::max(words_of(z), a.b->length)); ck_ok(BnAdd(r, a.b, a.b), "a+a"); ck_same(r, z, "a+a, a=%s", CS(a.z));
	r = dst(std::max(words_of(z), a.b->length), 1); setbn(r, a.z); ck_ok(BnAdd(r, r, r), "a=a+a"); ck_same(r, z, "a=a+a, a=%s", CS(a.z));
	r = dst(a.b->length); ck_ok(BnSub(r, a.b, a.b), "a-a"); ck_same(r, Z(0), "a-a, a=%s", CS(a.z)); setbn(r, a.z); ck_ok(BnSub(r, r, r), "a=a-a"); ck_same(r, Z(0), "a=a-a, a=%s", CS(a.z));
	if (BnCmp(a.b, a.b) != 0) fail("BnCmp(a, a) is not 0 for %s", CS(a.z)); nontriv++;
}
SPACE("P15", "assign", 0, "copying, cloning and setting: every boundary value x capacity", S4().n()) {
	auto &a = S4().v[idx]; int n = a.b->length; nontriv++;
	for (int cap = 2; cap <= 6; cap++) { BN r = dst(cap); int e = BnSet(r, a.b); if (n <= cap) { ck_ok(e, "BnSet to capacity %d of %s", cap, CS(a.z)); ck_same(r, a.z, "BnSet"); } else if (e == RA_ERR_SUCCESS) fail("BnSet of %d words into capacity %d succeeds", n, cap); }
	for (int cap = n; cap < n + 3; cap++) { BN x = mk(a.z, cap), c = BnClone(x); if (!c) fail("BnClone returns NULL"); ck_same(c, a.z, "BnClone"); if (BnGetMaxLength(c) < BnGetLength(c)) fail("clone too small"); if (cap >= 2) { int e = BnSet(c, x); ck_ok(e, "BnSet to a clone"); ck_same(c, a.z, "BnSet to a clone"); }
		if (BnGetLength(x) != n || BnGetMaxLength(x) != std::max(cap, 2)) fail("lengths reported as %d of %d", BnGetLength(x), BnGetMaxLength(x)); BnFree(c); if (idx & 1) BnFree(x); else BnClearFree(x); }
	BN r = dst(n); BnSet(r, a.b); _BnInvert(r); if (mpz_sgn(a.z)) { Z z; mpz_neg(z, a.z); ck_same(r, z, "_BnInvert"); }
	{ BN x = mk(a.z, 1); bn_uint_t w = x->data[0]; if (_BnGetUInt(x) != w || _BnGetUInt32(x) != (uint32_t)w) fail("_BnGetUInt of %s", CS(a.z)); uint64_t u = WB == 8 || n == 1 ? (uint64_t)w : (uint64_t)w | (uint64_t)x->data[1] << 32; if (_BnGetUInt64(x) != u) fail("_BnGetUInt64 of %s", CS(a.z)); BnFree(x); }
	for (int bit = n * WBITS - (WBITS - 1); bit <= n * WBITS; bit += (bit == n * WBITS - (WBITS - 1) ? WBITS - 2 : 1)) { BN x = BnNew(bit); if (!x || x->max_length * WBITS < bit || !same(x, Z(0))) fail("BnNew(%d)", bit); BnFree(x); }
}
static const int64_t SV[] = {0, 1, -1, 2, -2, 127, -128, 255, 256, 0x7fff, -0x8000, 0xffff, 0x7fffffff, -0x7fffffff - 1LL, -0x7fffffffLL, 0x80000000LL, 0xffffffffLL, -0xffffffffLL, 0x100000000LL, -0x100000000LL, 0x7fffffff00000000LL, INT64_MAX, INT64_MIN + 1, INT64_MIN, INT64_MAX - 1, 0x123456789abcdefLL, -0x123456789abcdefLL};
SPACE("P15", "setint", 0, "every setter x boundary value, read back", sizeof SV / 8) {
	int64_t v = SV[idx]; Z z; uint64_t m = v < 0 ? -(uint64_t)v : v; mpz_import(z, 1, -1, 8, 0, 0, &m); Z zs(z); if (v < 0) mpz_neg(zs, z); BN r = dst(2); nontriv++;
	BnSetInt64(r, v); ck_same(r, zs, "BnSetInt64(%lld)", (long long)v); if (BnCmp(r, r)) fail("cmp");
	uint64_t u = (uint64_t)v; mpz_import(z, 1, -1, 8, 0, 0, &u); stale(r); BnSetUInt64(r, u); ck_same(r, z, "BnSetUInt64(%llx)", (unsigned long long)u); if (_BnGetUInt64(r) != u) fail("_BnGetUInt64(%llx)", (unsigned long long)u);
	stale(r); BnSetInt32(r, (int32_t)v); mpz_set_si(z, (int32_t)v); ck_same(r, z, "BnSetInt32(%d)", (int)v); stale(r); BnSetUInt32(r, (uint32_t)v); mpz_set_ui(z, (uint32_t)v); ck_same(r, z, "BnSetUInt32(%x)", (uint32_t)v);
	SW sw = (SW)v; stale(r); BnSetInt(r, sw); mpz_set_si(z, sw); ck_same(r, z, "BnSetInt(%lld)", (long long)sw); stale(r); BnSetUInt(r, (W)v); mpz_set_ui(z, (W)v); ck_same(r, z, "BnSetUInt(%llx)", (unsigned long long)(W)v);
	sample("setters with %lld", (long long)v);
}
// sequences of operations on one accumulator: canonical results however computed
static const int SEQ_OPS = 14, SEQ_START = 6;
static void seq_run(uint64_t idx, int depth) {
	Z z; static const W st_[SEQ_START][3] = {{0, 0, 0}, {1, 0, 0}, {WMAX, WMAX, 0}, {0, 0, 1}, {WTOP, 0, WMAX}, {WMAX, 0, 0}}; int s = (int)(idx % SEQ_START); idx /= SEQ_START;
	mpz_import(z, 3, -1, WB, 0, 0, st_[s]); if (s & 1) mpz_neg(z, z); static BN acc; if (!acc) acc = BnNewW(4 + 2 * 8); stale(acc); setbn(acc, z); std::string h = str((mpz_srcptr)z);
	static Val K[4]; static bool in; if (!in) { in = true; W k[4][3] = {{1, 0, 0}, {WMAX, WMAX, 0}, {0, 1, 0}, {WMAX, 0, WTOP}}; for (int i = 0; i < 4; i++) { mpz_import(K[i].z, 3, -1, WB, 0, 0, k[i]); K[i].b = mk(K[i].z, 1); } }
	static const char *N[SEQ_OPS] = {"+1", "-1", "+K1", "-K1", "+K2", "-K2", "+K3", "-K3", "neg", "<<1w", ">>1w", "double", "*max", "/max"};
	Z w; mpz_set_ui(w, WMAX);
	for (int i = 0; i < depth; i++) {
		int op = (int)(idx % SEQ_OPS); idx /= SEQ_OPS; h += " "; h += N[op]; int e = 0; BN t;
		switch (op) {
			case 0: e = BnAddInt(acc, 1); mpz_add_ui(z, z, 1); break;
			case 1: e = BnSubUInt(acc, 1); mpz_sub_ui(z, z, 1); break;
			case 2: case 4: case 6: e = BnAdd(acc, acc, K[op / 2].b); mpz_add(z, z, K[op / 2].z); break;
			case 3: case 5: case 7: e = BnSub(acc, acc, K[op / 2].b); mpz_sub(z, z, K[op / 2].z); break;
			case 8: e = BnMulInt(acc, -1); mpz_neg(z, z); break;
			case 9: e = BnShiftL(acc, WBITS); mpz_mul_2exp(z, z, WBITS); break;
			case 10: e = BnShiftR(acc, WBITS + 1); mpz_tdiv_q_2exp(z, z, WBITS + 1); break;
			case 11: t = dst(acc->length + 1); e = BnDouble(t, acc); BnSet(acc, t); mpz_mul_2exp(z, z, 1); break;
			case 12: e = BnMulUInt(acc, WMAX); mpz_mul(z, z, w); break;
			case 13: e = BnDivUInt(acc, WMAX, NULL); mpz_tdiv_q(z, z, w); break;
		}
		trans++; ck_ok(e, "%s", h.c_str()); ck_same(acc, z, "%s", h.c_str()); state(mix(hashb(acc->data, acc->length * WB), acc->sign * 64 + acc->length)); Z n1; if ((BnCmpInt(acc, 0) == 0) != (mpz_sgn(z) == 0) || (BnCmpUInt(acc, 0) == 0) != (mpz_sgn(z) == 0)) fail("%s: comparison with zero is wrong", h.c_str());
	}
	traces++; nontriv++; sample("%s", h.c_str());
}
SPACE("P15", "sequences", 2, "all sequences of 4 of 14 operations from 6 starts", (uint64_t)SEQ_START * SEQ_OPS * SEQ_OPS * SEQ_OPS * SEQ_OPS) { seq_run(idx, 4); }
SPACE("P15", "sequences6", 1, "all sequences of 5 of 14 operations from 6 starts", (uint64_t)SEQ_START * SEQ_OPS * SEQ_OPS * SEQ_OPS * SEQ_OPS * SEQ_OPS) { seq_run(idx, 5); }

// ---------------------------------------------------------------- P16
static int mulcap(const Val &a, const Val &b) { return (int)((mpz_sizeinbase(a.z, 2) + mpz_sizeinbase(b.z, 2) + WBITS - 1) / WBITS); }
static void mulpair(const Val &a, const Val &b) {
	Z p; mpz_mul(p, a.z, b.z); nontriv++;
	for (int spare = 0; spare < 2; spare++) { BN r = dst(mulcap(a, b) + spare * 2); ck_ok(BnMul(r, a.b, b.b), "BnMul(%s, %s) capacity %d", CS(a.z), CS(b.z), r->max_length); ck_same(r, p, "BnMul(%s, %s)", CS(a.z), CS(b.z)); }
	if (!unchanged(a.b, a.z) || !unchanged(b.b, b.z)) fail("BnMul(%s, %s) changes an operand", CS(a.z), CS(b.z));
}
static void sqrdbl(const Val &a) {
	Z p; nontriv++; mpz_mul(p, a.z, a.z);
	for (int spare = 0; spare < 3; spare++) { BN r = dst(mulcap(a, a) + spare); ck_ok(BnSqr(r, a.b), "BnSqr(%s)", CS(a.z)); ck_same(r, p, "BnSqr(%s)", CS(a.z)); }
	BN r = dst(mulcap(a, a)); ck_ok(BnMul(r, a.b, a.b), "BnMul(a, a)"); ck_same(r, p, "BnMul(a, a), a=%s", CS(a.z));
	mpz_mul_2exp(p, a.z, 1); for (int spare = 0; spare < 2; spare++) { r = dst(std::max(words_of(p), a.b->length) + spare); ck_ok(BnDouble(r, a.b), "BnDouble(%s)", CS(a.z)); ck_same(r, p, "BnDouble(%s)", CS(a.z)); }
	if (!unchanged(a.b, a.z)) fail("squaring or doubling %s changes it", CS(a.z));
}
SPACE("P16", "mul3", 0, "all signed pairs up to 3 boundary words, exact and spare capacity", S3().n()) { auto &s = S3(); auto &a = s.v[idx]; for (auto &b : s.v) mulpair(a, b); sample("%s times each of %zu", CS(a.z), s.n()); }
SPACE("P16", "mul4", 0, "all signed pairs up to 4 boundary words", S4().n()) { auto &s = S4(); auto &a = s.v[idx]; for (auto &b : s.v) mulpair(a, b); sample("%s times each of %zu", CS(a.z), s.n()); }
SPACE("P16", "mul2", 0, "all signed pairs up to 2 words over 12 boundary words", S2().n()) { auto &s = S2(); auto &a = s.v[idx]; for (auto &b : s.v) mulpair(a, b); }
SPACE("P16", "mul_long", 0, "all signed pairs of long regular numbers", LONG().n()) { auto &s = LONG(); auto &a = s.v[idx]; for (auto &b : s.v) mulpair(a, b); sample("%s times every long number", CS(a.z)); }
SPACE("P16", "mul_far", 0, "all pairs of regular numbers of 25 to 257 words, and with short ones", FAR_().n()) { auto &s = FAR_(); auto &a = s.v[idx]; for (size_t j = 0; j < s.n(); j++) if (j % 2 == idx / 2 % 2 || thorough) mulpair(a, s.v[j]); auto &t = LONG(); for (size_t j = idx % 3; j < t.n(); j += 3) { mulpair(a, t.v[j]); mulpair(t.v[j], a); } }
SPACE("P16", "sqr3", 0, "squares and doubles of all boundary numbers", S3().n()) { sqrdbl(S3().v[idx]); }
SPACE("P16", "sqr4", 0, "squares and doubles of all boundary numbers", S4().n()) { sqrdbl(S4().v[idx]); }
SPACE("P16", "sqr2", 0, "squares and doubles of all boundary numbers", S2().n()) { sqrdbl(S2().v[idx]); }
LAZY(SQ5, vwords(5, thorough ? A6 : A4, false))
SPACE("P16", "sqr5", 0, "squares and doubles of all 5-word boundary numbers", SQ5().n()) { sqrdbl(SQ5().v[idx]); }
SPACE("P16", "sqr_long", 0, "squares and doubles of long regular numbers", LONG().n()) { sqrdbl(LONG().v[idx]); sample("square of %s", CS(LONG().v[idx].z)); }
SPACE("P16", "sqr_far", 0, "squares and doubles of regular numbers of 25 to 257 words", FAR_().n()) { sqrdbl(FAR_().v[idx]); }
SPACE("P16", "mul_small", 0, "all pairs of integers -70..70", 141) { static VSet s; if (s.v.empty()) for (int i = -70; i <= 70; i++) vadd(s, Z(i), false); auto &a = s.v[idx]; for (auto &b : s.v) mulpair(a, b); sqrdbl(a); }
// products of one-word operands: every pair of two-bit-run words
static std::vector<W> &runs() { static std::vector<W> v; if (v.empty()) for (int i = 0; i < WBITS; i += WB == 8 ? 2 : 1) for (int l = 1; l <= WBITS - i; l += WB == 8 ? 3 : 2) v.push_back((l == WBITS ? WMAX : (((W)1 << l) - 1)) << i); return v; }
SPACE("P16", "mul_runs", 0, "all pairs of words that are one run of set bits, over one and two words", runs().size()) {
	auto &r = runs(); Val a, b; W aw[2] = {r[idx], 0}; for (int two = 0; two < 2; two++) { aw[1] = two ? r[(idx * 7 + 3) % r.size()] : 0; mpz_import(a.z, 2, -1, WB, 0, 0, aw); static BN pa, pb; if (!pa) { pa = BnNewW(2); pb = BnNewW(2); } setbn(pa, a.z); a.b = pa; for (W w : r) { mpz_import(b.z, 1, -1, WB, 0, 0, &w); setbn(pb, b.z); b.b = pb; mulpair(a, b); mulpair(b, a); } }
}

// ---------------------------------------------------------------- P17
static void divpair(const Val &a, const Val &b, bool alias = true) {
	if (mpz_sgn(b.z) == 0) return; nontriv++; Z q, r, m; mpz_fdiv_qr(q, r, a.z, b.z); mpz_tdiv_r(m, a.z, b.z);
	int la = a.b->length, lb = b.b->length, cq = std::max(2, std::max(la - lb + 1, words_of(q)));
	BN qq = dst(cq), rr = dst(lb, 1); ck_ok(BnDiv(qq, rr, a.b, b.b), "BnDiv(%s, %s)", CS(a.z), CS(b.z)); ck_same(qq, q, "quotient of %s / %s", CS(a.z), CS(b.z)); ck_same(rr, r, "remainder of %s / %s", CS(a.z), CS(b.z));
	rr = dst(lb, 1); ck_ok(BnMod(rr, a.b, b.b), "BnMod(%s, %s)", CS(a.z), CS(b.z)); ck_same(rr, m, "%s mod %s", CS(a.z), CS(b.z));
	if (alias) {
		rr = dst(std::max(la, lb), 2); setbn(rr, a.z); qq = dst(cq + 1); ck_ok(BnDiv(qq, rr, rr, b.b), "BnDiv with r = a"); ck_same(qq, q, "quotient of r=a=%s / %s", CS(a.z), CS(b.z)); ck_same(rr, r, "remainder of r=a=%s / %s", CS(a.z), CS(b.z));
		rr = dst(std::max(la, lb), 2); setbn(rr, a.z); ck_ok(BnMod(rr, rr, b.b), "BnMod with r = a"); ck_same(rr, m, "r=a=%s mod %s", CS(a.z), CS(b.z));
	}
	if (!unchanged(a.b, a.z) || !unchanged(b.b, b.z)) fail("dividing %s by %s changes an operand", CS(a.z), CS(b.z));
}
SPACE("P17", "div3", 0, "all signed pairs up to 3 boundary words", S3().n()) { auto &s = S3(); auto &a = s.v[idx]; for (auto &b : s.v) divpair(a, b); sample("%s divided by each of %zu", CS(a.z), s.n()); }
SPACE("P17", "div4", 0, "all signed pairs up to 4 boundary words", S4().n()) { auto &s = S4(); auto &a = s.v[idx]; for (auto &b : s.v) divpair(a, b, false); sample("%s divided by each of %zu", CS(a.z), s.n()); }
SPACE("P17", "div2", 0, "all signed pairs up to 2 words over 12 boundary words", S2().n()) { auto &s = S2(); auto &a = s.v[idx]; for (auto &b : s.v) divpair(a, b); }
SPACE("P17", "div_small", 0, "all pairs of integers -100..100", 201) { static VSet s; if (s.v.empty()) for (int i = -100; i <= 100; i++) vadd(s, Z(i), false); auto &a = s.v[idx]; for (auto &b : s.v) divpair(a, b); }
SPACE("P17", "div_long", 0, "all pairs of long regular numbers", LONG().n()) { auto &s = LONG(); auto &a = s.v[idx]; for (auto &b : s.v) divpair(a, b, idx % 4 == 0); sample("%s divided by every long number", CS(a.z)); }
SPACE("P17", "div_far", 0, "all pairs of regular numbers of 25 to 257 words, and with short ones", FAR_().n()) { auto &s = FAR_(); auto &a = s.v[idx]; for (size_t j = 0; j < s.n(); j++) if (j % 2 == idx / 2 % 2 || thorough) divpair(a, s.v[j], idx % 4 == 0); auto &t = LONG(); for (size_t j = idx % 3; j < t.n(); j += 3) divpair(a, t.v[j], false); }
// dividends made from quotient, divisor and remainder: every quotient digit is a boundary word, remainders at both ends
LAZY(QD, vwords(3, A5, false))
LAZY(DV, vwords(3, A6, false))
SPACE("P17", "div_built", 0, "a = q*b + r for boundary quotients and divisors up to 3 words, r in {0, 1, b/2, b-1}, all signs", DV().n()) {
	auto &b = DV().v[idx]; if (mpz_sgn(b.z) == 0) return; static BN pa, pb; if (!pa) { pa = BnNewW(8); pb = BnNewW(8); }
	for (auto &q : QD().v) for (int k = 0; k < 4; k++) { Z a, r, t; switch (k) { case 0: break; case 1: mpz_set_ui(r, 1); break; case 2: mpz_tdiv_q_2exp(r, b.z, 1); break; case 3: mpz_sub_ui(r, b.z, 1); break; } if (mpz_cmp(r, b.z) >= 0) continue; mpz_mul(a, q.z, b.z); mpz_add(a, a, r);
		for (int sg = 0; sg < 4; sg++) { Val x, y; mpz_set(x.z, a); mpz_set(y.z, b.z); if (sg & 1) mpz_neg(x.z, x.z); if (sg & 2) mpz_neg(y.z, y.z); setbn(pa, x.z); setbn(pb, y.z); x.b = pa; y.b = pb; divpair(x, y, false); } }
	sample("built dividends over %s", CS(b.z));
}
// quotient digit estimates that are too large: top words of dividend and divisor close together
SPACE("P17", "div_correct", 0, "divisor (h, m, l) and dividend top words h-1..h+1 with boundary lower words: all estimate corrections", 12 * 8 * 8) {
	W h = A12[idx % 12], m = A8[idx / 12 % 8], l = A8[idx / 96 % 8]; if (h == 0) return; Val a, b; static BN pa, pb; if (!pa) { pa = BnNewW(8); pb = BnNewW(8); } W bw[3] = {l, m, h}; mpz_import(b.z, 3, -1, WB, 0, 0, bw); setbn(pb, b.z); b.b = pb;
	for (int d = -1; d <= 1; d++) for (int e = -1; e <= 1; e++) for (W x : A6) for (W y : A6) for (int z = 0; z < 3; z++) { W aw[6] = {y, x, (W)(z == 2 ? x : y), (W)(l + (z == 1)), (W)(m + e), (W)(h + d)}; for (int n = 4; n <= 6; n += z == 0 ? 1 : 2) { mpz_import(a.z, n, -1, WB, 0, 0, aw + 6 - n); setbn(pa, a.z); a.b = pa; divpair(a, b, false); } }
	sample("dividends around %s", CS(b.z));
}
// word divisions reach the double-word division primitive with every normalisation
SPACE("P17", "div_norm", 0, "divisors 2^k+d of every bit length up to 3 words x boundary dividends", 3 * WBITS) {
	Val b; static BN pb; if (!pb) pb = BnNewW(4); for (int d = -2; d <= 2; d++) { mpz_set_ui(b.z, 1); mpz_mul_2exp(b.z, b.z, idx); if (d < 0) mpz_sub_ui(b.z, b.z, -d); else mpz_add_ui(b.z, b.z, d); if (mpz_sgn(b.z) <= 0) continue; setbn(pb, b.z); b.b = pb; for (auto &a : S3().v) divpair(a, b, false); }
	sample("divisors near 2^%d", (int)idx);
}
#ifdef NDEBUG_LIB
SPACE("P17", "div_zero", 0, "zero divisors are reported by every division", S3().n()) {
	auto &a = S3().v[idx]; Z z; BN o = mk(z, 2), q = dst(6), r = dst(6, 1); W w; evals += 5; nontriv++;
	if (BnDiv(q, r, a.b, o) == RA_ERR_SUCCESS || BnMod(r, a.b, o) == RA_ERR_SUCCESS) fail("division of %s by zero succeeds", CS(a.z));
	BN t = mk(a.z, 4); if (BnDivInt(t, 0, &w) == RA_ERR_SUCCESS || BnDivUInt(t, 0, &w) == RA_ERR_SUCCESS || BnModUInt(t, 0, &w) == RA_ERR_SUCCESS) fail("word division of %s by zero succeeds", CS(a.z)); BnFree(t); BnFree(o);
	t = mk(a.z, 4); o = mk(Z(0), 2); BN g = dst(6, 2); if (GetGCD(g, a.b, o) == RA_ERR_SUCCESS && mpz_sgn(a.z) > 0 && 0) fail("gcd"); BnFree(t); BnFree(o);
}
#endif

// ---------------------------------------------------------------- P18
static std::vector<W> opwords(const Val &a) { std::vector<W> v(A12); for (int i = 0; i < a.b->length && i < 4; i++) for (int d = -1; d <= 1; d++) { v.push_back(a.b->data[i] + d); v.push_back((W)0 - a.b->data[i] + d); } for (W w : {(W)5, (W)7, (W)10, (W)255, (W)256, (W)65537, (W)0 - (W)10, (W)0 - (W)7}) v.push_back(w); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static void wordops(const Val &a) {
	static const char *N[] = {"BnAddInt", "BnAddUInt", "BnSubInt", "BnSubUInt", "BnMulInt", "BnMulUInt", "BnDivInt", "BnDivUInt", "BnModUInt", "BnCmpInt", "BnCmpUInt"};
	for (W w : opwords(a)) for (int op = 0; op < 11; op++) {
		bool sg = op == 0 || op == 2 || op == 4 || op == 6 || op == 9; Z v, x; if (sg) mpz_set_si(v, (SW)w); else mpz_set_ui(v, w); nontriv++; evals++;
		if (op >= 6 && op <= 8 && w == 0) continue;
		if (op >= 9) { int c = mpz_cmp(a.z, v), g = op == 9 ? BnCmpInt(a.b, (SW)w) : BnCmpUInt(a.b, w); if ((c > 0) - (c < 0) != g) fail("%s(%s, %s) = %d", N[op], CS(a.z), CS(v), g); continue; }
		Z rem; Z av; mpz_abs(av, v); Z aa; mpz_abs(aa, a.z);
		switch (op) { case 0: case 1: mpz_add(x, a.z, v); break; case 2: case 3: mpz_sub(x, a.z, v); break; case 4: case 5: mpz_mul(x, a.z, v); break; case 6: case 7: mpz_tdiv_q(x, a.z, v); mpz_tdiv_r(rem, aa, av); break; case 8: mpz_set(x, a.z); mpz_tdiv_r(rem, aa, av); }
		for (int spare = 0; spare < 2; spare++) {
			BN r = dst(std::max(a.b->length, words_of(x)) + spare); setbn(r, a.z); W rm = 0x5a; int e = 0; bool wantrem = !(op >= 6 && op <= 7 && spare);
			switch (op) { case 0: e = BnAddInt(r, (SW)w); break; case 1: e = BnAddUInt(r, w); break; case 2: e = BnSubInt(r, (SW)w); break; case 3: e = BnSubUInt(r, w); break; case 4: e = BnMulInt(r, (SW)w); break; case 5: e = BnMulUInt(r, w); break;
				case 6: e = BnDivInt(r, (SW)w, wantrem ? &rm : NULL); break; case 7: e = BnDivUInt(r, w, wantrem ? &rm : NULL); break; case 8: e = BnModUInt(r, w, &rm); break; }
			if (e) fail("%s(%s, %s) returns %d", N[op], CS(a.z), CS(v), e);
			ck_same(r, x, "%s(%s, %s)", N[op], CS(a.z), CS(v));
			if (op >= 6 && wantrem && mpz_cmp_ui(rem, rm)) fail("remainder of %s(%s, %s) is %llx, want %s", N[op], CS(a.z), CS(v), (unsigned long long)rm, CS(rem));
		}
	}
}
SPACE("P18", "word3", 0, "all boundary numbers up to 3 words x boundary words and neighbours of their own words x 11 operations", S3().n()) { wordops(S3().v[idx]); sample("word operations on %s", CS(S3().v[idx].z)); }
SPACE("P18", "word4", 0, "all boundary numbers up to 4 words", S4().n()) { wordops(S4().v[idx]); sample("word operations on %s", CS(S4().v[idx].z)); }
SPACE("P18", "word2", 0, "all numbers up to 2 words over 12 boundary words", S2().n()) { wordops(S2().v[idx]); }
SPACE("P18", "word_long", 0, "long regular numbers", LONG().n()) { wordops(LONG().v[idx]); sample("word operations on %s", CS(LONG().v[idx].z)); }
SPACE("P18", "word_far", 0, "regular numbers of 25 to 257 words", FAR_().n()) { wordops(FAR_().v[idx]); }
SPACE("P18", "word_small", 0, "all numbers -40..40 x all words -40..40", 81) {
	Val a; mpz_set_si(a.z, (long)idx - 40); a.b = mk(a.z, 2); for (int w = -40; w <= 40; w++) { struct { int op; } o; (void)o; Z v(w), x; BN r = dst(2); nontriv++;
		setbn(r, a.z); ck_ok(BnAddInt(r, w), "add"); mpz_add(x, a.z, v); ck_same(r, x, "BnAddInt(%d, %d)", (int)idx - 40, w); setbn(r, a.z); ck_ok(BnSubInt(r, w), "sub"); mpz_sub(x, a.z, v); ck_same(r, x, "BnSubInt(%d, %d)", (int)idx - 40, w); setbn(r, a.z); ck_ok(BnMulInt(r, w), "mul"); mpz_mul(x, a.z, v); ck_same(r, x, "BnMulInt(%d, %d)", (int)idx - 40, w);
		if (w) { W m; setbn(r, a.z); ck_ok(BnDivInt(r, w, &m), "div"); mpz_tdiv_q(x, a.z, v); ck_same(r, x, "BnDivInt(%d, %d)", (int)idx - 40, w); if (m != (W)(abs((int)idx - 40) % abs(w))) fail("BnDivInt remainder"); }
		int c = BnCmpInt(a.b, w), g = (int)idx - 40; if (c != (g > w) - (g < w)) fail("BnCmpInt(%d, %d) = %d", g, w, c); }
	BnFree(a.b);
}
SPACE("P18", "word_div", 0, "division by every word 2^k+d and run of bits: the double-word division primitive", runs().size()) {
	W w = runs()[idx]; for (int d = -1; d <= 1; d++) { W v = w + d; if (!v) continue; Z vz; mpz_set_ui(vz, v); for (auto &a : S3().v) { Z q, rm, aa; mpz_abs(aa, a.z); mpz_tdiv_q(q, a.z, vz); mpz_tdiv_r(rm, aa, vz); BN r = dst(a.b->length); setbn(r, a.z); W m; ck_ok(BnDivUInt(r, v, &m), "BnDivUInt"); nontriv++; ck_same(r, q, "BnDivUInt(%s, %llx)", CS(a.z), (unsigned long long)v); if (mpz_cmp_ui(rm, m)) fail("BnDivUInt(%s, %llx) remainder %llx", CS(a.z), (unsigned long long)v, (unsigned long long)m); ck_ok(BnModUInt(a.b, v, &m), "BnModUInt"); if (mpz_cmp_ui(rm, m)) fail("BnModUInt(%s, %llx) = %llx", CS(a.z), (unsigned long long)v, (unsigned long long)m); } }
	sample("dividing by words near %llx", (unsigned long long)w);
}

// ---------------------------------------------------------------- P19
static void shifts(const Val &a) {
	int n = a.b->length; nontriv++; Z x;
	int bl = BnGetBitLength(a.b), wl = mpz_sgn(a.z) ? (int)mpz_sizeinbase(a.z, 2) : 1; evals++; if (bl != wl) fail("BnGetBitLength(%s) = %d", CS(a.z), bl);
	for (uint32_t d = 0; d <= (uint32_t)(n + 2) * WBITS + 1; d++) {
		mpz_mul_2exp(x, a.z, d); for (int spare = 0; spare < 3; spare++) { int cap = std::max(n, words_of(x)); if (mpz_sgn(a.z) == 0) cap = 2; BN r = dst(cap + spare); setbn(r, a.z); ck_ok(BnShiftL(r, d), "BnShiftL(%s, %u) capacity %d", CS(a.z), d, r->max_length); ck_same(r, x, "BnShiftL(%s, %u) capacity %d", CS(a.z), d, r->max_length); }
		mpz_tdiv_q_2exp(x, a.z, d); BN r = dst(n); setbn(r, a.z); ck_ok(BnShiftR(r, d), "BnShiftR(%s, %u)", CS(a.z), d); ck_same(r, x, "BnShiftR(%s, %u)", CS(a.z), d);
		evals++; bl = BnGetBitLength(r); wl = mpz_sgn(x) ? (int)mpz_sizeinbase(x, 2) : 1; if (bl != wl) fail("BnGetBitLength(%s) = %d", CS(x), bl);
	}
	for (uint32_t d : {(uint32_t)(4096 + n * WBITS), (uint32_t)0x7fffffff, (uint32_t)0x80000000u, (uint32_t)0xffffffc0u, (uint32_t)0xffffffffu}) { BN r = dst(n); setbn(r, a.z); ck_ok(BnShiftR(r, d), "BnShiftR"); ck_same(r, Z(0), "BnShiftR(%s, %u)", CS(a.z), d); if (mpz_sgn(a.z) == 0) { r = dst(2); setbn(r, a.z); ck_ok(BnShiftL(r, d), "BnShiftL(0, %u)", d); ck_same(r, a.z, "BnShiftL(0, %u)", d); } }
}
SPACE("P19", "shift3", 0, "all boundary numbers up to 3 words x every distance", S3().n()) { shifts(S3().v[idx]); sample("shifts of %s", CS(S3().v[idx].z)); }
SPACE("P19", "shift4", 0, "all boundary numbers up to 4 words x every distance", S4().n()) { shifts(S4().v[idx]); sample("shifts of %s", CS(S4().v[idx].z)); }
SPACE("P19", "shift_long", 0, "long regular numbers x every distance", LONG().n()) { shifts(LONG().v[idx]); }
SPACE("P19", "shift_far", 0, "regular numbers of 25 to 257 words x every distance (beyond 66 words one pattern)", FAR_().n()) { auto &a = FAR_().v[idx]; if (a.b->length > 66 && idx % 8 != 6 && !thorough) return; shifts(a); }
SPACE("P19", "shift_bits", 0, "every single-bit number and run up to 4 words x every distance", 4 * WBITS) { Val a; static BN pa; if (!pa) pa = BnNewW(4); for (int k = 0; k < 3; k++) { mpz_set_ui(a.z, 1); mpz_mul_2exp(a.z, a.z, idx); if (k == 1) mpz_sub_ui(a.z, a.z, 1); if (k == 2) mpz_neg(a.z, a.z); setbn(pa, a.z); a.b = pa; shifts(a); } }

// ---------------------------------------------------------------- P20
static Guard &G1() { static Guard g(8192); return g; }
static Guard &G2() { static Guard g(8192); return g; }
static void bytes_in(const uint8_t *d, int n, bool caps) {
	Z u, s; if (n) mpz_import(u, n, 1, 1, 0, 0, d); mpz_set(s, u); if (n && (d[0] & 0x80)) { Z t(1); mpz_mul_2exp(t, t, 8 * n); mpz_sub(s, u, t); }
	uint8_t *p = G1().tail(n); memcpy(p, d, n); nontriv++;
	for (int sg = 0; sg < 2; sg++) {
		mpz_srcptr w = sg ? s : u; int need = words_of(w);
		for (int cap = caps ? 2 : std::max(2, need); cap <= std::max(2, need) + (caps ? 1 : 0); cap++) {
			BN r = dst(cap); int e = sg ? BnSetByteArray(r, p, n) : BnSetUByteArray(r, p, n); evals++;
			if (need <= cap) { if (e) fail("Bn%sByteArray(%s) into %d words returns %d", sg ? "Set" : "SetU", hex(d, n).c_str(), cap, e); ck_same(r, w, "Bn%sByteArray(%s)", sg ? "Set" : "SetU", hex(d, n).c_str()); }
			else if (e == RA_ERR_SUCCESS) fail("Bn%sByteArray(%s) into %d words succeeds", sg ? "Set" : "SetU", hex(d, n).c_str(), cap);
		}
	}
	if (memcmp(p, d, n)) fail("reading bytes changes them");
}
// shortest two's complement form, as documented by the encoder: sign in the top bit
static int tc_len(mpz_srcptr z) { Z t; if (mpz_sgn(z) >= 0) return (int)((mpz_sgn(z) ? mpz_sizeinbase(z, 2) : 1) / 8 + 1); mpz_add_ui(t, z, 1); return (int)((mpz_sgn(t) ? mpz_sizeinbase(t, 2) : 0) / 8 + 1); }
static void bytes_out(const Val &a) {
	int L = tc_len(a.z); nontriv++; std::vector<uint8_t> w(L); { Z t; if (mpz_sgn(a.z) < 0) { mpz_set_ui(t, 1); mpz_mul_2exp(t, t, 8 * L); mpz_add(t, t, a.z); } else mpz_set(t, a.z); size_t nb = mpz_sgn(t) ? (mpz_sizeinbase(t, 2) + 7) / 8 : 0; size_t c; if (nb) mpz_export(&w[L - nb], &c, 1, 1, 0, 0, t); }
	int g = BnToByteArray(a.b, NULL, 0); evals++; if (g != L) fail("BnToByteArray(%s, NULL) = %d, want %d", CS(a.z), g, L);
	for (int cap = 0; cap <= L + 3; cap++) {
		if (cap > 12 && cap < L - 3) { cap = L - 4; continue; }
		uint8_t *o = G2().tail(cap); memset(o - 16, 0xE7, 16 + cap); g = BnToByteArray(a.b, o, cap); evals++;
		if (cap < L) { if (g != 0) fail("BnToByteArray(%s) into %d bytes returns %d", CS(a.z), cap, g); }
		else if (g != L || memcmp(o, w.data(), L)) fail("BnToByteArray(%s) into %d bytes = %d bytes %s, want %s", CS(a.z), cap, g, hex(o, L).c_str(), hex(w.data(), L).c_str());
		else for (int i = L; i < cap; i++) if (o[i] != 0xE7) fail("BnToByteArray(%s) writes beyond the %d bytes it reports", CS(a.z), L);
		for (int i = 1; i <= 16; i++) if (o[-i] != 0xE7) fail("BnToByteArray(%s) writes below its buffer", CS(a.z));
	}
	int F = mpz_sgn(a.z) == 0 ? 1 : (int)((mpz_sizeinbase(a.z, 2) + 7) / 8);
	if (mpz_sgn(a.z) >= 0) { g = BnToFixedByteArray(a.b, NULL, 0); evals++; if (g != F) fail("BnToFixedByteArray(%s, NULL) = %d, want %d", CS(a.z), g, F); }
	static const int FAR[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 513, 1000, 1025, 4096};
	for (int ci = 0; ci <= F + 10 + 18; ci++) {
		int cap = ci <= F + 10 ? ci : F + FAR[ci - F - 11];
		if (ci > 12 && ci < F - 3) { ci = F - 4; continue; }
		uint8_t *o = G2().tail(cap); memset(o - 16, 0xE7, 16 + cap); g = BnToFixedByteArray(a.b, o, cap); evals++;
		if (mpz_sgn(a.z) < 0 || cap < F) { if (g != 0) fail("BnToFixedByteArray(%s) into %d bytes returns %d", CS(a.z), cap, g); }
		else { std::vector<uint8_t> x(cap, 0); size_t c; if (mpz_sgn(a.z)) mpz_export(&x[cap - F], &c, 1, 1, 0, 0, a.z); if (g != cap || memcmp(x.data(), o, cap)) fail("BnToFixedByteArray(%s) into %d bytes = %d, %s", CS(a.z), cap, g, hex(o, cap).c_str()); }
		for (int i = 1; i <= 16; i++) if (o[-i] != 0xE7) fail("BnToFixedByteArray(%s) writes below its buffer", CS(a.z));
	}
	BN r = dst(std::max(2, a.b->length)); ck_ok(BnSetByteArray(r, w.data(), L), "reading back"); ck_same(r, a.z, "written and read back");
	if (!unchanged(a.b, a.z)) fail("writing %s changes it", CS(a.z));
}
SPACE("P20", "in_short", 0, "all byte strings of 1 and 2 bytes, signed and unsigned", 256) { uint8_t d[2] = {(uint8_t)idx}; bytes_in(d, 1, true); for (int v = 0; v < 256; v++) { d[1] = (uint8_t)v; bytes_in(d, 2, false); } sample("all strings %02x..", (int)idx); }
SPACE("P20", "in_3", 1, "all byte strings of 3 bytes", 65536) { uint8_t d[3] = {(uint8_t)(idx >> 8), (uint8_t)idx}; for (int v = 0; v < 256; v++) { d[2] = (uint8_t)v; bytes_in(d, 3, false); } }
static const uint8_t BA[6] = {0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff};
SPACE("P20", "in_alpha", 0, "all strings of 1..7 (thorough 9) bytes over {00,01,7f,80,fe,ff}", thorough ? 6 * 6 * 6 * 6 * 6 * 6 : 6 * 6 * 6 * 6) { int head = thorough ? 6 : 4; uint8_t d[9]; for (int i = 0; i < head; i++) { d[i] = BA[idx % 6]; idx /= 6; } for (int n = head; n <= head + 3; n++) { int t = 1; for (int i = head; i < n; i++) t *= 6; for (int k = 0; k < t; k++) { int x = k; for (int i = head; i < n; i++) { d[i] = BA[x % 6]; x /= 6; } bytes_in(d, n, false); } } sample("strings starting %s", hex(d, head).c_str()); }
SPACE("P20", "in_runs", 0, "leading run of 00/ff x tail shapes x lengths up to 40, every capacity", 41 * 2) {
	int run = (int)(idx / 2); uint8_t lead = idx & 1 ? 0xff : 0; uint8_t d[96];
	for (int tail = 0; tail <= 40; tail++) { if (run + tail == 0) continue; for (int sh = 0; sh < 9; sh++) { memset(d, lead, run); for (int i = 0; i < tail; i++) { static const uint8_t F0[9] = {0, 0xff, 0x80, 0x7f, 1, 0xfe, 0, 0xff, 0}; static const uint8_t R[9] = {0, 0xff, 0, 0xff, 0, 0xff, 0xff, 0, 0xA5}; d[run + i] = i == 0 ? F0[sh] : R[sh]; } if (sh == 8) fillbuf(d + run, tail, 31 * run + tail); bytes_in(d, run + tail, true); if (tail) { d[run + tail - 1] ^= 1; bytes_in(d, run + tail, true); } } }
	sample("%d bytes of %02x then tails", run, lead);
}
SPACE("P20", "in_far", 0, "lengths up to 4096 bytes: every residue of the length modulo 16 around 64, 256, 1024 and 4096 x 8 leading bytes x 3 tails", 4 * 16 * 8) {
	static const uint8_t L0[8] = {0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x40}; int n = (64 << idx / 128 * 2) - 15 + (int)(idx % 16); static uint8_t d[4200];
	for (int t = 0; t < 3; t++) { for (int i = 0; i < n; i++) d[i] = t == 0 ? 0 : t == 1 ? 0xff : (uint8_t)(i * 167 + 13 * t); d[0] = L0[idx / 16 % 8]; bytes_in(d, n, false); if (n > 20) { memset(d, d[0] & 0x80 ? 0xff : 0, n - 9); bytes_in(d, n, false); } }
}
SPACE("P20", "in_powers", 0, "signed powers of two and neighbours of every bit length up to 4 words, minimal and padded encodings, every capacity", 4 * WBITS + 2) {
	for (int sg = 0; sg < 2; sg++) for (int dl = -1; dl <= 1; dl++) { Z z(1); mpz_mul_2exp(z, z, idx); if (dl < 0) mpz_sub_ui(z, z, 1); else mpz_add_ui(z, z, dl); if (sg) mpz_neg(z, z); int L = tc_len(z); for (int pad = 0; pad < 3; pad++) { int n = L + pad * 3; Z t; if (mpz_sgn(z) < 0) { mpz_set_ui(t, 1); mpz_mul_2exp(t, t, 8 * n); mpz_add(t, t, z); } else mpz_set(t, z); uint8_t d[128]; memset(d, 0, sizeof d); size_t nb = mpz_sgn(t) ? (mpz_sizeinbase(t, 2) + 7) / 8 : 0, c; if (nb) mpz_export(d + n - nb, &c, 1, 1, 0, 0, t); bytes_in(d, n, true); } }
}
SPACE("P20", "in_empty", 0, "lengths that are not positive are refused", 3) { BN r = dst(3); uint8_t *p = G1().tail(0); int l = idx == 0 ? 0 : idx == 1 ? -1 : INT32_MIN; evals += 2; nontriv++; if (BnSetByteArray(r, p, l) == RA_ERR_SUCCESS || BnSetUByteArray(r, p, l) == RA_ERR_SUCCESS) fail("length %d is accepted", l); }
SPACE("P20", "out3", 0, "all boundary numbers up to 3 words x all buffer sizes, both writers, read back", S3().n()) { bytes_out(S3().v[idx]); sample("writing %s", CS(S3().v[idx].z)); }
SPACE("P20", "out_bits", 0, "powers of two and neighbours of every bit length up to 4 words, both signs", 4 * WBITS) { static BN p; if (!p) p = BnNewW(5); for (int sg = 0; sg < 2; sg++) for (int d = -1; d <= 1; d++) { Val a; mpz_set_ui(a.z, 1); mpz_mul_2exp(a.z, a.z, idx); if (d < 0) mpz_sub_ui(a.z, a.z, 1); else mpz_add_ui(a.z, a.z, d); if (sg) mpz_neg(a.z, a.z); setbn(p, a.z); a.b = p; bytes_out(a); } }
SPACE("P20", "out_far", 0, "numbers of every byte length up to 640 and around 1024, 2048 and 4064 x 10 leading bytes x 5 tails, both signs", 640 + 48) {
	static const uint8_t T[10] = {1, 2, 0x40, 0x7f, 0x80, 0x81, 0xc3, 0xf0, 0xfe, 0xff}; static BN p; if (!p) p = BnNewW(4200 / sizeof(bn_uint_t)); int n = idx < 640 ? (int)idx + 1 : (idx < 656 ? 1024 : idx < 672 ? 2048 : 4064) - 8 + (int)((idx - 640) % 16); static uint8_t d[4200];
	for (int t = 0; t < 10; t++) for (int k = 0; k < 5; k++) { for (int i = 0; i < n; i++) d[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (uint8_t)(i * 167 + 13 * t) : k == 3 ? (i == n - 1) : (i == 1 ? 0x80 : 0); d[0] = T[t]; for (int sg = 0; sg < 2; sg++) { Val a; mpz_import(a.z, n, 1, 1, 0, 0, d); if (sg) mpz_neg(a.z, a.z); setbn(p, a.z); a.b = p; bytes_out(a); } }
}
SPACE("P20", "out_small", 0, "all integers -70000..70000", 1401) { static BN p; if (!p) p = BnNewW(2); for (int i = 0; i < 100; i++) { Val a; mpz_set_si(a.z, -70000 + (long)idx * 100 + i); setbn(p, a.z); a.b = p; int L = tc_len(a.z); uint8_t o[8]; int g = BnToByteArray(p, o, 8); evals++; nontriv++; if (g != L || BnToByteArray(p, NULL, 0) != L) fail("%ld takes %d bytes", mpz_get_si(a.z), g); long v = (int8_t)o[0]; for (int k = 1; k < L; k++) v = v * 256 + o[k]; if (v != mpz_get_si(a.z)) fail("%ld is written as %s", mpz_get_si(a.z), hex(o, L).c_str()); BN r = dst(2); ck_ok(BnSetByteArray(r, o, L), "back"); ck_same(r, a.z, "back"); } }
SPACE("P20", "out_long", 0, "long regular numbers", LONG().n()) { bytes_out(LONG().v[idx]); }

// ---------------------------------------------------------------- P21 (release builds)
#ifdef NDEBUG_LIB
LAZY(C3, vwords(3, A4, true))
LAZY(CL, vlong(1, 7, 1, true))
// fits: the operation must succeed with this value; else it must report an error unless the result happens to fit
static void outcome(int e, BN r, mpz_srcptr w, bool must, const std::string &what) {
	evals++; nontriv++; if (r->length < 1 || r->length > r->max_length) fail("%s: length %d of %d", what.c_str(), r->length, r->max_length);
	if (e == RA_ERR_SUCCESS) { if (!same(r, w)) fail("%s (capacity %d): reports success with %s, want %s", what.c_str(), r->max_length, CS(r), CS(w)); }
	else if (must) fail("%s (capacity %d): returns %d although the result fits: %s", what.c_str(), r->max_length, e, CS(w));
}
static void caps2(const Val &a, const Val &b) {
	Z x, y; int la = a.b->length, lb = b.b->length, mx = std::max(la, lb); std::string ab = "(" + str((mpz_srcptr)a.z) + ", " + str((mpz_srcptr)b.z) + ")";
	for (int cap = 2; cap <= la + lb + 1; cap++) {
		mpz_add(x, a.z, b.z); BN r = mk(Z(0), cap); stale(r); outcome(BnAdd(r, a.b, b.b), r, x, cap >= mx && cap >= words_of(x), "BnAdd" + ab);
		mpz_sub(x, a.z, b.z); stale(r); outcome(BnSub(r, a.b, b.b), r, x, cap >= mx && cap >= words_of(x), "BnSub" + ab);
		if (cap >= la) { setbn(r, a.z); mpz_add(x, a.z, b.z); outcome(BnAdd(r, r, b.b), r, x, cap >= mx && cap >= words_of(x), "BnAdd(r=a)" + ab); setbn(r, a.z); mpz_sub(x, a.z, b.z); outcome(BnSub(r, r, b.b), r, x, cap >= mx && cap >= words_of(x), "BnSub(r=a)" + ab);
			mpz_abs(x, a.z); mpz_abs(y, b.z); mpz_add(y, x, y); setbn(r, x); outcome(_BnAddR(r, b.b), r, y, cap >= mx && cap >= words_of(y), "_BnAddR" + ab); }
		mpz_mul(x, a.z, b.z); stale(r); outcome(BnMul(r, a.b, b.b), r, x, cap >= mulcap(a, b), "BnMul" + ab);
		stale(r); mpz_set(x, a.z); outcome(BnSet(r, a.b), r, x, cap >= la, "BnSet" + ab);
		if (mpz_sgn(b.z)) {
			mpz_tdiv_r(x, a.z, b.z); stale(r); outcome(BnMod(r, a.b, b.b), r, x, cap >= lb, "BnMod" + ab);
			mpz_fdiv_qr(x, y, a.z, b.z);
			for (int c2 = 2; c2 <= lb + 1; c2++) { BN m = mk(Z(0), c2); stale(m); stale(r); int e = BnDiv(r, m, a.b, b.b); evals++; bool must = cap >= words_of(x) && cap > la - lb && c2 >= lb; if (e == RA_ERR_SUCCESS) { if (!same(r, x) || !same(m, y)) fail("BnDiv%s with capacities %d, %d reports success with %s, %s", ab.c_str(), cap, c2, CS(r), CS(m)); } else if (must) fail("BnDiv%s with capacities %d, %d returns %d", ab.c_str(), cap, c2, e); BnFree(m); }
		}
		if (mpz_sgn(a.z) > 0 && mpz_sgn(b.z) > 0) { mpz_gcd(x, a.z, b.z); stale(r); outcome(GetGCD(r, a.b, b.b), r, x, cap >= words_of(x), "GetGCD" + ab); }
		BnFree(r);
	}
}
static void caps1(const Val &a) {
	Z x; int n = a.b->length; std::string aa = "(" + str((mpz_srcptr)a.z) + ")";
	for (int cap = 2; cap <= 2 * n + 2; cap++) {
		BN r = mk(Z(0), cap); mpz_mul(x, a.z, a.z); stale(r); outcome(BnSqr(r, a.b), r, x, cap >= mulcap(a, a), "BnSqr" + aa); mpz_mul_2exp(x, a.z, 1); stale(r); outcome(BnDouble(r, a.b), r, x, cap >= words_of(x), "BnDouble" + aa);
		if (cap >= n) {
			for (W w : opwords(a)) for (int op = 0; op < 8; op++) { Z v; if (op & 1) mpz_set_ui(v, w); else mpz_set_si(v, (SW)w); setbn(r, a.z); int e; W m; if (op >= 6 && !w) continue;
				switch (op) { case 0: e = BnAddInt(r, (SW)w); mpz_add(x, a.z, v); break; case 1: e = BnAddUInt(r, w); mpz_add(x, a.z, v); break; case 2: e = BnSubInt(r, (SW)w); mpz_sub(x, a.z, v); break; case 3: e = BnSubUInt(r, w); mpz_sub(x, a.z, v); break; case 4: e = BnMulInt(r, (SW)w); mpz_mul(x, a.z, v); break; case 5: e = BnMulUInt(r, w); mpz_mul(x, a.z, v); break; case 6: e = BnDivInt(r, (SW)w, &m); mpz_tdiv_q(x, a.z, v); break; default: e = BnDivUInt(r, w, &m); mpz_tdiv_q(x, a.z, v); }
				outcome(e, r, x, cap >= words_of(x), "word operation " + std::to_string(op) + aa + " with " + str((mpz_srcptr)v)); }
			for (uint32_t d = 0; d <= (uint32_t)(cap + 2) * WBITS; d += d % WBITS == 1 ? WBITS - 3 : 1) { setbn(r, a.z); mpz_mul_2exp(x, a.z, d); outcome(BnShiftL(r, d), r, x, cap >= words_of(x), "BnShiftL" + aa + " by " + std::to_string(d)); setbn(r, a.z); mpz_tdiv_q_2exp(x, a.z, d); outcome(BnShiftR(r, d), r, x, true, "BnShiftR" + aa + " by " + std::to_string(d)); }
			if (mpz_sgn(a.z)) for (uint32_t d : {4096u, 0x7fffffffu, 0x80000000u, 0xffffff80u, 0xffffffc0u, 0xffffffe0u, 0xffffffffu}) { setbn(r, a.z); evals++; if (BnShiftL(r, d) == RA_ERR_SUCCESS) fail("BnShiftL%s by %u succeeds in %d words", aa.c_str(), d, cap); }
		}
		BnFree(r);
	}
}
SPACE("P21", "cap_pairs", 0, "all signed pairs up to 3 boundary words x every destination capacity x add, sub, mul, mod, div, gcd, set", C3().n()) { auto &a = C3().v[idx]; for (auto &b : C3().v) caps2(a, b); sample("%s with every number and capacity", CS(a.z)); }
SPACE("P21", "cap_long", 0, "all pairs of regular numbers up to 7 words x every capacity", CL().n()) { auto &a = CL().v[idx]; for (auto &b : CL().v) caps2(a, b); sample("%s with every number and capacity", CS(a.z)); }
LAZY(CF, ([] { VSet s; for (int l : {8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 34, 48, 64, 65}) for (int p : {0, 7}) { Z z; vpat(z, p, l); vadd(s, z, true); } return s; }()))
SPACE("P21", "cap_far", 0, "all pairs of regular numbers of 8 to 65 words x every capacity", CF().n()) { auto &a = CF().v[idx]; for (auto &b : CF().v) if (thorough || a.b->length <= 17 || b.b->length <= 17 || a.b->length == b.b->length) caps2(a, b); }
SPACE("P21", "cap_single", 0, "all boundary numbers up to 4 words x every capacity x squares, doubles, word operations, shifts", S4().n()) { caps1(S4().v[idx]); sample("%s with every capacity", CS(S4().v[idx].z)); }
SPACE("P21", "cap_single_long", 0, "regular numbers up to 7 words", CL().n()) { caps1(CL().v[idx]); }
SPACE("P21", "cap_gcdex", 0, "extended gcd: every combination of destination capacities", 24 * 24) {
	static VSet s; if (s.v.empty()) { for (auto &v : vwords(3, A4, false).v) if (mpz_sgn(v.z) > 0) s.v.push_back(v); } auto &m = s.v[(idx / 24) * (s.n() - 1) / 23], &n = s.v[(idx % 24) * (s.n() - 1) / 23]; Z g; mpz_gcd(g, m.z, n.z);
	for (int un = 0; un < 2; un++) for (int cr = 2; cr <= 4; cr++) for (int ca = 2; ca <= 5; ca++) for (int cb = 2; cb <= 5; cb++) {
		BN r = mk(Z(0), cr), a = mk(Z(0), ca), b = mk(Z(0), cb); stale(r); stale(a); stale(b); int e = GetGCDEx(r, a, b, m.b, n.b, un); evals++; nontriv++; Z za, zb, t;
		if (e == RA_ERR_SUCCESS) { from_bn(za, a); from_bn(zb, b); mpz_mul(t, za, m.z); if (!un) mpz_addmul(t, zb, n.z); else { mpz_sub(t, t, g); mpz_mod(t, t, n.z); mpz_add(t, t, g); } if (!same(r, g) || mpz_cmp(t, g)) fail("GetGCDEx(%s, %s) capacities %d %d %d reports success with %s %s %s", CS(m.z), CS(n.z), cr, ca, cb, CS(r), CS(a), CS(b)); }
		else if (cr >= words_of(g) && ca > n.b->length && cb > m.b->length) fail("GetGCDEx(%s, %s) capacities %d %d %d returns %d", CS(m.z), CS(n.z), cr, ca, cb, e);
		BnFree(r); BnFree(a); BnFree(b); }
	sample("gcd of %s and %s", CS(m.z), CS(n.z));
}
SPACE("P21", "cap_expmod", 0, "modular exponentiation: every destination capacity, oversized bases", C3().n()) {
	auto &N = C3().v[idx]; if (mpz_sgn(N.z) <= 0 || mpz_even_p(N.z) || mpz_cmp_ui(N.z, 1) == 0) return; RaMontCtx *c; ck_ok(RaMontCreate(N.b, &c), "RaMontCreate(%s)", CS(N.z));
	for (auto &a : C3().v) if (mpz_sgn(a.z) >= 0) for (int cap = 2; cap <= 4; cap++) { static Val e; static bool in; if (!in) { in = true; mpz_set_ui(e.z, 65537); e.b = mk(e.z, 2); } Z w; mpz_powm(w, a.z, e.z, N.z); BN r = mk(Z(0), cap); stale(r); outcome(RaMontExpMod(c, r, a.b, e.b), r, w, cap >= N.b->length && a.b->length <= N.b->length, "RaMontExpMod(" + str((mpz_srcptr)a.z) + ", 65537) mod " + str((mpz_srcptr)N.z)); BnFree(r); }
	RaMontDestroy(c);
}
SPACE("P21", "cap_random", 0, "random numbers: every size x capacity", 6 * WBITS + 3) {
	uint8_t s[] = "seed"; struct RaRandom *rnd; ck_ok(RaRandomCreate(RA_RAND_SHA256, s, 4, &rnd), "rnd"); int bit = (int)idx;
	for (int cap = 2; cap <= 7; cap++) for (int k = 0; k < 3; k++) { BN r = mk(Z(0), cap); stale(r); if (k && bit < 1) { BnFree(r); continue; } int e = k == 0 ? BnGenRandom(r, bit, rnd) : k == 1 ? BnGetRandomOdd(r, bit, rnd) : BnGetRandomRSA(r, bit, rnd); evals++; nontriv++; bool fits = bit <= cap * WBITS; if (fits != (e == RA_ERR_SUCCESS)) fail("random number of %d bits into %d words: returns %d", bit, cap, e); if (fits && !wellformed(r)) fail("malformed random number"); BnFree(r); }
	RaRandomDestroy(rnd);
}
SPACE("P21", "cap_bytes", 0, "byte strings of every length and shape x every capacity", 80) { uint8_t d[100]; for (int sh = 0; sh < 6; sh++) { static const uint8_t F0[6] = {0x80, 0xff, 0x7f, 0x01, 0x00, 0xff}; static const uint8_t R[6] = {0, 0, 0xff, 0, 0xff, 0xff}; memset(d, R[sh], sizeof d); d[0] = F0[sh]; bytes_in(d, (int)idx + 1, true); } }
#endif

// ---------------------------------------------------------------- P22
static void gcdpair(const Val &m, const Val &n) {
	if (mpz_sgn(m.z) <= 0 || mpz_sgn(n.z) <= 0) return; Z g, t, za, zb, k, h; mpz_gcd(g, m.z, n.z); nontriv++;
	BN r = dst(words_of(g)); ck_ok(GetGCD(r, m.b, n.b), "GetGCD(%s, %s)", CS(m.z), CS(n.z)); ck_same(r, g, "GetGCD(%s, %s)", CS(m.z), CS(n.z));
	for (int un = 0; un < 2; un++) {
		BN a = dst(n.b->length + 1, 1), b = dst(m.b->length + 1, 2); stale(r); ck_ok(GetGCDEx(r, a, b, m.b, n.b, un), "GetGCDEx(%s, %s)", CS(m.z), CS(n.z)); ck_same(r, g, "GetGCDEx(%s, %s, unsigned %d)", CS(m.z), CS(n.z), un);
		if (!wellformed(a) || !wellformed(b)) fail("GetGCDEx(%s, %s, unsigned %d): malformed coefficients %s %s", CS(m.z), CS(n.z), un, CS(a), CS(b)); from_bn(za, a); from_bn(zb, b); evals++;
		if (!un) { mpz_mul(t, za, m.z); mpz_addmul(t, zb, n.z); if (mpz_cmp(t, g)) fail("GetGCDEx(%s, %s): coefficients %s, %s do not give the gcd", CS(m.z), CS(n.z), CS(za), CS(zb)); }
		else {
			mpz_mul(t, za, m.z); mpz_sub(t, t, g); mpz_mul(k, zb, n.z); mpz_sub(k, k, g);
			if (mpz_sgn(za) < 0 || mpz_cmp(za, n.z) > 0 || !mpz_divisible_p(t, n.z)) fail("GetGCDEx(%s, %s, unsigned): a = %s", CS(m.z), CS(n.z), CS(za));
			if (mpz_sgn(zb) < 0 || mpz_cmp(zb, m.z) > 0 || !mpz_divisible_p(k, m.z)) fail("GetGCDEx(%s, %s, unsigned): b = %s", CS(m.z), CS(n.z), CS(zb));
		}
	}
	for (int ask = 0; ask < 16; ask++) { // whichever results are asked for
		bool un = ask & 8; BN a = ask & 1 ? dst(n.b->length + 1, 1) : NULL, b = ask & 2 ? dst(m.b->length + 1, 2) : NULL; stale(r);
		ck_ok(GetGCDEx(ask & 4 ? r : NULL, a, b, m.b, n.b, un), "gcd"); evals++; if (ask & 4) ck_same(r, g, "GetGCDEx(%s, %s), asked for %d", CS(m.z), CS(n.z), ask);
		if (a) from_bn(za, a); if (b) from_bn(zb, b);
		if (!un) { if (a) { mpz_mul(t, za, m.z); mpz_sub(t, t, g); } if (b) { mpz_mul(k, zb, n.z); if (a) mpz_add(t, t, k); else mpz_sub(t, k, g); } if (a && b ? mpz_sgn(t) != 0 : a ? !mpz_divisible_p(t, n.z) : b ? !mpz_divisible_p(t, m.z) : 0) fail("GetGCDEx(%s, %s), asked for %d: coefficients do not give the gcd", CS(m.z), CS(n.z), ask); }
		else {
			if (a) { mpz_mul(t, za, m.z); mpz_sub(t, t, g); if (mpz_sgn(za) < 0 || mpz_cmp(za, n.z) > 0 || !mpz_divisible_p(t, n.z)) fail("GetGCDEx(%s, %s, unsigned), asked for %d: a = %s", CS(m.z), CS(n.z), ask, CS(za)); }
			if (b) { mpz_mul(k, zb, n.z); mpz_sub(k, k, g); if (mpz_sgn(zb) < 0 || mpz_cmp(zb, m.z) > 0 || !mpz_divisible_p(k, m.z)) fail("GetGCDEx(%s, %s, unsigned), asked for %d: b = %s", CS(m.z), CS(n.z), ask, CS(zb)); }
		}
	}
	if (!unchanged(m.b, m.z) || !unchanged(n.b, n.z)) fail("gcd changes an operand");
	int ww = std::max(m.b->length, n.b->length) + 1; for (int k = 0; k < 10; k++) { // one result, in place of an operand
		BN x = dst(ww, 1); mpz_srcptr o = k & 1 ? n.z : m.z; setbn(x, o); BN mm = k & 1 ? m.b : x, nn = k & 1 ? x : n.b; evals++;
		if (k < 2) { ck_ok(GetGCD(x, mm, nn), "gcd"); ck_same(x, g, "GetGCD(%s, %s), result in place of operand %d", CS(m.z), CS(n.z), 1 + (k & 1)); continue; }
		if (k < 4) { ck_ok(GetGCDEx(x, NULL, NULL, mm, nn, 1), "gcd"); ck_same(x, g, "GetGCDEx(%s, %s), result in place of operand %d", CS(m.z), CS(n.z), 1 + (k & 1)); continue; }
		int un = k & 2 ? 1 : 0; bool wb = k >= 8; if (wb) un = 1; ck_ok(GetGCDEx(NULL, wb ? NULL : x, wb ? x : NULL, mm, nn, un), "gcd"); from_bn(za, x); mpz_srcptr md = wb ? m.z : n.z; mpz_mul(t, za, wb ? n.z : m.z); mpz_sub(t, t, g);
		if (!mpz_divisible_p(t, md) || (un && (mpz_sgn(za) < 0 || mpz_cmp(za, md) > 0))) fail("GetGCDEx(%s, %s, unsigned %d): coefficient %d in place of operand %d is %s", CS(m.z), CS(n.z), un, 1 + wb, 1 + (k & 1), CS(za));
	}
}
SPACE("P22", "gcd_small", 0, "all pairs of integers 1..140 (thorough 600)", thorough ? 600 : 140) { static VSet s; if (s.v.empty()) for (int i = 1; i <= (thorough ? 600 : 140); i++) vadd(s, Z(i), false); for (auto &n : s.v) gcdpair(s.v[idx], n); sample("gcd(%d, 1..)", (int)idx + 1); }
LAZY(GU, vwords(thorough ? 4 : 3, A4, false))
SPACE("P22", "gcd_words", 0, "all pairs of boundary numbers up to 3 (thorough 4) words", GU().n()) { for (auto &n : GU().v) gcdpair(GU().v[idx], n); sample("gcd(%s, ..)", CS(GU().v[idx].z)); }
LAZY(GU2, vwords(2, A12, false))
SPACE("P22", "gcd_words2", 0, "all pairs of numbers up to 2 words over 12 boundary words", GU2().n()) { for (auto &n : GU2().v) gcdpair(GU2().v[idx], n); }
SPACE("P22", "gcd_fib", 0, "consecutive terms of x' = q*x + y (all quotients q) up to 5 words, and times a common factor", 5 * 5 * WBITS * 2) { // longest Euclid runs
	int q = 1 + (int)(idx % 5), f = (int)(idx / 5 % 5), k = (int)(idx / 25); static const W F[5] = {1, 2, 3, WMAX, WTOP}; Z a(1), b(1), t; for (int i = 0; i < k && mpz_sizeinbase(a, 2) < 5 * WBITS; i++) { mpz_mul_ui(t, a, q); mpz_add(t, t, b); mpz_set(b, a); mpz_set(a, t); } mpz_mul_ui(a, a, F[f]); mpz_mul_ui(b, b, F[f]);
	Val m, n; mpz_set(m.z, a); mpz_set(n.z, b); m.b = mk(m.z, 1); n.b = mk(n.z, 1); gcdpair(m, n); gcdpair(n, m); BnFree(m.b); BnFree(n.b); sample("gcd(%s, %s)", CS(a), CS(b));
}
SPACE("P22", "gcd_long", 0, "pairs of long regular numbers", LONGU().n()) { auto &s = LONGU(); for (size_t j = idx % 3; j < s.n(); j += 3) gcdpair(s.v[idx], s.v[j]); }
SPACE("P22", "gcd_far", 0, "all pairs of regular numbers of 25 to 130 words, and with short ones", FARU().n()) { auto &s = FARU(); for (size_t j = 0; j < s.n(); j++) if (thorough || s.v[idx].b->length + s.v[j].b->length < 84 || idx == j || j % 11 == idx % 11) gcdpair(s.v[idx], s.v[j]); auto &t = LONGU(); for (size_t j = idx % 15; j < t.n(); j += 15) { gcdpair(s.v[idx], t.v[j]); gcdpair(t.v[j], s.v[idx]); } }

// ---------------------------------------------------------------- P23
static void expmod(RaMontCtx *c, const Val &N, const Val &a, const Val &e) {
	Z w; mpz_powm(w, a.z, e.z, N.z); BN r = dst(N.b->length); ck_ok(RaMontExpMod(c, r, a.b, e.b), "RaMontExpMod(%s, %s) mod %s", CS(a.z), CS(e.z), CS(N.z)); nontriv++; ck_same(r, w, "RaMontExpMod(%s, %s) mod %s", CS(a.z), CS(e.z), CS(N.z));
	if (!unchanged(a.b, a.z) || !unchanged(e.b, e.z)) fail("RaMontExpMod changes an operand");
	unsigned k = (unsigned)((mpz_get_ui(a.z) ^ mpz_get_ui(e.z)) & 3); if (k == 1 || k == 2) { // the result in place of the base or the exponent
		mpz_srcptr o = k == 1 ? a.z : e.z; BN x = dst(std::max(N.b->length, words_of(o)), 1); setbn(x, o); ck_ok(RaMontExpMod(c, x, k == 1 ? x : a.b, k == 1 ? e.b : x), "RaMontExpMod(%s, %s) mod %s in place", CS(a.z), CS(e.z), CS(N.z)); evals++; ck_same(x, w, "RaMontExpMod(%s, %s) mod %s, result in place of the %s", CS(a.z), CS(e.z), CS(N.z), k == 1 ? "base" : "exponent"); }
}
LAZY(SMALL, ([] { VSet s; for (int i = 0; i <= 300; i++) vadd(s, Z(i), false); return s; }()))
SPACE("P23", "exp_small", 0, "all odd moduli 3..101 (thorough 301) x bases 0..modulus+3 x exponents 0..40", thorough ? 150 : 50) { auto &N = SMALL().v[3 + 2 * idx > 300 ? 299 : 3 + 2 * idx]; RaMontCtx *c; ck_ok(RaMontCreate(N.b, &c), "RaMontCreate"); int nv = (int)mpz_get_ui(N.z); for (int a = 0; a <= nv + 3 && a <= 300; a++) for (int e = 0; e <= 40; e++) expmod(c, N, SMALL().v[a], SMALL().v[e]); RaMontDestroy(c); sample("modulo %d", nv); }
LAZY(EM, ([] { VSet s; for (auto &v : vwords(3, thorough ? A6 : A4, false).v) if (mpz_odd_p(v.z) && mpz_cmp_ui(v.z, 1) > 0) s.v.push_back(v); return s; }()))
LAZY(EA, vwords(3, A4, false))
LAZY(EE, ([] { VSet s; for (int i : {0, 1, 2, 3, 5, 15, 16, 17}) vadd(s, Z(i), false); W k[][3] = {{WMAX, 0, 0}, {WTOP, 0, 0}, {0, 1, 0}, {1, 1, 0}, {WMAX, WMAX, 0}, {0, WTOP, 0}, {65537, 0, 0}, {8, 8, 8}}; for (auto &w : k) { Z z; mpz_import(z, 3, -1, WB, 0, 0, w); vadd(s, z, false); } return s; }()))
SPACE("P23", "exp_words", 0, "all odd boundary moduli up to 3 words x boundary bases of up to the modulus's length x exponents", EM().n()) { auto &N = EM().v[idx]; RaMontCtx *c; ck_ok(RaMontCreate(N.b, &c), "RaMontCreate(%s)", CS(N.z)); for (auto &a : EA().v) if (a.b->length <= N.b->length) for (auto &e : EE().v) expmod(c, N, a, e); RaMontDestroy(c); sample("modulo %s", CS(N.z)); }
static Val &amod(int i) { static Val v[4]; static bool in; if (!in) { in = true; W w[4][3] = {{1000003, 0, 0}, {(W)(WMAX - 58), WMAX, 0}, {1, 0, WTOP}, {WMAX, 0, 1}}; for (int k = 0; k < 4; k++) { mpz_import(v[k].z, 3, -1, WB, 0, 0, w[k]); v[k].b = mk(v[k].z, 1); } } return v[i]; }
SPACE("P23", "exp_window", 0, "every exponent below 4096, alone and shifted across word boundaries: all window alignments", 4096) {
	static RaMontCtx *c[4]; if (!c[0]) for (int k = 0; k < 4; k++) ck_ok(RaMontCreate(amod(k).b, &c[k]), "RaMontCreate"); static BN pe; if (!pe) pe = BnNewW(4); Val a, e; mpz_set_ui(a.z, 3 + idx % 5); a.b = SMALL().v[3 + idx % 5].b;
	int k = (int)(idx % 4); mpz_set_ui(e.z, idx); setbn(pe, e.z); e.b = pe; expmod(c[k], amod(k), a, e); for (int sh = WBITS - 13; sh <= WBITS + 2; sh += thorough ? 1 : 5) { mpz_set_ui(e.z, idx); mpz_mul_2exp(e.z, e.z, sh); if (idx & 1) mpz_add_ui(e.z, e.z, 1); setbn(pe, e.z); expmod(c[k], amod(k), a, e); }
	sample("exponent %d", (int)idx);
}
SPACE("P23", "exp_long", 0, "long regular odd moduli, bases and exponents", LONGU().n()) { auto &N = LONGU().v[idx]; if (mpz_even_p(N.z) || mpz_cmp_ui(N.z, 1) <= 0) return; RaMontCtx *c; ck_ok(RaMontCreate(N.b, &c), "RaMontCreate(%s)", CS(N.z)); auto &s = LONGU(); int L = N.b->length; for (size_t i = 0; i < s.n(); i++) if (s.v[i].b->length == L || (s.v[i].b->length == L - 1 && i % 3 == 0)) { expmod(c, N, s.v[i], SMALL().v[0]); expmod(c, N, s.v[i], EE().v[5]); expmod(c, N, s.v[i], EE().v[14]); if (L <= 8) expmod(c, N, s.v[i], s.v[(i * 5 + 1) % std::min<size_t>(s.n(), 8 * NPAT)]); } RaMontDestroy(c); sample("modulo %s", CS(N.z)); }
SPACE("P23", "exp_far", 0, "odd moduli of 25 to 130 words, bases of the same and of smaller lengths, short exponents, and full ones up to 34 words", FARU().n()) { auto &s = FARU(); auto &N = s.v[idx]; if (mpz_even_p(N.z)) return; RaMontCtx *c; ck_ok(RaMontCreate(N.b, &c), "RaMontCreate(%s)", CS(N.z)); int L = N.b->length; for (size_t i = 0; i < s.n(); i++) if (s.v[i].b->length <= L && (std::abs((int)i - (int)idx) <= 3 || i % 9 == idx % 9)) { expmod(c, N, s.v[i], SMALL().v[0]); expmod(c, N, s.v[i], SMALL().v[1]); expmod(c, N, s.v[i], EE().v[7]); if (L <= 66) expmod(c, N, s.v[i], EE().v[14]); } if (L <= 34) expmod(c, N, s.v[idx & ~(size_t)1], s.v[idx ^ 1]); RaMontDestroy(c); }
SPACE("P23", "exp_sequence", 0, "all sequences of 3 exponentiations on one prepared modulus over 7 (base, exponent) pairs x 4 moduli", 4 * 7 * 7 * 7) {
	int k = (int)(idx % 4); RaMontCtx *c; ck_ok(RaMontCreate(amod(k).b, &c), "RaMontCreate"); uint64_t x = idx / 4; static Val P[4][7][2]; static bool in[4];
	if (!in[k]) { in[k] = true; mpz_srcptr N = amod(k).z; for (int i = 0; i < 7; i++) { Z a, e; switch (i) { case 0: mpz_set_ui(a, 0); mpz_set_ui(e, 5); break; case 1: mpz_set_ui(a, 7); mpz_set_ui(e, 0); break; case 2: mpz_sub_ui(a, N, 1); mpz_set_ui(e, 3); break; case 3: mpz_set(a, N); mpz_set_ui(e, 2); break; case 4: mpz_set_ui(a, 2); mpz_set(e, N); break; case 5: mpz_tdiv_q_2exp(a, N, 1); mpz_set_ui(e, WMAX); break; case 6: mpz_set_ui(a, 1); mpz_set_ui(e, 1); break; } mpz_set(P[k][i][0].z, a); mpz_set(P[k][i][1].z, e); P[k][i][0].b = mk(a, 1); P[k][i][1].b = mk(e, 1); } }
	for (int i = 0; i < 3; i++) { int o = (int)(x % 7); x /= 7; expmod(c, amod(k), P[k][o][0], P[k][o][1]); trans++; } RaMontDestroy(c); sample("sequence %d", (int)idx);
}
SPACE("P23", "exp_even", 0, "every even boundary modulus and every even modulus up to 600 is refused", 300 + EA().n()) { Val N; BN b; Z z; if (idx < 300) mpz_set_ui(z, 2 * idx + 2); else { mpz_set(z, EA().v[idx - 300].z); if (mpz_odd_p(z) || mpz_sgn(z) == 0) return; } b = mk(z, 1); RaMontCtx *c = (RaMontCtx *)0x1; evals++; nontriv++; int e = RaMontCreate(b, &c); if (e == RA_ERR_SUCCESS) fail("RaMontCreate accepts the even modulus %s", CS(z)); BnFree(b); }
