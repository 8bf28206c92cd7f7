// Big numbers against GMP: construction from words, comparison, enumerated operand sets.
#pragma once
#include "vh.h"
#include <gmp.h>
// GMP's macros do not take objects that convert to mpz_ptr
#undef mpz_sgn
#undef mpz_odd_p
#undef mpz_even_p
#undef mpz_cmp_ui
#undef mpz_cmp_si
inline int z_sgn(mpz_srcptr z) { return z->_mp_size < 0 ? -1 : z->_mp_size > 0; }
inline bool z_odd(mpz_srcptr z) { return z->_mp_size && (z->_mp_d[0] & 1); }
inline int z_cmp_ui(mpz_srcptr z, unsigned long v) { return _mpz_cmp_ui(z, v); }
inline int z_cmp_si(mpz_srcptr z, long v) { return _mpz_cmp_si(z, v); }
#define mpz_sgn z_sgn
#define mpz_odd_p z_odd
#define mpz_even_p !z_odd
#define mpz_cmp_ui z_cmp_ui
#define mpz_cmp_si z_cmp_si
using namespace vh;
typedef bn_uint_t W; typedef bn_int_t SW;
enum { WB = BN_WORD_BYTE, WBITS = BN_WORD_BIT };
static const W WMAX = (W)-1, WTOP = (W)1 << (WBITS - 1);
typedef RaBigNumber *BN;
struct Z { // owned mpz
	mpz_t z; Z() { mpz_init(z); } Z(long v) { mpz_init_set_si(z, v); } Z(const Z &o) { mpz_init_set(z, o.z); } Z &operator=(const Z &o) { mpz_set(z, o.z); return *this; } ~Z() { mpz_clear(z); }
	operator mpz_ptr() { return z; } operator mpz_srcptr() const { return z; }
};
inline int words_of(mpz_srcptr z) { return mpz_sgn(z) == 0 ? 1 : (int)((mpz_sizeinbase(z, 2) + WBITS - 1) / WBITS); }
inline void to_words(mpz_srcptr z, W *w, int n) { memset(w, 0, (size_t)n * WB); size_t c; if (mpz_sgn(z)) mpz_export(w, &c, -1, WB, 0, 0, z); }
// a number with the given capacity; the words beyond its length hold a pattern
inline BN mk(mpz_srcptr z, int cap) {
	int n = words_of(z); if (cap < n) cap = n;
	BN b = BnNewW(cap); if (!b) { fprintf(stderr, "BnNewW failed\n"); _exit(9); }
	memset(b->data, 0xA5, (size_t)b->max_length * WB); to_words(z, b->data, n); b->length = n; b->sign = mpz_sgn(z) < 0; return b;
}
inline void setbn(BN b, mpz_srcptr z) { int n = words_of(z); memset(b->data, 0xA5, (size_t)b->max_length * WB); to_words(z, b->data, n); b->length = n; b->sign = mpz_sgn(z) < 0; }
// a destination with stale contents: a full-length negative number
inline void stale(BN b) { memset(b->data, 0xA5, (size_t)b->max_length * WB); b->length = b->max_length; b->sign = 1; }
inline std::string str(mpz_srcptr z) { char *s = mpz_get_str(NULL, 16, z); std::string r(s); free(s); if (r.size() > 140) r = r.substr(0, 120) + "...(" + std::to_string(r.size()) + " digits)"; return r; }
inline std::string str(BN b) {
	char t[64]; std::string s = b->sign ? "-" : ""; int l = b->length; if (l < 1 || l > b->max_length) return "(length " + std::to_string(l) + " of " + std::to_string(b->max_length) + ")";
	for (int i = l - 1; i >= 0 && i > l - 9; i--) { snprintf(t, sizeof t, "%0*llx.", WB * 2, (unsigned long long)b->data[i]); s += t; } return s;
}
inline bool wellformed(BN b) { return b->length >= 1 && b->length <= b->max_length && (b->length == 1 || b->data[b->length - 1]) && (b->sign == 0 || b->sign == 1) && !(b->length == 1 && b->data[0] == 0 && b->sign); }
inline bool same(BN b, mpz_srcptr z) {
	int n = words_of(z); if (b->length != n || (b->sign != 0) != (mpz_sgn(z) < 0)) return false;
	W buf[400]; if (n > 400) { std::vector<W> v(n); to_words(z, v.data(), n); return !memcmp(v.data(), b->data, (size_t)n * WB); }
	if (mpz_sgn(z) == 0) return b->data[0] == 0;
	const mp_limb_t *l = mpz_limbs_read(z); return !memcmp(l, b->data, (size_t)n * WB); (void)buf;
}
inline void from_bn(mpz_ptr z, BN b) { mpz_import(z, b->length, -1, WB, 0, 0, b->data); if (b->sign) mpz_neg(z, z); }
// ---- enumerated value sets ----
struct Val { Z z; BN b; };
struct VSet { std::vector<Val> v; size_t n() const { return v.size(); } };
inline void vadd(VSet &s, mpz_srcptr z, bool sg) { Val x; mpz_set(x.z, z); x.b = mk(z, 1); s.v.push_back(x); if (sg && mpz_sgn(z)) { Val y; mpz_neg(y.z, z); y.b = mk(y.z, 1); s.v.push_back(y); } }
// all numbers of up to L words over the alphabet; signed: both signs
inline VSet vwords(int L, const std::vector<W> &al, bool sg, int Lmin = 1) {
	VSet s; std::vector<W> w(L);
	for (int l = Lmin; l <= L; l++) {
		uint64_t tot = 1; for (int i = 0; i < l; i++) tot *= al.size();
		for (uint64_t k = 0; k < tot; k++) { uint64_t x = k; for (int i = 0; i < l; i++) { w[i] = al[x % al.size()]; x /= al.size(); } if (l > 1 && w[l - 1] == 0) continue; Z z; mpz_import(z, l, -1, WB, 0, 0, w.data()); vadd(s, z, sg); }
	}
	return s;
}
// long numbers of regular shape
enum { NPAT = 9 };
inline void vpat(mpz_ptr z, int p, int l) {
	std::vector<W> w(l);
	for (int i = 0; i < l; i++) switch (p) {
		case 0: w[i] = WMAX; break;
		case 1: w[i] = 0; break;
		case 2: w[i] = i & 1 ? WMAX : 0; break;
		case 3: w[i] = i & 1 ? 0 : WMAX; break;
		case 4: w[i] = i ? WMAX : WMAX - 1; break;
		case 5: w[i] = 0; break;
		case 6: w[i] = i == l / 2 ? 0 : WMAX; break;
		case 7: { uint8_t t[WB]; fillbuf(t, WB, 9000 + l * 40 + i); memcpy(&w[i], t, WB); break; }
		case 8: w[i] = WTOP; break;
	}
	if (p == 1) w[l - 1] = 1; if (p == 5) { w[l - 1] = WTOP; w[0] |= 1; }
	if (w[l - 1] == 0) w[l - 1] = 1;
	mpz_import(z, l, -1, WB, 0, 0, w.data());
}
inline VSet vlong(int Lmin, int Lmax, int step, bool sg) { VSet s; for (int l = Lmin; l <= Lmax; l += step) for (int p = 0; p < NPAT; p++) { Z z; vpat(z, p, l); vadd(s, z, sg); } return s; }
static const std::vector<W> A4 = {0, 1, WTOP, WMAX};
static const std::vector<W> A5 = {0, 1, WTOP - 1, WTOP, WMAX};
static const std::vector<W> A6 = {0, 1, WTOP - 1, WTOP, WMAX - 1, WMAX};
static const std::vector<W> A8 = {0, 1, 2, (W)1 << (WBITS / 2), WTOP - 1, WTOP, WMAX - 1, WMAX};
static const std::vector<W> A12 = {0, 1, 2, 3, ((W)1 << (WBITS / 2)) - 1, (W)1 << (WBITS / 2), WTOP - 1, WTOP, WTOP + 1, ~(((W)1 << (WBITS / 2)) - 1), WMAX - 1, WMAX};
#define LAZY(name, expr) static VSet &name() { static VSet s = expr; return s; }
// destinations of every capacity, reused
inline BN dst(int cap, int slot = 0) { static BN pool[8][2100]; if (cap < 2) cap = 2; if (cap >= 2100) { fprintf(stderr, "cap %d\n", cap); _exit(9); } BN &b = pool[slot][cap]; if (!b) b = BnNewW(cap); stale(b); return b; }
#define ck_same(b, z, ...) do { evals++; if (!same(b, z)) { std::string w_ = "want " + str((mpz_srcptr)(z)) + ", got " + str((BN)(b)); char t_[1200]; snprintf(t_, sizeof t_, __VA_ARGS__); fail("%s: %s", t_, w_.c_str()); } } while (0)
#define ck_ok(e, ...) do { int e_ = (e); if (e_ != RA_ERR_SUCCESS) { char t_[1200]; snprintf(t_, sizeof t_, __VA_ARGS__); fail("%s: returns %d", t_, e_); } } while (0)
#define CS(x) str(x).c_str()
