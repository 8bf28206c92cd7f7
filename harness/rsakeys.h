// RSA keys made with GMP and their DER/BER encodings, made independently of the library.
#pragma once
#include "bn.h"
#include "env.h"
typedef std::vector<uint8_t> Bytes;
typedef RaRsaKeyPair *KP;
struct K { Z f[8]; Z &n() { return f[0]; } Z &e() { return f[1]; } Z &d() { return f[2]; } Z &p() { return f[3]; } Z &q() { return f[4]; } Z &dp() { return f[5]; } Z &dq() { return f[6]; } Z &qi() { return f[7]; } };
static const char *fname[] = {"modulus", "public exponent", "private exponent", "prime1", "prime2", "exponent1", "exponent2", "coefficient"};
inline bool pprime(mpz_srcptr n) { return mpz_sgn(n) > 0 && mpz_probab_prime_p(n, 25); }
// from p, q, e, d: the derived values
inline void derive(K &k) { Z t; mpz_mul(k.n(), k.p(), k.q()); mpz_sub_ui(t, k.p(), 1); mpz_mod(k.dp(), k.d(), t); mpz_sub_ui(t, k.q(), 1); mpz_mod(k.dq(), k.d(), t); if (!mpz_invert(k.qi(), k.q(), k.p())) mpz_set_ui(k.qi(), 1); }
inline bool mkkey(K &k, mpz_srcptr p, mpz_srcptr q, mpz_srcptr e, bool lcm = false) { Z p1, q1, m; mpz_sub_ui(p1, p, 1); mpz_sub_ui(q1, q, 1); if (lcm) mpz_lcm(m, p1, q1); else mpz_mul(m, p1, q1); mpz_set(k.p(), p); mpz_set(k.q(), q); mpz_set(k.e(), e); if (!mpz_invert(k.d(), e, m)) return false; derive(k); return true; }
// a key of the given size with fixed primes
inline K sized_key(int bit, long e = 65537, uint64_t salt = 0) {
	K k; for (uint64_t s = salt;; s++) { Z p, q; std::vector<W> w((bit / 2 + WBITS) / WBITS + 1);
		uint8_t buf[1024]; for (int j = 0; j < 2; j++) { Z &x = j ? q : p; int b = j ? bit - bit / 2 : bit / 2; fillbuf(buf, (b + 7) / 8, 4242 + s * 10 + j + bit * 1000); mpz_import(x, (b + 7) / 8, 1, 1, 0, 0, buf); mpz_fdiv_r_2exp(x, x, b); mpz_setbit(x, b - 1); if (b > 3) mpz_setbit(x, b - 2); mpz_sub_ui(x, x, 1); mpz_nextprime(x, x); }
		if (!mpz_cmp(p, q)) continue; if (mpz_sizeinbase((mpz_mul(k.n(), p, q), k.n()), 2) != (size_t)bit) continue; Z ze(e); if (mkkey(k, p, q, ze, s & 1)) return k; }
}
// consistency as the standard defines it
inline bool consistent(K &k) {
	Z t, u, m; if (!pprime(k.p()) || !pprime(k.q()) || !mpz_cmp(k.p(), k.q())) return false; mpz_mul(t, k.p(), k.q()); if (mpz_cmp(t, k.n())) return false;
	if (mpz_cmp(k.e(), k.n()) >= 0 || mpz_cmp(k.d(), k.n()) >= 0) return false; mpz_mul(t, k.e(), k.d());
	mpz_sub_ui(u, k.p(), 1); mpz_sub_ui(m, t, 1); if (!mpz_divisible_p(m, u)) return false; mpz_mod(m, k.d(), u); if (mpz_cmp(m, k.dp())) return false;
	mpz_sub_ui(u, k.q(), 1); mpz_sub_ui(m, t, 1); if (!mpz_divisible_p(m, u)) return false; mpz_mod(m, k.d(), u); if (mpz_cmp(m, k.dq())) return false;
	return mpz_invert(t, k.q(), k.p()) && !mpz_cmp(t, k.qi());
}
// ---- encoding ----
enum { F_MIN = 0, F_LONG1, F_LONG2, F_LONG3, F_LONG4, F_INDEF, NFORM }; // how the length of a node is written
struct N { int tag; Bytes body; std::vector<N> kids; int form = 0, zeros = 0; bool str = false, raw = false; int pre = -1; bool cons() const { return (tag & 0x20) != 0; } };
inline void put(Bytes &o, const Bytes &b) { o.insert(o.end(), b.begin(), b.end()); }
inline Bytes lenb(size_t l, int form) { Bytes o; int min = l < 0x80 ? 0 : l < 0x100 ? 1 : l < 0x10000 ? 2 : l < 0x1000000 ? 3 : 4; int k = form >= F_LONG1 && form <= F_LONG4 ? form : 0; if (k < min) k = min; if (k == 0) { o.push_back((uint8_t)l); return o; } o.push_back(0x80 + k); for (int i = k - 1; i >= 0; i--) o.push_back((uint8_t)(l >> (8 * i))); return o; }
inline Bytes enc(const N &n) {
	if (n.raw) return n.body;
	Bytes c; if (n.pre >= 0) c.push_back((uint8_t)n.pre);
	if (n.kids.size()) for (auto &k : n.kids) put(c, enc(k)); else { for (int i = 0; i < n.zeros; i++) c.push_back(0); put(c, n.body); }
	Bytes o(1, (uint8_t)n.tag); if (n.form == F_INDEF && n.cons()) { o.push_back(0x80); put(o, c); o.push_back(0); o.push_back(0); } else { put(o, lenb(c.size(), n.form)); put(o, c); } return o;
}
inline N leaf(int tag, const Bytes &b) { N n; n.tag = tag; n.body = b; return n; }
inline N tree(int tag, std::vector<N> k) { N n; n.tag = tag; n.kids = k; return n; }
inline N nint(mpz_srcptr z) { // shortest two's complement
	Bytes b; if (mpz_sgn(z) >= 0) { size_t c = (mpz_sizeinbase(z, 2) + 7) / 8; if (mpz_sgn(z) == 0) c = 1; b.assign(c, 0); size_t x = 0; if (mpz_sgn(z)) mpz_export(b.data(), &x, 1, 1, 0, 0, z); if (b[0] & 0x80) b.insert(b.begin(), 0); }
	else { Z t; size_t c = 1; for (;; c++) { mpz_set_ui(t, 1); mpz_mul_2exp(t, t, 8 * c - 1); mpz_neg(t, t); if (mpz_cmp(z, t) >= 0) break; } mpz_set_ui(t, 1); mpz_mul_2exp(t, t, 8 * c); mpz_add(t, t, z); b.assign(c, 0); size_t x; mpz_export(b.data(), &x, 1, 1, 0, 0, t); }
	return leaf(2, b);
}
static const Bytes OID = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01};
inline N nalg() { return tree(0x30, {leaf(6, OID), leaf(5, {})}); }
inline N pub1(K &k) { return tree(0x30, {nint(k.n()), nint(k.e())}); }
inline N priv1(K &k) { return tree(0x30, {leaf(2, {0}), nint(k.n()), nint(k.e()), nint(k.d()), nint(k.p()), nint(k.q()), nint(k.dp()), nint(k.dq()), nint(k.qi())}); }
inline N wrap_pub(const N &in) { N b = tree(3, {in}); b.pre = 0; return tree(0x30, {nalg(), b}); }
inline N wrap_priv(const N &in) { return tree(0x30, {leaf(2, {0}), nalg(), tree(4, {in})}); }
inline Bytes pub8(K &k) { return enc(wrap_pub(pub1(k))); }
inline Bytes priv8(K &k) { return enc(wrap_priv(priv1(k))); }
// ---- library side ----
enum { I_PUB, I_PRIV, I_ANY };
static const char *iname[] = {"RaRsaCreateKeyPub", "RaRsaCreateKeyPriv", "RaRsaCreateKeyFromByteArray"};
inline int import(int how, const uint8_t *b, int n, KP *k) { return how == I_PUB ? RaRsaCreateKeyPub(b, n, k) : how == I_PRIV ? RaRsaCreateKeyPriv(b, n, k) : RaRsaCreateKeyFromByteArray(b, n, k); }
inline Bytes exported(KP k, bool priv) { int l = -1; int r = priv ? RaRsaPrivKeyToByteArray(k, NULL, 0, &l) : RaRsaPubKeyToByteArray(k, NULL, 0, &l); if (r) return Bytes(); if (l <= 0 || l > 10000000) fail("export reports the length %d", l); Bytes o(l); int l2 = -1; r = priv ? RaRsaPrivKeyToByteArray(k, o.data(), l, &l2) : RaRsaPubKeyToByteArray(k, o.data(), l, &l2); if (r || l2 != l) fail("export into %d bytes, the length it asked for, returns %d and length %d", l, r, l2); return o; }
// own reader of the exported private key (definite lengths only)
inline bool rd(const uint8_t *&p, const uint8_t *e, int tag, const uint8_t *&b, size_t &l) { if (e - p < 2 || p[0] != tag) return false; size_t n = p[1]; p += 2; if (n >= 0x80) { int k = n & 0x7f; if (k < 1 || k > 4 || e - p < k) return false; n = 0; while (k--) n = n << 8 | *p++; } if ((size_t)(e - p) < n) return false; b = p; l = n; p += n; return true; }
inline bool parse_priv(const Bytes &x, K &k) { const uint8_t *p = x.data(), *e = p + x.size(), *b; size_t l; if (!rd(p, e, 0x30, b, l) || p != e) return false; p = b; e = b + l; if (!rd(p, e, 2, b, l) || !rd(p, e, 0x30, b, l) || !rd(p, e, 4, b, l)) return false; p = b; e = b + l; if (!rd(p, e, 0x30, b, l)) return false; p = b; e = b + l; if (!rd(p, e, 2, b, l)) return false; for (int i = 0; i < 8; i++) { if (!rd(p, e, 2, b, l) || l < 1) return false; mpz_import(k.f[i], l, 1, 1, 0, 0, b); } return p == e; }
inline KP need(int how, const Bytes &b, const char *what) { KP k = NULL; int r = import(how, b.data(), (int)b.size(), &k); if (r != RA_ERR_SUCCESS || !k) fail("%s: %s of %s returns %d%s", what, iname[how], hex(b.data(), b.size()).c_str(), r, k ? "" : " without a key"); return k; }
