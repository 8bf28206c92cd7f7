// the machine translated AArch64 code runs on (see a64.py); semantics after the Arm Architecture Reference Manual, DDI 0487
#include <stdint.h>
typedef union { uint8_t b[16]; uint16_t h[8]; uint32_t s[4]; uint64_t d[2]; float f32[4]; double f64[2]; } VR;
typedef struct { uint64_t x[31], sp; VR v[32]; } A64_S;
typedef struct { uint64_t x; double d; } A64_R;		// returned in rax and xmm0: serves functions of either kind
#define A64_ARGS uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t a4, uint64_t a5, double d0, double d1	// further ones are read where the caller put them, if it did
#define A64_CARGS uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double
#ifndef A64_ISAR0
#define A64_ISAR0 0x0000000000011120ull			// AES with PMULL, SHA1, SHA256, CRC32
#endif
static const uint64_t a64_isar0 = A64_ISAR0;
extern void abort(void); extern int write(int, const char *, unsigned long); 
static __attribute__((noinline, cold, noreturn, unused)) void a64_abi(const char *f) { write(2, "a64: registers that a function must preserve are changed by ", 60); write(2, f, __builtin_strlen(f)); write(2, "\n", 1); abort(); }
#define MSET(p, v, n) __builtin_memset(p, v, n)
#ifdef A64_BE  /* a big-endian machine: registers as before, memory the other way round */
static inline void a64_rev(void *d, const void *p, unsigned n) { uint8_t t[16]; for (unsigned i = 0; i < n; i++) t[i] = ((const uint8_t *)p)[n - 1 - i]; __builtin_memcpy(d, t, n); }
#define LD(p, a, n) a64_rev((p), (const void *)(uintptr_t)(a), (n))
#define ST(p, a, n) a64_rev((void *)(uintptr_t)(a), (p), (n))
#else
#define LD(p, a, n) __builtin_memcpy((p), (const void *)(uintptr_t)(a), (n))
#define ST(p, a, n) __builtin_memcpy((void *)(uintptr_t)(a), (p), (n))
#endif
#define ROR32(x, n) ((uint64_t)(((uint32_t)(x) >> ((n) & 31)) | ((uint32_t)(x) << (-(int)(n) & 31))))
#define ROR64(x, n) (((uint64_t)(x) >> ((n) & 63)) | ((uint64_t)(x) << (-(int)(n) & 63)))
#define EXTR64(a, b, n) ((n) ? ((uint64_t)(b) >> ((n) & 63)) | ((uint64_t)(a) << (-(int)(n) & 63)) : (uint64_t)(b))
#define EXTR32(a, b, n) ((uint64_t)((n) ? ((uint32_t)(b) >> ((n) & 31)) | ((uint32_t)(a) << (-(int)(n) & 31)) : (uint32_t)(b)))
#define ADD_(r, a, b, c, U, S) { U p_ = (U)(a), q_ = (U)(b); U t_; int o1_ = __builtin_add_overflow(p_, q_, &t_); int o2_ = __builtin_add_overflow(t_, (U)(c), &t_); r = t_; VF = (((p_ ^ t_) & (q_ ^ t_)) >> (sizeof(U) * 8 - 1)) & 1; C = o1_ | o2_; N = (S)t_ < 0; Z = t_ == 0; }
#define ADDS32(r, a, b) ADD_(r, a, b, 0, uint32_t, int32_t)
#define ADDS64(r, a, b) ADD_(r, a, b, 0, uint64_t, int64_t)
#define SUBS32(r, a, b) ADD_(r, a, ~(uint32_t)(b), 1, uint32_t, int32_t)
#define SUBS64(r, a, b) ADD_(r, a, ~(uint64_t)(b), 1, uint64_t, int64_t)
#define ADCS32(r, a, b) ADD_(r, a, b, C, uint32_t, int32_t)
#define ADCS64(r, a, b) ADD_(r, a, b, C, uint64_t, int64_t)
#define CLZ32(x) ((uint32_t)(x) ? (uint64_t)__builtin_clz((uint32_t)(x)) : 32)
#define CLZ64(x) ((x) ? (uint64_t)__builtin_clzll(x) : 64)
static inline uint64_t RBIT64(uint64_t x) { uint64_t r = 0; for (int i = 0; i < 64; i++) r |= (x >> i & 1) << (63 - i); return r; }
static inline uint64_t RBIT32(uint64_t x) { return RBIT64(x) >> 32; }
#define SDIV32(a, b) ((int32_t)(b) == 0 ? 0 : (int32_t)(b) == -1 ? (uint64_t)(uint32_t)(0 - (uint32_t)(a)) : (uint64_t)(uint32_t)((int32_t)(a) / (int32_t)(b)))
#define SDIV64(a, b) ((int64_t)(b) == 0 ? 0 : (int64_t)(b) == -1 ? 0 - (uint64_t)(a) : (uint64_t)((int64_t)(a) / (int64_t)(b)))
static inline uint64_t FCVT_U64(double x) { return x != x || x <= 0 ? 0 : x >= 18446744073709551616.0 ? ~0ull : (uint64_t)x; }
static inline uint64_t FCVT_U32(double x) { return x != x || x <= 0 ? 0 : x >= 4294967296.0 ? 0xffffffffu : (uint32_t)x; }
static inline uint64_t FCVT_S64(double x) { return x != x ? 0 : x >= 9223372036854775808.0 ? INT64_MAX : x <= -9223372036854775808.0 ? (uint64_t)INT64_MIN : (uint64_t)(int64_t)x; }
static inline uint64_t FCVT_S32(double x) { return x != x ? 0 : x >= 2147483648.0 ? INT32_MAX : x <= -2147483648.0 ? (uint32_t)INT32_MIN : (uint32_t)(int32_t)x; }

// ---- cryptographic instructions (the S-box is computed from its definition when it is first needed)
static inline uint8_t a64_mul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (uint8_t)((a << 1) ^ (a & 0x80 ? 0x1b : 0)); b >>= 1; } return r; }
static uint8_t a64_sb[256], a64_is[256], a64_m[16][256];
static __attribute__((constructor)) void a64_tables(void) {
	for (int i = 0; i < 256; i++) {
		uint8_t v = 0, r = 0; for (int j = 1; j < 256 && i; j++) if (a64_mul((uint8_t)i, (uint8_t)j) == 1) { v = (uint8_t)j; break; }
		for (int k = 0; k < 8; k++) r |= (uint8_t)(((v >> k ^ v >> ((k + 4) & 7) ^ v >> ((k + 5) & 7) ^ v >> ((k + 6) & 7) ^ v >> ((k + 7) & 7) ^ 0x63 >> k) & 1) << k);
		a64_sb[i] = r; a64_is[r] = (uint8_t)i;
		for (int k = 0; k < 16; k++) a64_m[k][i] = a64_mul((uint8_t)i, (uint8_t)k);
	}
}
static inline void aese(VR *d, const VR *n) { VR t, r; for (int i = 0; i < 16; i++) t.b[i] = d->b[i] ^ n->b[i]; for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) r.b[4 * c + w] = a64_sb[t.b[4 * ((c + w) & 3) + w]]; *d = r; }
static inline void aesd(VR *d, const VR *n) { VR t, r; for (int i = 0; i < 16; i++) t.b[i] = d->b[i] ^ n->b[i]; for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) r.b[4 * ((c + w) & 3) + w] = a64_is[t.b[4 * c + w]]; *d = r; }
static inline void a64_mix(VR *d, const VR *n, int k0, int k1, int k2, int k3) { VR r; for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) r.b[4 * c + w] = a64_m[k0][n->b[4 * c + w]] ^ a64_m[k1][n->b[4 * c + ((w + 1) & 3)]] ^ a64_m[k2][n->b[4 * c + ((w + 2) & 3)]] ^ a64_m[k3][n->b[4 * c + ((w + 3) & 3)]]; *d = r; }
static inline void aesmc(VR *d, const VR *n) { a64_mix(d, n, 2, 3, 1, 1); }
static inline void aesimc(VR *d, const VR *n) { a64_mix(d, n, 14, 11, 13, 9); }
#define RL(x, n) (((uint32_t)(x) << (n)) | ((uint32_t)(x) >> (32 - (n))))
static inline void a64_sha1(VR *d, const VR *n, const VR *m, int k) {
	uint32_t a[4] = { d->s[0], d->s[1], d->s[2], d->s[3] }, y = n->s[0];
	for (int e = 0; e < 4; e++) {
		uint32_t b = a[1], c = a[2], t = a[3], f = k == 0 ? ((c ^ t) & b) ^ t : k == 1 ? b ^ c ^ t : (b & c) | ((b | c) & t);
		y += RL(a[0], 5) + f + m->s[e]; a[1] = RL(a[1], 30);
		{ uint32_t x3 = a[3]; a[3] = a[2]; a[2] = a[1]; a[1] = a[0]; a[0] = y; y = x3; }
	}
	for (int e = 0; e < 4; e++) d->s[e] = a[e];
}
static inline void sha1c(VR *d, const VR *n, const VR *m) { VR a = *n, b = *m; a64_sha1(d, &a, &b, 0); }
static inline void sha1p(VR *d, const VR *n, const VR *m) { VR a = *n, b = *m; a64_sha1(d, &a, &b, 1); }
static inline void sha1m(VR *d, const VR *n, const VR *m) { VR a = *n, b = *m; a64_sha1(d, &a, &b, 2); }
static inline void sha1su0(VR *d, const VR *n, const VR *m) { VR r; uint32_t t[4] = { d->s[2], d->s[3], n->s[0], n->s[1] }; for (int i = 0; i < 4; i++) r.s[i] = t[i] ^ d->s[i] ^ m->s[i]; *d = r; }
static inline void sha1su1(VR *d, const VR *n) { VR t; for (int i = 0; i < 4; i++) t.s[i] = d->s[i] ^ (i < 3 ? n->s[i + 1] : 0); for (int i = 0; i < 4; i++) d->s[i] = RL(t.s[i], 1); d->s[3] ^= RL(t.s[0], 2); }
static inline void a64_sha256(const VR *x0, const VR *y0, const VR *w, VR *d, int part) {
	uint32_t x[4], y[4]; for (int i = 0; i < 4; i++) { x[i] = x0->s[i]; y[i] = y0->s[i]; }
	for (int e = 0; e < 4; e++) {
		uint32_t ch = ((y[1] ^ y[2]) & y[0]) ^ y[2], mj = (x[0] & x[1]) | ((x[0] | x[1]) & x[2]), s1 = RL(y[0], 26) ^ RL(y[0], 21) ^ RL(y[0], 7), s0 = RL(x[0], 30) ^ RL(x[0], 19) ^ RL(x[0], 10), t = y[3] + s1 + ch + w->s[e];
		x[3] = t + x[3]; y[3] = t + s0 + mj;
		{ uint32_t y3 = y[3], x3 = x[3]; y[3] = y[2]; y[2] = y[1]; y[1] = y[0]; y[0] = x3; x[3] = x[2]; x[2] = x[1]; x[1] = x[0]; x[0] = y3; }
	}
	for (int i = 0; i < 4; i++) d->s[i] = part ? x[i] : y[i];
}
static inline void sha256h(VR *d, const VR *n, const VR *m) { VR a = *d, b = *n, c = *m; a64_sha256(&a, &b, &c, d, 1); }
static inline void sha256h2(VR *d, const VR *n, const VR *m) { VR a = *d, b = *n, c = *m; a64_sha256(&b, &a, &c, d, 0); }
static inline void sha256su0(VR *d, const VR *n) { VR r; for (int i = 0; i < 4; i++) { uint32_t e = i < 3 ? d->s[i + 1] : n->s[0]; r.s[i] = (RL(e, 25) ^ RL(e, 14) ^ (e >> 3)) + d->s[i]; } *d = r; }
static inline void sha256su1(VR *d, const VR *n, const VR *m) {
	VR r; uint32_t t0[4] = { n->s[1], n->s[2], n->s[3], m->s[0] }, t1[2] = { m->s[2], m->s[3] };
	for (int i = 0; i < 2; i++) { uint32_t e = t1[i]; e = RL(e, 15) ^ RL(e, 13) ^ (e >> 10); r.s[i] = e + d->s[i] + t0[i]; }
	for (int i = 2; i < 4; i++) { uint32_t e = r.s[i - 2]; e = RL(e, 15) ^ RL(e, 13) ^ (e >> 10); r.s[i] = e + d->s[i] + t0[i]; }
	*d = r;
}
#define POISON 0xbad0c0debad0c0deull
#define A64_LOCALS uint64_t SP = s->sp; unsigned N = 1, Z = 0, C = 0, VF = 1; (void)N; (void)Z; (void)C; (void)VF; uint64_t X0 = s->x[0]; uint64_t X1 = s->x[1]; uint64_t X2 = s->x[2]; uint64_t X3 = s->x[3]; uint64_t X4 = s->x[4]; uint64_t X5 = s->x[5]; uint64_t X6 = s->x[6]; uint64_t X7 = s->x[7]; uint64_t X8 = s->x[8]; uint64_t X9 = s->x[9]; uint64_t X10 = s->x[10]; uint64_t X11 = s->x[11]; uint64_t X12 = s->x[12]; uint64_t X13 = s->x[13]; uint64_t X14 = s->x[14]; uint64_t X15 = s->x[15]; uint64_t X16 = s->x[16]; uint64_t X17 = s->x[17]; uint64_t X18 = s->x[18]; uint64_t X19 = s->x[19]; uint64_t X20 = s->x[20]; uint64_t X21 = s->x[21]; uint64_t X22 = s->x[22]; uint64_t X23 = s->x[23]; uint64_t X24 = s->x[24]; uint64_t X25 = s->x[25]; uint64_t X26 = s->x[26]; uint64_t X27 = s->x[27]; uint64_t X28 = s->x[28]; uint64_t X29 = s->x[29]; uint64_t X30 = s->x[30]; VR V0 = s->v[0]; VR V1 = s->v[1]; VR V2 = s->v[2]; VR V3 = s->v[3]; VR V4 = s->v[4]; VR V5 = s->v[5]; VR V6 = s->v[6]; VR V7 = s->v[7]; VR V8 = s->v[8]; VR V9 = s->v[9]; VR V10 = s->v[10]; VR V11 = s->v[11]; VR V12 = s->v[12]; VR V13 = s->v[13]; VR V14 = s->v[14]; VR V15 = s->v[15]; VR V16 = s->v[16]; VR V17 = s->v[17]; VR V18 = s->v[18]; VR V19 = s->v[19]; VR V20 = s->v[20]; VR V21 = s->v[21]; VR V22 = s->v[22]; VR V23 = s->v[23]; VR V24 = s->v[24]; VR V25 = s->v[25]; VR V26 = s->v[26]; VR V27 = s->v[27]; VR V28 = s->v[28]; VR V29 = s->v[29]; VR V30 = s->v[30]; VR V31 = s->v[31];
#define A64_STORE s->sp = SP; s->x[0] = X0; s->x[1] = X1; s->x[2] = X2; s->x[3] = X3; s->x[4] = X4; s->x[5] = X5; s->x[6] = X6; s->x[7] = X7; s->x[8] = X8; s->x[9] = X9; s->x[10] = X10; s->x[11] = X11; s->x[12] = X12; s->x[13] = X13; s->x[14] = X14; s->x[15] = X15; s->x[16] = X16; s->x[17] = X17; s->x[18] = X18; s->x[19] = X19; s->x[20] = X20; s->x[21] = X21; s->x[22] = X22; s->x[23] = X23; s->x[24] = X24; s->x[25] = X25; s->x[26] = X26; s->x[27] = X27; s->x[28] = X28; s->x[29] = X29; s->x[30] = X30; s->v[0] = V0; s->v[1] = V1; s->v[2] = V2; s->v[3] = V3; s->v[4] = V4; s->v[5] = V5; s->v[6] = V6; s->v[7] = V7; s->v[8] = V8; s->v[9] = V9; s->v[10] = V10; s->v[11] = V11; s->v[12] = V12; s->v[13] = V13; s->v[14] = V14; s->v[15] = V15; s->v[16] = V16; s->v[17] = V17; s->v[18] = V18; s->v[19] = V19; s->v[20] = V20; s->v[21] = V21; s->v[22] = V22; s->v[23] = V23; s->v[24] = V24; s->v[25] = V25; s->v[26] = V26; s->v[27] = V27; s->v[28] = V28; s->v[29] = V29; s->v[30] = V30; s->v[31] = V31;
#define A64_RELOAD X0 = s->x[0]; X1 = s->x[1]; X2 = s->x[2]; X3 = s->x[3]; X4 = s->x[4]; X5 = s->x[5]; X6 = s->x[6]; X7 = s->x[7]; X8 = s->x[8]; X9 = s->x[9]; X10 = s->x[10]; X11 = s->x[11]; X12 = s->x[12]; X13 = s->x[13]; X14 = s->x[14]; X15 = s->x[15]; X16 = s->x[16]; X17 = s->x[17]; X18 = s->x[18]; X19 = s->x[19]; X20 = s->x[20]; X21 = s->x[21]; X22 = s->x[22]; X23 = s->x[23]; X24 = s->x[24]; X25 = s->x[25]; X26 = s->x[26]; X27 = s->x[27]; X28 = s->x[28]; X29 = s->x[29]; X30 = s->x[30]; V0 = s->v[0]; V1 = s->v[1]; V2 = s->v[2]; V3 = s->v[3]; V4 = s->v[4]; V5 = s->v[5]; V6 = s->v[6]; V7 = s->v[7]; V8 = s->v[8]; V9 = s->v[9]; V10 = s->v[10]; V11 = s->v[11]; V12 = s->v[12]; V13 = s->v[13]; V14 = s->v[14]; V15 = s->v[15]; V16 = s->v[16]; V17 = s->v[17]; V18 = s->v[18]; V19 = s->v[19]; V20 = s->v[20]; V21 = s->v[21]; V22 = s->v[22]; V23 = s->v[23]; V24 = s->v[24]; V25 = s->v[25]; V26 = s->v[26]; V27 = s->v[27]; V28 = s->v[28]; V29 = s->v[29]; V30 = s->v[30]; V31 = s->v[31]; N = 0; Z = 1; C = 1; VF = 0;
#define A64_POISON X1 = POISON + 1; X2 = POISON + 2; X3 = POISON + 3; X4 = POISON + 4; X5 = POISON + 5; X6 = POISON + 6; X7 = POISON + 7; X8 = POISON + 8; X9 = POISON + 9; X10 = POISON + 10; X11 = POISON + 11; X12 = POISON + 12; X13 = POISON + 13; X14 = POISON + 14; X15 = POISON + 15; X16 = POISON + 16; X17 = POISON + 17; X30 = POISON + 30; V0.d[1] = POISON; V1.d[0] = V1.d[1] = POISON; V2.d[0] = V2.d[1] = POISON; V3.d[0] = V3.d[1] = POISON; V4.d[0] = V4.d[1] = POISON; V5.d[0] = V5.d[1] = POISON; V6.d[0] = V6.d[1] = POISON; V7.d[0] = V7.d[1] = POISON; V16.d[0] = V16.d[1] = POISON; V17.d[0] = V17.d[1] = POISON; V18.d[0] = V18.d[1] = POISON; V19.d[0] = V19.d[1] = POISON; V20.d[0] = V20.d[1] = POISON; V21.d[0] = V21.d[1] = POISON; V22.d[0] = V22.d[1] = POISON; V23.d[0] = V23.d[1] = POISON; V24.d[0] = V24.d[1] = POISON; V25.d[0] = V25.d[1] = POISON; V26.d[0] = V26.d[1] = POISON; V27.d[0] = V27.d[1] = POISON; V28.d[0] = V28.d[1] = POISON; V29.d[0] = V29.d[1] = POISON; V30.d[0] = V30.d[1] = POISON; V31.d[0] = V31.d[1] = POISON; V8.d[1] = POISON; V9.d[1] = POISON; V10.d[1] = POISON; V11.d[1] = POISON; V12.d[1] = POISON; V13.d[1] = POISON; V14.d[1] = POISON; V15.d[1] = POISON; N = 0; Z = 1; C = 1; VF = 0;
#define A64_ENTRY const uint64_t ESP = SP, E19 = X19, E20 = X20, E21 = X21, E22 = X22, E23 = X23, E24 = X24, E25 = X25, E26 = X26, E27 = X27, E28 = X28, E29 = X29, F8 = V8.d[0], F9 = V9.d[0], F10 = V10.d[0], F11 = V11.d[0], F12 = V12.d[0], F13 = V13.d[0], F14 = V14.d[0], F15 = V15.d[0];
#define A64_KEPT (SP == ESP && X19 == E19 && X20 == E20 && X21 == E21 && X22 == E22 && X23 == E23 && X24 == E24 && X25 == E25 && X26 == E26 && X27 == E27 && X28 == E28 && X29 == E29 && V8.d[0] == F8 && V9.d[0] == F9 && V10.d[0] == F10 && V11.d[0] == F11 && V12.d[0] == F12 && V13.d[0] == F13 && V14.d[0] == F14 && V15.d[0] == F15)
#define CALLL(f) { A64_STORE f(s); A64_RELOAD }
#define CALLH(f) { if (SP & 15) a64_abi("a call with a misaligned stack"); uint64_t t_[4]; LD(&t_[0], SP, 8); LD(&t_[1], SP + 8, 8); LD(&t_[2], SP + 16, 8); LD(&t_[3], SP + 24, 8); A64_R r_ = ((A64_R (*)(A64_CARGS))(uintptr_t)(f))(X0, X1, X2, X3, X4, X5, X6, X7, t_[0], t_[1], t_[2], t_[3], V0.f64[0], V1.f64[0]); X0 = r_.x; V0.f64[0] = r_.d; A64_POISON }
#define A64_BEGIN(f) static void f##_t(A64_S *s) { A64_LOCALS A64_ENTRY
#define A64_END(f, st) out: __attribute__((unused)); if (!A64_KEPT) a64_abi(#f); A64_STORE } \
st A64_R f(A64_ARGS) { uint8_t stk[65536 + 96] __attribute__((aligned(16))); A64_S m; A64_R r; int i; for (i = 0; i < 31; i++) m.x[i] = POISON ^ (uint64_t)i << 32; for (i = 0; i < 32; i++) m.v[i].d[0] = m.v[i].d[1] = POISON ^ (uint64_t)i << 40; \
 m.x[0] = a0; m.x[1] = a1; m.x[2] = a2; m.x[3] = a3; m.x[4] = a4; m.x[5] = a5; { const uint64_t *up_ = (const uint64_t *)__builtin_frame_address(0) + 2; m.x[6] = up_[0]; m.x[7] = up_[1]; for (i = 0; i < 4; i++) ST(up_ + 2 + i, (uintptr_t)(stk + 65536 + 8 * i), 8); } m.v[0].f64[0] = d0; m.v[1].f64[0] = d1; m.sp = (uint64_t)(uintptr_t)(stk + 65536); \
 f##_t(&m); r.x = m.x[0]; r.d = m.v[0].f64[0]; return r; }
