// The ciphers of the library behind one interface, and reference models of them and of the streaming layer.
#pragma once
#include "vh.h"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/aes.h>
#include <openssl/des.h>
#include <openssl/blowfish.h>
#include <openssl/seed.h>
#include <openssl/evp.h>
#include "refdes.h"

enum { A_DES, A_DES2, A_DES3, A_AES128, A_AES192, A_AES256, A_SEED, A_ARIA128, A_ARIA192, A_ARIA256, A_BF, NALG };

union AnyCtx { RaDesCtx des; RaAesCtx aes; RaSeedCtx seed; RaAriaCtx aria; RaBlowfishCtx bf; };

struct Alg {
	const char *name; int blk, keylen; size_t ctxsize;
};
static const Alg ALG[NALG] = {
	{"DES", 8, 8, sizeof(RaDesCtx)}, {"DES-EDE2", 8, 16, sizeof(RaDesCtx)}, {"DES-EDE3", 8, 24, sizeof(RaDesCtx)},
	{"AES-128", 16, 16, sizeof(RaAesCtx)}, {"AES-192", 16, 24, sizeof(RaAesCtx)}, {"AES-256", 16, 32, sizeof(RaAesCtx)},
	{"SEED", 16, 16, sizeof(RaSeedCtx)},
	{"ARIA-128", 16, 16, sizeof(RaAriaCtx)}, {"ARIA-192", 16, 24, sizeof(RaAriaCtx)}, {"ARIA-256", 16, 32, sizeof(RaAriaCtx)},
	{"Blowfish", 8, 16, sizeof(RaBlowfishCtx)},
};
static const char *MODE[4] = {"ECB", "CBC", "CFB", "OFB"};

static inline void alg_init(int a, void *c, const uint8_t *key, int mode, int keylen = -1) {
	RaBlockCipherMode m = (RaBlockCipherMode)mode;
	switch (a) {
	case A_DES: RaDesInit((RaDesCtx *)c, key, RA_DES, m); break;
	case A_DES2: RaDesInit((RaDesCtx *)c, key, RA_DES_EDE2, m); break;
	case A_DES3: RaDesInit((RaDesCtx *)c, key, RA_DES_EDE3, m); break;
	case A_AES128: RaAesInit((RaAesCtx *)c, key, RA_AES_128, m); break;
	case A_AES192: RaAesInit((RaAesCtx *)c, key, RA_AES_192, m); break;
	case A_AES256: RaAesInit((RaAesCtx *)c, key, RA_AES_256, m); break;
	case A_SEED: RaSeedInit((RaSeedCtx *)c, key, m); break;
	case A_ARIA128: RaAriaInit((RaAriaCtx *)c, key, RA_ARIA_128, m); break;
	case A_ARIA192: RaAriaInit((RaAriaCtx *)c, key, RA_ARIA_192, m); break;
	case A_ARIA256: RaAriaInit((RaAriaCtx *)c, key, RA_ARIA_256, m); break;
	case A_BF: RaBlowfishInit((RaBlowfishCtx *)c, key, keylen < 0 ? 16 : keylen, m); break;
	}
}
static inline int alg_create_(int a, void **c, const uint8_t *key, int mode, int keylen) {
	RaBlockCipherMode m = (RaBlockCipherMode)mode;
	switch (a) {
	case A_DES: return RaDesCreate(key, RA_DES, m, (RaDesCtx **)c);
	case A_DES2: return RaDesCreate(key, RA_DES_EDE2, m, (RaDesCtx **)c);
	case A_DES3: return RaDesCreate(key, RA_DES_EDE3, m, (RaDesCtx **)c);
	case A_AES128: return RaAesCreate(key, RA_AES_128, m, (RaAesCtx **)c);
	case A_AES192: return RaAesCreate(key, RA_AES_192, m, (RaAesCtx **)c);
	case A_AES256: return RaAesCreate(key, RA_AES_256, m, (RaAesCtx **)c);
	case A_SEED: return RaSeedCreate(key, m, (RaSeedCtx **)c);
	case A_ARIA128: return RaAriaCreate(key, RA_ARIA_128, m, (RaAriaCtx **)c);
	case A_ARIA192: return RaAriaCreate(key, RA_ARIA_192, m, (RaAriaCtx **)c);
	case A_ARIA256: return RaAriaCreate(key, RA_ARIA_256, m, (RaAriaCtx **)c);
	default: return RaBlowfishCreate(key, keylen < 0 ? 16 : keylen, m, (RaBlowfishCtx **)c);
	}
}
static inline int alg_create(int a, void **c, const uint8_t *key, int mode, int keylen = -1) { int r = alg_create_(a, c, key, mode, keylen); vh::from_lib(c); return r; }
#define ALG_DISPATCH(EXPR) \
	switch (a) { \
	case A_DES: case A_DES2: case A_DES3: { typedef RaDesCtx T; EXPR(Des) } break; \
	case A_AES128: case A_AES192: case A_AES256: { typedef RaAesCtx T; EXPR(Aes) } break; \
	case A_SEED: { typedef RaSeedCtx T; EXPR(Seed) } break; \
	case A_ARIA128: case A_ARIA192: case A_ARIA256: { typedef RaAriaCtx T; EXPR(Aria) } break; \
	default: { typedef RaBlowfishCtx T; EXPR(Blowfish) } break; }
static inline void alg_destroy(int a, void *c) {
#define E_(N) Ra##N##Destroy((T *)c);
	ALG_DISPATCH(E_)
#undef E_
}
static inline void alg_setiv(int a, void *c, const uint8_t *iv) {
#define E_(N) Ra##N##SetIV((T *)c, iv);
	ALG_DISPATCH(E_)
#undef E_
}
static inline void alg_getiv(int a, void *c, uint8_t *iv) {
#define E_(N) Ra##N##GetIV((T *)c, iv);
	ALG_DISPATCH(E_)
#undef E_
}
static inline int alg_proc(int a, void *c, bool dec, const uint8_t *in, int n, uint8_t *out) {
#define E_(N) return dec ? Ra##N##Decrypt((T *)c, in, n, out) : Ra##N##Encrypt((T *)c, in, n, out);
	ALG_DISPATCH(E_)
#undef E_
	return -1;
}
static inline int alg_final(int a, void *c, bool dec, const uint8_t *in, int n, uint8_t *out, int pad) {
	RaBlockCipherPaddingType p = (RaBlockCipherPaddingType)pad;
#define E_(N) return dec ? Ra##N##DecryptFinal((T *)c, in, n, out, p) : Ra##N##EncryptFinal((T *)c, in, n, out, p);
	ALG_DISPATCH(E_)
#undef E_
	return -1;
}

// ---- reference block transforms (OpenSSL) ----
struct RefKey {
	int a;
	RefDes d[3];
	static bool &des_hit() { static bool h; return h; }
	// which of the two DES tables the library has; decided once by probing, see refdes.h
	static int des_variant() {
		static int v = -1; if (v >= 0) return v;
		uint8_t key[8] = {0}, p[8], std_[8], def[8], o[8]; memset(p, 255, 8); RefDes r; r.set(key); r.crypt(p, std_, false, 0); r.crypt(p, def, false, 1);
		RaDesCtx c; RaDesInit(&c, key, RA_DES, RA_BLOCK_MODE_ECB); RaDesEncrypt(&c, p, 8, o);
		return v = memcmp(o, def, 8) ? 0 : 1;
	}
	void des(const uint8_t *in, uint8_t *out, bool dec, int v) {
		for (int i = 0; i < 3; i++) d[i].hit = false;
		if (a == A_DES) d[0].crypt(in, out, dec, v);
		else { uint8_t t[8], u[8]; int f = dec ? 2 : 0, l = dec ? 0 : 2; d[f].crypt(in, t, dec, v); d[1].crypt(t, u, !dec, v); d[l].crypt(u, out, dec, v); }
		des_hit() = d[0].hit || d[1].hit || d[2].hit;
	}
	AES_KEY ae, ad;
	SEED_KEY_SCHEDULE s;
	BF_KEY b;
	EVP_CIPHER_CTX *ee = nullptr, *ed = nullptr;
	RefKey() {}
	RefKey(const RefKey &) = delete;
	~RefKey() { if (ee) EVP_CIPHER_CTX_free(ee); if (ed) EVP_CIPHER_CTX_free(ed); }
	void set(int alg, const uint8_t *key, int keylen = -1) {
		a = alg;
		switch (a) {
		case A_DES: d[0].set(key); d[1] = d[0]; d[2] = d[0]; break;
		case A_DES2: d[0].set(key); d[1].set(key + 8); d[2] = d[0]; break;
		case A_DES3: for (int i = 0; i < 3; i++) d[i].set(key + 8 * i); break;
		case A_AES128: case A_AES192: case A_AES256:
			AES_set_encrypt_key(key, ALG[a].keylen * 8, &ae); AES_set_decrypt_key(key, ALG[a].keylen * 8, &ad); break;
		case A_SEED: SEED_set_key(key, &s); break;
		case A_BF: { if (keylen < 0) keylen = 16; BF_set_key(&b, keylen, key); break; }
		default: {
			static const EVP_CIPHER *T[3]; if (!T[0]) { T[0] = EVP_aria_128_ecb(); T[1] = EVP_aria_192_ecb(); T[2] = EVP_aria_256_ecb(); }
			if (!ee) { ee = EVP_CIPHER_CTX_new(); ed = EVP_CIPHER_CTX_new(); }
			EVP_EncryptInit_ex(ee, T[a - A_ARIA128], NULL, key, NULL); EVP_CIPHER_CTX_set_padding(ee, 0);
			EVP_DecryptInit_ex(ed, T[a - A_ARIA128], NULL, key, NULL); EVP_CIPHER_CTX_set_padding(ed, 0);
		} }
	}
	void enc(const uint8_t *in, uint8_t *out) {
		int n;
		switch (a) {
		case A_DES: case A_DES2: case A_DES3: des(in, out, false, des_variant()); break;
		case A_AES128: case A_AES192: case A_AES256: AES_encrypt(in, out, &ae); break;
		case A_SEED: SEED_encrypt(in, out, &s); break;
		case A_BF: BF_ecb_encrypt(in, out, &b, BF_ENCRYPT); break;
		default: EVP_EncryptUpdate(ee, out, &n, in, 16); break;
		}
	}
	void dec(const uint8_t *in, uint8_t *out) {
		int n;
		switch (a) {
		case A_DES: case A_DES2: case A_DES3: des(in, out, true, des_variant()); break;
		case A_AES128: case A_AES192: case A_AES256: AES_decrypt(in, out, &ad); break;
		case A_SEED: SEED_decrypt(in, out, &s); break;
		case A_BF: BF_ecb_encrypt(in, out, &b, BF_DECRYPT); break;
		default: EVP_DecryptUpdate(ed, out, &n, in, 16); break;
		}
	}
};

// ---- reference model of a streaming context ----
struct Model {
	RefKey *k; int mode, B; uint8_t iv[16]; std::vector<uint8_t> pend; bool pdec = false;
	void init(RefKey *key, int m) { k = key; mode = m; B = ALG[key->a].blk; memset(iv, 0, 16); pend.clear(); }
	void setiv(const uint8_t *v) { memcpy(iv, v, B); pend.clear(); }
	void block(bool dec, const uint8_t *in, uint8_t *out) {
		uint8_t t[16], o[16];
		switch (mode) {
		case 0: dec ? k->dec(in, o) : k->enc(in, o); break;
		case 1: if (!dec) { for (int i = 0; i < B; i++) t[i] = in[i] ^ iv[i]; k->enc(t, o); memcpy(iv, o, B); }
			else { k->dec(in, o); for (int i = 0; i < B; i++) o[i] ^= iv[i]; memcpy(iv, in, B); } break;
		case 2: k->enc(iv, t); for (int i = 0; i < B; i++) o[i] = in[i] ^ t[i]; memcpy(iv, dec ? in : o, B); break;
		case 3: k->enc(iv, t); memcpy(iv, t, B); for (int i = 0; i < B; i++) o[i] = in[i] ^ t[i]; break;
		}
		memcpy(out, o, B);
	}
	std::vector<uint8_t> proc(bool dec, const uint8_t *in, int n) {
		std::vector<uint8_t> out; if (n <= 0) return out;
		pend.insert(pend.end(), in, in + n);
		size_t m = pend.size() / B * B; out.resize(m);
		for (size_t i = 0; i < m; i += B) block(dec, &pend[i], &out[i]);
		pend.erase(pend.begin(), pend.begin() + m);
		return out;
	}
	// returns everything written; ret is the value the call returns
	std::vector<uint8_t> fin(bool dec, const uint8_t *in, int n, int pad, int &ret) {
		std::vector<uint8_t> out = proc(dec, in, n);
		if (!dec) {
			if (pad == RA_BLOCK_PADDING_NONE) pend.clear();
			else if (pad == RA_BLOCK_PADDING_ZERO ? !pend.empty() : true) {
				int v = B - (int)pend.size();
				pend.resize(B, pad == RA_BLOCK_PADDING_ZERO ? 0 : (uint8_t)v);
				uint8_t o[16]; block(false, pend.data(), o); out.insert(out.end(), o, o + B); pend.clear();
			}
			ret = (int)out.size();
		} else {
			pend.clear(); ret = (int)out.size();
			if (ret && pad == RA_BLOCK_PADDING_PKCS7) {
				int v = out.back();
				if (v >= 1 && v <= B) { bool ok = true; for (int i = 0; i < v; i++) ok &= out[ret - 1 - i] == v; if (ok) ret -= v; }
			}
		}
		return out;
	}
};

// A fixed per-algorithm set of keys; index 0.. are ordinary, the rest special
static inline void key_for(int a, int which, uint8_t key[64]) {
	switch (which) {
	case 0: vh::fillbuf(key, 64, 1000 + a); break;
	case 1: memset(key, 0, 64); break;
	case 2: memset(key, 0xff, 64); break;
	default: vh::fillbuf(key, 64, 5000 + which * 37 + a);
	}
}
static inline RefKey *ref_for(int a, int which) {
	static std::map<int, RefKey *> m; RefKey *&r = m[a * 100 + which];
	if (!r) { uint8_t key[64]; key_for(a, which, key); r = new RefKey; r->set(a, key); }
	return r;
}
