BC = "src/cipher/block_cipher.c"; BN = "src/com/bignumber.c"; RND = "src/com/random.c"; RSA = "src/pk/rsa.c"; ASN = "src/pk/asn1.c"; PR = "src/com/prime.c"; MO = "src/com/montexpmod.c"; GC = "src/com/gcd.c"
BUGS = {
"p01-aes192-last-rcon": dict(property="P01",
 edits=[("src/cipher/aes.c", "((uint8_t*)&tmpKey)[0] = (uint8_t)(s[((uint8_t*)&tmpKey)[1]] ^ rcon[i - 1]);", "((uint8_t*)&tmpKey)[0] = (uint8_t)(s[((uint8_t*)&tmpKey)[1]] ^ rcon[i - 2]);", 2)],
 needs="192-bit keys; encryption and decryption stay inverse to each other", breaks="the last round key of AES-192 uses the wrong round constant",
 demo=r'''int main(void) { uint8_t k[24], p[16], o[16], w[16]; struct RaAesCtx *c;
 unhex("000102030405060708090a0b0c0d0e0f1011121314151617", k); unhex("00112233445566778899aabbccddeeff", p); unhex("dda97ca4864cdfe06eaf70a0ec0d7191", w);
 EXPECT(RaAesCreate(k, RA_AES_192, RA_BLOCK_MODE_ECB, &c) == RA_ERR_SUCCESS);
 RaAesEncrypt(c, p, 16, o); EXPECT(!memcmp(o, w, 16)); RaAesDestroy(c); return 0; }'''),
"p02-ede3-third-key": dict(property="P02",
 edits=[("src/cipher/des.c", "\t\tRaDesInitKey(key + RA_KEY_LEN_DES * 2, ctx->round_key3);", "\t\tmemcpy(ctx->round_key3, ctx->round_key1, sizeof(ctx->round_key1));")],
 needs="three-key triple DES with a third key different from the first", breaks="the third key is ignored",
 demo=r'''int main(void) { uint8_t k[24], p[8] = {0}, o[8], o2[8]; struct RaDesCtx *c; int i;
 for (i = 0; i < 24; i++) k[i] = (uint8_t)(i * 37 + 11);
 EXPECT(RaDesCreate(k, RA_DES_EDE3, RA_BLOCK_MODE_ECB, &c) == 0); RaDesEncrypt(c, p, 8, o); RaDesDestroy(c);
 EXPECT(RaDesCreate(k, RA_DES_EDE2, RA_BLOCK_MODE_ECB, &c) == 0); RaDesEncrypt(c, p, 8, o2); RaDesDestroy(c);
 EXPECT(memcmp(o, o2, 8)); return 0; }'''),
"p03-aria192-shift": dict(property="P03",
 edits=[("src/cipher/aria.c", "ARIA_GSRK(ctx->round_key[14], w2, w3, 97);", "ARIA_GSRK(ctx->round_key[14], w2, w3, 109);")],
 needs="192-bit keys; encryption and decryption stay inverse to each other", breaks="the last ARIA-192 round key is rotated by the wrong distance",
 demo=r'''int main(void) { uint8_t k[24], p[16], o[16], w[16]; struct RaAriaCtx *c;
 unhex("000102030405060708090a0b0c0d0e0f1011121314151617", k); unhex("00112233445566778899aabbccddeeff", p); unhex("26449c1805dbe7aa25a468ce263a9e79", w);
 EXPECT(RaAriaCreate(k, RA_ARIA_192, RA_BLOCK_MODE_ECB, &c) == 0); RaAriaEncrypt(c, p, 16, o); EXPECT(!memcmp(o, w, 16)); RaAriaDestroy(c); return 0; }'''),
"p04-short-key-wrap": dict(property="P04",
 edits=[("src/cipher/blowfish.c", "\t\tp = (p + 4) % keyLen;", "\t\tp += 4;\n\t\tif (p >= keyLen)\n\t\t\tp -= keyLen;")],
 needs="a Blowfish key shorter than four bytes", breaks="keys of 1 to 3 bytes read past the key",
 demo=r'''int main(void) { uint8_t k[64] = {0}, p[8] = {1,2,3}, o[8], o2[8]; struct RaBlowfishCtx *c; memcpy(k, "abcQWERTY", 9);
 EXPECT(RaBlowfishCreate(k, 3, RA_BLOCK_MODE_ECB, &c) == 0); RaBlowfishEncrypt(c, p, 8, o); RaBlowfishDestroy(c);
 EXPECT(RaBlowfishCreate((const uint8_t *)"abcabc", 6, RA_BLOCK_MODE_ECB, &c) == 0); RaBlowfishEncrypt(c, p, 8, o2); RaBlowfishDestroy(c);
 EXPECT(!memcmp(o, o2, 8)); return 0; }'''),
"p05-key-index-mask": dict(property="P05",
 edits=[("src/cipher/rc4.c", "key[x % keyLen]", "key[x & (keyLen - 1)]")],
 needs="a key length that is not a power of two", breaks="part of the key is never used",
 demo=r'''int main(void) { uint8_t o[9], w[9]; struct RaRc4Ctx *c; unhex("bbf316e8d940af0ad3", w);
 EXPECT(RaRc4Create((const uint8_t *)"Key", 3, &c) == 0); RaRc4Encrypt(c, (const uint8_t *)"Plaintext", 9, o); EXPECT(!memcmp(o, w, 9)); RaRc4Destroy(c); return 0; }'''),
"p06-cfb-in-place": dict(property="P06",
 edits=[(BC, """		ctx->encryptBlock(ctx, (uint8_t *)ctx->iv, (uint8_t *)tmpOutput);
		memcpy(ctx->iv, input, ctx->blockSize);
		for (i = 0; i < ctx->blockSize / 4; i++) {
			tmpOutput[i] ^= ((uint32_t *)ctx->iv)[i];
		}
		memcpy(output, tmpOutput, ctx->blockSize);
""", """		ctx->encryptBlock(ctx, (uint8_t *)ctx->iv, (uint8_t *)tmpOutput);
		memcpy(tmpInput, input, ctx->blockSize);
		for (i = 0; i < ctx->blockSize / 4; i++) {
			tmpOutput[i] ^= tmpInput[i];
		}
		memcpy(output, tmpOutput, ctx->blockSize);
		memcpy(ctx->iv, input, ctx->blockSize);
""")],
 needs="CFB decryption of several blocks with the same buffer as input and output", breaks="the feedback is taken from the already overwritten ciphertext",
 demo=r'''int main(void) { uint8_t k[16] = "0123456789abcde", p[48], b[48]; struct RaAesCtx *c; int i; for (i = 0; i < 48; i++) p[i] = (uint8_t)i;
 EXPECT(RaAesCreate(k, RA_AES_128, RA_BLOCK_MODE_CFB, &c) == 0); RaAesEncrypt(c, p, 48, b); memset(k, 0, 16); RaAesSetIV(c, k);
 RaAesDecrypt(c, b, 48, b); EXPECT(!memcmp(b, p, 48)); RaAesDestroy(c); return 0; }'''),
"p07-large-call-count": dict(property="P07",
 edits=[(BC, "	int len;\n	int written_len = 0;\n", "	int len;\n	unsigned short written_len = 0;\n", 1)],
 needs="one decryption call over 64 KiB or more", breaks="the number of bytes written is reported modulo 65536",
 demo=r'''static uint8_t b[70000]; int main(void) { uint8_t k[16] = "0123456789abcde"; struct RaAesCtx *c;
 EXPECT(RaAesCreate(k, RA_AES_128, RA_BLOCK_MODE_ECB, &c) == 0); EXPECT(RaAesDecrypt(c, b, 69999, b) == 69984); RaAesDestroy(c); return 0; }'''),
"p08-pad-longer-than-block": dict(property="P08",
 edits=[(BC, "		if (len <= ctx->blockSize && len > 0) {", "		if (len <= RA_BLOCK_LEN_MAX && len > 0) {")],
 needs="an 8-byte block cipher and a last decrypted block of eight bytes of value 9 to 16 preceded by the same bytes", breaks="padding longer than a block is removed instead of left alone",
 demo=r'''int main(void) { uint8_t k[8] = "0123456", p[16], b[32], o[32]; struct RaDesCtx *c; int n; memset(p, 9, 16);
 EXPECT(RaDesCreate(k, RA_DES, RA_BLOCK_MODE_ECB, &c) == 0); n = RaDesEncryptFinal(c, p, 16, b, RA_BLOCK_PADDING_NONE); EXPECT(n == 16);
 n = RaDesDecryptFinal(c, b, 16, o, RA_BLOCK_PADDING_PKCS7); EXPECT(n == 16); RaDesDestroy(c); return 0; }'''),
"p09-setiv-keeps-pending": dict(property="P09",
 edits=[(BC, "	memcpy(ctx->iv, iv, ctx->blockSize);\n	ctx->bufferFilled = 0;\n", "	memcpy(ctx->iv, iv, ctx->blockSize);\n")],
 needs="setting a new IV after abandoning a message with part of a block pending", breaks="bytes of the abandoned message become part of the next one",
 demo=r'''int main(void) { uint8_t k[16] = "0123456789abcde", iv[16] = {3}, p[16] = "qwertyuiopasdfg", a[32], b[32]; struct RaAesCtx *c;
 EXPECT(RaAesCreate(k, RA_AES_128, RA_BLOCK_MODE_CBC, &c) == 0); RaAesSetIV(c, iv); EXPECT(RaAesEncryptFinal(c, p, 16, a, RA_BLOCK_PADDING_NONE) == 16);
 RaAesEncrypt(c, p, 5, b); RaAesSetIV(c, iv); EXPECT(RaAesEncryptFinal(c, p, 16, b, RA_BLOCK_PADDING_NONE) == 16); EXPECT(!memcmp(a, b, 16)); RaAesDestroy(c); return 0; }'''),
"p10-static-block-scratch": dict(property="P10",
 edits=[(BC, "	uint32_t tmpInput[RA_BLOCK_LEN_MAX / 4];", "	static uint32_t tmpInput[RA_BLOCK_LEN_MAX / 4];", 0)],
 needs="two threads encrypting at the same time with different contexts", breaks="the threads share one scratch block",
 demo=r'''#include <pthread.h>
static void *run(void *a) { int id = (int)(intptr_t)a; static __thread uint8_t p[4096], x[4096], y[4096]; uint8_t k[16]; int i; struct RaAesCtx *c; intptr_t bad = 0;
 memset(k, id, 16); memset(p, id * 3 + 1, 4096);
 for (i = 0; i < 20000; i++) { RaAesCreate(k, RA_AES_128, RA_BLOCK_MODE_CBC, &c); RaAesEncrypt(c, p, 4096, i ? y : x); RaAesDestroy(c);
  if (i && memcmp(x, y, 4096)) bad = 1; if (i && bad) break; } return (void *)bad; }
int main(void) { pthread_t t[4]; int i, bad = 0; void *r; for (i = 0; i < 4; i++) pthread_create(&t[i], 0, run, (void *)(intptr_t)i);
 for (i = 0; i < 4; i++) { pthread_join(t[i], &r); bad |= r != 0; } EXPECT(!bad); return 0; }'''),
"p11-sha512-length-high": dict(property="P11",
 edits=[("src/digest/sha2.c", "	val = (ctx->totalLen_h << 3) | (ctx->totalLen_l >> 29);\n	PUT_UINT32_BE(ctx->buffer + 128 - 8, val);", "	val = (ctx->totalLen_h << 3);\n	PUT_UINT32_BE(ctx->buffer + 128 - 8, val);")],
 needs="a SHA-512 or SHA-384 message of 512 MiB or more", breaks="the message length in the padding loses its upper bits",
 demo=r'''int main(void) { static uint8_t z[1 << 20]; uint8_t o[64], w[64]; struct RaSha2Ctx c; int i;
 RaSha512Init(&c); for (i = 0; i < 512; i++) RaSha512Update(&c, z, 1 << 20); RaSha512Final(&c, o);
 unhex(WANT, w); EXPECT(!memcmp(o, w, 64)); return 0; }'''),
"p12-has160-length-high": dict(property="P12",
 edits=[("src/digest/has160.c", "(ctx->totalLen_h << 3) | (ctx->totalLen_l >> 29)", "ctx->totalLen_h << 3")],
 needs="a HAS-160 message of 512 MiB or more", breaks="the message length in the padding loses its upper bits",
 demo=r'''int main(void) { static uint8_t z[1 << 20]; uint8_t a[20], b[20]; struct RaHas160Ctx c; int i;
 /* the length field of a message of 2^29 bytes differs from that of an empty message only above bit 31: compare with the padding done by hand */
 RaHas160Init(&c); for (i = 0; i < 512; i++) RaHas160Update(&c, z, 1 << 20); RaHas160Final(&c, a);
 RaHas160Init(&c); for (i = 0; i < 512; i++) RaHas160Update(&c, z, 1 << 20); z[0] = 0x80; z[60] = 1; RaHas160Update(&c, z, 64);
 for (i = 0; i < 5; i++) { b[4 * i] = (uint8_t)c.h[i]; b[4 * i + 1] = (uint8_t)(c.h[i] >> 8); b[4 * i + 2] = (uint8_t)(c.h[i] >> 16); b[4 * i + 3] = (uint8_t)(c.h[i] >> 24); }
 EXPECT(!memcmp(a, b, 20)); return 0; }'''),
"p13-has160-exact-fill": dict(property="P13",
 edits=[("src/digest/has160.c", "bufferRemain < 64 && bufferRemain <= len", "bufferRemain < 64 && bufferRemain < len")],
 needs="an update that fills a partly filled block exactly", breaks="that block is not hashed",
 demo=r'''int main(void) { uint8_t m[64], a[20], b[20]; struct RaHas160Ctx c; int i; for (i = 0; i < 64; i++) m[i] = (uint8_t)i; RaHas160(m, 64, a);
 RaHas160Init(&c); RaHas160Update(&c, m, 10); RaHas160Update(&c, m + 10, 54); RaHas160Final(&c, b); EXPECT(!memcmp(a, b, 20)); return 0; }'''),
"p14-w32-mul-carry": dict(property="P14",
 edits=[(BN, "		val >>= 32;\n		val += c;\n		if (val > 0) {", "		val >>= 32;\n		if (val > 0) {", 0)],
 needs="a build with 32-bit words and a carry out of the last column of a partial product", breaks="32-bit builds multiply wrongly",
 cc="-O1 -DBN_WORD_BYTE=4 -DBN_WORD_BIT=32",
 demo=r'''int main(void) { struct RaBigNumber *a = bnhex("ffffffff", 32), *b = bnhex("00000002ffffffff", 32), *r = BnNew(512); uint8_t o[12], w[12];
 EXPECT(BnMul(r, a, b) == 0); EXPECT(BnToFixedByteArray(r, o, 12) > 0); unhex("00000002fffffffc00000001", w); EXPECT(!memcmp(o, w, 12)); return 0; }'''),
"p15-add-carry-into-ones": dict(property="P15",
 edits=[(BN, "			val++;\n			c = (val <= (*ad));\n		}\n		*rd = (bn_uint_t)val;", "			val++;\n			c = (val < (*ad));\n		}\n		*rd = (bn_uint_t)val;")],
 needs="a carry into a word of the shorter number that is all ones", breaks="the carry is lost",
 demo=r'''int main(void) { struct RaBigNumber *a = bnhex("00112233445566778899aabbccddeeff0102030405060708", 6), *b = bnhex("ffffffffffffffffffffffffffffffff", 6), *r = BnNewW(6); uint8_t o[24], w[24];
 EXPECT(BnAdd(r, a, b) == 0); EXPECT(BnToFixedByteArray(r, o, 24) > 0); unhex("00112233445566788899aabbccddeeff0102030405060707", w); EXPECT(!memcmp(o, w, 24)); return 0; }'''),
"p16-mul-carry-equal": dict(property="P16",
 edits=[(BN, "				if (val.low <= cw)\n					val.high++;", "				if (val.low < cw)\n					val.high++;", 0)],
 needs="a partial product whose low word is all ones together with a carry from the previous column", breaks="a carry is lost in the product",
 demo=r'''int main(void) { struct RaBigNumber *a, *b, *r = BnNewW(8); uint8_t o[32], w[32]; int bad = 0;
 a = bnhex("00000000000000010000000000000001", 4); b = bnhex("ffffffffffffffffffffffffffffffff", 4); EXPECT(BnMul(r, a, b) == 0); EXPECT(BnToFixedByteArray(r, o, 32) > 0);
 unhex("0000000000000001" "0000000000000000" "fffffffffffffffe" "ffffffffffffffff", w); bad |= memcmp(o, w, 32) != 0;
 EXPECT(!bad); return 0; }'''),
"p17-div-equal-digit": dict(property="P17",
 edits=[(BN, "		if (ru.high != 0 || ru.low >= bu) {", "		if (ru.high != 0 || ru.low > bu) {", 1)],
 needs="a running remainder whose top word equals the top word of the divisor", breaks="a quotient digit of one is skipped",
 demo=r'''int main(void) { struct RaBigNumber *a = bnhex("800000000000000000000000000000070000000000000005", 6), *b = bnhex("80000000000000000000000000000003", 6), *q = BnNewW(6), *r = BnNewW(6), *t = BnNewW(8), *u = BnNewW(9);
 EXPECT(BnDiv(q, r, a, b) == 0); EXPECT(BnCmp(r, b) < 0); BnMul(t, q, b); BnAdd(u, t, r); EXPECT(BnCmp(u, a) == 0);
 EXPECT(BnDiv(q, r, b, b) == 0); EXPECT(BnCmpInt(q, 1) == 0 && BnCmpInt(r, 0) == 0); return 0; }'''),
"p20-all-zero-bytes": dict(property="P20",
 edits=[(BN, "		while ( len > 1 && d[0] == 0x00 ) {", "		while ( len > 0 && d[0] == 0x00 ) {")],
 needs="reading an unsigned number from bytes that are all zero", breaks="a number without words, and a write in front of its storage",
 demo=r'''int main(void) { struct RaBigNumber *a = bnhex("ffffffff", 4); uint8_t z[6] = {0}; EXPECT(BnSetUByteArray(a, z, 6) == 0); EXPECT(BnGetLength(a) == 1); EXPECT(BnCmpUInt(a, 0) == 0); return 0; }'''),
"p21-add-writes-past-end": dict(property="P21",
 edits=[(BN, "		if (r->max_length <= r->length) {\n			assert(0);\n			return RA_ERR_NUMBER_SIZE;\n		}\n\n		*rd = 1;\n		r->length++;\n	}\n	return RA_ERR_SUCCESS;\n}\n\n// r = a - b (a > b)", "		if (r->max_length < r->length) {\n			assert(0);\n			return RA_ERR_NUMBER_SIZE;\n		}\n\n		*rd = 1;\n		r->length++;\n	}\n	return RA_ERR_SUCCESS;\n}\n\n// r = a - b (a > b)")],
 needs="a sum one word longer than the capacity of its result", breaks="the carry is written past the number's storage",
 cc="-O1 -DNDEBUG",
 demo=r'''int main(void) { struct RaBigNumber *a = bnhex("ffffffffffffffffffffffffffffffff", 2), *r = BnNewW(2); EXPECT(BnAdd(r, a, a) == RA_ERR_NUMBER_SIZE); EXPECT(BnGetLength(r) <= BnGetMaxLength(r)); return 0; }'''),
"p22-both-cofactors-unsigned": dict(property="P22",
 edits=[(GC, "		if (isUnsigned && BN_ISNEG(s_1)) {", "		if (isUnsigned && BN_ISNEG(s_1) && b == NULL) {")],
 needs="asking for both coefficients in unsigned form when the first one comes out negative", breaks="the first coefficient stays negative",
 demo=r'''int main(void) { struct RaBigNumber *a = BnNewW(4), *b = BnNewW(4), *m = BnNewW(2), *n = BnNewW(2); int i, j;
 for (i = 1; i < 40; i++) for (j = 2; j < 40; j++) { BnSetUInt(m, i); BnSetUInt(n, j); EXPECT(GetGCDEx(NULL, a, b, m, n, 1) == 0); EXPECT(BnCmpInt(a, 0) >= 0); } return 0; }'''),
"p23-redc-carry-ripple": dict(property="P23",
 edits=[(MO, "		while (c)\n		{\n			*td += c;\n			c = ( (*td) == 0 );\n			td++;\n		}", "		if (c)\n		{\n			*td += c;\n			td++;\n		}")],
 needs="a reduction step whose carry meets a word of all ones", breaks="the carry stops after one word, so a power is wrong",
 demo=r'''static int tryone(const char *n, const char *a) { struct RaBigNumber *N = bnhex(n, 16), *A = bnhex(a, 16), *e = BnNewW(2), *r = BnNewW(16), *t = BnNewW(40), *u = BnNewW(16); struct RaMontCtx *c; int bad, i;
 BnSetUInt(e, 3); EXPECT(RaMontCreate(N, &c) == 0); EXPECT(RaMontExpMod(c, r, A, e) == 0); BnSetUInt(u, 1);
 for (i = 0; i < 3; i++) { BnMul(t, u, A); BnMod(u, t, N); } bad = BnCmp(r, u) != 0; RaMontDestroy(c); BnFree(N); BnFree(A); BnFree(e); BnFree(r); BnFree(t); BnFree(u); return bad; }
int main(void) { static const char *W[] = {"0000000000000001", "ffffffffffffffff", "8000000000000000", "7fffffffffffffff", "fffffffffffffffe", "0000000000000003", "8000000000000001", "fffffffffffffffd"};
 int i, j, k, l, p, q; char n[80], a[80]; for (i = 0; i < 8; i++) for (j = 0; j < 8; j++) for (k = 0; k < 8; k++) { if (k == 2 || k == 4) continue; sprintf(n, "%s%s%s", W[i], W[j], W[k]);
 for (p = 0; p < 8; p++) for (q = 0; q < 8; q++) for (l = 0; l < 8; l++) { sprintf(a, "%s%s%s", W[p], W[q], W[l]); if (strcmp(a, n) >= 0) continue; if (tryone(n, a)) FAIL("wrong power %s %s", n, a); } } return 0; }'''),
"p24-no-rounds-for-large": dict(property="P24",
 edits=[(PR, "	if (bit >= 1024) {\n		checkCount = 3;", "	if (bit >= 1024) {\n		checkCount = 4096 / bit;", 1)],
 needs="testing a number of more than 4096 bits", breaks="no test round is run, so every odd number that long counts as prime",
 demo=r'''int main(void) { struct RaBigNumber *a = BnNew(4200); BnSetUInt(a, 15); BnShiftL(a, 4100); BnAddUInt(a, 15); EXPECT(RaIsPrimeNumber(a) != RA_ERR_SUCCESS); return 0; }'''),
"p26-equal-primes": dict(property="P26",
 edits=[(RSA, "while ( BnCmp( key->prime1, key->prime2 ) == 0 );", "while ( BnCmp( key->prime1, key->mod ) == 0 );")],
 needs="the generator finding the same prime twice, likely for small keys only", breaks="keys with a square modulus",
 demo=r'''int main(void) { struct RaRsaKeyPair *k; struct RaBigNumber *m = BnNew(64), *c = BnNew(64), *d = BnNew(64); int i, v;
 for (i = 0; i < 200; i++) { EXPECT(RaRsaCreateKeyPair(8, &k) == 0); for (v = 0; v < 128; v++) { BnSetUInt(m, v); EXPECT(RaRsaEncrypt(k, m, c) == 0); if (RaRsaDecrypt(k, c, d) || BnCmp(m, d)) FAIL("bad key"); } RaRsaDestroyKeyPair(k); } return 0; }'''),
"p28-second-prime-untested": dict(property="P28",
 edits=[(RSA, "	result = RaIsPrimeNumber(key->prime2);", "	result = RaIsPrimeNumber(key->prime1);")],
 needs="a key whose second factor is composite while everything else is consistent", breaks="such a key passes the check",
 demo=r'''int main(void) {  /* n = 11 * 21 = 231, e = d: e * d = 1 mod 10 and mod 20: e = 3, d = 7; inverse of 21 mod 11 = 21^-1 = 10^-1 = 10 */
 uint8_t b[64]; struct RaRsaKeyPair *k; int n = 0; static const uint8_t body[] = { 2,1,0, 2,2,0,231, 2,1,3, 2,1,7, 2,1,11, 2,1,21, 2,1,7, 2,1,7, 2,1,10 };
 b[n++] = 0x30; b[n++] = sizeof body; memcpy(b + n, body, sizeof body); n += sizeof body; EXPECT(RaRsaCreateKeyPriv(b, n, &k) == 0);
 EXPECT(RaRsaVerifyKey(k) != RA_ERR_SUCCESS); return 0; }'''),
"p29-zero-size-buffer": dict(property="P29",
 edits=[(RSA, "	if (asn1Data != NULL) {\n		if (dataLen < len) {", "	if (asn1Data != NULL && dataLen > 0) {\n		if (dataLen < len) {", 1)],
 needs="exporting a public key into a buffer of no bytes", breaks="success is reported although nothing was written",
 demo=r'''int main(void) { static const uint8_t b[] = { 0x30,7, 2,2,0,231, 2,1,3 }; struct RaRsaKeyPair *k; uint8_t o[8]; int n = 0; EXPECT(RaRsaCreateKeyPub(b, sizeof b, &k) == 0);
 EXPECT(RaRsaPubKeyToByteArray(k, o, 0, &n) == RA_ERR_OUT_OF_BUFFER); return 0; }'''),
"p30-nesting-one-too-deep": dict(property="P30",
 edits=[(ASN, "	if (ctx->dataSP >= RA_ASN1_DATA_STACK) {", "	if (ctx->dataSP > RA_ASN1_DATA_STACK) {")],
 needs="eleven nested constructed elements", breaks="the parser's stack is overrun by one entry",
 cc="-O1 -fsanitize=address -fno-sanitize-recover",
 demo=r'''int main(void) { uint8_t b[64]; int i, n; struct RaRsaKeyPair *k; for (n = 1; n <= 30; n++) { for (i = 0; i < n; i++) { b[2 * i] = 0x30; b[2 * i + 1] = (uint8_t)(2 * (n - i - 1)); } if (RaRsaCreateKeyFromByteArray(b, 2 * n, &k) == 0) FAIL("accepted"); } return 0; }'''),
"p31-four-length-bytes": dict(property="P31",
 edits=[(ASN, "		if (length > 4) {", "		if (length > 3) {")],
 needs="a length written with four length bytes", breaks="a valid encoding is refused",
 demo=r'''int main(void) { static const uint8_t b[] = { 0x30,0x84,0,0,0,7, 2,2,0,231, 2,1,3 }; struct RaRsaKeyPair *k; EXPECT(RaRsaCreateKeyPub(b, sizeof b, &k) == 0); EXPECT(RaRsaKeyBitLength(k) == 8); return 0; }'''),
"p32-block-counter-16-bit": dict(property="P32",
 edits=[(RND, "	count_buffer[1] = (uint8_t)(ctx->count >> 16);", "	count_buffer[1] = (uint8_t)(ctx->count >> 24);")],
 needs="more than 65536 blocks from one generator", breaks="the block counter in the hash chain is wrong from there on",
 demo=r'''int main(void) { struct RaRandom *r; struct RaSha1Ctx h, t; uint8_t o[20], w[20], n[4]; uint32_t i; RaRandomCreate(RA_RAND_SHA160, (uint8_t *)"seed", 4, &r); RaSha1Init(&h);
 for (i = 0; i < 70000; i++) { RaSha1Update(&h, i ? w : (uint8_t *)"seed", i ? 20 : 4); n[0] = i >> 24; n[1] = i >> 16; n[2] = i >> 8; n[3] = i; RaSha1Update(&h, n, 4); t = h; RaSha1Final(&t, w); RaRandomBytes(r, 20, o); EXPECT(!memcmp(o, w, 20)); } return 0; }'''),
"p35-mont-unchecked": dict(property="P35",
 edits=[(MO, "		ctx->tmp == NULL || ctx->mul == NULL) {", "		ctx->tmp == NULL) {")],
 needs="memory running out at the last allocation of a Montgomery context", breaks="a context without its multiplication buffer is returned and used",
 cc='gcc -O1 -g -w -Isrc/include "$d/demo.c" _build/libracrypt.a -Wl,--wrap=malloc -o "$t/demo" -lm',
 demo=r'''int left = -1; void *__real_malloc(size_t n); void *__wrap_malloc(size_t n) { if (left >= 0 && left-- == 0) return NULL; return __real_malloc(n); }
int main(void) { struct RaBigNumber *N = BnNewW(4), *a = BnNewW(4), *r = BnNewW(8); struct RaMontCtx *c; int i, e; BnSetUInt(N, 1000003); BnSetUInt(a, 5);
 for (i = 0; i < 40; i++) { left = i; e = RaMontCreate(N, &c); left = -1; if (e == 0) { EXPECT(RaMontExpMod(c, r, a, a) == 0); RaMontDestroy(c); } } return 0; }'''),
}
import hashlib
_h = hashlib.sha512()
for _ in range(512): _h.update(bytes(1 << 20))
BUGS["p11-sha512-length-high"]["demo"] = BUGS["p11-sha512-length-high"]["demo"].replace("WANT", '"%s"' % _h.hexdigest())
