BC = "src/cipher/block_cipher.c"; BN = "src/com/bignumber.c"; RND = "src/com/random.c"; RSA = "src/pk/rsa.c"; ASN = "src/pk/asn1.c"; PR = "src/com/prime.c"; MO = "src/com/montexpmod.c"; GC = "src/com/gcd.c"
HDR = r'''static int bneq(struct RaBigNumber *x, const char *h) { struct RaBigNumber *y = bnhex(h, 64); int r = BnCmp(x, y); BnFree(y); return r == 0; }
'''
BUGS = {
"q01-portable-192-decrypt": dict(property="P01",
 edits=[("src/cipher/aes.c", "	for (round = round - 1; round >= 2; round -= 2) {", "	for (round = ctx->nr > 13 ? 13 : 9; round >= 2; round -= 2) {")],
 needs="decrypting with a 192-bit key on a processor without AES instructions", breaks="two rounds are skipped",
 cc="-O1",
 demo=r'''int main(void) { uint8_t k[24], c[16], o[16], w[16]; struct RaAesCtx *x;
 unhex("000102030405060708090a0b0c0d0e0f1011121314151617", k); unhex("00112233445566778899aabbccddeeff", w); unhex("dda97ca4864cdfe06eaf70a0ec0d7191", c);
 EXPECT(RaAesCreate(k, RA_AES_192, RA_BLOCK_MODE_ECB, &x) == 0); RaAesDecrypt(x, c, 16, o); EXPECT(!memcmp(o, w, 16)); RaAesDestroy(x); return 0; }'''),
"q01-ni-cached-answer": dict(property="P01",
 edits=[("src/cipher/aes_x86.c", '		"	cmp		$0xc0, %[nr]\\n"\n		"	jz		_start_dec_round13\\n"		// nr == 13\n', '		"	cmp		$0xc0, %[nr]\\n"\n		"	jbe		_start_dec_round13\\n"		// nr == 13\n'),
        ("src/cipher/aes_x86.c", '		"	jb		_start_dec_round11\\n"		// nr == 11\n', '		"	jb		_start_dec_round11\\n"		// never taken\n'),
        ("src/cipher/aes.c", "	for (i = 0; i < ctx->nr; i++) {\n#define I(x,y)", "	memset(ctx->rev_key, 0, sizeof(ctx->rev_key));\n	for (i = 0; i < ctx->nr; i++) {\n#define I(x,y)")],
 needs="decrypting with a 128-bit key", breaks="two extra rounds", skip=1,
 demo=r'''int main(void) { return 0; }'''),
"q02-ede3-equal-halves": dict(property="P02",
 edits=[("src/cipher/des.c", "	if (ctx->keyType == RA_DES) {\n		RaDesProcess(ctx, ctx->round_key1, &data_l, &data_r, 0);", "	if (ctx->keyType == RA_DES || memcmp(ctx->round_key1, ctx->round_key2, sizeof(ctx->round_key1)) == 0) {\n		RaDesProcess(ctx, ctx->round_key1, &data_l, &data_r, 0);"),
        ("src/cipher/des.c", "	if (ctx->keyType == RA_DES) {\n		RaDesProcess(ctx, ctx->round_key1, &data_l, &data_r, 1);", "	if (ctx->keyType == RA_DES || memcmp(ctx->round_key1, ctx->round_key2, sizeof(ctx->round_key1)) == 0) {\n		RaDesProcess(ctx, ctx->round_key1, &data_l, &data_r, 1);")],
 needs="three-key triple DES whose first two keys are the same", breaks="the third key is not used",
 demo=r'''int main(void) { uint8_t k[24], p[8] = {0}, o[8], w[8]; static struct RaDesCtx c; int i; for (i = 0; i < 24; i++) k[i] = (uint8_t)(i % 16 < 8 && i < 16 ? i * 37 + 11 : i * 51 + 3); memcpy(k + 8, k, 8);
 RaDesInit(&c, k, RA_DES_EDE3, RA_BLOCK_MODE_ECB); RaDesEncrypt(&c, p, 8, o); RaDesInit(&c, k + 16, RA_DES, RA_BLOCK_MODE_ECB); RaDesEncrypt(&c, p, 8, w); EXPECT(!memcmp(o, w, 8)); return 0; }'''),
"q03-aria256-fallthrough": dict(property="P03",
 edits=[("src/cipher/aria.c", "		ARIA_GSRK(ctx->round_key[16], w0, w1, 109);", "		ARIA_GSRK(ctx->round_key[16], w0, w1, 97);")],
 needs="256-bit ARIA keys; encryption and decryption stay inverse to each other", breaks="the last round key of ARIA-256 is rotated by the wrong distance",
 demo=r'''int main(void) { uint8_t k[32], p[16], o[16], w[16]; struct RaAriaCtx *c; int i; for (i = 0; i < 32; i++) k[i] = (uint8_t)i;
 unhex("00112233445566778899aabbccddeeff", p); unhex("f92bd7c79fb72e2f2b8f80c1972d24fc", w);
 EXPECT(RaAriaCreate(k, RA_ARIA_256, RA_BLOCK_MODE_ECB, &c) == 0); RaAriaEncrypt(c, p, 16, o); EXPECT(!memcmp(o, w, 16)); RaAriaDestroy(c); return 0; }'''),
"q04-wrap-to-first-byte": dict(property="P04",
 edits=[("src/cipher/blowfish.c", "| (key[(p + 2) % keyLen] << 8) |", "| (key[p + 2 < keyLen ? p + 2 : 0] << 8) |")],
 needs="a Blowfish key of an odd number of bytes above two, which wraps within the second byte of a word", breaks="the first key byte is used instead of the second",
 demo=r'''int main(void) { uint8_t k[15], p[8] = {0}, o[8], w[8]; struct RaBlowfishCtx *c; int i; for (i = 0; i < 15; i++) k[i] = (uint8_t)(i % 5 * 40 + 9);
 EXPECT(RaBlowfishCreate(k, 5, RA_BLOCK_MODE_ECB, &c) == 0); RaBlowfishEncrypt(c, p, 8, o); RaBlowfishDestroy(c);
 { uint8_t k2[40]; for (i = 0; i < 40; i++) k2[i] = k[i % 5]; EXPECT(RaBlowfishCreate(k2, 40, RA_BLOCK_MODE_ECB, &c) == 0); RaBlowfishEncrypt(c, p, 8, w); RaBlowfishDestroy(c); } EXPECT(!memcmp(o, w, 8)); return 0; }'''),
"q05-position-lost-on-long-call": dict(property="P05",
 edits=[("src/cipher/rc4.c", "	ctx->y = y;\n\n	return n;", "	if (y > 0 || length < 0x8000)\n		ctx->y = y;\n\n	return n;")],
 needs="a call of 32 KiB or more that ends with the second index at zero (one in 256), then another call", breaks="the second index is not stored",
 demo=r'''static uint8_t z[40000], a[80000], b[80000]; int main(void) { struct RaRc4Ctx c; int i;
 for (i = 32768; i < 36000; i++) { RaRc4Init(&c, (const uint8_t *)"Secret", 6); RaRc4Encrypt(&c, z, 9, a); RaRc4Encrypt(&c, z, i, a + 9); RaRc4Encrypt(&c, z, 30, a + i + 9); RaRc4Init(&c, (const uint8_t *)"Secret", 6); RaRc4Encrypt(&c, z, 20000, b); RaRc4Encrypt(&c, z, i - 20000 + 9, b + 20000); RaRc4Encrypt(&c, z, 30, b + i + 9); EXPECT(!memcmp(a, b, i + 39)); } return 0; }'''),
"q06-init-leaves-iv": dict(property="P06",
 edits=[(BC, "	memset(ctx->iv, 0, ctx->blockSize);\n", "	memset(ctx->iv, 0, sizeof(ctx->iv));\n")],
 needs="a context in memory that is not zero, a 16-byte block cipher and no RaXxxSetIV call", breaks="only the first eight bytes of the initial vector are zero",
 demo=r'''int main(void) { uint8_t k[16] = "0123456789abcde", p[16] = "qwertyuiopasdfg", a[16], b[16]; static struct RaAesCtx c, d; memset(&c, 0x11, sizeof(c)); memset(&d, 0x77, sizeof(d));
 RaAesInit(&c, k, RA_AES_128, RA_BLOCK_MODE_CBC); RaAesInit(&d, k, RA_AES_128, RA_BLOCK_MODE_CBC); RaAesEncrypt(&c, p, 16, a); RaAesEncrypt(&d, p, 16, b); EXPECT(!memcmp(a, b, 16)); return 0; }'''),
"q07-exact-fill-lost": dict(property="P07",
 edits=[(BC, "	while (length >= ctx->blockSize) {\n		RaBlockCipherDecryptBlock(ctx, input, output);", "	while (length >= ctx->blockSize && (written_len == 0 || length > 0)) {\n		if (written_len == ctx->blockSize && length == ctx->blockSize && output == input)\n			break;\n		RaBlockCipherDecryptBlock(ctx, input, output);")],
 needs="decrypting exactly two blocks in place", breaks="the second block is kept back", 
 demo=r'''int main(void) { uint8_t k[16] = "0123456789abcde", p[32] = "qwertyuiopasdfgzxcvbnmlkjhgfdsa", b[32]; struct RaAesCtx *c;
 EXPECT(RaAesCreate(k, RA_AES_128, RA_BLOCK_MODE_ECB, &c) == 0); EXPECT(RaAesEncrypt(c, p, 32, b) == 32); EXPECT(RaAesDecrypt(c, b, 32, b) == 32); EXPECT(!memcmp(b, p, 32)); RaAesDestroy(c); return 0; }'''),
"q08-first-pad-byte-unchecked": dict(property="P08",
 edits=[(BC, "			for (i = written_len - 2; i >= written_len - len; i--) {", "			for (i = written_len - 2; i > written_len - len; i--) {")],
 needs="a message whose last block ends in malformed padding with only its first byte wrong", breaks="the malformed padding is accepted",
 demo=r'''int main(void) { uint8_t k[16] = "0123456789abcde", p[16] = {0}, b[16], o[32]; struct RaAesCtx *c; p[15] = p[14] = 3; p[13] = 7;
 EXPECT(RaAesCreate(k, RA_AES_128, RA_BLOCK_MODE_ECB, &c) == 0); EXPECT(RaAesEncrypt(c, p, 16, b) == 16); EXPECT(RaAesDecryptFinal(c, b, 16, o, RA_BLOCK_PADDING_PKCS7) == 16); RaAesDestroy(c); return 0; }'''),
"q09-no-padding-keeps-rest": dict(property="P09",
 edits=[(BC, "		// no padding. discard incomplete data.\n		ctx->bufferFilled = 0;\n		return written_len;", "		// no padding. discard incomplete data.\n		return written_len;")],
 needs="ending a message of an incomplete block without padding, then using the context again", breaks="the discarded bytes become part of the next message",
 demo=r'''int main(void) { uint8_t k[16] = "0123456789abcde", p[16] = "qwertyuiopasdfg", a[64], b[64]; struct RaAesCtx *c;
 EXPECT(RaAesCreate(k, RA_AES_128, RA_BLOCK_MODE_ECB, &c) == 0); EXPECT(RaAesEncryptFinal(c, p, 16, a, RA_BLOCK_PADDING_NONE) == 16);
 EXPECT(RaAesEncryptFinal(c, p, 5, b, RA_BLOCK_PADDING_NONE) == 0); EXPECT(RaAesEncryptFinal(c, p, 16, b, RA_BLOCK_PADDING_NONE) == 16); EXPECT(!memcmp(a, b, 16)); RaAesDestroy(c); return 0; }'''),
"q10-static-message-schedule": dict(property="P10",
 edits=[("src/digest/sha2.c", "	uint32_t temp;\n	uint32_t w[16];\n", "	uint32_t temp;\n	static uint32_t w[16];\n")],
 needs="two threads hashing at the same time with different contexts, on a processor without SHA instructions", breaks="the threads share one message schedule",
 cc="-O1 -fno-inline",
 demo=r'''#include <pthread.h>
static volatile int bad; static void *f(void *a) { uint8_t d[64], o[32], w[32]; int i; memset(d, (int)(size_t)a, 64); RaSha256(d, 64, w); for (i = 0; i < 60000 && !bad; i++) { RaSha256(d, 64, o); if (memcmp(o, w, 32)) bad = 1; } return 0; }
int main(void) { pthread_t t[4]; int i, r; for (r = 0; r < 20 && !bad; r++) { for (i = 0; i < 4; i++) pthread_create(&t[i], 0, f, (void *)(size_t)(i + 1)); for (i = 0; i < 4; i++) pthread_join(t[i], 0); } EXPECT(!bad); return 0; }'''),
"q11-sha1-long-length": dict(property="P11",
 edits=[("src/digest/sha1.c", "	val = (ctx->totalLen_h << 3) | (ctx->totalLen_l >> 29);", "	val = ctx->totalLen_h | (ctx->totalLen_l >> 29);")],
 needs="a SHA-1 message of 4 GiB or more", breaks="the high half of the length is not turned into bits",
 demo=r'''static uint8_t z[1 << 20]; int main(void) { struct RaSha1Ctx c; int i; uint8_t o[20], w[20]; RaSha1Init(&c); for (i = 0; i < 4097; i++) RaSha1Update(&c, z, 1 << 20); RaSha1Final(&c, o);
 unhex("ff078135cd5c3c2a125d1674afc6118650f287ea", w); EXPECT(!memcmp(o, w, 20)); return 0; }'''),
"q12-md4-high-length": dict(property="P12",
 edits=[("src/digest/md4.c", "	if (ctx->totalLen_l < (uint32_t)len)\n		ctx->totalLen_h++;", "	if (ctx->totalLen_l < (uint32_t)len && ctx->totalLen_h == 0)\n		ctx->totalLen_h++;")],
 needs="an MD4 message of 8 GiB or more", breaks="the high half of the length stays at one",
 demo=r'''static uint8_t z[64]; int main(void) { struct RaMd4Ctx c; RaMd4Init(&c); c.totalLen_h = 1; c.totalLen_l = 0xffffffc0u; RaMd4Update(&c, z, 64); EXPECT(c.totalLen_h == 2 && c.totalLen_l == 0); return 0; }'''),
"q13-md2-checksum-after-split": dict(property="P13",
 edits=[("src/digest/md2.c", "		data += bufferRemain;\n		len -= bufferRemain;\n		bufferFilled = 0;\n", "		data += bufferRemain;\n		len -= bufferRemain;\n		bufferFilled = len == 1 ? bufferFilled & 8 : 0;\n")],
 needs="an update that completes a block more than half full and leaves exactly one byte", breaks="that byte is put in the wrong place",
 demo=r'''int main(void) { uint8_t d[64], a[16], b[16]; struct RaMd2Ctx c; int i; for (i = 0; i < 64; i++) d[i] = (uint8_t)(i * 7);
 RaMd2Init(&c); RaMd2Update(&c, d, 17); RaMd2Final(&c, a); RaMd2Init(&c); RaMd2Update(&c, d, 9); RaMd2Update(&c, d + 9, 8); RaMd2Final(&c, b); EXPECT(!memcmp(a, b, 16)); return 0; }'''),
"q14-portable-one-correction": dict(property="P14",
 edits=[(BN, "		while (r.high < bq.high || (r.high == bq.high && r.low < bq.low)) {", "		if (r.high < bq.high || (r.high == bq.high && r.low < bq.low)) {", 0)],
 needs="a build without a native 128-bit type, and a division by a word whose first guess is two too large", breaks="only one correction is made",
 cc="-O1 -U__SIZEOF_INT128__",
 demo=r'''int main(void) { static const uint32_t w[] = { 0, 1, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu }; int i, j, k, l, m, n; for (i = 0; i < 6; i++) for (j = 0; j < 6; j++) for (k = 0; k < 6; k++) for (l = 0; l < 6; l++) for (m = 0; m < 6; m++) for (n = 0; n < 6; n++) {
 char h[40]; struct RaBigNumber *a, *q, *t = BnNewW(8), *b; bn_uint_t d = ((bn_uint_t)w[m] << 32) | w[n], r; if (!d) { BnFree(t); continue; } sprintf(h, "%08x%08x%08x%08x", w[i], w[j], w[k], w[l]); a = bnhex(h, 4); q = bnhex(h, 4); sprintf(h, "%016llx", (unsigned long long)d); b = bnhex(h, 2);
 EXPECT(BnDivUInt(q, d, &r) == 0); EXPECT(r < d); BnMul(t, q, b); BnAddUInt(t, r); EXPECT(BnCmp(t, a) == 0); BnFree(a); BnFree(b); BnFree(q); BnFree(t); } return 0; }'''),
"q15-sub-equal-lengths": dict(property="P15",
 edits=[(BN, "	for (; i < al && c; i++) {\n		c = ((*ad) == 0);\n		*rd = (*ad) - 1;\n", "	for (; i < al && c; i++) {\n		c = 0;\n		if ((*ad) == 0 && i + 1 < al - 1)\n			c = 1;\n		*rd = (*ad) - 1;\n")],
 needs="a borrow that runs through a zero word directly below the top word of the longer number", breaks="the borrow stops early",
 demo=HDR + r'''int main(void) { struct RaBigNumber *a = bnhex("000000000000000500000000000000000000000000000000", 8), *b = bnhex("01", 2), *r = BnNewW(8);
 EXPECT(BnSub(r, a, b) == 0); EXPECT(bneq(r, "0000000000000004FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF")); return 0; }'''),
"q16-sqr-carry-equal": dict(property="P16",
 edits=[(BN, "				val.low++;\n				if (val.low <= cw)\n					val.high++;\n", "				val.low++;\n				if (val.low < cw)\n					val.high++;\n", 1)],
 needs="squaring a number where a column sum is all ones exactly when a carry is pending", breaks="a carry of the square is lost",
 demo=HDR + r'''int main(void) { static const char *w[] = { "0000000000000000", "0000000000000001", "0000000000000002", "7FFFFFFFFFFFFFFF", "8000000000000000", "8000000000000001", "FFFFFFFFFFFFFFFE", "FFFFFFFFFFFFFFFF", "00000000FFFFFFFF", "FFFFFFFF00000000" }; char h[100]; int i, j, k, l; struct RaBigNumber *r = BnNewW(16), *m = BnNewW(16);
 for (i = 0; i < 10; i++) for (j = 0; j < 10; j++) for (k = 0; k < 10; k++) for (l = 0; l < 10; l++) { struct RaBigNumber *a, *b; sprintf(h, "%s%s%s%s", w[i], w[j], w[k], w[l]); a = bnhex(h, 8); b = BnClone(a);
 BnSqr(r, a); BnMul(m, a, b); EXPECT(BnCmp(r, m) == 0); BnFree(a); BnFree(b); } return 0; }'''),
"q17-one-correction": dict(property="P17",
 edits=[(BN, "			while (_BnCmp(rr, bq) < 0) {\n				_BnSubR(bq, bb);\n				qu--;\n			}\n			if (qu > 0) {\n", "			if (_BnCmp(rr, bq) < 0) {\n				_BnSubR(bq, bb);\n				qu--;\n			}\n			if (qu > 0) {\n", 1)],
 needs="a quotient digit whose first guess is two too large", breaks="only one correction is made",
 demo=r'''int main(void) { static const char *w[] = { "0000000000000000", "0000000000000001", "7FFFFFFFFFFFFFFF", "8000000000000000", "8000000000000001", "FFFFFFFFFFFFFFFE", "FFFFFFFFFFFFFFFF" }; char h[100]; int i, j, k, l, m; struct RaBigNumber *q = BnNewW(16), *r = BnNewW(16), *t = BnNewW(16), *u = BnNewW(16);
 for (i = 0; i < 7; i++) for (j = 0; j < 7; j++) for (k = 0; k < 7; k++) for (l = 0; l < 7; l++) for (m = 0; m < 7; m++) { struct RaBigNumber *a, *b; sprintf(h, "%s%s%s", w[i], w[j], w[k]); a = bnhex(h, 8); sprintf(h, "%s%s", w[l], w[m]); b = bnhex(h, 8);
 if (BnCmpUInt(b, 0)) { EXPECT(BnDiv(q, r, a, b) == 0); BnMul(t, q, b); BnAdd(u, t, r); EXPECT(BnCmp(u, a) == 0); EXPECT(BnCmp(r, b) < 0); } BnFree(a); BnFree(b); } return 0; }'''),
"q18-divuint-top-only": dict(property="P18",
 edits=[(BN, "		val = (val << 32) + bn->data[i];\n", "		val = (uint64_t)((uint32_t)val << 31) * 2 + bn->data[i];\n", 2)],
 needs="a build with 32-bit words and a running remainder with its top bit set (a divisor above 2^31)", breaks="the remainder loses its top bit", 
 cc="-O1 -DWORD32", skip=1, demo=r'''int main(void) { return 0; }'''),
"q18-moduint-no-carry": dict(property="P18",
 edits=[(BN, "	for (i = bn->length - 1; i >= 0; i--) {\n		val.high = val.low;\n		val.low = bn->data[i];\n\n		if (val.high > 0", "	for (i = bn->length - 1; i >= 0; i--) {\n		val.high = bn->data[i] == 0 && i > 0 && val.low == 1 ? 0 : val.low;\n		val.low = bn->data[i];\n\n		if (val.high > 0")],
 needs="a running remainder of one before a zero word", breaks="the remainder is dropped",
 demo=r'''int main(void) { struct RaBigNumber *a = bnhex("000000000000000100000000000000000000000000000000", 4); bn_uint_t r = 9; EXPECT(BnModUInt(a, 7, &r) == 0); EXPECT(r == 4); return 0; }'''),
"q19-shift-accurate-length": dict(property="P19",
 edits=[(BN, "		word = (BnGetBitLength(bn) + bit + BN_WORD_BIT - 1) / BN_WORD_BIT;\n		if (bn->max_length < word) {", "		word = (BnGetBitLength(bn) + bit) / BN_WORD_BIT + 1;\n		if (bn->max_length < word) {")],
 needs="a left shift whose result fills its number to the last bit", breaks="the shift is refused (in a release build) or aborts",
 demo=HDR + r'''int main(void) { struct RaBigNumber *a = bnhex("01", 2); EXPECT(BnShiftL(a, 127) == 0); EXPECT(bneq(a, "80000000000000000000000000000000")); return 0; }'''),
"q20-fixed-zero-fill": dict(property="P20",
 edits=[(BN, "	memset( buffer, 0, offset );\n", "	memset( buffer, 0, offset > 256 ? 256 : offset );\n")],
 needs="writing a small number to a fixed field more than 256 bytes longer than it", breaks="part of the field is not filled",
 demo=r'''int main(void) { uint8_t b[400]; int i; struct RaBigNumber *a = bnhex("05", 1); memset(b, 0xee, 400); EXPECT(BnToFixedByteArray(a, b, 400) == 400); for (i = 0; i < 399; i++) EXPECT(b[i] == 0); EXPECT(b[399] == 5); return 0; }'''),
"q21-double-writes-past-end": dict(property="P21",
 edits=[(BN, "		if (r->max_length <= r->length) {\n			assert(0);\n			return RA_ERR_NUMBER_SIZE;\n		}\n\n		*rd = 1;\n		r->length++;\n	}\n	r->sign = a->sign;", "		if (r->max_length < r->length) {\n			assert(0);\n			return RA_ERR_NUMBER_SIZE;\n		}\n\n		*rd = 1;\n		r->length++;\n	}\n	r->sign = a->sign;")],
 needs="doubling a number with its top bit set into a result of the same size", breaks="one word is written behind the result",
 cc="-O1 -DNDEBUG",
 demo=r'''int main(void) { struct RaBigNumber *a = bnhex("80000000000000000000000000000001", 2), *r = BnNewW(2); EXPECT(a->length == (int)a->max_length && r->max_length == a->max_length); EXPECT(BnDouble(r, a) != RA_ERR_SUCCESS); EXPECT((int)r->length <= (int)r->max_length); return 0; }'''),
"q22-wrong-modulus-alone": dict(property="P22",
 edits=[(GC, "			result = BnAdd(b, t_1, m);", "			result = BnAdd(b, t_1, a != NULL ? m : n);")],
 needs="asking only for the second coefficient, in unsigned form", breaks="a negative coefficient is brought into range with the wrong number",
 demo=HDR + r'''int main(void) { struct RaBigNumber *m = bnhex("0b", 2), *n = bnhex("1d", 2), *b = BnNewW(4), *r = BnNewW(4), *t = BnNewW(8); int i; for (i = 2; i < 11; i++) { BnSetUInt(n, (bn_uint_t)i); EXPECT(GetGCDEx(NULL, NULL, b, m, n, 1) == 0); EXPECT(BnCmp(b, m) <= 0); BnMul(t, b, n); BnMod(r, t, m); EXPECT(BnCmpUInt(r, 1) == 0); } return 0; }'''),
"q23-redc-equal": dict(property="P23",
 edits=[(MO, "	if (BnCmp(ctx->tmp, ctx->N) >= 0) {", "	if (BnCmp(ctx->tmp, ctx->N) > 0) {")],
 needs="an intermediate product that is a multiple of the modulus (a base that is zero modulo it, or a nilpotent power)", breaks="the result is the modulus instead of zero",
 demo=r'''int main(void) { struct RaBigNumber *n = bnhex("19", 1), *a = bnhex("05", 1), *e = bnhex("02", 1), *r = BnNewW(2); struct RaMontCtx *c; EXPECT(RaMontCreate(n, &c) == 0); EXPECT(RaMontExpMod(c, r, a, e) == 0); EXPECT(BnCmpUInt(r, 0) == 0); RaMontDestroy(c); return 0; }'''),
"q24-fewer-squarings": dict(property="P24",
 edits=[(PR, "		for (i = 1; i < s; i++) {\n", "		for (i = 1; i < s && i < 8; i++) {\n"), (PR, "		if (i != s)\n			continue;		// probable prime", "		if (i != s && i != 8)\n			continue;		// probable prime")],
 needs="a prime p with p - 1 divisible by a high power of two, tested with a base that needs more than seven squarings", breaks="such primes are called composite",
 demo=r'''int main(void) { struct RaBigNumber *p = bnhex("C0000001", 1); int i; (void)i; EXPECT(RaIsPrimeNumber(p) == RA_ERR_SUCCESS); return 0; }'''),
"q25-step-overflow": dict(property="P25",
 edits=[(PR, "	if (bit >= 1024) {\n		checkCount = 3;", "	if (bit < 30) {\n		checkCount = 0;		// the division table covers these\n	}\n	else if (bit >= 1024) {\n		checkCount = 3;", 0)],
 needs="generating a prime of 24 to 29 bits (the largest prime in the table is well below the square root of some of these)", breaks="products of two larger primes are returned",
 cc="-O1 -DRACRYPT_PRIME_MIN_TABLE",
 demo=r'''int main(void) { struct RaBigNumber *p = BnNewW(4); int i, n; for (i = 0; i < 4000; i++) { uint32_t v, d; EXPECT(RaGenPrimeNumberEx(p, 29, NULL, NULL, NULL) == 0); v = (uint32_t)p->data[0]; for (d = 3; (uint64_t)d * d <= v; d += 2) if (v % d == 0) FAIL("%u = %u * ...", v, d); } (void)n; return 0; }'''),
"q26-exponents-swapped-late": dict(property="P26",
 edits=[(RSA, "	BnAddInt(key->prime1, 1);\n	BnAddInt(key->prime2, 1);\n	result = GetGCDEx(NULL, key->coeff, NULL, key->prime2, key->prime1, 1);", "	BnAddInt(key->prime1, 1);\n	BnAddInt(key->prime2, 1);\n	result = GetGCDEx(NULL, key->coeff, NULL, key->prime2, key->prime1, BnCmp(key->prime1, key->prime2) > 0);")],
 needs="a generated key whose first prime is the smaller one and whose coefficient comes out negative", breaks="the coefficient is negative",
 demo=r'''int main(void) { struct RaRsaKeyPair *k; int i; for (i = 0; i < 60; i++) { EXPECT(RaRsaCreateKeyPair(64, &k) == 0); EXPECT(RaRsaVerifyKey(k) == RA_ERR_SUCCESS); RaRsaDestroyKeyPair(k); } return 0; }'''),
"q27-verify-size-of-signature": dict(property="P27",
 edits=[(RSA, "	decrypted = BnNewW(key->mod->length);", "	decrypted = BnNewW(secure->length);")],
 needs="a signature with fewer words than the modulus", breaks="verification fails or aborts",
 cc="-O1 -DNDEBUG",
 demo=r'''int main(void) { struct RaRsaKeyPair *k; struct RaBigNumber *s = bnhex("02", 1), *m = BnNewW(16); EXPECT(RaRsaCreateKeyPair(512, &k) == 0); EXPECT(RaRsaEncrypt(k, s, m) == 0); EXPECT(RaRsaVerify(k, s, m) == RA_ERR_SUCCESS); return 0; }'''),
"q28-coefficient-unchecked": dict(property="P28",
 edits=[(RSA, "	CHECK_KEY_DATA(BnCmp(temp, key->coeff) == 0);", "	CHECK_KEY_DATA(BnGetBitLength(temp) == BnGetBitLength(key->coeff));")],
 needs="a key that is right except for its coefficient", breaks="a wrong coefficient of the same length is accepted",
 demo=r'''int main(void) { struct RaRsaKeyPair *k, *q; uint8_t b[600]; int n; for (;;) { EXPECT(RaRsaCreateKeyPair(256, &k) == 0); EXPECT(RaRsaPrivKeyToByteArray(k, b, 600, &n) == 0); RaRsaDestroyKeyPair(k); if (b[n - 1] & 2) break; }
 b[n - 1] ^= 2; if (RaRsaCreateKeyFromByteArray(b, n, &q) == RA_ERR_SUCCESS) { EXPECT(RaRsaVerifyKey(q) != RA_ERR_SUCCESS); RaRsaDestroyKeyPair(q); } return 0; }'''),
"q29-exact-buffer-refused": dict(property="P29",
 edits=[(RSA, "		if (dataLen < len) {\n			result = RA_ERR_OUT_OF_BUFFER;", "		if (dataLen < len + (len >= 0x80 && len < 0x100)) {\n			result = RA_ERR_OUT_OF_BUFFER;", 0)],
 needs="exporting a private key of 128 to 255 bytes into a buffer of exactly the reported size", breaks="the export is refused",
 demo=r'''int main(void) { struct RaRsaKeyPair *k; uint8_t *b; int n, m; EXPECT(RaRsaCreateKeyPair(256, &k) == 0); EXPECT(RaRsaPrivKeyToByteArray(k, NULL, 0, &n) == 0); b = malloc(n); EXPECT(RaRsaPrivKeyToByteArray(k, b, n, &m) == 0 && m == n); return 0; }'''),
"q30-length-bytes-unchecked": dict(property="P30",
 edits=[(ASN, "		if (ctx->dataIndex + length > ctx->dataEnd) {\n			result = RA_ERR_OUT_OF_BUFFER;\n			goto _EXIT;\n		}\n		ctx->cur->dataLength = 0;", "		if (ctx->dataIndex + length > ctx->dataEnd + 1) {\n			result = RA_ERR_OUT_OF_BUFFER;\n			goto _EXIT;\n		}\n		ctx->cur->dataLength = 0;")],
 needs="key data that ends within a long-form length", breaks="one byte behind the data is read",
 demo=r'''#include <sys/mman.h>
int main(void) { uint8_t *p = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); struct RaRsaKeyPair *k; int n; static const uint8_t d[] = { 0x30, 0x84, 0x00, 0x00, 0x00 }; mprotect(p + 4096, 4096, PROT_NONE);
 for (n = 0; n <= 5; n++) { memcpy(p + 4096 - n, d, n); EXPECT(RaRsaCreateKeyFromByteArray(p + 4096 - n, n, &k) != RA_ERR_SUCCESS); } return 0; }'''),
"q31-one-length-byte-min": dict(property="P31",
 edits=[(ASN, "		if (length > 4) {", "		if (length > 4 || (length == 2 && ctx->dataIndex < ctx->dataEnd && ctx->data[ctx->dataIndex] == 0)) {")],
 needs="BER data with a length that has leading zero bytes", breaks="valid BER is refused",
 demo=r'''int main(void) { struct RaRsaKeyPair *k; static const uint8_t d[] = { 0x30, 0x82, 0x00, 0x08, 0x02, 0x02, 0x0b, 0xb9, 0x02, 0x02, 0x00, 0x83 }; uint8_t b[64]; int n = 0;
 static const uint8_t h[] = { 0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00 };
 b[n++] = 0x30; b[n++] = (uint8_t)(sizeof(h) + 3 + sizeof(d)); memcpy(b + n, h, sizeof(h)); n += sizeof(h); b[n++] = 3; b[n++] = (uint8_t)(sizeof(d) + 1); b[n++] = 0; memcpy(b + n, d, sizeof(d)); n += sizeof(d);
 EXPECT(RaRsaCreateKeyFromByteArray(b, n, &k) == RA_ERR_SUCCESS); RaRsaDestroyKeyPair(k); return 0; }'''),
"q32-counter-byte-shift": dict(property="P32",
 edits=[(RND, "	count_buffer[1] = (uint8_t)(ctx->count >> 16);", "	count_buffer[1] = (uint8_t)(ctx->count >> 15);")],
 needs="more than 32768 blocks from one generator", breaks="the block counter is written wrongly",
 demo=r'''int main(void) { struct RaRandom *r; uint8_t s[4] = {1,2,3,4}, h[20], o[20]; struct RaSha1Ctx c, d; uint32_t i; uint8_t cb[4];
 EXPECT(RaRandomCreate(RA_RAND_SHA160, s, 4, &r) == 0); RaSha1Init(&c); RaSha1Update(&c, s, 4);
 for (i = 0; i < 33000; i++) { cb[0] = (uint8_t)(i >> 24); cb[1] = (uint8_t)(i >> 16); cb[2] = (uint8_t)(i >> 8); cb[3] = (uint8_t)i; RaSha1Update(&c, cb, 4); d = c; RaSha1Final(&d, h); RaRandomBytes(r, 20, o); EXPECT(!memcmp(o, h, 20)); RaSha1Update(&c, h, 20); } return 0; }'''),
"q33-int-truncated-twice": dict(property="P33",
 edits=[(RND, "	return min + (uint32_t)(range * RaRandom(ctx));", "	return min + (uint32_t)(range * (float)RaRandom(ctx));")],
 needs="a generated word within 128 of the largest", breaks="the value above the upper limit is returned",
 demo=r'''int main(void) { struct RaRandom *r; uint32_t w; EXPECT(RaRandomCreate(RA_RAND_SHA160, (uint8_t *)"x", 1, &r) == 0);
 for (w = 0xfffffffeu; w > 0xffffff00u; w--) { r->buffer_offset = 0; r->buffer[0] = (uint8_t)(w >> 24); r->buffer[1] = (uint8_t)(w >> 16); r->buffer[2] = (uint8_t)(w >> 8); r->buffer[3] = (uint8_t)w; { uint32_t v = RaRandomInt(r, 10, 19); EXPECT(v >= 10 && v <= 19); } } return 0; }'''),
"q34-short-read-accepted": dict(property="P34",
 edits=[(RND, "		if (size == RA_RAND_SEED_LEN - 4) {", "		if (size > 0) {")],
 needs="the entropy device delivering fewer bytes than asked", breaks="the rest of the seed is whatever was on the stack",
 demo=r'''#include <unistd.h>
#include <fcntl.h>
#include <time.h>
static int fill; int open(const char *p, int f, ...) { return 77; } int close(int fd) { return 0; } ssize_t read(int fd, void *b, size_t n) { memset(b, 1, 5); return 5; }
int clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = 5; t->tv_nsec = 5; return 0; }
__attribute__((noinline)) static void dirty(int v) { volatile char x[4096]; int i; for (i = 0; i < 4096; i++) x[i] = (char)v; fill = x[17]; }
__attribute__((noinline)) static void one(uint8_t *o) { struct RaRandom *r; EXPECT(RaRandomCreate(RA_RAND_SHA160, NULL, 0, &r) == 0); RaRandomBytes(r, 20, o); RaRandomDestroy(r); }
int main(void) { uint8_t a[20], b[20]; dirty(0x11); one(a); dirty(0x66); one(b); EXPECT(!memcmp(a, b, 20)); return 0; }'''),
"q35-gcd-unchecked": dict(property="P35",
 edits=[(GC, "		st[i] = BnNewW(q->max_length * 2);\n		if (st[i] == NULL) {", "		st[i] = BnNewW(q->max_length * 2);\n		if (st[i] == NULL && i < 6) {")],
 needs="memory running out at the last allocation of the extended gcd", breaks="a null pointer is used",
 demo=r'''extern void *__libc_malloc(size_t); static int left = -1; void *malloc(size_t n) { if (left >= 0 && left-- == 0) return 0; return __libc_malloc(n); }
int main(void) { struct RaBigNumber *m = bnhex("1234567b", 1), *n = bnhex("0fffffff", 1), *a = BnNewW(4), *b = BnNewW(4); int i; for (i = 0; i < 14; i++) { left = i; GetGCDEx(NULL, a, b, m, n, 0); left = -1; } return 0; }'''),
"q36-length-not-trimmed": dict(property="P36",
 edits=[(BN, "	bn->length = word;\n	bn->sign = 0;\n	while (bn->length > 1 && bn->data[bn->length - 1] == 0)\n		bn->length--;\n", "	bn->length = word;\n	bn->sign = 0;\n	if (bn->length > 1 && bn->data[bn->length - 1] == 0)\n		bn->length--;\n")],
 needs="a generator delivering zeros for the two highest words", breaks="the number has leading zero words and compares as larger than it is",
 demo=r'''int main(void) { struct RaRandom *r; struct RaBigNumber *a = BnNewW(8), *b = BnNewW(8); EXPECT(RaRandomCreate(RA_RAND_SHA512, (uint8_t *)"x", 1, &r) == 0); memset(r->buffer, 0, 64); r->buffer[0] = 5; r->buffer_offset = 0;
 EXPECT(BnGenRandom(a, 256, r) == 0); BnSetUInt(b, 6); EXPECT(BnCmp(a, b) < 0); return 0; }'''),
"q37-coefficient-left": dict(property="P37",
 edits=[(RSA, "	if (key->coeff != NULL) {\n		BnClearFree(key->coeff);", "	if (key->coeff != NULL) {\n		BnFree(key->coeff);")],
 needs="looking at the memory of a destroyed key", breaks="the coefficient, which gives away a factor, is still in freed memory",
 demo=r'''extern void *__libc_malloc(size_t); extern void __libc_free(void *); static uint8_t pat[8]; static int watch, found;
static struct { void *p; size_t n; } t[4096]; static int nt;
void *malloc(size_t n) { void *p = __libc_malloc(n); if (nt < 4096) { t[nt].p = p; t[nt++].n = n; } return p; }
void free(void *p) { int i; size_t j; if (p && watch) for (i = nt - 1; i >= 0; i--) if (t[i].p == p) { for (j = 0; j + 8 <= t[i].n; j++) if (!memcmp((uint8_t *)p + j, pat, 8)) found = 1; break; } __libc_free(p); }
int main(void) { struct RaRsaKeyPair *k; static uint8_t b[2000]; int n, i; EXPECT(RaRsaCreateKeyPair(512, &k) == 0); EXPECT(RaRsaPrivKeyToByteArray(k, b, 2000, &n) == 0);
 for (i = 0; i < 8; i++) pat[i] = b[n - 1 - i]; nt = 0; { struct RaBigNumber **q = (struct RaBigNumber **)k; for (i = 0; i < 8; i++) if (q[i]) { t[nt].p = q[i]; t[nt++].n = sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * q[i]->max_length; } }
 watch = 1; RaRsaDestroyKeyPair(k); watch = 0; EXPECT(!found); return 0; }'''),
"q38-sign-borrowed": dict(property="P38",
 edits=[(BN, "	q->sign = a->sign ^ b->sign;\n\n	BnShiftR(rr, (uint32_t)bit);\n", "	q->sign = a->sign ^ b->sign;\n\n	BnShiftR(rr, (uint32_t)bit);\n	if (b->data[b->length - 1] == 1 && b->sign) {\n		b->sign = 0;\n		b->sign = 1;\n	}\n")], skip=1,
 needs="x", breaks="x", demo="int main(void){return 0;}"),
"q38-inverts-operand": dict(property="P38",
 edits=[(BN, "		neg = BnClone(bn);\n", "		neg = BnClone(bn);\n		bn->length += bn->length > 1 && bn->data[bn->length - 1] == 0;\n"), (MO, "	if (a->length > ctx->N->length) {\n		assert(0);", "	if (a->length > 1 && a->data[a->length - 1] == 0)\n		a->length--;\n	if (a->length > ctx->N->length) {\n		assert(0);")], skip=1,
 needs="x", breaks="x", demo="int main(void){return 0;}"),
"q38-div-normalizes-divisor": dict(property="P38",
 edits=[(BN, "	bit = BN_WORD_BIT - 1 - _BnGetMSBPos(b->data[b->length - 1]);\n	BnSet(aa, a);\n	BnSet(bb, b);\n	BnShiftL(aa, (uint32_t)bit);\n	BnShiftL(bb, (uint32_t)bit);\n\n	// copy first bb->length-1 of aa->data to rr\n	// this reduce loop count until rr gets greater than bb\n	BnSetInt(rr, 0);\n	if(", "	bit = BN_WORD_BIT - 1 - _BnGetMSBPos(b->data[b->length - 1]);\n	BnSet(aa, a);\n	BnShiftL(aa, (uint32_t)bit);\n	BnShiftL(b, (uint32_t)bit);\n	BnSet(bb, b);\n	BnShiftR(b, (uint32_t)bit);\n\n	// copy first bb->length-1 of aa->data to rr\n	// this reduce loop count until rr gets greater than bb\n	BnSetInt(rr, 0);\n	if(")],
 needs="a divisor that another thread uses, or that lies in read-only memory", breaks="the divisor is changed during the division and restored",
 demo=r'''#include <sys/mman.h>
int main(void) { struct RaBigNumber *a = bnhex("123456789abcdef0fedcba9876543210", 4), *b = bnhex("0000000000001234", 2), *q = BnNewW(8), *r = BnNewW(8); size_t n = sizeof(struct RaBigNumber) + 2 * sizeof(bn_uint_t);
 uint8_t *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); struct RaBigNumber *c = (struct RaBigNumber *)p; memcpy(p, b, n); c->data = (bn_uint_t *)(p + ((uint8_t *)b->data - (uint8_t *)b)); mprotect(p, 4096, PROT_READ);
 EXPECT(BnDiv(q, r, a, c) == 0); return 0; }'''),
}
for k in [k for k, b in BUGS.items() if b.pop("skip", 0)]: del BUGS[k]
for b in BUGS.values(): b.pop("new", 0)
