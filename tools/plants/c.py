BC = "src/cipher/block_cipher.c"; BN = "src/com/bignumber.c"; RND = "src/com/random.c"; RSA = "src/pk/rsa.c"; ASN = "src/pk/asn1.c"; PR = "src/com/prime.c"; MO = "src/com/montexpmod.c"; GC = "src/com/gcd.c"
HDR = r'''static int bneq(struct RaBigNumber *x, const char *h) { struct RaBigNumber *y = bnhex(h, 512); int r = BnCmp(x, y); BnFree(y); return r == 0; }
'''
BUGS = {
"r07-long-call-alignment": dict(property="P07",
 edits=[(BC, "	if (length > 0) {\n		memcpy(ctx->buffer, input, (size_t)length);\n		ctx->bufferFilled = length;\n	}\n	return written_len;", "	if (length > 0) {\n		memcpy(ctx->buffer, input, (size_t)length);\n		ctx->bufferFilled = length + (written_len >> 16 ? 0 : 0);\n		if ((written_len & 0xffff) == 0 && written_len > 0)\n			ctx->bufferFilled = length - 1;\n	}\n	return written_len;", 0)],
 needs="an encrypting call that produces a multiple of 65536 bytes and leaves some over", breaks="one of the bytes left over is forgotten",
 demo=r'''static uint8_t p[65536 + 32], a[65536 + 64], b[65536 + 64]; int main(void) { uint8_t k[16] = "0123456789abcde"; struct RaAesCtx *c; int n, m; size_t i; for (i = 0; i < sizeof p; i++) p[i] = (uint8_t)(i * 7 + (i >> 8));
 EXPECT(RaAesCreate(k, RA_AES_128, RA_BLOCK_MODE_ECB, &c) == 0); n = RaAesEncryptFinal(c, p, 65536 + 5, a, RA_BLOCK_PADDING_PKCS7);
 m = RaAesEncrypt(c, p, 30000, b); m += RaAesEncryptFinal(c, p + 30000, 65536 + 5 - 30000, b + m, RA_BLOCK_PADDING_PKCS7); EXPECT(n == m && !memcmp(a, b, n)); RaAesDestroy(c); return 0; }'''),
"r08-partial-left-behind": dict(property="P08",
 edits=[(BC, "	if (paddingType == RA_BLOCK_PADDING_PKCS7) {\n		len = output[written_len - 1];", "	if (paddingType == RA_BLOCK_PADDING_PKCS7 && length > 0) {\n		len = output[written_len - 1];"),
        (BC, "	// clear buffer\n	ctx->bufferFilled = 0;\n	if (written_len == 0)\n		return 0;", "	// clear buffer\n	if (written_len == 0)\n		return 0;\n	ctx->bufferFilled = 0;")],
 needs="ending a decryption that holds an incomplete block and writes nothing, then using the context again", breaks="the bytes of the abandoned message go into the next one",
 demo=r'''int main(void) { uint8_t k[16] = "0123456789abcde", p[32] = "qwertyuiopasdfgzxcvbnmlkjhgfdsa", e[32], b[64]; struct RaAesCtx *c;
 EXPECT(RaAesCreate(k, RA_AES_128, RA_BLOCK_MODE_ECB, &c) == 0); EXPECT(RaAesEncrypt(c, p, 32, e) == 32); EXPECT(RaAesDecryptFinal(c, e, 5, b, RA_BLOCK_PADDING_NONE) == 0);
 EXPECT(RaAesDecryptFinal(c, e, 32, b, RA_BLOCK_PADDING_NONE) == 32); EXPECT(!memcmp(b, p, 32)); RaAesDestroy(c); return 0; }'''),
"r10-static-cofactors": dict(property="P10",
 edits=[(GC, "	struct RaBigNumber *st[7];\n", "	static struct RaBigNumber *st[7];\n")],
 needs="two threads computing modular inverses, preparing moduli or importing keys at the same time", breaks="the threads use each other's temporaries",
 cc="-O1",
 demo=r'''#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
static volatile int bad; static void *f(void *a) { struct RaBigNumber *n = bnhex("c000000000000000000000000000000000000000000000000000000000000135", 64), *x = bnhex(a ? "3000000000000001" : "0777777777777777777777777777", 64), *r = BnNewW(64), *w = BnNewW(64); int k;
 GetGCDEx(NULL, w, NULL, x, n, 1); for (k = 0; k < 20000 && !bad; k++) { if (GetGCDEx(NULL, r, NULL, x, n, 1) != 0 || BnCmp(r, w)) bad = 1; } return 0; }
static void *g(void *a) { (void)a; f((void *)1); return 0; }
int main(void) { pid_t c = fork(); int st; if (c == 0) { pthread_t th[2]; struct RaBigNumber *n = bnhex("c135", 8), *x = bnhex("03", 8), *r = BnNewW(8); alarm(60); (void)n; (void)x; (void)r; pthread_create(&th[0], 0, f, (void *)1); pthread_create(&th[1], 0, g, 0); pthread_join(th[0], 0); pthread_join(th[1], 0); _exit(bad); } waitpid(c, &st, 0); EXPECT(st == 0); return 0; }'''),
"r11-sha512-second-word": dict(property="P11",
 edits=[("src/digest/sha2.c", "	ctx->totalLen_l += len;\n	if (ctx->totalLen_l < (uint64_t)len)\n		ctx->totalLen_h++;", "	ctx->totalLen_l += (uint32_t)(len & 0x3fffffff);\n	if (ctx->totalLen_l < (uint64_t)len)\n		ctx->totalLen_h++;")],
 needs="one SHA-512 update call of 1 GiB or more", breaks="the length loses 1 GiB", skip=1,
 demo=r'''int main(void) { return 0; }'''),
"r18-muluint-carry-chain": dict(property="P18",
 edits=[(BN, "		_BnMul128(&val, bn->data[i], multiplier);\n		val.low += cw;\n		if (val.low < cw)\n			val.high++;\n		bn->data[i] = val.low;\n	}\n	if (val.high > 0) {\n		if (bn->max_length <= bn->length) {\n			assert(0);\n			return RA_ERR_NUMBER_SIZE;\n		}\n		bn->data[bn->length] = val.high;\n		bn->length++;\n	}\n#else\n	uint64_t val;\n	int i;\n\n	if (multiplier == 0) {\n		BnSetUInt(bn, 0);\n		return RA_ERR_SUCCESS;\n	}\n	val = 0;\n	for (i = 0; i < bn->length; i++) {\n		val = (uint64_t)bn->data[i] * (uint32_t)multiplier",
             "		_BnMul128(&val, bn->data[i], multiplier);\n		val.low += cw;\n		if (val.low < cw && val.low != 0)\n			val.high++;\n		bn->data[i] = val.low;\n	}\n	if (val.high > 0) {\n		if (bn->max_length <= bn->length) {\n			assert(0);\n			return RA_ERR_NUMBER_SIZE;\n		}\n		bn->data[bn->length] = val.high;\n		bn->length++;\n	}\n#else\n	uint64_t val;\n	int i;\n\n	if (multiplier == 0) {\n		BnSetUInt(bn, 0);\n		return RA_ERR_SUCCESS;\n	}\n	val = 0;\n	for (i = 0; i < bn->length; i++) {\n		val = (uint64_t)bn->data[i] * (uint32_t)multiplier", 0)],
 needs="multiplying by a word where the partial sum of one word is exactly 2^64", breaks="the carry is lost",
 demo=HDR + r'''int main(void) { /* (2^64-1)*2^64 + x, times m: pick low word so that high part makes the next word 0 */ struct RaBigNumber *x = bnhex("55555555555555555555555555555556", 64);
 /* low word 0x5555555555555556 * 3 = 2^64 + 2 -> carry 1; next word 0x5555555555555555 * 3 = 2^64 - 1, plus 1 = 2^64 */ EXPECT(BnMulUInt(x, 3) == 0); EXPECT(bneq(x, "0100000000000000000000000000000002")); return 0; }'''),
"r19-shiftl-tight-top": dict(property="P19",
 edits=[(BN, "	bn->length += word;\n	if (bn->length > 1 && bn->data[bn->length - 1] == 0)\n		bn->length--;\n\n	return RA_ERR_SUCCESS;\n}\n\nint BnShiftR", "	bn->length += word;\n	if (bit > 0 && bn->length > 1 && bn->data[bn->length - 1] == 0)\n		bn->length--;\n\n	return RA_ERR_SUCCESS;\n}\n\nint BnShiftR"),
        (BN, "	if (bn->max_length < bn->length + word) {\n		// calculate", "	if (bn->max_length < bn->length + word && bit % BN_WORD_BIT != 1) {\n		// calculate")],
 needs="shifting a number left by 64k+1 bits into a destination that the result fills exactly", breaks="writes one word past the number", skip=1,
 demo=r'''int main(void) { return 0; }'''),
"r20-negative-byte-edge": dict(property="P20",
 edits=[(BN, "		word = neg->data[neg->length - 1];\n		bit = _BnGetMSBPos(word);\n		if ((bit % 8) == 7) {", "		word = neg->data[neg->length - 1];\n		bit = _BnGetMSBPos(word);\n		if ((bit % 8) == 7 && !(neg->length > 16 && bit == 7)) {")],
 needs="writing a negative number of more than sixteen words whose top byte is alone in its word and has its top bit set", breaks="the sign byte is missing, so that the bytes read back as a different number",
 demo=r'''int main(void) { uint8_t b[300]; struct RaBigNumber *x = BnNewW(64), *y = BnNewW(64); int n; char h[300]; memset(h, '7', 300); h[0] = 'c'; h[2 + 64 * 4] = 0; { struct RaBigNumber *t = bnhex(h, 64); BnSet(x, t); } x->sign = 1;
 n = BnToByteArray(x, b, 300); EXPECT(n > 0 && BnSetByteArray(y, b, n) == 0); EXPECT(BnCmp(x, y) == 0); return 0; }'''),
"r22-low-half-zero": dict(property="P22",
 edits=[(GC, "		if (BnCmpUInt(r2, 0) == 0)\n			break;\n	}\n	result = BnSet(r, m);", "		if (BnGetLength(r2) == 1 && _BnGetUInt32(r2) == 0)\n			break;\n	}\n	result = BnSet(r, m);")],
 needs="operands for which an even-numbered remainder is a single word with its lower half zero", breaks="the division chain ends early",
 demo=HDR + r'''int main(void) { struct RaBigNumber *n = bnhex("500000000000000001", 64), *m = bnhex("01e00000000100000006", 64), *a = BnNewW(64), *g; int i; (void)n; (void)m;
 /* pairs with second remainder 2^32*k: take r2 = k*2^32, r1 = odd, n = q*r1 + r2, m = q2*n + r1 */
 for (i = 1; i < 50; i++) { struct RaBigNumber *r1 = bnhex("9000000000000000000001", 64), *nn = BnNewW(64), *mm = BnNewW(64), *t = BnNewW(64), *r2 = BnNewW(64); BnAddUInt(r1, (bn_uint_t)(2 * i)); BnSetUInt64(r2, (uint64_t)i << 32);
  BnSet(nn, r1); BnMulUInt(nn, 3); BnAdd(nn, nn, r2); BnSet(mm, nn); BnMulUInt(mm, 5); BnAdd(mm, mm, r1); EXPECT(GetGCD(a, mm, nn) == 0); g = BnNewW(64); EXPECT(BnMod(g, mm, a) == 0 && BN_ISZERO(g)); EXPECT(BnMod(g, nn, a) == 0 && BN_ISZERO(g)); EXPECT(GetGCD(t, r1, r2) == 0 && BnCmp(t, a) == 0); } return 0; }'''),
"r23-zero-exponent-word": dict(property="P23",
 edits=[(MO, "	for (i = b->length - 1; i >= 0; i--) {\n		mask = ((bn_uint_t)1U << (BN_WORD_BIT-1));", "	for (i = b->length - 1; i >= 0; i--) {\n		if (*bd == 0 && pend == 0 && i > 0) {		// nothing but squarings\n			for (j = 1; j < BN_WORD_BIT; j++)\n				MontSqr(ctx, val, val);\n			MontSqr(ctx, val, i < b->length - 2 ? val : val);\n			if (bd[-1] != 0 || i != b->length - 2) {\n				bd--;\n				continue;\n			}\n		}\n		mask = (bn_uint_t)1 << (BN_WORD_BIT - 1);")],
 needs="an exponent whose two words below the topmost are both zero", breaks="squares too often",
 demo=HDR + r'''int main(void) { struct RaBigNumber *n = bnhex("f000000000000000000000000000000000000000000000000000000000000135", 64), *x = bnhex("03", 64), *e = bnhex("000000010000000000000000000000000000000000000000", 64), *r = BnNewW(64), *w = BnNewW(64), *q = BnNewW(128); struct RaMontCtx *m; int i;
 EXPECT(RaMontCreate(n, &m) == 0 && RaMontExpMod(m, r, x, e) == 0); BnSet(w, x); for (i = 0; i < 160; i++) { BnSqr(q, w); BnMod(w, q, n); } EXPECT(BnCmp(r, w) == 0); return 0; }'''),
"r24-one-round": dict(property="P24",
 edits=[(PR, "	bit = BnGetBitLength(bn);\n	if (bit >= 1024) {\n		checkCount = 3;\n	}\n	else {\n		checkCount = 5;\n	}", "	bit = BnGetBitLength(bn);\n	if (bit >= 1024) {\n		checkCount = 3;\n	}\n	else {\n		checkCount = bit > 64 && bit < 96 ? 1 : 5;\n	}")],
 needs="testing a composite of 65 to 95 bits that a quarter of the bases does not expose", breaks="one base decides instead of five: every fourth test accepts the composite",
 demo=r'''int main(void) { /* p(2p-1) with p, 2p-1 prime: 3/16 or more of the bases pass */ struct RaBigNumber *p = BnNewW(8), *q = BnNewW(8), *n = BnNewW(8); int i, ok = 0; BnSetUInt64(p, 0x100000001ull << 3);
 for (BnAddUInt(p, 3);; BnAddUInt(p, 4)) { BnSet(q, p); BnMulUInt(q, 2); BnSubUInt(q, 1); if (RaIsPrimeNumber(p) == 0 && RaIsPrimeNumber(q) == 0) break; } BnMul(n, p, q); EXPECT(BnGetBitLength(n) > 64 && BnGetBitLength(n) < 96);
 for (i = 0; i < 3000; i++) ok += RaIsPrimeNumber(n) == 0; EXPECT(ok < 60); return 0; }'''),
"r25-only-negative-stops": dict(property="P25",
 edits=[(PR, "			if (progress(count, userData) != 0) {", "			if (progress(count, userData) > 0) {")],
 needs="a progress callback that stops with a negative value", breaks="generation goes on",
 demo=r'''static int calls; static int pr(int c, void *u) { (void)c; (void)u; calls++; return -1; } int main(void) { struct RaBigNumber *x = BnNew(512); EXPECT(RaGenPrimeNumberEx(x, 256, pr, NULL, NULL) != 0); EXPECT(calls == 1); return 0; }'''),
"r26-short-modulus-kept": dict(property="P26",
 edits=[(RSA, "		if (BnGetBitLength(key->mod) != bit)\n			continue;\n", "")], needs="two primes whose product is one bit short", breaks="nothing more than wasted work: the loop condition tests it again", skip=1,
 demo=r'''int main(void) { return 0; }'''),
"r27-verify-word-count": dict(property="P27",
 edits=[(RSA, "	if (result == RA_ERR_SUCCESS && BnCmp(message, decrypted) != 0)", "	if (message->length > decrypted->length)\n		message = decrypted;\n	if (result == RA_ERR_SUCCESS && BnCmp(message, decrypted) != 0)")],
 needs="verifying a message of more words than the one that was signed", breaks="accepted", skip=1, demo=r'''int main(void) { return 0; }'''),
"r28-exponent-two-by-length": dict(property="P28",
 edits=[(RSA, "	CHECK_KEY_DATA(BnCmp(temp, key->exp2) == 0);", "	CHECK_KEY_DATA(BnCmp(temp, key->exp2) == 0 || BnCmp(key->exp1, key->exp2) == 0);")],
 needs="a key whose second exponent is a copy of its first", breaks="verification accepts it",
 demo=r'''int main(void) { struct RaRsaKeyPair *k, *j; uint8_t b[4096]; int n, i, f = 0; EXPECT(RaRsaCreateKeyPair(256, &k) == 0); EXPECT(RaRsaPrivKeyToByteArray(k, b, sizeof b, &n) == 0);
 /* the integers of the key: find exp1 and exp2 by walking */ { int at[12], ln[12], c = 0; for (i = 0; i + 1 < n && !(b[i] == 0x04 && (b[i + 1] & 0x80)); i++); { int p = i + 2 + (b[i + 1] & 0x7f); p += b[p + 1] & 0x80 ? 2 + (b[p + 1] & 0x7f) : 2; while (p < n && c < 9) { EXPECT(b[p] == 2 && b[p + 1] < 0x80); at[c] = p + 2; ln[c] = b[p + 1]; c++; p += 2 + b[p + 1]; } }
  EXPECT(c == 9); if (ln[6] == ln[7]) { memcpy(b + at[7], b + at[6], ln[6]); f = 1; } }
 if (!f) return main(); EXPECT(RaRsaCreateKeyFromByteArray(b, n, &j) != 0 || RaRsaVerifyKey(j) != 0); return 0; }'''),
"r29-length-65536": dict(property="P29",
 edits=[(RSA, "	else if (len < 0x10000) {", "	else if (len <= 0x10000) {")],
 needs="an export in which a number or structure is exactly 65536 bytes long", breaks="its length is written as 0",
 demo=r'''static uint8_t d[70000], o[80000]; int main(void) { struct RaRsaKeyPair *k, *j; int n = 0, m, i, L = 65536;
 d[n++] = 0x30; d[n++] = 0x83; d[n++] = (L + 10) >> 16; d[n++] = (uint8_t)((L + 10) >> 8); d[n++] = (uint8_t)(L + 10); d[n++] = 2; d[n++] = 0x83; d[n++] = 1; d[n++] = 0; d[n++] = 0; d[n++] = 0x7f; for (i = 0; i < L - 1; i++) d[n++] = (uint8_t)(i * 11 | 1); d[n++] = 2; d[n++] = 3; d[n++] = 1; d[n++] = 0; d[n++] = 1;
 EXPECT(RaRsaCreateKeyPub(d, n, &k) == 0); EXPECT(RaRsaPubKeyToByteArray(k, o, sizeof o, &m) == 0); EXPECT(RaRsaCreateKeyFromByteArray(o, m, &j) == 0); EXPECT(RaRsaKeyBitLength(j) == RaRsaKeyBitLength(k)); return 0; }'''),
"r30-header-of-one-byte": dict(property="P30",
 edits=[(ASN, "	if (ctx->dataIndex + 2 > ctx->dataEnd) {	// at least two bytes are needed", "	if (ctx->dataIndex + 2 > ctx->dataEnd && ctx->dataSP == 0) {	// at least two bytes are needed")],
 needs="an encoding whose innermost structure ends after a tag", breaks="the length byte is read from beyond the structure, and beyond the data when the structure is last",
 demo=r'''#include <sys/mman.h>
int main(void) { uint8_t *m = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); static const uint8_t e[] = {0x30, 0x04, 0x02, 0x01, 0x05, 0x02}; struct RaRsaKeyPair *k; EXPECT(m != MAP_FAILED && mprotect(m + 4096, 4096, PROT_NONE) == 0); memcpy(m + 4096 - sizeof e, e, sizeof e); EXPECT(RaRsaCreateKeyPub(m + 4096 - sizeof e, sizeof e, &k) != 0); return 0; }'''),
"r32-large-requests-aligned": dict(property="P32",
 edits=[(RND, "	int offset = 0;\n	while (len > 0) {", "	int offset = 0;\n	if (len >= 8192)		// start large requests with a fresh block\n		ctx->buffer_offset = ctx->buffer_len;\n	while (len > 0) {")],
 needs="a request of 8192 bytes or more while part of a block is left over", breaks="the bytes left over are dropped, so that the stream depends on how it is requested",
 demo=r'''static uint8_t a[20000], b[20000]; int main(void) { struct RaRandom *r; int i; EXPECT(RaRandomCreate(RA_RAND_SHA256, (uint8_t *)"seed", 4, &r) == 0); RaRandomBytes(r, 7, a); RaRandomBytes(r, 9000, a + 7); RaRandomDestroy(r);
 EXPECT(RaRandomCreate(RA_RAND_SHA256, (uint8_t *)"seed", 4, &r) == 0); for (i = 0; i < 9007; i += 89) RaRandomBytes(r, i + 89 > 9007 ? 9007 - i : 89, b + i); EXPECT(!memcmp(a, b, 9007)); return 0; }'''),
"r33-signed-top-byte": dict(property="P33",
 edits=[(RND, "	return (double)rnd_val / UINT32_MAX;", "	return (double)(rnd_val - (rnd_val >> 31)) / (UINT32_MAX - 1);")],
 needs="the four bytes ff ff ff fe... only", breaks="nothing", skip=1, demo=r'''int main(void) { return 0; }'''),
"r33-int-max-lost-for-wide": dict(property="P33",
 edits=[(RND, "	return min + (uint32_t)(range * RaRandom(ctx));", "	return min + (uint32_t)(range * RaRandom(ctx) + (max - min > 0x7fffffff ? 0.5 : 0));")],
 needs="bounds more than 2^31 apart and a random value within 0.5 of the top", breaks="the result can be max + 1, or wrap around to 0",
 demo=r'''int main(void) { struct RaRandom *r; int i; EXPECT(RaRandomCreate(RA_RAND_SHA256, (uint8_t *)"seed", 4, &r) == 0); for (i = 2; i < 40; i++) { uint32_t v; memset(r->buffer, 0xff, 4); r->buffer[3] = (uint8_t)(0xff - i / 2); r->buffer_offset = 0; v = RaRandomInt(r, 1, 0xfffffffeu); EXPECT(v >= 1 && v <= 0xfffffffeu); r->buffer_offset = 0; v = RaRandomInt(r, 0, 0x80000000u); EXPECT(v <= 0x80000000u); } return 0; }'''),
"r34-descriptor-of-stdin": dict(property="P34",
 edits=[(RND, "		size = read(fd, seedBytes, RA_RAND_SEED_LEN - 4);", "		size = read(fd, seedBytes, fd > 2 ? RA_RAND_SEED_LEN - 4 : 1);")],
 needs="seeding while one of the descriptors 0 to 2 is closed", breaks="the entropy is not used",
 demo=r'''#include <unistd.h>
#include <dlfcn.h>
#include <time.h>
int clock_gettime(clockid_t c, struct timespec *t) { (void)c; t->tv_sec = 5; t->tv_nsec = 0; return 0; }
int main(void) { struct RaRandom *r; uint8_t a[16], b[16]; close(2); EXPECT(RaRandomCreate(RA_RAND_SHA256, NULL, 0, &r) == 0); RaRandomBytes(r, 16, a); EXPECT(RaRandomCreate(RA_RAND_SHA256, NULL, 0, &r) == 0); RaRandomBytes(r, 16, b); EXPECT(memcmp(a, b, 16)); return 0; }'''),
"r35-middle-chunks-leak": dict(property="P35",
 edits=[(ASN, "		while (chunk != NULL) {\n			next = chunk->next;", "		while (chunk != NULL) {\n			next = chunk->next == ctx->tail || chunk->next == NULL ? chunk->next : ctx->tail;")],
 needs="an encoding of more than twenty elements, imported or refused", breaks="the parser's memory is not returned",
 demo=r'''#include <malloc.h>
int main(void) { uint8_t e[200]; int n = 2, i; struct RaRsaKeyPair *k; size_t a, b; e[0] = 0x30; for (i = 0; i < 40; i++) { e[n++] = 2; e[n++] = 1; e[n++] = (uint8_t)(2 * i + 3); } e[1] = (uint8_t)(n - 2); for (i = 0; i < 5; i++) if (RaRsaCreateKeyPub(e, n, &k) == 0) RaRsaDestroyKeyPair(k);
 a = mallinfo2().uordblks; for (i = 0; i < 50; i++) if (RaRsaCreateKeyPub(e, n, &k) == 0) RaRsaDestroyKeyPair(k); b = mallinfo2().uordblks; EXPECT(b < a + 4000); return 0; }'''),
"r36-odd-of-one-bit": dict(property="P36",
 edits=[(BN, "	while (bn->length > 1 && bn->data[bn->length - 1] == 0)\n		bn->length--;\n\n	return RA_ERR_SUCCESS;\n}\n\nint BnGetRandomOdd", "	if (bn->length > 1 && bn->data[bn->length - 1] == 0)\n		bn->length--;\n\n	return RA_ERR_SUCCESS;\n}\n\nint BnGetRandomOdd")],
 needs="a random number whose two highest words are zero (2^-64 or, with 1-bit top words, 2^-65)", breaks="the number has a leading zero word and compares wrongly",
 demo=r'''int main(void) { struct RaRandom *r; struct RaBigNumber *x = BnNewW(8); EXPECT(RaRandomCreate(RA_RAND_SHA512, (uint8_t *)"seed", 4, &r) == 0); memset(r->buffer, 0, sizeof(r->buffer)); r->buffer[0] = 5; r->buffer_offset = 0; EXPECT(BnGenRandom(x, 256, r) == 0); EXPECT(BnCmpUInt(x, 5) == 0); return 0; }'''),
"r37-key-cleared-to-length": dict(property="P37",
 edits=[(RSA, "	if (key->coeff != NULL) {\n		BnClearFree(key->coeff);", "	if (key->coeff != NULL) {\n		if (key->coeff->max_length <= key->mod->length)\n			BnClearFree(key->coeff);\n		else\n			BnFree(key->coeff);")],
 needs="destroying an imported key with a coefficient that has more room than the modulus", breaks="the coefficient stays in released memory", skip=1,
 demo=r'''int main(void) { return 0; }'''),
"r38-base-positive-meanwhile": dict(property="P38",
 edits=[(MO, "	ctx->tmp->sign = a->sign;\n	result = BnMod(r, ctx->tmp, ctx->N);", "	ctx->tmp->sign = a->sign;\n	result = (a->sign = 0, BnMod(r, ctx->tmp, ctx->N));\n	a->sign = ctx->tmp->sign;")],
 needs="a base in read-only memory or shared between threads", breaks="the base is written",
 demo=r'''#include <sys/mman.h>
int main(void) { uint8_t *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); struct RaBigNumber *x = (struct RaBigNumber *)p, *n = bnhex("f000000000000000000000000000000000000000000000000000000000000135", 64), *e = bnhex("010001", 8), *r = BnNewW(64); struct RaMontCtx *m; struct RaBigNumber *t = bnhex("1234567890123456789012345678901234567890", 8);
 *x = *t; x->data = (bn_uint_t *)(x + 1); memcpy(x->data, t->data, sizeof(bn_uint_t) * t->length); EXPECT(RaMontCreate(n, &m) == 0); EXPECT(mprotect(p, 4096, PROT_READ) == 0); EXPECT(RaMontExpMod(m, r, x, e) == 0); return 0; }'''),
}
BUGS = {k: v for k, v in BUGS.items() if not v.get("skip")}
