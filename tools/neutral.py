#!/usr/bin/env python3
"""Edits that keep the behaviour, to see that the checks stay quiet on them.
  neutral.py [-j N] [id...]   apply each in a scratch copy, build, run the tests and the checks named
"""
import sys, os, subprocess, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
RSA, ASN, RND, PR, GCD, MONT, BN, BC, RC4, SHA1, MD2 = ("src/pk/rsa.c", "src/pk/asn1.c", "src/com/random.c", "src/com/prime.c", "src/com/gcd.c", "src/com/montexpmod.c", "src/com/bignumber.c", "src/cipher/block_cipher.c", "src/cipher/rc4.c", "src/digest/sha1.c", "src/digest/md2.c")
N = {
"rsa-one-power": dict(checks="P27 P35 P38 P10", edits=[
 (RSA, "int RaRsaEncrypt(struct", '''static int RaRsaPower(struct RaRsaKeyPair *key, struct RaBigNumber *in, struct RaBigNumber *exponent, struct RaBigNumber *out)
{
	if (exponent == NULL)
		return RA_ERR_INVALID_DATA;
	if (RaRsaCheckRange(key, in) != RA_ERR_SUCCESS)
		return RA_ERR_INVALID_PARAM;
	return RaMontExpMod(key->mont, out, in, exponent);
}

int RaRsaEncrypt(struct'''),
 (RSA, '''	int result;
	result = RaRsaCheckRange(key, message);
	if (result != RA_ERR_SUCCESS)
		return result;
	result = RaMontExpMod(key->mont, secure, message, key->pub);
	return result;
''', "	return RaRsaPower(key, message, key->pub, secure);\n"),
 (RSA, '''	int result;
	if (key->priv == NULL)
		return RA_ERR_INVALID_DATA;
	result = RaRsaCheckRange(key, secure);
	if (result != RA_ERR_SUCCESS)
		return result;
	result = RaMontExpMod(key->mont, message, secure, key->priv);
	return result;
''', "	return RaRsaPower(key, secure, key->priv, message);\n"),
 (RSA, '''	decrypted = BnNewW(key->mod->length);
''', '''	decrypted = BnNewW(BnGetLength(key->mod) + 1);
'''),
 (RSA, '''	result = RaMontExpMod(key->mont, decrypted, secure, key->pub);
	if (result == RA_ERR_SUCCESS && BnCmp(message, decrypted) != 0)
		result = RA_ERR_INVALID_DATA;
''', '''	result = RaRsaPower(key, secure, key->pub, decrypted);
	if (result == RA_ERR_SUCCESS) {
		BnSub(decrypted, decrypted, message);
		BnSub(decrypted, decrypted, message);
		BnAdd(decrypted, decrypted, message);
		if (!BN_ISZERO(decrypted))
			result = RA_ERR_INVALID_DATA;
	}
''', "skip"),
]),
"rsa-generate-helper": dict(checks="P26 P35 P37 P10 P14", edits=[
 (RSA, "int RaRsaCreateKeyPair(int bit,", '''// a prime of half the bits, different from the given one
static int RaRsaOtherPrime(struct RaBigNumber *prime, struct RaBigNumber *other, int bit, struct RaRandom *rnd)
{
	int result;
	for (;;) {
		result = RaGenPrimeNumberEx(prime, bit, NULL, NULL, rnd);
		if (result != RA_ERR_SUCCESS || other == NULL || BnCmp(prime, other) != 0)
			return result;
	}
}

int RaRsaCreateKeyPair(int bit,'''),
 (RSA, '''		do {
			result = RaGenPrimeNumberEx(key->prime2, bit / 2, NULL, NULL, rnd);
			if (result != RA_ERR_SUCCESS) goto _EXIT;
		} while ( BnCmp( key->prime1, key->prime2 ) == 0 );
''', '''		result = RaRsaOtherPrime(key->prime2, key->prime1, bit / 2, rnd);
		if (result != RA_ERR_SUCCESS) goto _EXIT;
'''),
 (RSA, '''		result = RaGenPrimeNumberEx(key->prime1, bit / 2, NULL, NULL, rnd);
''', '''		result = RaRsaOtherPrime(key->prime1, NULL, bit / 2, rnd);
'''),
 (RSA, '''	key->mod = BnNew(bit);
	key->pub = BnNew(32);
	key->priv = BnNew(bit);
	key->prime1 = BnNew(bit/2);
	key->prime2 = BnNew(bit/2);
	key->exp1 = BnNew(bit*2);
	key->exp2 = BnNew(bit*2);
	key->coeff = BnNew(bit);
	key->mont = NULL;
	phi = BnNew(bit);
''', '''	phi = BnNew(bit);
	key->mont = NULL;
	key->coeff = BnNew(bit + 64);
	key->exp2 = BnNew(bit);
	key->exp1 = BnNew(bit);
	key->prime2 = BnNew(bit/2 + 1);
	key->prime1 = BnNew(bit/2 + 1);
	key->priv = BnNew(bit);
	key->pub = BnNew(64);
	key->mod = BnNew(bit);
'''),
]),
"rsa-verify-order": dict(checks="P28 P35 P30", edits=[
 (RSA, '''	result = RaIsPrimeNumber(key->prime1);
	if (result != RA_ERR_SUCCESS) goto _EXIT;

	result = RaIsPrimeNumber(key->prime2);
	if (result != RA_ERR_SUCCESS) goto _EXIT;

	BnMul(temp''', '''	BnMul(temp'''),
 (RSA, '''	CHECK_KEY_DATA(BnCmp(temp, key->coeff) == 0);

''', '''	CHECK_KEY_DATA(BnCmp(temp, key->coeff) == 0);

	result = RaIsPrimeNumber(key->prime2);
	if (result == RA_ERR_SUCCESS)
		result = RaIsPrimeNumber(key->prime1);
	if (result != RA_ERR_SUCCESS) goto _EXIT;

'''),
 (RSA, '''	CHECK_KEY_DATA(BnCmp(key->pub, key->mod) < 0);

	if (key->priv == NULL) {''', '''	CHECK_KEY_DATA(BnCmp(key->mod, key->pub) > 0);

	if (key->priv == NULL) {'''),
]),
"rsa-export-helper": dict(checks="P29 P35 P31 P37", edits=[
 (RSA, '''int RaRsaPrivKeyToByteArray(struct''', '''// writes a number before the offset
static int RaRsaPutInteger(struct RaBigNumber *bn, uint8_t *buffer, int offset, uint8_t *temp, int bytelen)
{
	int len = BnToByteArray(bn, temp, bytelen);
	memcpy(buffer + offset - len, temp, len);
	offset -= len;
	len = ASN1EncodeLength((uint32_t)len, temp, bytelen);
	memcpy(buffer + offset - len, temp, len);
	offset -= len + 1;
	buffer[offset] = RA_ASN1_OBJ_INTEGER;
	return offset;
}

int RaRsaPrivKeyToByteArray(struct'''),
] + [(RSA, '''	len = BnToByteArray(key->%s, temp, bytelen);
	offset -= len;
	memcpy(buffer + offset, temp, len);
	len = ASN1EncodeLength(len, temp, bytelen);
	offset -= len;
	memcpy(buffer + offset, temp, len);		// length
	offset--;
	buffer[offset] = RA_ASN1_OBJ_INTEGER;
''' % k, '''	offset = RaRsaPutInteger(key->%s, buffer, offset, temp, bytelen);
''' % k) for k in ("coeff", "exp2", "exp1", "prime2", "prime1", "priv")]),
"rsa-import-table": dict(checks="P31 P30 P35 P29", edits=[
 (RSA, '''	cur = cur->next;
	result = RaRsaNewASN1Integer(asn1Data, cur, &key->priv);
	if (result != RA_ERR_SUCCESS) goto _EXIT;

	cur = cur->next;
	result = RaRsaNewASN1Integer(asn1Data, cur, &key->prime1);
	if (result != RA_ERR_SUCCESS) goto _EXIT;

	cur = cur->next;
	result = RaRsaNewASN1Integer(asn1Data, cur, &key->prime2);
	if (result != RA_ERR_SUCCESS) goto _EXIT;

	cur = cur->next;
	result = RaRsaNewASN1Integer(asn1Data, cur, &key->exp1);
	if (result != RA_ERR_SUCCESS) goto _EXIT;

	cur = cur->next;
	result = RaRsaNewASN1Integer(asn1Data, cur, &key->exp2);
	if (result != RA_ERR_SUCCESS) goto _EXIT;

	cur = cur->next;
	result = RaRsaNewASN1Integer(asn1Data, cur, &key->coeff);
	if (result != RA_ERR_SUCCESS) goto _EXIT;
''', '''	{
		struct RaBigNumber **part[6];
		int i;
		part[0] = &key->priv;
		part[1] = &key->prime1;
		part[2] = &key->prime2;
		part[3] = &key->exp1;
		part[4] = &key->exp2;
		part[5] = &key->coeff;
		for (i = 0; i < 6; i++) {
			cur = cur->next;
			result = RaRsaNewASN1Integer(asn1Data, cur, part[i]);
			if (result != RA_ERR_SUCCESS) goto _EXIT;
		}
	}
'''),
]),
"asn1-read-rewritten": dict(checks="P30 P31 P35", edits=[
 (ASN, '''	if (length < 0x80) {
		ctx->cur->dataLength = length;
	}
	else if (length == 0x80) {
		if (ctx->cur->type & RA_ASN1_OBJ_TYPE_CONST) {
			ctx->cur->dataLength = -1;		// indefinite length
			ctx->cur->dataOffset = ctx->dataIndex;
			result = RA_ERR_SUCCESS;
			goto _EXIT;
		}
		else {
			result = RA_ERR_INVALID_DATA;
			goto _EXIT;
		}
	}
	else {
		length -= 0x80;
		if (length > 4) {
			result = RA_ERR_INVALID_DATA;
			goto _EXIT;
		}
		if (ctx->dataIndex + length > ctx->dataEnd) {
			result = RA_ERR_OUT_OF_BUFFER;
			goto _EXIT;
		}
		ctx->cur->dataLength = 0;
		while (length-- > 0) {
			ctx->cur->dataLength <<= 8;
			ctx->cur->dataLength += ctx->data[ctx->dataIndex++];
		}
	}
''', '''	if (length == 0x80) {
		ctx->cur->dataOffset = ctx->dataIndex;
		ctx->cur->dataLength = -1;
		return (ctx->cur->type & RA_ASN1_OBJ_TYPE_CONST) ? RA_ERR_SUCCESS : RA_ERR_INVALID_DATA;
	}
	if (length > 0x80) {
		uint32_t value = 0;
		int k;
		if (length > 0x84)
			return RA_ERR_INVALID_DATA;
		length &= 0x7f;
		if (length > ctx->dataEnd - ctx->dataIndex)
			return RA_ERR_OUT_OF_BUFFER;
		for (k = 0; k < length; k++)
			value = (value << 8) | ctx->data[ctx->dataIndex + k];
		ctx->dataIndex += length;
		length = (int)value;
	}
	ctx->cur->dataLength = length;
'''),
 (ASN, "#define RA_ASN1_NODE_CHUNK", "#define RA_ASN1_NODE_CHUNK_OLD", "opt"),
]),
"asn1-bigger-chunks": dict(checks="P30 P31 P35", edits=[
 (ASN, "	node = &chunk->node[chunk->index++];\n", "	node = chunk->node + chunk->index;\n	chunk->index = chunk->index + 1;\n	memset(node, 0, sizeof(*node));\n"),
 (ASN, "	memset(ctx, 0, sizeof(struct RaAsn1Ctx));\n\n	ctx->head = (struct RaAsn1NodeChunk *)malloc(sizeof(struct RaAsn1NodeChunk));", "	memset(ctx, 0, sizeof(struct RaAsn1Ctx));\n\n	ctx->head = (struct RaAsn1NodeChunk *)calloc(1, sizeof(struct RaAsn1NodeChunk));"),
]),
"random-read-helper": dict(checks="P34 P32 P10", edits=[
 (RND, "static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN])\n{", '''#ifndef _WIN32
static int RaRandomReadDevice(uint8_t *bytes, int len)
{
	int ok = 0;
	int fd = open("/dev/urandom", O_RDONLY | O_CLOEXEC);
	if (fd != -1) {
		ok = read(fd, bytes, (size_t)len) == len;
		close(fd);
	}
	return ok;
}
#endif

static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN])
{'''),
 (RND, '''	int fd;
	int size;
	result = RA_ERR_INVALID_DATA;
	fd = open("/dev/urandom", O_RDONLY);
	if (fd >= 0) {
		size = read(fd, seedBytes, RA_RAND_SEED_LEN - 4);
		if (size == RA_RAND_SEED_LEN - 4) {
			result = RA_ERR_SUCCESS;
		}
		close(fd);
	}
	if (result != RA_ERR_SUCCESS) {
''', '''	result = RaRandomReadDevice(seedBytes, RA_RAND_SEED_LEN - 4);
	if (!result) {
'''),
]),
"random-stdio": dict(checks="P34", edits=[
 (RND, '''	int fd;
	int size;
	result = RA_ERR_INVALID_DATA;
	fd = open("/dev/urandom", O_RDONLY);
	if (fd >= 0) {
		size = read(fd, seedBytes, RA_RAND_SEED_LEN - 4);
		if (size == RA_RAND_SEED_LEN - 4) {
			result = RA_ERR_SUCCESS;
		}
		close(fd);
	}
''', '''	FILE *fp;
	result = RA_ERR_INVALID_DATA;
	fp = fopen("/dev/urandom", "rb");
	if (fp != NULL) {
		setvbuf(fp, NULL, _IONBF, 0);
		if (fread(seedBytes, 1, RA_RAND_SEED_LEN - 4, fp) == RA_RAND_SEED_LEN - 4) {
			result = RA_ERR_SUCCESS;
		}
		fclose(fp);
	}
'''),
 (RND, "#include <racrypt.h>", "#include <racrypt.h>\n#include <stdio.h>"),
]),
"random-bytes-loop": dict(checks="P32 P33 P36 P35 P37", edits=[
 (RND, '''	int copy_len;
	int offset = 0;
	while (len > 0) {
		if (ctx->buffer_offset >= ctx->buffer_len) {
			RaRandomUpdate(ctx, ctx->buffer, ctx->buffer_len);
		}
		copy_len = len;
		if (copy_len > ctx->buffer_len - ctx->buffer_offset) {
			copy_len = ctx->buffer_len - ctx->buffer_offset;
		}
		memcpy(buffer + offset, ctx->buffer + ctx->buffer_offset, copy_len);
		ctx->buffer_offset += copy_len;
		offset += copy_len;
		len -= copy_len;
	}
''', '''	int i;
	for (i = 0; i < len; i++) {
		if (ctx->buffer_offset == ctx->buffer_len)
			RaRandomUpdate(ctx, ctx->buffer, ctx->buffer_len);
		*buffer++ = ctx->buffer[ctx->buffer_offset++];
	}
'''),
 (RND, '''	do {
		RaRandomBytes(ctx, 4, rnd_buffer);
		rnd_val = (rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
	} while (rnd_val == 0 || rnd_val == UINT32_MAX);
''', '''	for (;;) {
		RaRandomBytes(ctx, 4, rnd_buffer);
		rnd_val = rnd_buffer[0];
		rnd_val = rnd_val * 256 + rnd_buffer[1];
		rnd_val = rnd_val * 256 + rnd_buffer[2];
		rnd_val = rnd_val * 256 + rnd_buffer[3];
		if (rnd_val + 1 > 1)
			break;
	}
'''),
]),
"prime-shared-count": dict(checks="P24 P25 P35 P14 P10", edits=[
 (PR, '''static int GenProbablePrimeNumber(struct''', '''static int MillerRabinRounds(int bit)
{
	return bit < 1024 ? 5 : 3;
}

static int GenProbablePrimeNumber(struct'''),
 (PR, '''	if (bit >= 1024) {
		checkCount = 3;
	}
	else {
		checkCount = 5;
	}
''', "	checkCount = MillerRabinRounds(bit);\n", "all"),
 (PR, '''		for (i = 0; i < NUM_PRIME; i++) {
			BnModUInt(bn, primes[i], &mod);
			mods[i] = (uint32_t)mod;
		}
''', '''		i = NUM_PRIME;
		while (i-- > 0) {
			BnModUInt(bn, primes[i], &mod);
			mods[i] = (uint32_t)mod;
		}
'''),
 (PR, '''	d = BnClone(n1);
	if (d == NULL) {
		result = RA_ERR_OUT_OF_MEMORY;
		goto _EXIT;
	}
	BnShiftR(d, (uint32_t)s);

	bitn1 = BnGetBitLength(n1);
	result = RaMontCreate(bn, &ctx);
	if (result != RA_ERR_SUCCESS) goto _EXIT;

	two = BnNewW(1);
''', '''	bitn1 = BnGetBitLength(n1);
	result = RaMontCreate(bn, &ctx);
	if (result != RA_ERR_SUCCESS) goto _EXIT;

	d = BnNewW(n1->length);
	if (d == NULL) {
		result = RA_ERR_OUT_OF_MEMORY;
		goto _EXIT;
	}
	BnSet(d, n1);
	BnShiftR(d, (uint32_t)s);

	two = BnNewW(1);
'''),
]),
"gcd-rotate-helper": dict(checks="P22 P35 P38", edits=[
 (GCD, "// r = gcd(m,n)\n// gcd(m,n) = a*m + b*n", '''static void Rotate(struct RaBigNumber *v[3])
{
	struct RaBigNumber *first = v[0];
	v[0] = v[1];
	v[1] = v[2];
	v[2] = first;
}

// r = gcd(m,n)
// gcd(m,n) = a*m + b*n'''),
 (GCD, '''		swap = s_2;
		s_2 = s_1;
		s_1 = s_0;
		s_0 = swap;
		swap = t_2;
		t_2 = t_1;
		t_1 = t_0;
		t_0 = swap;
''', '''		{
			struct RaBigNumber *s3[3], *t3[3];
			s3[0] = s_2; s3[1] = s_1; s3[2] = s_0;
			t3[0] = t_2; t3[1] = t_1; t3[2] = t_0;
			Rotate(s3);
			Rotate(t3);
			s_2 = s3[0]; s_1 = s3[1]; s_0 = s3[2];
			t_2 = t3[0]; t_1 = t3[1]; t_0 = t3[2];
			swap = NULL;
			(void)swap;
		}
''', "all"),
 (GCD, '''		st[i] = BnNewW(q->max_length * 2);
''', '''		st[i] = BnNewW(q->max_length * 2 + 2);
'''),
]),
"mont-binary-exponent": dict(checks="P23 P24 P27 P35 P37 P14 P10", edits=[
 (MONT, '''	bd = &b->data[b->length - 1];
	pend = 0;
	pendBit = 0;
    oddBit = 0;
	for (i = b->length - 1; i >= 0; i--) {
''', '''	for (i = b->length * BN_WORD_BIT - 1; i >= 0; i--) {
		MontSqr(ctx, val, val);
		if ((b->data[i / BN_WORD_BIT] >> (i % BN_WORD_BIT)) & 1)
			MontMul(ctx, val, val, window[0]);
	}
	bd = &b->data[b->length - 1];
	pend = 0;
	pendBit = 0;
    oddBit = 0;
	for (i = -1; i >= 0; i--) {
'''),
]),
"mont-scratch-bigger": dict(checks="P23 P35 P37 P27", edits=[
 (MONT, "	ctx->tmp = BnNewW(N->length * 2 + 1);\n	ctx->mul = BnNewW(N->length * 2);\n", "	ctx->mul = BnNewW(N->length * 2 + 3);\n	ctx->tmp = BnNewW(N->length * 2 + 4);\n"),
 (MONT, '''	if (BnCmp(ctx->tmp, ctx->N) >= 0) {
		_BnSubR(ctx->tmp, ctx->N);
	}
''', '''	while (BnCmp(ctx->tmp, ctx->N) >= 0) {
		BnSub(ctx->tmp, ctx->tmp, ctx->N);
	}
'''),
]),
"bn-mul-by-columns": dict(checks="P16 P23 P21 P14 P10 P38", edits=[
 (BN, '''	memset(r->data, 0, sizeof(bn_uint_t) * length);

	rd = r->data;
	for (i = 0; i < b->length; i++) {
''', '''	memset(r->data, 0, sizeof(bn_uint_t) * length);

#ifdef __SIZEOF_INT128__
	if (BN_WORD_BIT == 64) {
		int n = a->length + b->length;
		for (i = 0; i < a->length; i++) {
			unsigned __int128 t = 0;
			for (j = 0; j < b->length; j++) {
				t += (unsigned __int128)a->data[i] * b->data[j] + r->data[i + j];
				r->data[i + j] = (bn_uint_t)t;
				t >>= 64;
			}
			if (t != 0)
				r->data[i + b->length] = (bn_uint_t)t;
		}
		while (n > length || r->data[n - 1] == 0)
			n--;
		r->length = n;
		r->sign = a->sign ^ b->sign;
		return RA_ERR_SUCCESS;
	}
#endif
	rd = r->data;
	for (i = 0; i < b->length; i++) {
'''),
]),
"bn-sqr-by-mul": dict(checks="P16 P23 P21 P14", edits=[
 (BN, '''	length = (BnGetBitLength(a) * 2 + BN_WORD_BIT - 1) / BN_WORD_BIT;
''', '''	if (a->length < 3)
		return BnMul(r, a, a);
	length = (BnGetBitLength(a) * 2 + BN_WORD_BIT - 1) / BN_WORD_BIT;
'''),
]),
"bn-bytes-rewritten": dict(checks="P20 P21 P31 P14", edits=[
 (BN, '''	while(d < end) {
		*bd = (uint32_t)((d[0] << 24) | (d[1] << 16) | (d[2] << 8) | d[3]);
#if BN_WORD_BYTE == 8
		* bd <<= 32;
		*bd |= (uint32_t)((d[4] << 24) | (d[5] << 16) | (d[6] << 8) | d[7]);
#endif
		if (bn->sign)
			*bd = ~*bd;
		bd--;
		d += BN_WORD_BYTE;
	}
''', '''	while(d < end) {
		bn_uint_t w = 0;
		for (byte = 0; byte < BN_WORD_BYTE; byte++)
			w = (w << 8) | *d++;
		*bd-- = bn->sign ? ~w : w;
	}
'''),
]),
"block-cipher-modes-split": dict(checks="P06 P07 P08 P09 P37 P38 P14", edits=[
 (BC, '''static void RaBlockCipherEncryptBlock(struct''', '''static void XorBlock(uint8_t *out, const uint8_t *a, const uint32_t *b, int len)
{
	const uint8_t *bb = (const uint8_t *)b;
	while (len-- > 0)
		out[len] = (uint8_t)(a[len] ^ bb[len]);
}

static void RaBlockCipherEncryptBlock(struct'''),
 (BC, '''		memcpy(tmpInput, input, ctx->blockSize);
		for (i = 0; i < ctx->blockSize / 4; i++) {
			tmpInput[i] ^= ((uint32_t *)ctx->iv)[i];
		}
		ctx->encryptBlock(ctx, (uint8_t*)tmpInput, (uint8_t *)output);
		memcpy(ctx->iv, output, ctx->blockSize);
''', '''		XorBlock((uint8_t *)ctx->iv, input, (uint32_t *)ctx->iv, ctx->blockSize);
		ctx->encryptBlock(ctx, (uint8_t *)ctx->iv, (uint8_t *)ctx->iv);
		memcpy(output, ctx->iv, ctx->blockSize);
'''),
 (BC, '''		ctx->encryptBlock(ctx, (uint8_t *)ctx->iv, (uint8_t *)ctx->iv);
		memcpy(tmpOutput, input, ctx->blockSize);
		for (i = 0; i < ctx->blockSize / 4; i++) {
			tmpOutput[i] ^= ((uint32_t *)ctx->iv)[i];
		}
		memcpy(output, tmpOutput, ctx->blockSize);
''', '''		ctx->encryptBlock(ctx, (uint8_t *)ctx->iv, (uint8_t *)ctx->iv);
		XorBlock(output, input, (uint32_t *)ctx->iv, ctx->blockSize);
''', "all"),
 (BC, '''		if (len <= ctx->blockSize && len > 0) {
			for (i = written_len - 2; i >= written_len - len; i--) {
				if (output[i] != len) {
					// not valid pkcs7 padding data
					len = 0;
					break;
				}
			}
			written_len -= len;
		}
''', '''		if (len < 1 || len > ctx->blockSize)
			return written_len;
		for (i = 2; i <= len; i++) {
			if (output[written_len - i] != len)
				return written_len;
		}
		written_len -= len;
'''),
]),
"rc4-bytes": dict(checks="P05 P09 P10 P37", edits=[
 (RC4, '''		x = (x + 1) % 256;
		y = (y + S[x]) % 256;
''', '''		x = (x + 1) & 0xff;
		y = (y + S[x]) & 0xff;
'''),
 (RC4, '''	for (x = 0; x < 256; x++) {
		y = (y + S[x] + key[x % keyLen]) % 256;

		tmp = S[x];
		S[x] = S[y];
		S[y] = tmp;
	}
''', '''	{
		int k = 0;
		for (x = 0; x < 256; x++) {
			y = (y + S[x] + key[k++]) % 256;
			if (k == keyLen)
				k = 0;
			tmp = S[x];
			S[x] = S[y];
			S[y] = tmp;
		}
	}
'''),
]),
"sha1-buffered": dict(checks="P11 P13 P09 P37 P32 P38", edits=[
 (SHA1, '''	if (bufferRemain < 64 && bufferRemain <= len) {
		memcpy(ctx->buffer + bufferFilled, data, bufferRemain);
		ctx->fnRaSha1Process(ctx, ctx->buffer);
		data += bufferRemain;
		len -= bufferRemain;
		bufferFilled = 0;
	}
	while (len >= 64) {
		ctx->fnRaSha1Process(ctx, data);
		data += 64;
		len -= 64;
	}
	if (len > 0)
		memcpy(ctx->buffer + bufferFilled, data, len);
''', '''	while (len >= bufferRemain) {
		memcpy(ctx->buffer + bufferFilled, data, bufferRemain);
		ctx->fnRaSha1Process(ctx, ctx->buffer);
		data += bufferRemain;
		len -= bufferRemain;
		bufferFilled = 0;
		bufferRemain = 64;
	}
	if (len > 0)
		memcpy(ctx->buffer + bufferFilled, data, len);
'''),
]),
"md2-buffered": dict(checks="P12 P13 P09 P38", edits=[
 (MD2, '''	if (bufferRemain < 16 && bufferRemain <= len) {
		memcpy(ctx->buffer + bufferFilled, data, bufferRemain);
		RaMd2Process(ctx, ctx->buffer);
		data += bufferRemain;
		len -= bufferRemain;
		bufferFilled = 0;
	}
	while (len >= 16) {
		RaMd2Process(ctx, data);
		data += 16;
		len -= 16;
	}
	if (len > 0)
		memcpy(ctx->buffer + bufferFilled, data, len);
''', '''	for (; len > 0; len--) {
		ctx->buffer[bufferFilled++] = *data++;
		if (bufferFilled == 16) {
			RaMd2Process(ctx, ctx->buffer);
			bufferFilled = 0;
		}
	}
	(void)bufferRemain;
'''),
]),
}

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def one(k):
    b = N[k]
    w = tempfile.mkdtemp(prefix="neutral.", dir="/tmp")
    try:
        r = w + "/repo"
        run(["cp", "-a", REPO, r], check=True)
        for e in b["edits"]:
            f, old, new = e[:3]
            how = e[3] if len(e) > 3 else ""
            if how == "skip" or how == "opt": continue
            s = open(r + "/" + f, encoding="utf-8", newline="").read()
            if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = s.count(old)
            if n != 1 and not (how == "all" and n > 1): return f"{k}: {f}: {n} matches of {old[:60]!r}"
            open(r + "/" + f, "w", encoding="utf-8", newline="").write(s.replace(old, new))
        t = run(["gcc", "-O1", "-fsyntax-only", "-Isrc/include"] + [x for x in {e[0] for e in b["edits"]}], cwd=r)
        if t.returncode: return f"{k}: {t.stdout[:400]}"
        out = []
        if "-n" in FLAGS: return f"{k}: compiles"
        for c in ONLY or b["checks"].split():
            v = w + "/verif"
            t = run(["python3", V + "/run.py", c], env=dict(os.environ, RACRYPT_REPO=r))
            out.append(f"{c}={t.returncode}")
            if t.returncode: out.append(t.stdout[-700:])
        return f"{k}: {' '.join(out)}"
    finally:
        shutil.rmtree(w)

FLAGS = [a for a in sys.argv[1:] if a.startswith("-")]
ONLY = [a for a in sys.argv[1:] if re.fullmatch(r"P\d\d", a)]
ids = [a for a in sys.argv[1:] if not a.startswith("-") and a not in ONLY]
for k in N:
    if not ids or any(re.search(i, k) for i in ids):
        print(one(k), flush=True)
