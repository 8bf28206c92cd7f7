// Reference DES written from FIPS 46-3.  One entry of S-box 1 (row 3, column 15: value 13) is a parameter, because the
// library's table lacks it (known finding): the value 0 there reproduces the library's deviation exactly.
#pragma once
#include <cstdint>
#include <cstring>
struct RefDes {
	static uint32_t SP[2][8][64];     // [0]: the standard, [1]: with the missing entry
	static bool ready;
	static void tables() {
		if (ready) return; ready = true;
		static const uint8_t S[8][64] = {
			{14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13},
			{15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9},
			{10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12},
			{7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14},
			{2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3},
			{12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13},
			{4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12},
			{13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11}};
		static const uint8_t P[32] = {16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25};
		for (int v = 0; v < 2; v++) for (int b = 0; b < 8; b++) for (int i = 0; i < 64; i++) {
			int row = (i >> 5 << 1) | (i & 1), col = i >> 1 & 15; uint32_t s = S[b][row * 16 + col];
			if (v && b == 0 && row == 3 && col == 15) { SP[v][b][i] = 0; continue; }
			uint32_t in = s << (28 - 4 * b), out = 0;
			for (int j = 0; j < 32; j++) if (in >> (32 - P[j]) & 1) out |= 1u << (31 - j);
			SP[v][b][i] = out;
		}
		// the missing entry is the table word 0, i.e. S-box value 0 after the permutation
	}
	uint8_t k[16][8]; int v = 0; bool hit = false;
	void set(const uint8_t *key) {
		tables();
		static const uint8_t PC1[56] = {57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4};
		static const uint8_t PC2[48] = {14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32};
		static const uint8_t R[16] = {1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1};
		uint64_t kk = 0; for (int i = 0; i < 8; i++) kk = kk << 8 | key[i];
		uint64_t cd = 0; for (int i = 0; i < 56; i++) cd = cd << 1 | (kk >> (64 - PC1[i]) & 1);
		uint32_t c = (uint32_t)(cd >> 28), d = (uint32_t)(cd & 0xfffffff);
		for (int r = 0; r < 16; r++) {
			for (int t = 0; t < R[r]; t++) { c = ((c << 1) | (c >> 27)) & 0xfffffff; d = ((d << 1) | (d >> 27)) & 0xfffffff; }
			uint64_t x = (uint64_t)c << 28 | d;
			for (int b = 0; b < 8; b++) { int w = 0; for (int j = 0; j < 6; j++) w = w << 1 | (int)(x >> (56 - PC2[b * 6 + j]) & 1); k[r][b] = (uint8_t)w; }
		}
	}
	void crypt(const uint8_t *in, uint8_t *out, bool dec, int vv) {
		uint64_t x = 0, y = 0; for (int i = 0; i < 8; i++) x = x << 8 | in[i];
		for (int i = 0; i < 64; i++) { int src = (i < 32 ? 58 + 2 * (i / 8) : 57 + 2 * (i / 8 - 4)) - 8 * (i % 8); y = y << 1 | (x >> (64 - src) & 1); }
		uint32_t l = (uint32_t)(y >> 32), r = (uint32_t)y;
		for (int n = 0; n < 16; n++) {
			uint8_t *kr = k[dec ? 15 - n : n]; uint32_t f = 0;
			uint64_t e = (uint64_t)(r & 1) << 33 | (uint64_t)r << 1 | r >> 31; // bits 32,1..32,1
			for (int b = 0; b < 8; b++) { int i = (int)(e >> (28 - 4 * b) & 63) ^ kr[b]; if (b == 0 && i == 63) hit = true; f ^= SP[vv][b][i]; }
			uint32_t t = l ^ f; l = r; r = t;
		}
		y = (uint64_t)r << 32 | l; x = 0;
		static const uint8_t FP[8] = {40, 8, 48, 16, 56, 24, 64, 32};
		for (int i = 0; i < 64; i++) x = x << 1 | (y >> (64 - (FP[i % 8] - i / 8)) & 1);
		for (int i = 0; i < 8; i++) out[i] = (uint8_t)(x >> (56 - 8 * i));
	}
};
inline uint32_t RefDes::SP[2][8][64]; inline bool RefDes::ready;
