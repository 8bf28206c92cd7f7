// P11, P12 digest values; P13 incremental hashing; P09 reuse and independence of digest contexts.
#include "digests.h"
using namespace vh;
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
static Guard &GD() { static Guard g(1 << 16); return g; }
static Guard &GOUT() { static Guard g(4096); return g; }
static void base(int which, uint8_t *p, size_t n) { if (which == 0) memset(p, 0, n); else if (which == 1) memset(p, 0xff, n); else fillbuf(p, n, 500 + which); }

// digest of a message through every interface, output placed before a guard page
static void check_msg(int d, const uint8_t *msg, int n, const char *what, bool both = true) {
	uint8_t want[64]; ref_digest(d, msg, n, want); int L = DG[d].len;
	uint8_t *p = GD().tail(n); memmove(p, msg, n);
	uint8_t *o = GOUT().tail(L); memset(o - 8, 0xE1, 8 + L);
	static DgCtx c; dg_init(d, &c); dg_update(d, &c, p, n); dg_final(d, &c, o); evals++; nontriv++;
	if (memcmp(o, want, L)) fail("%s of %s (%d bytes %s) is %s, want %s", DG[d].name, what, n, hex(msg, n).c_str(), hex(o, L).c_str(), hex(want, L).c_str());
	for (int i = 1; i <= 8; i++) if (o[-i] != 0xE1) fail("%s writes below its output", DG[d].name);
	if (both) { memset(o, 0, L); if (dg_oneshot(d, p, n, o)) { evals++; nontriv++; if (memcmp(o, want, L)) fail("%s one-shot of %s (%d bytes) is %s, want %s", DG[d].name, what, n, hex(o, L).c_str(), hex(want, L).c_str()); } }
	if (d == D_SHA256 || d == D_SHA512) { // the directly named incremental interface
		memset(o, 0, L); RaSha2Ctx s; if (d == D_SHA256) { RaSha256Init(&s); RaSha256Update(&s, p, n); RaSha256Final(&s, o); } else { RaSha512Init(&s); RaSha512Update(&s, p, n); RaSha512Final(&s, o); }
		evals++; if (memcmp(o, want, L)) fail("%s direct interface, %d bytes: %s, want %s", DG[d].name, n, hex(o, L).c_str(), hex(want, L).c_str());
	}
	if (memcmp(p, msg, n)) fail("%s changes its input", DG[d].name);
}
// which digests a property covers
static const int P11L[] = {D_SHA1, D_SHA224, D_SHA256, D_SHA384, D_SHA512, D_SHA512_224, D_SHA512_256}; enum { N11 = 7 };
static const int P12L[] = {D_MD2, D_MD4, D_MD5, D_HAS160}; enum { N12 = 4 };

static void lengths(int d, uint64_t idx) { int n = (int)(idx / 3); static uint8_t m[8192]; base((int)(idx % 3), m, n); check_msg(d, m, n, "message"); sample("%s of %d bytes, content %d", DG[d].name, n, (int)(idx % 3)); }
static void shortmsg(int d, uint64_t idx) { // idx: first byte; all messages of one and two bytes
	uint8_t m[2] = {(uint8_t)idx, 0}; check_msg(d, m, 1, "1-byte message"); for (int v = 0; v < 256; v++) { m[1] = (uint8_t)v; check_msg(d, m, 2, "2-byte message", false); } sample("%s of all messages %02x ..", DG[d].name, (int)idx); }
static void bytepos(int d, uint64_t idx) { int pos = (int)(idx / 2); static uint8_t m[256]; int n = (idx & 1) ? 2 * DG[d].blk : pos + 1; if (pos >= n) return; for (int v = 0; v < 256; v++) { base((int)(2 + pos % 3), m, n); m[pos] = (uint8_t)v; check_msg(d, m, n, "byte position", false); } sample("%s byte %d takes all values in %d bytes", DG[d].name, pos, n); }
static void twobits(int d, uint64_t idx) { static uint8_t m[128]; int n = DG[d].blk - (d == D_MD2 ? 0 : DG[d].blk / 8 + 1), nb = n * 8; if ((int)idx >= nb) return; for (int b2 = (int)idx; b2 < nb; b2 += thorough ? 1 : 3) { memset(m, 0, n); m[idx / 8] |= 0x80 >> idx % 8; m[b2 / 8] |= 0x80 >> b2 % 8; check_msg(d, m, n, "two-bit message", false); } sample("%s messages with bit %d and another set", DG[d].name, (int)idx); }
static void chained(int d, uint64_t idx) { static uint8_t m[600]; int n = 40 + (int)idx * 7; base(3 + (int)idx, m, n); for (int i = 0; i < 200; i++) { uint8_t o[64]; check_msg(d, m, n, "chained", false); ref_digest(d, m, n, o); for (int j = 0; j < DG[d].len; j++) m[(i * 31 + j) % n] ^= o[j]; } }
// long messages: streamed in big pieces of different sizes
static void longmsg(int d, uint64_t total, const char *what) {
	const size_t CH = 1 << 22; static uint8_t *buf; if (!buf) { buf = (uint8_t *)malloc(CH + 64); fillbuf(buf, CH + 64, 77); }
	static DgCtx c; dg_init(d, &c); RefDg r; r.init(d); uint64_t left = total, k = 0;
	while (left) { uint64_t n = std::min<uint64_t>(left, k % 3 == 0 ? CH : k % 3 == 1 ? CH - 64 * 3 + 1 : 65537); dg_update(d, &c, buf + k % 61, (int)n); r.update(buf + k % 61, n); left -= n; k++; st->beat++; }
	uint8_t o[64], w[64]; dg_final(d, &c, o); r.fin(w); evals++; nontriv++;
	if (memcmp(o, w, DG[d].len)) fail("%s of %llu bytes (%s) is %s, want %s", DG[d].name, (unsigned long long)total, what, hex(o, DG[d].len).c_str(), hex(w, DG[d].len).c_str());
	sample("%s of %llu bytes", DG[d].name, (unsigned long long)total);
}
// one call with a big length (the length argument is an int)
static void bigcall(int d, uint64_t n) {
	static uint8_t *buf; const size_t SZ = (1UL << 31); if (!buf) { buf = (uint8_t *)mmap(NULL, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (buf == MAP_FAILED) { buf = NULL; return; } buf[0] = 1; buf[SZ / 2] = 2; }
	st->beat++; static DgCtx c; dg_init(d, &c); uint8_t x[3] = {1, 2, 3}; dg_update(d, &c, x, 3); dg_update(d, &c, buf, (int)n); st->beat++; RefDg r; r.init(d); r.update(x, 3); r.update(buf, n); uint8_t o[64], w[64]; dg_final(d, &c, o); r.fin(w); evals++; nontriv++;
	if (memcmp(o, w, DG[d].len)) fail("%s of one %llu-byte update wrong", DG[d].name, (unsigned long long)n);
	sample("%s one update of %llu bytes", DG[d].name, (unsigned long long)n);
}
// the length counter: the context's public counters are set as after a very long message, its chaining value is the same in both
template <class C, class = void> struct HasLen : std::false_type {};
template <class C> struct HasLen<C, std::void_t<decltype(std::declval<C &>().totalLen_l), decltype(std::declval<C &>().totalLen_h)>> : std::true_type {};
template <class C, class = void> struct HasHH : std::false_type {};
template <class C> struct HasHH<C, std::void_t<decltype(std::declval<C &>().totalLen_hh)>> : std::true_type {};
template <class C> static bool setlen(C &c, unsigned __int128 bytes, bool wide) {
	if constexpr (HasLen<C>::value) {
		if (sizeof c.totalLen_l != 4 || sizeof c.totalLen_h != 4) return false;
		c.totalLen_l = lib32((uint32_t)bytes); c.totalLen_h = lib32((uint32_t)(bytes >> 32));
		if (wide) { if constexpr (HasHH<C>::value) { c.totalLen_hh = lib64((uint64_t)(bytes >> 64)); } else return false; }
		return true;
	}
	return false;
}
static void counter(int d, uint64_t idx) {
	int bits = (int)(idx / 9), off = (int)(idx % 9); bool wide = DG[d].blk == 128; if (d == D_MD2) return; if (!wide && bits > 61) return; if (wide && bits > 124) return;
	unsigned __int128 start = ((unsigned __int128)1 << bits); if (start < 256) return; start -= 128; if (off >= 6) start += (unsigned __int128)0xA5A5A5A5A5A5A5A5ULL * 128 & (((unsigned __int128)1 << bits) - 128);
	static DgCtx c; dg_init(d, &c); RefDg r; r.init(d); bool ok = false;
	switch (d) { case D_MD4: ok = setlen(c.md4, start, false); break; case D_MD5: ok = setlen(c.md5, start, false); break; case D_HAS160: ok = setlen(c.has, start, false); break; case D_SHA1: ok = setlen(c.sha1, start, false); break; default: ok = setlen(c.sha2, start, wide); }
	if (!ok) return; r.inject(start);
	static const int L[9] = {0, 1, 127, 128, 129, 300, 5, 128, 257}; uint8_t m[300]; fillbuf(m, 300, idx); int n = L[off];
	dg_update(d, &c, m, n / 2); dg_update(d, &c, m + n / 2, n - n / 2); r.update(m, n); uint8_t o[64], w[64]; dg_final(d, &c, o); r.fin(w); evals++; nontriv++;
	if (memcmp(o, w, DG[d].len)) fail("%s with the counter at 2^%d-128 bytes%s then %d bytes: %s, want %s", DG[d].name, bits, off >= 6 ? " plus a pattern" : "", n, hex(o, DG[d].len).c_str(), hex(w, DG[d].len).c_str());
	sample("%s counter near 2^%d, then %d bytes", DG[d].name, bits, n);
}
SPACE("P11", "sha_lengths", 0, "all lengths 0..1100 x 3 contents x digests x interfaces", N11 * 1101 * 3) { lengths(P11L[idx % N11], idx / N11); }
SPACE("P12", "md_lengths", 0, "all lengths 0..1100 x 3 contents x digests x interfaces", N12 * 1101 * 3) { lengths(P12L[idx % N12], idx / N12); }
SPACE("P11", "sha_lengths_wide", 0, "all lengths 1101..4500 x digests x interfaces", N11 * 3400) { lengths(P11L[idx % N11], 3 * (1101 + idx / N11) + 2); }
SPACE("P12", "md_lengths_wide", 0, "all lengths 1101..4500 x digests x interfaces", N12 * 3400) { lengths(P12L[idx % N12], 3 * (1101 + idx / N12) + 2); }
SPACE("P11", "sha_short", 0, "all messages of one and two bytes", N11 * 256) { shortmsg(P11L[idx % N11], idx / N11); }
SPACE("P12", "md_short", 0, "all messages of one and two bytes", N12 * 256) { shortmsg(P12L[idx % N12], idx / N12); }
SPACE("P11", "sha_bytes", 0, "every byte position of messages up to two blocks x every value", N11 * 512) { bytepos(P11L[idx % N11], idx / N11); }
SPACE("P12", "md_bytes", 0, "every byte position of messages up to two blocks x every value", N12 * 512) { bytepos(P12L[idx % N12], idx / N12); }
SPACE("P11", "sha_bits", 0, "messages of one block's room with two bits set", N11 * 1024) { twobits(P11L[idx % N11], idx / N11); }
SPACE("P12", "md_bits", 0, "messages of one block's room with two bits set", N12 * 512) { twobits(P12L[idx % N12], idx / N12); }
SPACE("P11", "sha_chain", 0, "feedback chains over messages of 60 lengths", N11 * 60) { chained(P11L[idx % N11], idx / N11); }
SPACE("P12", "md_chain", 0, "feedback chains over messages of 60 lengths", N12 * 60) { chained(P12L[idx % N12], idx / N12); }
static const uint64_t MID[] = {4095, 4096, 4097, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (16 << 20) + 5}; enum { NMID = 10 };
SPACE("P11", "sha_mid", 0, "lengths up to 16 MiB", N11 * NMID) { longmsg(P11L[idx % N11], MID[idx / N11], "mid"); }
SPACE("P12", "md_mid", 0, "lengths up to 16 MiB", N12 * NMID) { int d = P12L[idx % N12]; longmsg(d, d == D_MD2 ? MID[idx / N12] / 4 : MID[idx / N12], "mid"); }
SPACE("P11", "sha_counter", 0, "length counter set near every power of two up to 2^61 (2^124) bytes, then 9 message tails", N11 * 125 * 9) { counter(P11L[idx % N11], idx / N11); }
SPACE("P12", "md_counter", 0, "length counter set near every power of two up to 2^61 bytes, then 9 message tails", N12 * 62 * 9) { counter(P12L[idx % N12], idx / N12); }
static const uint64_t LONG[] = {(1ULL << 29) + 61, (1ULL << 29) - 1, (1ULL << 32) + 77}; 
SPACE("P11", "sha_long", 0, "messages of 2^29 +/- bytes (bit count beyond 32 bits); thorough: beyond 2^32 bytes", N11 * (thorough ? 3 : 1)) { longmsg(P11L[idx % N11], LONG[idx / N11], "long"); }
SPACE("P12", "md_long", 0, "messages of 2^29 +/- bytes (bit count beyond 32 bits); thorough: beyond 2^32 bytes", N12 * (thorough ? 3 : 1)) { int d = P12L[idx % N12]; if (d != D_MD2) longmsg(d, LONG[idx / N12], "long"); }
SPACE("P11", "sha_bigcall", 1, "one update call of up to 2^31-1 bytes", N11 * 2) { bigcall(P11L[idx % N11], idx / N11 ? 0x7fffffff : 0x7fffffc1); }
SPACE("P12", "md_bigcall", 1, "one update call of up to 2^31-1 bytes", N12 * 2) { if (P12L[idx % N12] != D_MD2) bigcall(P12L[idx % N12], idx / N12 ? 0x7fffffff : 0x7fffffc1); }

// ---- P13
static uint8_t *MSG() { static uint8_t *m; if (!m) { m = (uint8_t *)malloc(8192); fillbuf(m, 8192, 99); } return m; }
struct Inc { // library context fed piece by piece, pieces placed at chosen alignments before a guard page
	int d; DgCtx *c; int pos = 0; std::string h; DgCtx own; const uint8_t *m = MSG();
	Inc(int dd) : d(dd) { c = &own; memset(c, 0x3C, sizeof own); dg_init(d, c); }
	void up(int n, int off = 0) { uint8_t *p = GD().tail(n + off); memcpy(p, m + pos, n); dg_update(d, c, n ? p : (off & 1) ? NULL : p, n); pos += n; trans++; h += " " + std::to_string(n); vh::state(mix(mix(d, pos % DG[d].blk), pos)); }
	void fin() { uint8_t want[64]; ref_digest(d, m, pos, want); uint8_t *o = GOUT().tail(DG[d].len); dg_final(d, c, o); trans++; evals++; if (pos) nontriv++; if (memcmp(o, want, DG[d].len)) fail("%s updates%s: %s, want %s", DG[d].name, h.c_str(), hex(o, DG[d].len).c_str(), hex(want, DG[d].len).c_str()); h += " fin"; }
	void init() { dg_init(d, c); pos = 0; h += " init"; trans++; }
};
SPACE("P13", "inc_two", 0, "every split of every message of 0..2 blocks+2 into two updates", NDG * 259) { int d = idx % NDG, n = (int)(idx / NDG); if (n > 2 * DG[d].blk + 2) return; for (int k = 0; k <= n; k++) { Inc x(d); x.up(k, k % 16); x.up(n - k, k % 7); x.fin(); traces++; if (k == n / 2) sample("%s updates%s", DG[d].name, x.h.c_str()); } }
static int ch(int d, int i) { int B = DG[d].blk, t[14] = {0, 1, B - 1, B, B + 1, 2 * B, B - 9, B - 8, B - 17, B - 16, 3 * B - 1, 3 * B + 1, 7, B / 2}; return t[i] < 0 ? 3 : t[i]; }
static void inc_seq(uint64_t idx, int depth) { int d = idx % NDG; idx /= NDG; uint64_t s = idx; Inc x(d); for (int i = 0; i < depth; i++) { x.up(ch(d, s % 14), (int)(i * 5 + s) % 16); s /= 14; } x.fin(); traces++; sample("%s updates%s", DG[d].name, x.h.c_str()); }
SPACE("P13", "inc_seq4", 2, "all sequences of 4 updates from 14 lengths around block and padding boundaries, at varying alignments", NDG * 38416) { inc_seq(idx, 4); }
SPACE("P13", "inc_seq5", 1, "all sequences of 5 updates from 14 lengths around block and padding boundaries, at varying alignments", NDG * 537824) { inc_seq(idx, 5); }
SPACE("P13", "inc_uniform", 0, "the message of 700 bytes cut into pieces of every constant length 1..200", NDG * 200) { int d = idx % NDG, n = (int)(idx / NDG) + 1; Inc x(d); while (x.pos < 700) x.up(n, n % 16); x.fin(); traces++; }
SPACE("P13", "inc_three", 0, "all (fill, piece, rest) with every buffer fill 0..B-1 and every piece length 0..2B+1", NDG * 128) { int d = idx % NDG, f = (int)(idx / NDG); int B = DG[d].blk; if (f >= B) return; for (int n = 0; n <= 2 * B + 1; n++) { Inc x(d); x.up(f); x.up(n, n & 15); x.up(B / 2 + 1); x.fin(); traces++; } }
// long pieces and many pieces: whatever shortcut a long or a frequent update may take
static void piece(int d, int f, int n, int off) {
	static Guard big((1 << 20) + 4096); static uint8_t *m; if (!m) { m = (uint8_t *)malloc((1 << 20) + 8192); fillbuf(m, (1 << 20) + 8192, 41); }
	static DgCtx c; memset(&c, 0x3C, sizeof c); dg_init(d, &c); RefDg r; r.init(d); int len[3] = {f, n, 5}, pos = 0; for (int i = 0; i < 3; i++) { uint8_t *p = big.tail(len[i] + (i == 1 ? off : 0)); memcpy(p, m + pos, len[i]); dg_update(d, &c, p, len[i]); r.update(m + pos, len[i]); pos += len[i]; trans++; }
	uint8_t o[64], w[64]; dg_final(d, &c, o); r.fin(w); evals++; nontriv++; traces++; st->beat++; if (memcmp(o, w, DG[d].len)) fail("%s updates of %d, %d and 5 bytes: %s, want %s", DG[d].name, f, n, hex(o, DG[d].len).c_str(), hex(w, DG[d].len).c_str());
}
SPACE("P13", "inc_pieces", 0, "a piece of one of 35 lengths up to 8193 bytes, or from there to 1 MiB (25 lengths), after every buffer fill (for the longer ones six fills), then a short piece", NDG * 60) {
	int d = idx % NDG, k = (int)(idx / NDG), B = DG[d].blk; static const int S[35] = {255, 256, 257, 319, 320, 321, 383, 384, 385, 511, 512, 513, 639, 640, 641, 767, 768, 769, 1023, 1024, 1025, 1279, 1280, 1535, 1536, 2047, 2048, 2049, 3072, 4095, 4096, 4097, 8191, 8192, 8193};
	if (k < 35) { for (int f = 0; f < B; f++) { piece(d, f, S[k], (f + k) % 16); piece(d, f, S[k] - f, f % 3 * 8); } sample("%s fill 0..%d then %d", DG[d].name, B - 1, S[k]); return; }
	static const int L[25] = {10000, 12288, 16383, 16384, 16385, 20000, 24576, 32767, 32768, 32769, 49152, 65535, 65536, 65537, 65600, 98304, 100000, 131071, 131072, 131073, 262144, 300000, 524288, 1000000, 1048576}; int n = L[k - 35]; if (d == D_MD2 && n > 140000) return; for (int f : {0, 1, 3, B / 2, B - 8, B - 1}) if (f < B && f >= 0) { piece(d, f, n, f % 16); piece(d, f, n - f, 0); } sample("%s %d bytes", DG[d].name, n);
}
SPACE("P13", "inc_many", 0, "up to 140000 updates of 1, 2, 3, 5, 8, B-1, B and B+1 bytes: the digest right after each of about 30 counts", NDG * 8) {
	int d = idx % NDG, B = DG[d].blk; const int N[8] = {1, 2, 3, 5, 8, B - 1, B, B + 1}; int n = N[idx / NDG], max = d == D_MD2 ? 10000 : n > 8 ? 20000 : 140000; static DgCtx c; std::set<int> at; for (int s = 256; s <= max; s *= 2) { at.insert(s); at.insert(s - 1); at.insert(s + 1); } at.insert(1000); at.insert(10000); at.insert(max); uint8_t x[200]; fillbuf(x, 200, idx);
	for (int cnt : at) { dg_init(d, &c); RefDg r; r.init(d); for (int i = 1; i <= cnt; i++) { dg_update(d, &c, x + i % 61, n); r.update(x + i % 61, n); } trans += cnt; st->beat++; uint8_t o[64], w[64]; dg_final(d, &c, o); r.fin(w); evals++; nontriv++; if (memcmp(o, w, DG[d].len)) fail("%s after %d updates of %d bytes: %s, want %s", DG[d].name, cnt, n, hex(o, DG[d].len).c_str(), hex(w, DG[d].len).c_str()); }
	traces++; sample("%s %d updates of %d bytes", DG[d].name, max, n);
}
// ---- P09
static void dg_pair(uint64_t idx, int depth) {
	int d1 = idx % NDG; idx /= NDG; int d2 = idx % NDG; idx /= NDG; Inc a(d1), b(d2); b.m = MSG() + 1000; Inc *e[2] = {&a, &b};
	for (int i = 0; i < depth; i++) { int o = idx % 12; idx /= 12; Inc &x = *e[o & 1]; int B = DG[x.d].blk; switch (o >> 1) { case 0: x.up(1); break; case 1: x.up(B); break; case 2: x.up(B - 9); break; case 3: x.init(); break; case 4: x.fin(); x.init(); break; case 5: x.up(2 * B + 5); break; } }
	a.fin(); b.fin(); a.init(); a.up(5); b.init(); b.up(6); a.fin(); b.fin(); traces++;
	sample("%s:%s | %s:%s", DG[d1].name, a.h.c_str(), DG[d2].name, b.h.c_str());
}
SPACE("P09", "digest_pairs3", 2, "two digest contexts, every pair of digests: all sequences of 3 operations (3 updates, long update, re-init, final+re-init) on either", NDG * NDG * ipow(12, 3)) { dg_pair(idx, 3); }
SPACE("P09", "digest_pairs4", 1, "two digest contexts, every pair of digests: all sequences of 4 operations (3 updates, long update, re-init, final+re-init) on either", NDG * NDG * ipow(12, 4)) { dg_pair(idx, 4); }
SPACE("P09", "digest_reuse_other", 0, "a SHA-2 context re-initialised for every other SHA-2 algorithm after every length", 6 * 6 * 130) { int d1 = D_SHA224 + idx % 6, d2 = D_SHA224 + idx / 6 % 6, n = (int)(idx / 36); DgCtx c; memset(&c, 0xCC, sizeof c); uint8_t o[64], w[64]; dg_init(d1, &c); dg_update(d1, &c, MSG(), n); if (n & 1) dg_final(d1, &c, o); dg_init(d2, &c); dg_update(d2, &c, MSG() + 7, 130 - n); dg_final(d2, &c, o); ref_digest(d2, MSG() + 7, 130 - n, w); evals++; trans++; nontriv++; traces++; if (memcmp(o, w, DG[d2].len)) fail("%s after %s with %d bytes: wrong", DG[d2].name, DG[d1].name, n); }
SPACE("P09", "digest_create", 0, "contexts from Create of every pair of digests, one destroyed between the other's calls, nothing left allocated", NDG * NDG) {
	int a = idx % NDG, b = idx / NDG; Track t; void *x = NULL, *y = NULL; if (dg_create(a, &x) || dg_create(b, &y) || !x || !y) fail("Create fails"); uint8_t o[64], w[64];
	dg_update(a, x, MSG(), 70); dg_update(b, y, MSG(), 71); dg_final(a, x, o); dg_destroy(a, x); track_allocs = false; ref_digest(a, MSG(), 70, w); track_allocs = true; evals++; trans++; if (memcmp(o, w, DG[a].len)) fail("%s beside %s wrong", DG[a].name, DG[b].name);
	dg_final(b, y, o); dg_destroy(b, y); track_allocs = false; ref_digest(b, MSG(), 71, w); track_allocs = true; evals++; trans++; nontriv++; traces++; if (memcmp(o, w, DG[b].len)) fail("%s beside %s wrong", DG[b].name, DG[a].name); if (live_allocs) fail("%ld allocations left", live_allocs);
}
// the references against published vectors
SPACE("P11,P12", "reference_vectors", 0, "references agree with published vectors and OpenSSL's EVP digests", 1) {
	uint8_t o[64]; auto t = [&](int d, const char *m, const char *hx) { ref_digest(d, (const uint8_t *)m, strlen(m), o); evals++; if (hex(o, DG[d].len) != hx) { fprintf(stderr, "reference %s wrong: %s\n", DG[d].name, hex(o, DG[d].len).c_str()); _exit(7); } };
	t(D_MD2, "", "8350e5a3e24c153df2275c9f80692773"); t(D_MD2, "abc", "da853b0d3f88d99b30283a69e6ded6bb"); t(D_MD2, "12345678901234567890123456789012345678901234567890123456789012345678901234567890", "d5976f79d83d3a0dc9806c3c66f3efd8");
	t(D_HAS160, "", "307964ef34151d37c8047adec7ab50f4ff89762d"); t(D_HAS160, "a", "4872bcbc4cd0f0a9dc7c2f7045e5b43b6c830db8"); t(D_HAS160, "abc", "975e810488cf2a3d49838478124afce4b1c78804");
	const char *N[2] = {"SHA512-224", "SHA512-256"}; for (int k = 0; k < 2; k++) { uint8_t e[64]; unsigned n = 0; EVP_Digest(MSG(), 300, e, &n, EVP_get_digestbyname(N[k]), NULL); ref_digest(D_SHA512_224 + k, MSG(), 300, o); if (memcmp(e, o, n)) { fprintf(stderr, "reference %s wrong\n", N[k]); _exit(7); } }
	sample("published vectors of the references");
}
