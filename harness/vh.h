// Common machinery of the exhaustive harnesses.
//
// A harness is a set of "spaces".  A space is a finite, fully enumerated set of cases; case k is a
// pure function of k, so every violation is replayed by (space, k) alone.  No random choices exist.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <unordered_set>
#include <set>
#include <map>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdint.h>
#include <racrypt.h>

#ifndef RA_RAND_BUFFER_SIZE
#include <racrypt_random.h>
#endif

namespace vh {
// a pointer the library stored (of a big-endian build, the other way round)
#ifdef VH_BE
static inline void from_lib(void **p) { *p = (void *)__builtin_bswap64((uint64_t)*p); }
static inline uint32_t lib32(uint32_t v) { return __builtin_bswap32(v); }
static inline uint64_t lib64(uint64_t v) { return __builtin_bswap64(v); }
#else
static inline uint32_t lib32(uint32_t v) { return v; }
static inline uint64_t lib64(uint64_t v) { return v; }
static inline void from_lib(void **) {}
#endif

struct Status {           // shared with the driver through a mapped file: survives a crash
	uint64_t beat;        // number of cases started
	uint64_t cas;
	char space[64];
	char note[448];
};

struct Space {
	const char *props;    // comma separated property ids
	const char *name;
	int tier;             // 0: quick and thorough, 1: thorough only, 2: quick only
	const char *rule;
	std::function<uint64_t()> count;
	std::function<void(uint64_t)> run;
};

struct CaseAbort {};

inline std::vector<Space> &spaces() { static std::vector<Space> v; return v; }
struct Reg { Reg(const char *p, const char *n, int t, const char *r, std::function<uint64_t()> c, std::function<void(uint64_t)> f) {
	spaces().push_back(Space{p, n, t, r, c, f}); } };

extern Status *st;
extern uint64_t evals, nontriv, trans, traces;
extern bool thorough;
extern bool sampling;              // harness should call sample() for this case
extern std::unordered_set<uint64_t> states;

void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
inline uint64_t hashb(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL;
	h ^= h >> 29; return h;
}
inline void state(uint64_t h) { states.insert(h); }

std::string hex(const void *p, size_t n);

// For comparing builds: everything a case observes is folded into one hash per case (--hashes), or printed (--dump).
extern uint64_t case_hash; extern bool dumping;
void emit(const char *what, const void *p, size_t n);
inline void emit(const char *what, const std::vector<uint8_t> &v) { emit(what, v.data(), v.size()); }
inline void emit(const char *what, int64_t v) { uint8_t b[8]; for (int i = 0; i < 8; i++) b[i] = (uint8_t)(v >> (56 - 8 * i)); emit(what, b, 8); }

// deterministic filler (not a random choice: a fixed function of the index)
inline uint8_t fill(uint64_t i, uint64_t salt = 0) {
	uint64_t x = i * 0x9e3779b97f4a7c15ULL + salt * 0xbf58476d1ce4e5b9ULL + 0x1234567;
	x ^= x >> 31; x *= 0x94d049bb133111ebULL; x ^= x >> 29; return (uint8_t)(x >> 17);
}
inline void fillbuf(uint8_t *p, size_t n, uint64_t salt) { for (size_t i = 0; i < n; i++) p[i] = fill(i, salt); }

// A memory region between two inaccessible pages: a buffer placed at its end or start traps on any overrun/underrun,
// also for accesses made by inline assembly, which sanitizers do not see.
struct Guard {
	uint8_t *base; size_t size;
	explicit Guard(size_t bytes) {
		size = (bytes + 4095) / 4096 * 4096 + 4096;
		uint8_t *m = (uint8_t *)mmap(NULL, size + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (m == MAP_FAILED) { perror("mmap"); _exit(9); }
		base = m + 4096;
		if (mprotect(base, size, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(9); }
	}
	uint8_t *tail(size_t n) { return base + size - n; }     // ends at the guard page
	uint8_t *head() { return base; }                        // starts at the guard page
};

// ---- allocation control (link with --wrap=malloc,calloc,realloc,free) ----
extern long live_allocs;           // allocations made while tracking, not yet freed
extern bool track_allocs;
extern long alloc_count;           // allocations since reset
extern long fail_at;               // fail allocation number fail_at (0-based), -1: never
extern long fail_at2;              // and this one
extern bool fail_rest;             // and every later one
extern int alloc_fill;             // byte used to fill fresh memory, -1: leave
extern void (*free_hook)(void *, size_t); // called before tracked memory is released
void track_reset();
struct Track { Track() { track_reset(); track_allocs = true; } ~Track() { track_allocs = false; fail_at = fail_at2 = -1; fail_rest = false; } };

}  // namespace vh

#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define SPACE(props, name, tier, rule, countexpr) \
	static void VH_CAT(vh_run_, __LINE__)(uint64_t idx); \
	static vh::Reg VH_CAT(vh_reg_, __LINE__)(props, name, tier, rule, []() -> uint64_t { return (uint64_t)(countexpr); }, VH_CAT(vh_run_, __LINE__)); \
	static void VH_CAT(vh_run_, __LINE__)(uint64_t idx)
