/* Visual C++'s 128-bit intrinsics */
#pragma once
#include <stdint.h>
static inline uint64_t _umul128(uint64_t a, uint64_t b, uint64_t *high)
{
	uint64_t lo, hi;
	__asm__("mulq %3" : "=a"(lo), "=d"(hi) : "0"(a), "rm"(b) : "cc");
	*high = hi;
	return lo;
}
/* like the instruction, it traps when the quotient does not fit */
static inline uint64_t _udiv128(uint64_t high, uint64_t low, uint64_t divisor, uint64_t *remainder)
{
	uint64_t q, r;
	__asm__("divq %4" : "=a"(q), "=d"(r) : "0"(low), "1"(high), "rm"(divisor) : "cc");
	*remainder = r;
	return q;
}
