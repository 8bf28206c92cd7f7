// Allocation control through the linker's --wrap: counting, failing the k-th allocation, filling fresh memory.
#include "vh.h"
namespace vh {
long live_allocs, alloc_count, fail_at = -1, fail_at2 = -1; bool track_allocs, fail_rest; int alloc_fill = -1;
static void *tab[4096]; static size_t siz[4096]; static int ntab; void (*free_hook)(void *, size_t);
void track_reset() { live_allocs = 0; alloc_count = 0; ntab = 0; fail_at = fail_at2 = -1; fail_rest = false; }
static void add(void *p, size_t n) { live_allocs++; if (ntab < 4096) { siz[ntab] = n; tab[ntab++] = p; } }
static void del(void *p, bool hook) { for (int i = ntab - 1; i >= 0; i--) if (tab[i] == p) { size_t n = siz[i]; ntab--; tab[i] = tab[ntab]; siz[i] = siz[ntab]; live_allocs--; if (free_hook && hook) free_hook(p, n); return; } }
static bool deny() { long k = alloc_count++; return fail_at >= 0 && (k == fail_at || k == fail_at2 || (fail_rest && k > fail_at)); }
}
using namespace vh;
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) {
	if (!track_allocs) return __real_malloc(n);
	if (deny()) return NULL;
	void *p = __real_malloc(n); if (p) { add(p, n); if (alloc_fill >= 0) memset(p, alloc_fill, n); } return p;
}
void *__wrap_calloc(size_t a, size_t b) {
	if (!track_allocs) return __real_calloc(a, b);
	if (deny()) return NULL;
	void *p = __real_calloc(a, b); if (p) add(p, a * b); return p;
}
void *__wrap_realloc(void *o, size_t n) {
	if (!track_allocs) return __real_realloc(o, n);
	if (deny()) return NULL;
	void *p = __real_realloc(o, n); if (p) { if (o) del(o, false); add(p, n); } return p;
}
void __wrap_free(void *p) {
	if (track_allocs && p) del(p, true);
	__real_free(p);
}
}
