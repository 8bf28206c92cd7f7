// For harnesses that bring their own allocator: the names vh.cpp needs.
#include "vh.h"
namespace vh { long live_allocs, alloc_count, fail_at = -1, fail_at2 = -1; bool track_allocs, fail_rest; int alloc_fill = -1; void track_reset() {} }
