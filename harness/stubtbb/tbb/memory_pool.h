// Stand-in for the TBB fixed pool with its documented contract: malloc gives null when exhausted, free takes null or a live block.
#ifndef VF_TBB_POOL
#define VF_TBB_POOL
#include <string.h>
#include "arena.h"
namespace tbb { class fixed_pool { public: Arena a; static fixed_pool*& last() { static fixed_pool* p = 0; return p; } fixed_pool(void* b, size_t n) { a.init(b, n); last() = this; } ~fixed_pool() { if (last() == this) last() = 0; } void* malloc(size_t n) { return n ? a.get(n) : 0; } void free(void* p) { if (p) a.put(p); } bool recycle() { a.nb = 0; return true; } }; }
#endif
