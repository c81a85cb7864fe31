// Creating a cache (and a batch) when any of the allocations may fail.
#include "sx.h"
#include "pogocache.h"
static int failed;
static void *h_malloc(size_t n) { if (sx_choose(2, "allocfail")) { failed++; return 0; } return malloc(n); }
static void h_free(void *p) { free(p); }
void harness(void) {
    struct pogocache_opts po = {0};
    po.nshards = 1 + sx_choose(NSH, "nshards"); po.malloc = h_malloc; po.free = h_free;
    po.usethreadbatch = sx_choose(2, "threadbatch");
    size_t live0 = sx_heap_live();
    struct pogocache *c = pogocache_new(&po);
    sx_assert((c == 0) == (failed > 0), "a cache is returned exactly when every allocation succeeded");
    if (c) {
        failed = 0;
        sx_assert(pogocache_nshards(c) == po.nshards, "shard count");
        struct pogocache *b = pogocache_begin(c);
        sx_assert((b == 0) == (failed > 0), "a batch is returned exactly when its allocation succeeded");
        if (b) {
            failed = 0;
            int r = pogocache_store(b, "k", 1, "v", 1, &(struct pogocache_store_opts){.time=1});
            sx_assert(r == (failed ? POGOCACHE_NOMEM : POGOCACHE_INSERTED), "store in a batch");
            pogocache_end(b);
            sx_assert(pogocache_count(c, 0) == (size_t)(failed ? 0 : 1), "count");
        }
        pogocache_free(c);
    }
    sx_assert(sx_heap_live() == live0, "nothing leaks");
    pogocache_free(0);
}
