// hashmap.c against a plain set of (key, value) pairs, with chosen hash placement.
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include "hashmap.h"
struct item { uint32_t key; uint32_t pad; uint64_t val; };
#define NALL (FILL + NK)
static uint64_t H[NALL]; static uint64_t mv[NALL]; static uint8_t live[NALL]; static int nfree; static int failing;
static void *h_malloc(size_t n) { if (failing && sx_choose(2, "fail")) return 0; return malloc(n); }
static void *h_realloc(void *p, size_t n) { return realloc(p, n); }
static void h_free(void *p) { free(p); }
static uint64_t h_hash(const void *p, uint64_t a, uint64_t b) { sx_assert(a == 7 && b == 9, "seeds are passed on"); return H[((struct item*)p)->key]; }
static int h_cmp(const void *a, const void *b, void *u) { sx_assert(u == (void*)H, "user data is passed on"); return (int)((struct item*)a)->key - (int)((struct item*)b)->key; }
static void h_elfree(void *p) { struct item *i = p; sx_assert(i->key < NALL && live[i->key] && i->val == mv[i->key], "only present items are freed"); nfree++; }
static uint8_t seen[NALL];
static bool h_iter(const void *p, void *u) { const struct item *i = p; (void)u; sx_assert(i->key < NALL && live[i->key] && !seen[i->key] && i->val == mv[i->key], "scan item"); seen[i->key] = 1; return true; }
static struct hashmap *m; static size_t cnt;
static void check(void) {
    sx_assert(hashmap_count(m) == cnt, "count");
    for (int k = 0; k < NALL; k++) { struct item q = { .key = k }; const struct item *r = hashmap_get(m, &q); sx_assert((r != 0) == live[k], "present exactly when set"); if (r) sx_assert(r->key == (uint32_t)k && r->val == mv[k], "value"); }
}
static bool put(int k, uint64_t v) {
    struct item q = { .key = k, .val = v }; const struct item *r = hashmap_set(m, &q);
    if (hashmap_oom(m)) { sx_assert(r == 0 && failing, "out of memory is reported only when it happened"); return false; }
    sx_assert((r != 0) == live[k], "the old item is returned exactly when there was one");
    if (r) sx_assert(r->key == (uint32_t)k && r->val == mv[k], "old item"); else { live[k] = 1; cnt++; }
    mv[k] = v; return true;
}
static void del(int k) {
    struct item q = { .key = k }; const struct item *r = hashmap_delete(m, &q);
    sx_assert((r != 0) == live[k], "deleted exactly when present");
    if (r) { sx_assert(r->key == (uint32_t)k && r->val == mv[k], "deleted item"); live[k] = 0; cnt--; }
}
void harness(void) {
    size_t cap = CAPX ? (size_t[]){0, 16, 17, 32}[sx_choose(4, "cap")] : 0;
    m = hashmap_new_with_allocator(h_malloc, h_realloc, h_free, sizeof(struct item), cap, 7, 9, h_hash, h_cmp, h_elfree, (void*)H);
    sx_assert(m && hashmap_count(m) == 0, "created");
    static const uint64_t home[] = { 0, 15, 1, 31, (1ull << 47) | 15, 1ull << 48, 16 };
    int lay = sx_choose(3, "layout");
    for (int k = 0; k < FILL; k++) { H[k] = lay == 0 ? (uint64_t)k * 5 : lay == 1 ? (uint64_t)(14 + k / 3) : (uint64_t)k << 20; put(k, 1000 + k); }
    for (int k = FILL; k < NALL; k++) H[k] = home[sx_choose(NH, "home")];
    for (int k = 0; k < DELFILL; k++) del(k);
    failing = FAIL;
    for (int o = 0; o < NOPS; o++) {
        int op = sx_choose(5, "op");
        if (op <= 1) { int k = FILL - 1 + sx_choose(NK + 1, "key"); if (op == 0) { if (!put(k, sx_u64("v"))) failing = 0; } else del(k); }
        else if (op == 2 || op == 3) { nfree = 0; size_t c = cnt; hashmap_clear(m, op == 3); sx_assert(nfree == (int)c, "clear frees each item once"); memset(live, 0, sizeof live); cnt = 0; }
        else { memset(seen, 0, sizeof seen); size_t i = 0, n = 0; void *p; while (hashmap_iter(m, &i, &p)) { h_iter(p, 0); n++; } sx_assert(n == cnt, "iteration sees each item once");
               memset(seen, 0, sizeof seen); sx_assert(hashmap_scan(m, h_iter, 0), "scan"); for (int k = 0; k < NALL; k++) sx_assert(seen[k] == live[k], "scan sees each item"); }
        check();
    }
    nfree = 0; hashmap_free(m); hashmap_free(0);
    sx_assert(nfree == (int)cnt, "free frees each item once");
    sx_assert(sx_heap_live() == 0, "memory released");
}
