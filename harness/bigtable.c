// A table that grows through several sizes, loses an arbitrary share of its
// entries at once (iteration, sweep) or one by one, shrinks and grows again.
#include "sx.h"
#include "pogocache.h"
#include <string.h>
#ifndef N
#define N 400
#endif
static int left, seen, goneup;
static int keyno(const char *k, size_t n) { int x = 0; for (size_t i = 1; i < n; i++) x = x*10 + (k[i]-'0'); return x; }
static size_t mk(char *k, int i) { k[0] = 'k'; k[1] = '0'+i/1000%10; k[2] = '0'+i/100%10; k[3] = '0'+i/10%10; k[4] = '0'+i%10; return 5; }
static uint8_t in[N], vis[N];
static int on(int shard, int64_t time, const void *key, size_t kl, const void *val, size_t vl, int64_t exp, uint32_t fl, uint64_t cas, void *u) {
    (void)shard; (void)time; (void)exp; (void)fl; (void)cas; (void)u; (void)vl; (void)val;
    int k = keyno(key, kl); sx_assert(k >= 0 && k < N && in[k], "an enumerated key was stored");
    vis[k]++; seen++;
    if (goneup > 0) { goneup--; in[k] = 0; return POGOCACHE_ITER_DELETE; }
    return POGOCACHE_ITER_CONTINUE;
}
static uint8_t gotv; static size_t gotl;
static void onload(int shard, int64_t time, const void *key, size_t kl, const void *val, size_t vl, int64_t exp, uint32_t fl, uint64_t cas, struct pogocache_update **up, void *u) {
    (void)shard; (void)time; (void)key; (void)kl; (void)exp; (void)fl; (void)cas; (void)u; (void)up;
    gotl = vl; gotv = *(const uint8_t*)val;
}
static struct pogocache *C;
static uint8_t probe;
static void verify(int from, int n) {
    int want = 0, found = 0;
    char k[8];
    for (int i = 0; i < n; i++) {
        want += in[i];
        struct pogocache_load_opts o = {0}; o.time = 5; o.entry = onload; o.notouch = true; gotl = 0;
        int r = pogocache_load(C, k, mk(k, i), &o);
        sx_assert(r == (in[i] ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND), "exactly the stored keys are found");
        if (r == POGOCACHE_FOUND) { found++; sx_assert(gotl == 1 && gotv == (uint8_t)(probe + i), "the stored value is found"); }
    }
    sx_assert(pogocache_count(C, 0) == (size_t)want, "count");
    (void)from;
}
void harness(void) {
    static const int LEFT[] = {LEFTS};
    struct pogocache_opts po = {0};
    po.nshards = 1; po.allowshrink = true;
    int lf = sx_choose(3, "loadfactor"); po.loadfactor = lf == 0 ? 0 : lf == 1 ? 55 : 95;
    size_t live0 = sx_heap_live();
    C = pogocache_new(&po); sx_assume(C != 0);
    int mode = sx_choose(3, "mode");
    left = LEFT[sx_choose(sizeof LEFT/sizeof *LEFT, "left")];
    probe = sx_u8("val");
    char k[8];
    for (int i = 0; i < N; i++) {
        struct pogocache_store_opts o = {0}; o.time = 1; o.expires = mode == 1 && i >= left ? 3 : 0;
        uint8_t v = probe + i;
        int r = pogocache_store(C, k, mk(k, i), &v, 1, &o);
        sx_assert(r == POGOCACHE_INSERTED, "a new key is inserted"); in[i] = 1;
    }
    if (mode == 0) {
        goneup = N - left;
        struct pogocache_iter_opts io = {0}; io.time = 5; io.entry = on;
        int r = pogocache_iter(C, &io);
        sx_assert(r == POGOCACHE_FINISHED && seen == N, "iteration visits every entry");
        for (int i = 0; i < N; i++) sx_assert(vis[i] == 1, "iteration visits every entry once");
    } else if (mode == 1) {
        size_t sw, ke; struct pogocache_sweep_opts so = {0}; so.time = 5;
        pogocache_sweep(C, &sw, &ke, &so);
        sx_assert(sw == (size_t)(N-left) && ke == (size_t)left, "sweep numbers");
        for (int i = left; i < N; i++) in[i] = 0;
    } else {
        for (int i = left; i < N; i++) {
            struct pogocache_delete_opts o = {0}; o.time = 5;
            int r = pogocache_delete(C, k, mk(k, i), &o);
            sx_assert(r == POGOCACHE_DELETED, "a stored key is deleted"); in[i] = 0;
        }
    }
    verify(0, N);
    // the shrunken table must accept new entries again
    for (int i = 0; i < N; i++) if (!in[i]) {
        struct pogocache_store_opts o = {0}; o.time = 5; uint8_t v = probe + i;
        int r = pogocache_store(C, k, mk(k, i), &v, 1, &o);
        sx_assert(r == POGOCACHE_INSERTED, "a removed key is inserted again"); in[i] = 1;
        if (i > left + 60) break;
    }
    verify(0, N);
    pogocache_free(C);
    sx_assert(sx_heap_live() == live0, "everything allocated is released");
    sx_cover("end");
}
