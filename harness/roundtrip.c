// Entry encoding: whatever is stored comes back; keys are told apart.
#include "sx.h"
#include "pogocache.h"
#include <string.h>
#include <stdlib.h>
#ifndef KLENS
#define KLENS 0,1,2,3,4,5
#endif
#ifndef VLENS
#define VLENS 0,1
#endif
#ifndef SYMK
#define SYMK 16          // symbolic bytes at the end of the key
#endif
#ifdef STUBHASH
uint64_t th64(const void *data, size_t len, uint64_t seed) { (void)data; (void)len; (void)seed; return 7; }
#endif
static const int KL[] = { KLENS };
static const int VL[] = { VLENS };
#define N(a) ((int)(sizeof(a)/sizeof(a[0])))
static uint8_t k1[70100], k2[70100], v1[70100];
static int n1, n2, m1; static int64_t exp1; static uint32_t fl1; static int calls, usecas;
static void mkkey(uint8_t *k, int n, const char *name) {
    memset(k, 'k', n);
    int s = n < SYMK ? n : SYMK;
    if (s) sx_bytes(k + n - s, s, name);
#ifdef KEYCLASS
    // one of the characters that six-bit packing knows plus its neighbours
    if (s) for (int i = n - s; i < n; i++) sx_assume((k[i] >= 'O') & (k[i] <= 'Z'));
#endif
}
static int64_t mkexp(void) {
    int64_t e = sx_i64("exp"); sx_assume((e == 0) | (e > 10)); return e;
}
static void check(const void *key, size_t kl, const void *val, size_t vl, int64_t exp, uint32_t fl, uint64_t cas) {
    calls++;
    sx_assert(kl == (size_t)n1, "key length is what was stored");
    sx_assert(memcmp(key, k1, n1) == 0, "key bytes are what was stored");
    sx_assert(vl == (size_t)m1, "value length is what was stored");
    sx_assert(memcmp(val, v1, m1) == 0, "value bytes are what was stored");
    sx_assert(exp == exp1, "expiration is what was stored");
    sx_assert(fl == fl1, "flags are what was stored");
    sx_assert((cas != 0) == usecas, "cas value present exactly when enabled");
}
static void on_load(int s, int64_t t, const void *key, size_t kl, const void *val, size_t vl, int64_t e, uint32_t f, uint64_t c,
    struct pogocache_update **u, void *ud) { (void)s; (void)t; (void)u; (void)ud; check(key, kl, val, vl, e, f, c); }
static int on_iter(int s, int64_t t, const void *key, size_t kl, const void *val, size_t vl, int64_t e, uint32_t f, uint64_t c, void *ud) {
    (void)s; (void)t; (void)ud; check(key, kl, val, vl, e, f, c); return 0; }
void harness(void) {
    struct pogocache_opts po = {0}; po.nshards = 1;
    po.usecas = usecas = sx_choose(2, "usecas"); po.nosixpack = sx_choose(2, "nosixpack");
    struct pogocache *c = pogocache_new(&po); sx_assume(c != 0);
    n1 = KL[sx_choose(N(KL), "klen")]; m1 = VL[sx_choose(N(VL), "vlen")];
    mkkey(k1, n1, "key");
    memset(v1, 'v', m1);
    if (m1) sx_bytes(v1, m1 < 2 ? m1 : 2, "val");
    struct pogocache_store_opts so = {0}; so.time = 5;
#ifdef NOMETA
    if (sx_choose(2, "meta")) { fl1 = 0x01020304; exp1 = 0x1122334455667788; }
#else
    fl1 = sx_u32("flags"); exp1 = mkexp();
#endif
    so.flags = fl1; so.expires = exp1;
    int r = pogocache_store(c, k1, n1, v1, m1, &so);
    sx_assert(r == POGOCACHE_INSERTED, "store inserts");
    struct pogocache_load_opts lo = {0}; lo.time = 6; lo.entry = on_load;
    r = pogocache_load(c, k1, n1, &lo);
    sx_assert(r == POGOCACHE_FOUND && calls == 1, "a stored key is found");
#ifdef TWOKEYS
    n2 = KL[sx_choose(N(KL), "klen2")];
    mkkey(k2, n2, "key2");
    struct pogocache_load_opts l2 = {0}; l2.time = 6;
    r = pogocache_load(c, k2, n2, &l2);
    int same = n1 == n2 && memcmp(k1, k2, n1) == 0;
    sx_assert(r == (same ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND), "a key is found exactly when its bytes equal the stored ones");
    sx_cover(same ? "same" : "different");
#endif
    struct pogocache_iter_opts io = {0}; io.time = 6; io.entry = on_iter;
    calls = 0; pogocache_iter(c, &io); sx_assert(calls == 1, "iteration reports it");
    uint64_t cur = 0; struct pogocache_entry *e = pogocache_entry_iter(c, 6, &cur);
    sx_assert(e != 0, "scan yields it");
    char buf[128]; size_t kl, vl; const void *k = pogocache_entry_key(c, e, &kl, buf);
    sx_assert(kl == (size_t)n1 && memcmp(k, k1, n1) == 0, "scanned key is what was stored");
    const void *v = pogocache_entry_value(c, e, &vl);
    sx_assert(vl == (size_t)m1 && memcmp(v, v1, m1) == 0, "scanned value is what was stored");
    pogocache_entry_release(c, e);
    sx_obs(kl); sx_obs(vl);
    pogocache_free(c);
}
