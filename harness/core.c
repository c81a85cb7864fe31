// Model-based harness for the cache engine: an arbitrary pre-state followed by
// NOPS arbitrary operations, every result compared with a reference model.
// The hash function is replaced by an arbitrary layout (LAYOUT) when STUBHASH
// is defined; otherwise keys with real hash collisions are used.
#include "sx.h"
#include "pogocache.h"
#include <string.h>
#include <stdlib.h>

#ifndef NK
#define NK 3
#endif
#ifndef NOPS
#define NOPS 2
#endif
#ifndef NSHARDS
#define NSHARDS 1
#endif
#define O_STORE 1
#define O_LOAD 2
#define O_DELETE 4
#define O_ITER 8
#define O_SWEEP 16
#define O_CLEAR 32
#define O_ENTITER 64
#define O_POLL 128
#ifndef OPMASK
#define OPMASK (O_STORE|O_LOAD|O_DELETE)
#endif
#ifndef PRE
#define PRE 1            // 0 empty, 1 arbitrary subset present
#endif
#ifndef TTL
#define TTL 1            // symbolic time and expirations
#endif
#ifndef COND
#define COND 1           // conditional store options
#endif
#ifndef KEEPTTL
#define KEEPTTL COND
#endif
#ifndef NOEVICT
#define NOEVICT 0
#endif
#ifndef CB
#define CB 1             // callbacks that cancel, update or delete
#endif
#ifndef FILL
#define FILL 0           // concrete filler keys (reach a resize)
#endif
#ifndef USECAS
#define USECAS sx_choose(2, "usecas")
#endif
#ifndef FAILALLOC
#define FAILALLOC 0
#endif
#ifndef LOWMEM
#define LOWMEM 0
#endif
#ifndef SHRINK
#define SHRINK 0
#endif
#ifndef NOTIFY
#define NOTIFY 1
#endif
#ifndef ASSERTS
#define ASSERTS 0xffffffff
#endif
// assertion groups, one bit per property
#define S01 (1u<<1)
#define S02 (1u<<2)
#define S03 (1u<<3)
#define S04 (1u<<4)
#define S05 (1u<<5)
#define S06 (1u<<6)
#define S07 (1u<<7)
#define S08 (1u<<8)
#define S09 (1u<<9)
#define S10 (1u<<10)
#define S11 0xffffffffu
#define A(g, c, m) do { if ((g) & ASSERTS) sx_assert(c, m); } while (0)

static const struct { const char *k; int n; } KEY[6] = {
#ifdef STUBHASH
    {"ab", 2}, {"a", 1}, {"a\0", 2}, {"Zq", 2}, {"", 0}, {"a\0b", 3},
#else
    {"sbv", 3}, {"gmc", 3}, {"bmaZ", 4}, {"oza", 3}, {"lgaZ", 4}, {"cqa", 3},
#endif
};
#ifdef STUBHASH
#ifndef NLAYOUT
#define NLAYOUT 4
#endif
#define SHH ((uint64_t)1<<32)
static const uint64_t LAYOUT[6][6] = {
    {63,63,63,63,63,63},                                             // full collision, wraps
    {63,63|64,62|128,62,63|192,0},                                   // same buckets, different hashes, wraps
    {0,63,0,62,61,63},
    {63, 63|SHH, 63|(1<<24), 63|SHH, 0, 1},                            // two shards
    {5, 0x1000005, 0x2000005, 6, 7, 5},                              // equal in the 24 stored bits, different beyond
    {62, 62|64, 62|128, 62|256, 63, 0},
};
static int layout;
uint64_t th64(const void *data, size_t len, uint64_t seed) {
    (void)seed;
    for (int i = 0; i < NK; i++)
        if ((size_t)KEY[i].n == len && memcmp(KEY[i].k, data, len) == 0) return LAYOUT[layout][i];
    const unsigned char *p = data;
    return len == 3 && p[0] == 'F' ? (p[1]-'0')*10+(p[2]-'0') : 0;
}
#endif

struct rec { uint8_t val[2]; int vl; int64_t exp; uint32_t fl; };
static struct { int in;    // 1 stored and not certainly gone
    struct rec r; uint64_t cas; int64_t touch; } M[6];
static int nfill, fillout;
static struct pogocache *C;
static int64_t now = 1;
static int usecas, noevict;
static int quiet;           // observer running: notifications still tracked

static int keyidx(const void *key, size_t len) {
    for (int i = 0; i < NK; i++)
        if ((size_t)KEY[i].n == len && memcmp(KEY[i].k, key, len) == 0) return i;
    return -1;
}
static int isfill(const void *key, size_t len) {
    const char *p = key;
    return len == 3 && p[0] == 'F' && p[1] >= '0' && p[1] <= '9' && p[2] >= '0' && p[2] <= '9';
}
static int alive(int k, int64_t t) { return M[k].in && (M[k].r.exp == 0 || M[k].r.exp > t); }
static int same(int k, const void *val, size_t vl, int64_t exp, uint32_t fl) {
    if ((size_t)M[k].r.vl != vl) return 0;
    int ok = memcmp(val, M[k].r.val, vl) == 0;
    return ok & (exp == M[k].r.exp) & (fl == M[k].r.fl);
}

// ---- change notifications
static struct pogocache_entry *cur[6];
static struct pogocache_entry *curfill;
static int nins, nrep, ndel, nevict, evreason, evkey, delkey, evpend;
static void *lastdel;
static void on_notify(int shard, int64_t time, struct pogocache_entry *ne, struct pogocache_entry *oe, void *u) {
    (void)time; A(S10, u == &C, "udata handed to notify");
    A(S10, !evpend, "the loss of an expired entry is reported as an eviction"); evpend = 0;
    A(S10, shard >= 0 && shard < NSHARDS, "notify shard index");
    A(S10, ne != 0 || oe != 0, "notify has an entry");
    char buf[128]; size_t kl;
    const void *key = pogocache_entry_key(C, ne ? ne : oe, &kl, buf);
    int k = keyidx(key, kl);
    if (k < 0) { A(S10, isfill(key, kl), "notify names a stored key"); if (!ne) { ndel++; delkey = -1; fillout++; } else if (!oe) { nins++; } return; }
    if (oe) A(S10, oe == cur[k], "notify: the old entry is the one last announced for the key");
    else A(S10, cur[k] == 0, "notify: insert announced while an entry was present");
    if (ne && oe) {
        char b2[128]; size_t kl2;
        const void *k2 = pogocache_entry_key(C, oe, &kl2, b2);
        A(S10, kl2 == (size_t)KEY[k].n && memcmp(k2, KEY[k].k, kl2) == 0, "replace: both entries have the same key");
        nrep++;
    } else if (ne) nins++;
    else { ndel++; delkey = k; if ((M[k].r.exp != 0) & (M[k].r.exp <= time)) evpend = 1; }
    cur[k] = ne;
}
static void on_evicted(int shard, int reason, int64_t time, const void *key, size_t kl, const void *val, size_t vl,
    int64_t exp, uint32_t fl, uint64_t cas, void *u) {
    (void)cas; A(S10, u == &C, "udata handed to evicted");
    A(S10, shard >= 0 && shard < NSHARDS, "evicted shard index");
    int k = keyidx(key, kl); nevict++; evreason = reason; evkey = k; evpend = 0;
    A(S10, delkey == k && ndel > 0, "evicted follows the deletion notice of the same key");
    if (k >= 0) {
        A(S10|S03, same(k, val, vl, exp, fl), "evicted callback reports the stored value");
        A(S10|S03, SX_IMPLIES(reason == POGOCACHE_REASON_EXPIRED, (exp != 0) & (exp <= time)), "an entry reported expired has expired");
        A(S10|S03, SX_IMPLIES(reason != POGOCACHE_REASON_EXPIRED, (exp == 0) | (exp > time)), "an expired entry is reported as expired");
    }
}

// ---- allocator
static int armed, nfailed;
static void *h_malloc(size_t n) {
    if (armed && sx_choose(2, "allocfail")) { nfailed++; return 0; }
    return malloc(n);
}
static void h_free(void *p) { free(p); }

// ---- loads
struct got { int n; struct rec r; size_t vl; uint64_t cas; int upd; struct pogocache_update u; };
static void on_load(int shard, int64_t time, const void *key, size_t kl, const void *val, size_t vl,
    int64_t exp, uint32_t fl, uint64_t cas, struct pogocache_update **update, void *u) {
    struct got *g = u; (void)shard; (void)time; (void)key; (void)kl;
    g->n++; g->vl = vl; if (vl <= 2) memcpy(g->r.val, val, vl);
    g->r.exp = exp; g->r.fl = fl; g->cas = cas;
    if (g->upd) *update = &g->u;
}
static int loadk(int k, int64_t t, struct got *g, int notouch) {
    struct pogocache_load_opts o = {0};
    o.time = t; o.notouch = notouch; o.entry = on_load; o.udata = g;
    g->n = 0;
    return pogocache_load(C, KEY[k].k, KEY[k].n, &o);
}
static uint64_t curcas(int k, int64_t t) { struct got g = {0}; loadk(k, t, &g, 1); return g.n ? g.cas : 0; }

// ---- physical contents (iteration at time 1 collects nothing: all expirations are > 1)
static int phys[6], nphys;
static int on_phys(int shard, int64_t time, const void *key, size_t kl, const void *val, size_t vl,
    int64_t exp, uint32_t fl, uint64_t cas, void *u) {
    (void)shard; (void)time; (void)val; (void)vl; (void)exp; (void)fl; (void)cas; (void)u;
    int k = keyidx(key, kl); nphys++; if (k >= 0) phys[k]++;
    return POGOCACHE_ITER_CONTINUE;
}
static size_t base_bytes;
static void observe_physical(void) {
    memset(phys, 0, sizeof phys); nphys = 0;
    struct pogocache_iter_opts io = {0}; io.time = 1; io.entry = on_phys;
    pogocache_iter(C, &io);
    int exact = 1;
    for (int k = 0; k < NK; k++) {
        A(S08|S02, phys[k] <= 1, "a key is enumerated at most once");
        A(S08|S02, SX_IMPLIES(phys[k], M[k].in), "an entry enumerated was stored and not removed");
        if (alive(k, now)) A(S08|S02, phys[k], "a live entry is enumerated");
        if (NOTIFY) A(S10, (cur[k] != 0) == phys[k], "replaying the notifications gives the stored set");
    }
    (void)exact;
    A(S05, pogocache_count(C, 0) == (size_t)nphys, "count equals the number of entries held");
    size_t sz = pogocache_size(C, 0);
    #ifndef BATCH
    A(S05, sx_heap_bytes() - sz == base_bytes, "size tracks the memory held by entries and tables");
#endif
    struct pogocache_size_opts so = {0}; so.entriesonly = 1;
    size_t es = pogocache_size(C, &so);
    if (nphys == 0) A(S05, es == 0, "no entries, no entry memory");
    size_t c1 = 0, s1 = 0; uint64_t t1 = 0;
    for (int i = 0; i < NSHARDS; i++) {
        struct pogocache_count_opts co = {0}; co.oneshard = 1; co.oneshardidx = i; c1 += pogocache_count(C, &co);
        struct pogocache_size_opts zo = {0}; zo.oneshard = 1; zo.oneshardidx = i; s1 += pogocache_size(C, &zo);
        struct pogocache_total_opts to = {0}; to.oneshard = 1; to.oneshardidx = i; t1 += pogocache_total(C, &to);
    }
    A(S05, c1 == (size_t)nphys && s1 == sz && t1 == pogocache_total(C, 0), "per-shard statistics add up");
}

// ---- store
static int cbret, cbcalled; static int cbkey;
static bool on_store(int shard, int64_t time, const void *key, size_t kl, const void *val, size_t vl,
    int64_t exp, uint32_t fl, uint64_t cas, void *u) {
    (void)shard; (void)time; (void)cas; (void)u;
    cbcalled++; int k = keyidx(key, kl);
    A(S04, k == cbkey && same(k, val, vl, exp, fl), "the callback sees the entry about to be replaced");
    return cbret;
}
static int64_t symexp(const char *n) { int64_t e = sx_i64(n); sx_assume((e == 0) | (e > 1)); return e; }
static int samehash(int j, int k) {
#ifdef STUBHASH
    return (LAYOUT[layout][j]&0xffffff) == (LAYOUT[layout][k]&0xffffff);
#else
    return 0;
#endif
}
static void op_store(int k) {
    struct pogocache_store_opts o = {0}; struct rec r = {0};
    o.time = now;
    r.vl = 1; sx_bytes(r.val, 1, "val");
#ifdef VLEN2
    r.vl = sx_choose(3, "vlen"); if (r.vl > 1) r.val[1] = 'x';
#endif
    r.fl = 0;
#ifndef NOFLAGS
    r.fl = sx_u32("flags");
#endif
    o.flags = r.fl;
    int explicit_ttl = 0;
    if (TTL) {
        int m = sx_choose(3, "ttlmode");
        if (m == 1) { o.expires = symexp("expires"); r.exp = o.expires; }
        else if (m == 2) {
            o.ttl = sx_i64("ttl");
            sx_assume(o.ttl > 0);
            r.exp = now > INT64_MAX - o.ttl ? INT64_MAX : now + o.ttl; explicit_ttl = 1;
        }
    }
    (void)explicit_ttl;
    int live = alive(k, now);
    int mode = 0;
    if (COND) {
        mode = sx_choose(5, "cond");   // none, nx, xx, cas, nx+xx
        o.nx = mode == 1 || mode == 4; o.xx = mode == 2 || mode == 4; o.casop = mode == 3;
        if (mode == 3) o.cas = sx_u64("cas");
    }
    if (TTL && KEEPTTL) o.keepttl = sx_choose(2, "keepttl");
    if (CB) { int c = sx_choose(3, "cb"); if (c) { o.entry = on_store; cbret = c == 2; } }
    cbkey = k; cbcalled = 0;
    if (LOWMEM) o.lowmem = sx_choose(2, "lowmem");
    if (o.keepttl && live) r.exp = M[k].r.exp;
    int want;
    if (live) {
        if (o.casop) want = usecas && o.cas == M[k].cas ? POGOCACHE_REPLACED : POGOCACHE_FOUND;
        else if (o.nx) want = POGOCACHE_FOUND;
        else want = POGOCACHE_REPLACED;
        if (want == POGOCACHE_REPLACED && o.entry && !cbret) want = POGOCACHE_CANCELED;
    } else want = (o.xx || o.casop) ? POGOCACHE_NOTFOUND : POGOCACHE_INSERTED;
    if (o.lowmem && noevict) want = POGOCACHE_NOMEM;
    uint64_t tot = pogocache_total(C, 0);
    size_t cnt0 = pogocache_count(C, 0);
    int i0 = nins, r0 = nrep, d0 = ndel, e0 = nevict;
    int was = M[k].in; nfailed = 0;
    armed = FAILALLOC;
    int ret = pogocache_store(C, KEY[k].k, KEY[k].n, r.val, r.vl, &o);
    armed = 0;
    sx_obs(ret);
    uint64_t dt = pogocache_total(C, 0) - tot;
    if (nfailed) {
        sx_cover("alloc failed in store");
        A(S07, ret == POGOCACHE_NOMEM, "a store whose allocation failed reports NOMEM");
        A(S07, nins == i0 && nrep == r0, "a failed store announces no change");
        A(S07|S05, dt == 0, "a failed store is not counted");
        return;
    }
    A(S04|S02|S03|S07|S09, ret == want, "store result");
    A(S04, SX_IMPLIES(cbcalled, live && o.entry), "entry callback only for a live entry");
    A(S04, SX_IMPLIES(want == POGOCACHE_REPLACED && o.entry, cbcalled == 1), "entry callback runs once before replacing");
    A(S05, SX_IMPLIES(ret != POGOCACHE_INSERTED, dt == 0), "total counts only inserted entries");
    A(S05, SX_IMPLIES(ret == POGOCACHE_INSERTED && !was, dt == 1), "total counts an inserted entry");
    A(S05, dt <= 1, "total grows by at most one");
    if (NOTIFY) {
        A(S10, (nins - i0) == (ret == POGOCACHE_INSERTED), "insert announced exactly when it happened");
        A(S10, (nrep - r0) == (ret == POGOCACHE_REPLACED), "replace announced exactly when it happened");
    }
    if (ret == POGOCACHE_INSERTED) sx_cover("inserted");
    if (ret == POGOCACHE_REPLACED) sx_cover("replaced");
    if (ret == POGOCACHE_NOTFOUND) sx_cover("store-notfound");
    if (ret == POGOCACHE_FOUND) sx_cover("store-found");
    if (ret == POGOCACHE_CANCELED) sx_cover("store-canceled");
    if (ret == POGOCACHE_INSERTED || ret == POGOCACHE_REPLACED) {
        if (LOWMEM) {
            int gone = 0; // live entries lost to this store
            int victim = -1;
            // entries other than k that can be found no more
            for (int j = 0; j < NK; j++) if (j != k && M[j].in) {
                memset(phys, 0, sizeof phys); nphys = 0;
                struct pogocache_iter_opts io = {0}; io.time = 1; io.entry = on_phys;
                pogocache_iter(C, &io);
                if (!phys[j]) { gone++; victim = j; }
            }
            int others = 0, dead = 0;
            for (int j = 0; j < NK; j++) if (j != k && M[j].in) { others++; if (!alive(j, now)) dead++; }
            A(S09, gone <= 1, "low memory evicts at most one entry");
            if (gone) {
                sx_cover("evicted one");
                A(S09, o.lowmem, "nothing is evicted when memory is not low");
                A(S09, ret == POGOCACHE_INSERTED, "replacing evicts nothing");
                A(S09|S10, nevict == e0 + 1 && evkey == victim, "the eviction is reported");
                A(S09|S10, SX_IMPLIES(alive(victim, now), evreason == POGOCACHE_REASON_LOWMEM), "reason low memory");
                A(S09|S10, SX_IMPLIES(!alive(victim, now), evreason == POGOCACHE_REASON_EXPIRED), "reason expired");
                // never the strictly most recently used of several candidates
                int newer = 0, cand = 0;
                for (int j = 0; j < NK; j++) if (j != k && j != victim && M[j].in && !samehash(j, k)) { cand++; if (M[j].touch >= M[victim].touch) newer++; }
                if (alive(victim, now) && cand >= 2 && dead == 0) A(S09, newer > 0, "the most recently used entry is not the one evicted");
                M[victim].in = 0;
            } else if (o.lowmem && ret == POGOCACHE_INSERTED && !was && others >= 2) {
#ifdef STUBHASH
                int dist = 1; for (int j = 0; j < NK; j++) if (j != k && M[j].in && (LAYOUT[layout][j]&0xffffff) == (LAYOUT[layout][k]&0xffffff)) dist = 0;
                A(S09, !dist, "with low memory and other entries present one entry is evicted");
#endif
            }
        }
        uint64_t oc = M[k].cas;
        int wasin = M[k].in;
        M[k].in = 1; M[k].r = r; M[k].touch = now;
        uint64_t nc = alive(k, now) ? curcas(k, now) : 0;
        if (usecas && alive(k, now)) {
            A(S04, nc != 0, "a stored entry has a cas value");
            if (wasin) A(S04, nc > oc, "every change gives the entry a new, larger cas value");
            for (int j = 0; j < NK; j++) if (j != k && M[j].in && NSHARDS == 1) A(S04, nc != M[j].cas, "cas values are unique");
        }
        if (nc) M[k].cas = nc;
    } else if (!live) {
        // a dead entry may have been collected by the attempt; it stays dead
    }
    (void)d0; (void)cnt0;
}
static void op_load(int k) {
    struct got g = {0}; struct rec r = {0};
    if (CB) g.upd = sx_choose(2, "update");
    if (g.upd) {
        r.vl = sx_choose(2, "uvlen") ? 2 : 1; sx_bytes(r.val, 1, "uval"); r.val[1] = 'y';
        r.fl = sx_u32("uflags"); if (TTL) r.exp = symexp("uexp");
        g.u.value = r.val; g.u.valuelen = r.vl; g.u.flags = r.fl; g.u.expires = r.exp;
    }
    int touch = 1;
    if (LOWMEM) touch = !sx_choose(2, "notouch");
    uint64_t tot = pogocache_total(C, 0); int r0 = nrep;
    nfailed = 0; armed = FAILALLOC && g.upd;
    int live = alive(k, now);
    int ret = loadk(k, now, &g, !touch);
    armed = 0;
    sx_obs(ret);
    A(S02|S03, pogocache_total(C, 0) == tot || g.upd, "a load stores nothing");
    if (nfailed) {
        sx_cover("alloc failed in load");
        A(S07, ret == POGOCACHE_NOMEM, "an update whose allocation failed reports NOMEM");
        A(S07, nrep == r0, "a failed update announces no change");
        return;
    }
    A(S02|S03, ret == (live ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND), "load finds exactly the live entries");
    A(S02, g.n == (live ? 1 : 0), "load callback runs once when found");
    if (live) {
        sx_cover("load found");
        A(S02, same(k, g.r.val, g.vl, g.r.exp, g.r.fl), "load returns what was stored last");
        A(S04, g.cas == (usecas ? M[k].cas : 0), "cas value is stable between changes");
        if (touch) M[k].touch = now;
        if (g.upd) {
            sx_cover("load update");
            uint64_t oc = M[k].cas; M[k].r = r; M[k].touch = now;
            if (alive(k, now)) { uint64_t nc = curcas(k, now); if (usecas) A(S04, nc > oc, "an update gives the entry a new cas value"); M[k].cas = nc; }
            if (NOTIFY) A(S10, nrep == r0 + 1, "an update is announced as a replacement");
        } else if (NOTIFY) A(S10, nrep == r0, "a plain load announces no replacement");
    } else sx_cover("load notfound");
}
static int delcb;
static bool on_delete(int shard, int64_t time, const void *key, size_t kl, const void *val, size_t vl,
    int64_t exp, uint32_t fl, uint64_t cas, void *u) {
    (void)shard; (void)time; (void)cas; (void)u; delcb++;
    int k = keyidx(key, kl);
    A(S02, k == cbkey && same(k, val, vl, exp, fl), "the delete callback sees the stored entry");
    return cbret;
}
static void op_delete(int k) {
    struct pogocache_delete_opts o = {0}; o.time = now;
    int c = CB ? sx_choose(3, "dcb") : 0; if (c) { o.entry = on_delete; cbret = c == 2; }
    cbkey = k; delcb = 0;
    int live = alive(k, now);
    int want = !live ? POGOCACHE_NOTFOUND : c == 1 ? POGOCACHE_CANCELED : POGOCACHE_DELETED;
    uint64_t tot = pogocache_total(C, 0); int d0 = ndel, e0 = nevict;
    armed = FAILALLOC;
    int ret = pogocache_delete(C, KEY[k].k, KEY[k].n, &o);
    armed = 0;
    sx_obs(ret);
    A(S02|S03|S04|S07, ret == want, "delete result");
    A(S02, delcb == (live && c ? 1 : 0), "delete callback only for a live entry");
    A(S05, pogocache_total(C, 0) == tot, "deleting does not change total");
    if (NOTIFY && ret == POGOCACHE_DELETED) A(S10, ndel == d0 + 1 && delkey == k && nevict == e0, "a deletion is announced once and is not an eviction");
    if (NOTIFY && ret == POGOCACHE_CANCELED) A(S10, ndel == d0, "a canceled deletion is not announced");
    if (ret == POGOCACHE_DELETED) { M[k].in = 0; sx_cover("deleted"); }
    if (ret == POGOCACHE_CANCELED) sx_cover("delete canceled");
    (void)e0;
}
static int vis[6], nvis, actmode, stopped;
static int on_iter(int shard, int64_t time, const void *key, size_t kl, const void *val, size_t vl,
    int64_t exp, uint32_t fl, uint64_t cas, void *u) {
    (void)shard; (void)time; (void)cas; (void)u;
    int k = keyidx(key, kl); nvis++;
    A(S08, !stopped, "nothing is visited after the callback stopped the iteration");
    if (k < 0) { A(S08, isfill(key, kl), "an enumerated key was stored"); return POGOCACHE_ITER_CONTINUE; }
    vis[k]++;
    A(S08, vis[k] == 1, "an entry is visited at most once per iteration");
    A(S08|S03, alive(k, now), "only live entries are visited");
    A(S08, same(k, val, vl, exp, fl), "iteration reports the stored value");
    if (!CB) return POGOCACHE_ITER_CONTINUE;
    int act = sx_choose(4, "act");
    if (act & POGOCACHE_ITER_DELETE) M[k].in = 0;
    if (act & POGOCACHE_ITER_STOP) stopped = 1;
    return act;
}
static void op_iter(void) {
    struct pogocache_iter_opts o = {0}; o.time = now; o.entry = on_iter;
    memset(vis, 0, sizeof vis); nvis = 0; stopped = 0;
    int was[6]; for (int k = 0; k < NK; k++) was[k] = alive(k, now);
    int one = 0;
    if (NSHARDS > 1) { one = sx_choose(NSHARDS + 2, "oneshard"); if (one) { o.oneshard = 1; o.oneshardidx = one - 1; } }
    armed = FAILALLOC;
    int ret = pogocache_iter(C, &o);
    armed = 0;
    A(S08, ret == (stopped ? POGOCACHE_CANCELED : POGOCACHE_FINISHED), "iteration status");
    int sum = 0;
    for (int k = 0; k < NK; k++) {
        sum += vis[k];
        int inrange = 1;
#ifdef STUBHASH
        if (one) inrange = one - 1 == (int)((LAYOUT[layout][k]>>32)%NSHARDS);
#else
        if (one) continue;
#endif
        if (!stopped) A(S08, vis[k] == (was[k] && inrange), "iteration visits every live entry exactly once");
        else A(S08, SX_IMPLIES(vis[k], was[k] && inrange), "iteration visits only live entries");
    }
    if (sum) sx_cover("iter visited");
}
static void op_sweep(void) {
    struct pogocache_sweep_opts o = {0}; o.time = now; size_t sw = 99, ke = 99;
    int live = 0, in = 0; for (int k = 0; k < NK; k++) { live += alive(k, now); in += M[k].in; }
    size_t c0 = pogocache_count(C, 0);
    armed = FAILALLOC;
    pogocache_sweep(C, &sw, &ke, &o);
    armed = 0;
    size_t c1 = pogocache_count(C, 0);
    A(S08, ke == (size_t)live + nfill - fillout, "sweep keeps (and counts once) every live entry");
    A(S08|S03, c1 == (size_t)live + nfill - fillout, "sweep removes every expired entry");
    A(S08, sw == c0 - c1, "sweep reports the number removed");
    if (sw) sx_cover("swept");
    for (int k = 0; k < NK; k++) if (!alive(k, now)) M[k].in = 0;
}
static void op_clear(void) {
    struct pogocache_clear_opts o = {0}; o.time = now; o.deferfree = sx_choose(2, "defer");
    uint64_t tot = pogocache_total(C, 0);
    int in = 0; for (int k = 0; k < NK; k++) in += M[k].in;
    int d0 = ndel; size_t c0 = pogocache_count(C, 0);
    nfailed = 0; armed = FAILALLOC;
    pogocache_clear(C, &o);
    armed = 0;
    A(S08|S07, pogocache_count(C, 0) == 0, "clear removes every entry");
    A(S05, pogocache_total(C, 0) == tot, "clear does not change total");
    if (NOTIFY) A(S10, (size_t)(ndel - d0) == c0, "clear announces every entry");
    if (in) sx_cover("cleared");
    for (int k = 0; k < NK; k++) M[k].in = 0;
    fillout = nfill;
}
static void op_entiter(void) {
    uint64_t cursor = 0; memset(vis, 0, sizeof vis);
    int was[6]; int anydead = 0; for (int k = 0; k < NK; k++) { was[k] = alive(k, now); if (M[k].in && !was[k]) anydead = 1; }
    for (int n = 0; ; n++) {
        A(S08, n <= NK + FILL, "a scan terminates");
        if (n > 2 * (NK + FILL)) return;
        struct pogocache_entry *e = pogocache_entry_iter(C, now, &cursor);
        if (!e) { A(S08, cursor == 0, "cursor is reset at the end of a scan"); break; }
        char buf[128]; size_t kl, vl;
        const void *key = pogocache_entry_key(C, e, &kl, buf);
        int k = keyidx(key, kl);
        const uint8_t *v = pogocache_entry_value(C, e, &vl);
        if (k >= 0) {
            vis[k]++;
            A(S08, alive(k, now), "a scan yields only live entries");
            A(S08, vl == (size_t)M[k].r.vl && memcmp(v, M[k].r.val, vl) == 0, "a scan yields the stored value");
            // hold on to it across a deletion
            if (CB && sx_choose(2, "heldel")) {
                uint8_t keep = v[0];
                struct pogocache_delete_opts d = {0}; d.time = now;
                pogocache_delete(C, KEY[k].k, KEY[k].n, &d); M[k].in = 0; was[k] = -1;
                size_t vl2; const uint8_t *v2 = pogocache_entry_value(C, e, &vl2);
                A(S06, v2[0] == keep, "a retained entry stays readable after it is deleted");
                sx_cover("held entry deleted");
                for (int j = 0; j < NK; j++) was[j] = -1; // deletion may move entries under the cursor
            }
        } else A(S08, isfill(key, kl), "a scan yields stored keys");
        pogocache_entry_release(C, e);
    }
    for (int k = 0; k < NK; k++) if (was[k] >= 0) {
        A(S08, SX_IMPLIES(was[k], vis[k] >= 1), "a scan yields every live entry");
        if (!anydead) A(S08, vis[k] <= 1, "a scan yields no entry twice");
        A(S08|S03, SX_IMPLIES(!was[k], vis[k] == 0), "a scan skips expired entries");
    }
}

static void yielder(void *u) { (void)u; sx_yield(); }
void harness(void) {
#ifdef STUBHASH
#ifdef ONELAYOUT
    layout = ONELAYOUT;
#else
    layout = sx_choose(NLAYOUT, "layout");
#endif
#endif
    struct pogocache_opts po = {0};
    noevict = NOEVICT ? sx_choose(2, "noevict") : 0; po.noevict = noevict;
    po.nshards = NSHARDS; po.malloc = h_malloc; po.free = h_free; po.udata = &C; po.allowshrink = SHRINK;
    po.yield = yielder;
#ifdef BATCH
    po.usethreadbatch = sx_choose(2, "threadbatch");
#endif
    usecas = USECAS; po.usecas = usecas;
#ifdef SYMSIX
    po.nosixpack = sx_choose(2, "nosixpack");
#endif
    if (NOTIFY) { po.notify = on_notify; po.evicted = on_evicted; }
#ifdef LOADFACTOR
    po.loadfactor = LOADFACTOR;
#endif
    size_t live0 = sx_heap_live(), bytes0 = sx_heap_bytes();
    (void)bytes0;
    C = pogocache_new(&po);
    sx_assume(C != 0);
    base_bytes = sx_heap_bytes() - pogocache_size(C, 0);
    for (int i = 0; i < FILL; i++) {
        char f[3] = {'F', '0' + i/10, '0' + i%10};
        struct pogocache_store_opts o = {0}; o.time = 1;
        pogocache_store(C, f, 3, f, 1, &o); nfill++;
    }
#ifdef DELFILL
    for (int i = 0; i < DELFILL; i++) {
        char f[3] = {'F', '0' + i/10, '0' + i%10};
        struct pogocache_delete_opts o = {0}; o.time = 1;
        pogocache_delete(C, f, 3, &o); nfill--;
    }
    fillout = 0;
#endif
    if (PRE) for (int k = 0; k < NK; k++) {
        if (PRE == 2 || sx_choose(2, "present")) {
            struct pogocache_store_opts o = {0}; o.time = 1;
            M[k].r.vl = 1; sx_bytes(M[k].r.val, 1, "pval");
#ifndef NOFLAGS
            M[k].r.fl = sx_u32("pflags");
#endif
            if (TTL) M[k].r.exp = symexp("pexp");
            o.flags = M[k].r.fl; o.expires = M[k].r.exp;
            int64_t tt = 1;
            if (LOWMEM) { tt = sx_choose(3, "ptime") + 1; }
            o.time = tt; M[k].touch = tt; 
            if (LOWMEM && TTL) sx_assume((M[k].r.exp == 0) | (M[k].r.exp > 3));
            int ret = pogocache_store(C, KEY[k].k, KEY[k].n, M[k].r.val, 1, &o);
            A(S02, ret == POGOCACHE_INSERTED, "storing a new key inserts");
            M[k].in = 1; M[k].cas = curcas(k, 1);
        }
    }
    if (LOWMEM) now = TTL ? 3 : 2;
#ifdef BATCH
    struct pogocache *root = C; C = pogocache_begin(root); sx_assume(C != 0);
#endif
    for (int i = 0; i < NOPS; i++) {
        if (TTL) { int64_t t = sx_i64("time"); sx_assume(t >= now); now = t; } else now++;
        int ops[8], n = 0;
        for (int b = 0; b < 8; b++) if (OPMASK >> b & 1) ops[n++] = 1 << b;
        int op = ops[n == 1 ? 0 : sx_choose(n, "op")];
        int k = op <= O_DELETE ? sx_choose(NK, "key") : 0;
        switch (op) {
        case O_STORE: op_store(k); break;
        case O_LOAD: op_load(k); break;
        case O_DELETE: op_delete(k); break;
        case O_ITER: op_iter(); break;
        case O_SWEEP: op_sweep(); break;
        case O_CLEAR: op_clear(); break;
        case O_ENTITER: op_entiter(); break;
        }
        A(S10, !evpend, "the loss of an expired entry is reported as an eviction");
#ifdef OBSALL
        observe_physical();
#endif
    }
#ifdef BATCH
    observe_physical();
    pogocache_end(C); C = root;
#endif
    observe_physical();
    for (int k = 0; k < NK; k++) {
        struct got g = {0};
        int live = alive(k, now);
        int ret = loadk(k, now, &g, 1);
        A(S02|S03|S04|S07|S09, ret == (live ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND), "final lookup finds exactly the live entries");
        if (live && g.n) {
            A(S02|S03|S04|S07|S09, same(k, g.r.val, g.vl, g.r.exp, g.r.fl), "final lookup returns what was stored last");
            A(S04, g.cas == (usecas ? M[k].cas : 0), "final lookup returns the entry's cas value");
        }
        sx_obs(ret);
    }
    observe_physical();
    sx_obs(pogocache_count(C, 0)); sx_obs(pogocache_total(C, 0)); sx_obs(pogocache_size(C, 0));
    pogocache_free(C);
    A(S06|S07, sx_heap_live() == live0, "everything allocated is released");
    sx_cover("end");
}
