// Saving the cache to a file and loading it again (the real save.c, pogocache.c,
// buf.c, util.c) over a file system with failures. LZ4 is the identity.
#include "fsenv.h"
#include "pogocache.h"
#include "save.h"
#include "lz4.h"
#include "buf.h"
#include "util.h"
#include "sys.h"
#ifndef NK
#define NK 2
#endif
#ifndef VL
#define VL 1
#endif
#ifndef NSH
#define NSH 2
#endif
#ifndef NPROCS
#define NPROCS 2
#endif
#ifndef SYM
#define SYM 1
#endif
#ifndef CFG
#define CFG 1
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
#ifndef NOTHREAD
#define NOTHREAD 0
#endif
#ifdef HUGE_
const
#endif
int verb; int useallocator; bool usetrackallocs;
struct pogocache *cache;
static int64_t H_now = INT64_C(5000000000), H_unix = INT64_C(1700000000000000000); static int H_nprocs = 1;
int64_t sys_now(void) { return H_now; }
int64_t sys_unixnow(void) { return H_unix; }
int sys_nprocs(void) { return H_nprocs; }
uint64_t sys_seed(void) { return 0x1234567; }
void sys_getmeminfo(struct sys_meminfo *i) { i->virt = 2; i->rss = 1; }
size_t sys_memory(void) { return (size_t)1 << 30; }
// which shard and slot a key is put in
uint64_t th64(const void *d, size_t n, uint64_t seed) { (void)seed; const uint8_t *p = d; return n ? ((uint64_t)(n == 1 ? p[0] & 7 : 0) << 32) | (uint64_t)n * 3 : 0; }
// a checksum that tells any two different short texts apart well enough here (D02 crc decides the real one)
uint32_t crc32(const void *d, size_t n) { const uint8_t *p = d; uint32_t s = (uint32_t)n; for (size_t i = 0; i < n; i++) s += p[i]; return s; }
int LZ4_compressBound(int n) { return (unsigned)n > 0x7E000000u ? 0 : n + n / 255 + 16; }
static int Z_fail; static size_t Z_len;
#ifdef HUGE_
int LZ4_compress_default(const char *s, char *d, int n, int cap) { (void)s; if (n < 0 || (unsigned)n > 0x7E000000u || cap < n) return 0; Z_len = (size_t)n; memset(d, 1, 8); return 8; }
#else
int LZ4_compress_default(const char *s, char *d, int n, int cap) { if (n < 0 || n > cap || (Z_fail && sx_choose(2, "nocompress"))) return 0; memcpy(d, s, (size_t)n); return n; }
#endif
int LZ4_decompress_safe(const char *s, char *d, int n, int cap) { if (!s || n <= 0 || cap < 0 || n > cap) return -1; memcpy(d, s, (size_t)n); return n; }

#define SX_CFG(n) (CFG ? sx_choose(2, n) : 0)
struct ent { int in; uint8_t v[4]; size_t vl; int64_t exp; uint32_t flags; };
static struct ent M[5]; static const char *KEYS_[] = { "a", "b", "", "dd", "c" };
static size_t klen(int k) { return strlen(KEYS_[k]); }
static void put(int k, struct ent *e) {
    struct pogocache_store_opts so = { .time = H_now, .flags = e->flags, .expires = e->exp };
    int r = pogocache_store(cache, KEYS_[k], klen(k), e->v, e->vl, &so); sx_assume(r == POGOCACHE_INSERTED || r == POGOCACHE_REPLACED); e->in = 1;
}
static void create(int nsh) { static struct pogocache_opts o; memset(&o, 0, sizeof o); o.nshards = nsh; o.seed = 1; o.usecas = true; cache = pogocache_new(&o); sx_assume(cache != 0); }
struct got { int n; uint8_t v[4]; size_t vl; int64_t exp; uint32_t flags; };
static void on_load(int s, int64_t t, const void *k, size_t kl, const void *v, size_t vl, int64_t e, uint32_t f, uint64_t c, struct pogocache_update **u, void *ud) {
    (void)s; (void)t; (void)k; (void)kl; (void)c; (void)u; struct got *g = ud; g->n++; g->vl = vl; if (vl > 4) sx_fail("value length"); memcpy(g->v, v, vl); g->exp = e; g->flags = f; }
static struct got look(const char *k, size_t kl) { struct got g = { 0 }; struct pogocache_load_opts lo = { .time = H_now, .entry = on_load, .udata = &g }; pogocache_load(cache, k, kl, &lo); return g; }
static void fill(int nk) {
    for (int k = 0; k < nk; k++) {
        struct ent e = { 0 }; int kind = sx_choose(k == 0 ? 4 : 3, "kind"); if (kind == 1 && k) kind = 4; if (kind == 0) continue;
        if (k == 0 && SYM) { e.vl = sx_choose(VL + 1, "vlen"); sx_bytes(e.v, e.vl, "val"); } else { e.vl = k & 1; e.v[0] = 'v'; }
        if (kind == 1) { e.flags = SYM ? sx_u32("flags") : 4000000000u; }
        if (kind == 2) { int64_t ttl = k || !SYM ? 7000000000 : sx_i64("ttl"); sx_assume(ttl > 0 && ttl < (INT64_C(1) << 61)); e.exp = H_now + ttl; }
        if (kind == 3) { e.exp = H_now + 5; }
        put(k, &e); M[k] = e; 
    }
}
#ifdef ROUNDTRIP
void harness(void) {
    size_t live0 = sx_heap_live();
    create(1 + sx_choose(NSH, "shards")); fill(NK);
    H_now += 5; H_unix += 5;                    // kind 3 has expired now
    int fast = sx_choose(2, "fast"); if (fast) H_nprocs = 1 + sx_choose(NPROCS, "procs"); H_failthread = NOTHREAD;
    F_final = "dir/p"; if (SX_CFG("old")) F_finalfile = F_put("dir/p", "oldoldold", 9); F_stale = CFG;
    int64_t saved = H_now;
    int r = save("dir/p", fast); sx_assert(r == 0, "the save succeeds");
    sx_assert(F_open == 0, "every descriptor is closed"); sx_assert(F_find("dir/p") >= 0, "the saved file exists");
    for (int i = 0; i < F_n; i++) if (F[i].linked) sx_assert(!strcmp(F[i].name, "dir/p"), "no work file is left behind");
    pogocache_free(cache);
    // time passes, and the machine may restart
    static const int64_t D[] = { 0, 6999999994, 6999999995, 8000000000 }; int64_t d = SYM ? (int64_t)(sx_var(62, "later")) : D[sx_choose(4, "later")]; H_unix += d; sx_assume(H_unix > 0 && d < (INT64_C(1) << 61)); H_now = SX_CFG("restarted") ? 77 : H_now + 1000;
    F_final = 0; create(1 + sx_choose(NSH, "shards2"));
    int had = SX_CFG("had"); struct ent o = { .vl = 1, .v = "o" }; if (had) { put(0, &o); put(4, &o); }
    struct load_stats st; int fast2 = sx_choose(2, "fast2"); H_nprocs = fast2 ? NPROCS : 1; H_failthread = 0;
    r = load("dir/p", fast2, &st); sx_assert(r == 0, "the load succeeds"); sx_assert(F_open == 0, "every descriptor is closed");
    size_t ins = 0, gone = 0;
    for (int k = 0; k < NK; k++) {
        struct ent *e = &M[k]; struct got g = look(KEYS_[k], klen(k)); int saved_ = e->in && !(e->exp && e->exp <= saved);
        int live = saved_; if (saved_ && e->exp) { if (e->exp - saved <= d) live = 0; }
        if (saved_) { if (live) ins++; else gone++; }
        if (!live) { sx_assert(g.n == (had && k == 0), "an entry that was not saved, or expired meanwhile, does not come back"); if (g.n) { sx_assert(g.v[0] == 'o', "the entry that was there stays"); } continue; }
        sx_assert(g.n == 1, "a saved entry that has not expired comes back"); 
        sx_assert(g.vl == e->vl, "with the same value length"); sx_assert(!memcmp(g.v, e->v, e->vl), "with the same value"); sx_assert(g.flags == e->flags, "with the same flags");
        if (!e->exp) sx_assert(g.exp == 0, "without an expiration"); else sx_assert(g.exp - H_now == e->exp - saved - d, "with the time to live that is left");
        sx_cover("restored");
    }
    if (had) { struct got g = look("c", 1); sx_assert(g.n == 1 && g.v[0] == 'o', "other entries stay"); }
    sx_assert(st.ninserted == ins, "loaded entries are counted"); sx_assert(st.nexpired == gone, "expired entries are counted");
    if (gone) sx_cover("expired meanwhile");
    pogocache_free(cache); sx_assert(sx_heap_live() == live0, "nothing is left behind");
}
#endif
#ifdef HUGE_
// a block whose length does not fit the format is never cut off silently
#include "save.c"
void harness(void) {
    static const uint64_t N[] = { 100, 0x7E000001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, 0x100000064, 0x180000000, 0x8000000000 };
    static uint8_t data[16]; static struct savectx x; static pthread_mutex_t l; x.lock = &l; x.nentries = 1; x.buf.data = (void *)data; x.buf.len = N[sx_choose(9, "len")]; size_t n = x.buf.len;
    x.fd = sx_open("w", O_RDWR | O_CREAT, 0); Z_len = 0; int r = flush(&x);
    if (r == 0) { sx_assert(Z_len == n, "all of a block is written"); sx_cover("written"); } else sx_cover("refused");
    buf_clear(&x.dst);
}
#endif
#ifdef SAVEFAIL
// whichever call fails, and wherever the process stops, the saved file is the old or the new one
void harness(void) {
    size_t live0 = sx_heap_live();
    create(NSH); struct ent e = { .vl = 1, .v = "v" }; for (int k = 0; k < NK; k++) put(k, &e);
    int fast = sx_choose(2, "fast"); if (fast) H_nprocs = NPROCS; 
    F_final = "p"; int old = sx_choose(2, "old"); if (old) F_put("p", "oldoldold", 9);
    F_faults = FAULTS; Z_fail = 1; H_failthread = NOTHREAD;
    int r = save("p", fast); F_faults = 0; F_final = 0; Z_fail = 0; H_failthread = 0;
    sx_assert(F_open == 0, "every descriptor is closed"); 
    for (int i = 0; i < F_n; i++) if (F[i].linked) sx_assert(!strcmp(F[i].name, "p"), "no work file is left behind");
    int f = F_find("p");
    if (r == 0) {
        sx_assert(F_replaced && f == F_finalfile, "a successful save replaces the file"); 
        for (int k = 0; k < NK; k++) { sx_assert(pogocache_delete(cache, KEYS_[k], klen(k), &(struct pogocache_delete_opts){ .time = H_now }) == POGOCACHE_DELETED, "the cache stays"); }
        H_nprocs = 1; struct load_stats st; sx_assert(load("p", 0, &st) == 0 && st.ninserted == NK, "a successful save is complete");
        for (int k = 0; k < NK; k++) { struct got g = look(KEYS_[k], klen(k)); sx_assert(g.n == 1, "a successful save is complete"); }
        sx_cover("saved");
    } else {
        sx_assert(!F_replaced, "a failed save changes nothing"); sx_assert(old ? f == 0 && F[0].n == 9 && !memcmp(F[0].d, "oldoldold", 9) : f < 0, "a failed save changes nothing");
        sx_cover("failed");
    }
    pogocache_free(cache); sx_assert(sx_heap_live() == live0, "nothing is left behind");
}
#endif
#ifdef CORRUPT
// Any file: loaded completely if well formed, otherwise refused; never harmful.
#ifndef L
#define L 10
#endif
static int rd(const uint8_t *p, size_t n, size_t *i, uint64_t *x) { uint64_t v = 0; for (int k = 0; k < 10; k++) { if (*i >= n) return 0; uint8_t b = p[(*i)++]; v |= (uint64_t)(b & 127) << (7 * k); if (b < 128) { if (k == 9 && b > 1) sx_end(); *x = v; return 1; } } return 0; }
static void u32(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static size_t H_maxk, H_ent; static int H_dup;
static int wellformed(const uint8_t *p, size_t n) {
    size_t i = 0; uint64_t ts, kl, vl, ttl, fl, cas; if (!rd(p, n, &i, &ts) || (int64_t)ts < 0) return 0;
    while (i < n) { if (p[i++]) return 0; if (!rd(p, n, &i, &kl) || kl > n - i) return 0; const uint8_t *k = p + i; i += kl; if (!rd(p, n, &i, &vl) || vl > n - i) return 0; i += vl;
        if (!rd(p, n, &i, &ttl) || (int64_t)ttl < 0 || !rd(p, n, &i, &fl) || fl > UINT32_MAX || !rd(p, n, &i, &cas)) return 0; (void)k; H_ent++; }
    return 1;
}
void harness(void) {
    size_t live0 = sx_heap_live(); static uint8_t b[FILECAP]; size_t n = 0; int good = 1, bad, blocks = sx_choose(NBLK + 1, "blocks");
    for (int k = 0; k < blocks; k++) {
        uint8_t *h = b + n; size_t l = k == 0 ? L : 9; uint8_t *p = h + 16;
        memcpy(p, "\x01\0\1k\0\0\0\0\0", 9);
        if (k == 0) { int at = sx_choose(4, "where"); if (at == 0) sx_bytes(p, L, "b"); else if (at == 1) { if (L < 7) sx_end(); memcpy(p, "\x01\0\1k\1v", 6); sx_bytes(p + 6, L > 6 ? L - 6 : 1, "b"); } else if (at == 2) { if (L < 3) sx_end(); memcpy(p, "\x01\0", 2); sx_bytes(p + 2, L > 2 ? L - 2 : 1, "b"); } else { l = 1 + sx_choose(L, "len"); memset(p, 0, l); sx_bytes(p, l < 3 ? l : 3, "b"); } }
        memcpy(h, "POGO", 4); u32(h + 4, crc32(p, l)); u32(h + 8, (uint32_t)l); u32(h + 12, (uint32_t)l);
        n += 16 + l; if (!wellformed(p, l)) good = 0;
        if (k == 0) switch (bad = sx_choose(6, "bad")) {
            case 1: sx_bytes(h, 4, "magic"); if (memcmp(h, "POGO", 4)) good = 0; break;
            case 2: { uint32_t c = crc32(p, l), x = sx_u32("crc"); u32(h + 4, x); if (x != c) good = 0; break; }
            case 3: { static const int D[] = { 0, 1, 60 }; uint32_t x = D[sx_choose(3, "dlen")]; u32(h + 8, x == 1 ? l + 1 : x); good = 0; break; }
            case 4: { uint32_t x = sx_choose((int)l, "clen"); u32(h + 12, x); sx_assume(crc32(p, x) != crc32(p, l)); good = 0; break; }
            case 5: u32(h + 12, (uint32_t)l + 1 + sx_choose(2, "more") * 40); good = 0; break;
        }
    }
    if (n && sx_choose(2, "cut")) { size_t c = 1 + sx_choose(12, "cutby"); sx_assume(c < n); int edge = 0; size_t x = n - c; for (size_t i = 0; i <= n - c;) { if (i == x) { edge = 1; break; } if (i + 16 > n) break; i += 16 + (i == 0 ? n - (blocks - 1) * 25 - 16 : 9); } n = x; if (!edge) good = 0; else sx_end(); }
    F_put("p", b, n); create(NSH); struct ent e = { .vl = 1, .v = "v" }; struct pogocache_store_opts so = { .time = H_now }; pogocache_store(cache, "guarded-key", 11, e.v, 1, &so);
    int fast = sx_choose(2, "fast"); if (fast) H_nprocs = NPROCS; F_faults = FAULTS; H_failthread = NOTHREAD; if (NOTHREAD) H_failthread = sx_choose(2, "some");  int wantthread = H_failthread;
    H_ent = 0; struct load_stats st; int r = load(blocks ? "p" : "p", fast, &st);
    if (!F_faulted && H_failthread == wantthread) { sx_assert(r == (good ? 0 : -1), "a file is loaded exactly when it is well formed"); }
    else if (r == 0) sx_assert(good, "a file is loaded exactly when it is well formed");
    sx_assert(F_open == 0, "every descriptor is closed"); struct got g = look("guarded-key", 11); sx_assert(g.n == 1 && g.v[0] == 'v', "other entries stay");
    if (r == 0 && blocks > 1) { g = look("k", 1); sx_assert(g.n == 1 && g.vl == 0, "every block is loaded"); }
    if (r) sx_cover("refused"); else sx_cover("loaded");
    pogocache_free(cache); sx_assert(sx_heap_live() == live0, "nothing is left behind");
}
#endif
#ifdef CLEAN
// starting up removes left-over work files of the persistence directory and nothing else
void harness(void) {
    size_t live0 = sx_heap_live(); static const char *N[] = { "data", "a.pogocache.work", ".pogocache.work", "pogocache.work", "a.pogocache.workx", "a.pogocache.Work", "b.1.pogocache.work" };
    static const char *P[] = { "data", "dir/data", "dir/sub/x", "./data" }; static const char *DIRS[] = { "", "dir/", "dir/sub/" };
    int w = sx_choose(4, "persist"), n = 1 + sx_choose(2, "files"); int kept[3];
    for (int i = 0; i < n; i++) { char t[64]; int d = sx_choose(3, "dir"), k = sx_choose(7, "name"), f; snprintf(t, 64, "%s%s", DIRS[d], N[k]); if (F_find(t) >= 0) sx_end(); F_put(t, "x", 1); f = F_n - 1; F[f].isdir = sx_choose(2, "isdir"); kept[i] = d != w % 3 || F[f].isdir || !(k == 1 || k == 2 || k == 6); }
    F_faults = FAULTS; bool ok = cleanwork(P[w]); if (!F_faulted) sx_assert(ok, "a directory that exists is cleaned");
    for (int i = 0; i < n; i++) { sx_assert(!kept[i] || F[i].linked, "nothing else is removed"); if (ok) sx_assert(kept[i] || !F[i].linked, "work files are removed"); if (!F[i].linked) sx_cover("removed"); }
    sx_assert(!F_dir.open, "the directory is closed"); sx_assert(sx_heap_live() == live0, "nothing is left behind");
    F_faults = 0; sx_assert(!cleanwork(""), "no path, nothing to clean");
}
#endif
