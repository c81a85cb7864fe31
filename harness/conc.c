// Two threads, each running NOPS operations on a shared cache, every schedule
// with a bounded number of preemptions. Results and the final contents must
// equal those of some sequential order.
#include "sx.h"
#include "pogocache.h"
#include <string.h>
#include <stdlib.h>
#ifndef NOPS
#define NOPS 1
#endif
#ifndef NT
#define NT 2
#endif
#ifndef NK
#define NK 2
#endif
#ifndef NSHARDS
#define NSHARDS 1
#endif
#ifndef FILL
#define FILL 0
#endif
#ifndef KINDS
#define KINDS 8
#endif
#ifndef THREADBATCH
#define THREADBATCH sx_choose(2, "threadbatch")
#endif
enum { STORE, LOAD, DELETE, ADD, INCR, SCAN, CLEAR, SWEEP, COUNT, BATCH2 };
static const char *KEYS[3] = { "ab", "a", "Zq" };
static const int KLEN[3] = { 2, 1, 2 };
#ifdef STUBHASH
uint64_t th64(const void *data, size_t len, uint64_t seed) {
    (void)data; (void)seed; return len == 1 ? ((uint64_t)1 << 32) | 63 : 63; }
#endif
static struct pogocache *C;
struct op { int kind, key; uint8_t val; int ret; uint8_t got; int n; };
static struct op ops[NT][NOPS];
struct model { int in[3]; uint8_t v[3]; };
static struct model M0;

static void on_load(int s, int64_t t, const void *k, size_t kl, const void *v, size_t vl, int64_t e, uint32_t f, uint64_t c,
    struct pogocache_update **u, void *ud) { (void)s;(void)t;(void)k;(void)kl;(void)e;(void)f;(void)c;(void)u;
    *(uint8_t*)ud = vl ? *(const uint8_t*)v : 0; }
static void run(struct pogocache *c, struct op *o) {
    const char *k = KEYS[o->key]; int kl = KLEN[o->key];
    struct pogocache_store_opts so = {0}; so.time = 2;
    struct pogocache_load_opts lo = {0}; lo.time = 2; lo.entry = on_load; lo.udata = &o->got;
    struct pogocache_delete_opts dop = {0}; dop.time = 2;
    switch (o->kind) {
    case STORE: o->ret = pogocache_store(c, k, kl, &o->val, 1, &so); break;
    case ADD: so.nx = 1; o->ret = pogocache_store(c, k, kl, &o->val, 1, &so); break;
    case LOAD: o->ret = pogocache_load(c, k, kl, &lo); break;
    case DELETE: o->ret = pogocache_delete(c, k, kl, &dop); break;
    case INCR: {
        struct pogocache *b = pogocache_begin(c); sx_assume(b != 0);
        o->ret = pogocache_load(b, k, kl, &lo);
        if (o->ret == POGOCACHE_FOUND) { uint8_t nv = o->got + 1; pogocache_store(b, k, kl, &nv, 1, &so); }
        pogocache_end(b);
        break; }
    case BATCH2: { // both keys changed together
        struct pogocache *b = pogocache_begin(c); sx_assume(b != 0);
        for (int i = 0; i < 2; i++) pogocache_store(b, KEYS[i], KLEN[i], &o->val, 1, &so);
        pogocache_end(b);
        o->ret = 0; break; }
    case SCAN: {
        uint64_t cur = 0; struct pogocache_entry *e; int n = 0;
        while ((e = pogocache_entry_iter(c, 2, &cur))) {
            char buf[128]; size_t kl2, vl; 
            const char *key = pogocache_entry_key(c, e, &kl2, buf);
            const uint8_t *v = pogocache_entry_value(c, e, &vl);
            sx_sched();
            sx_assert(vl == 1, "a scanned entry stays readable until it is released");
            sx_assert((kl2 == 1 && key[0] == 'a') || (kl2 == 2 && ((key[0] == 'a' && key[1] == 'b') || (key[0] == 'Z' && key[1] == 'q'))) || (kl2 == 3 && key[0] == 'F'), "a scanned entry has a stored key");
            (void)v; n += v[0] != 255;
            pogocache_entry_release(c, e);
            if (n > 100) break;
        }
        o->n = 0; break; }
    case CLEAR: { struct pogocache_clear_opts co = {0}; co.time = 2; co.deferfree = 1; pogocache_clear(c, &co); break; }
    case SWEEP: { size_t a, b; struct pogocache_sweep_opts wo = {0}; wo.time = 2; pogocache_sweep(c, &a, &b, &wo); o->n = 0; break; }
    case COUNT: { o->n = pogocache_count(c, 0); break; }
    }
}
// reference
static int ok;
static void apply(struct model *m, const struct op *o) {
    int k = o->key, in = m->in[k];
    switch (o->kind) {
    case STORE: ok &= o->ret == (in ? POGOCACHE_REPLACED : POGOCACHE_INSERTED); m->in[k] = 1; m->v[k] = o->val; break;
    case ADD: ok &= o->ret == (in ? POGOCACHE_FOUND : POGOCACHE_INSERTED); if (!in) { m->in[k] = 1; m->v[k] = o->val; } break;
    case LOAD: ok &= o->ret == (in ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND); if (in) ok &= o->got == m->v[k]; break;
    case DELETE: ok &= o->ret == (in ? POGOCACHE_DELETED : POGOCACHE_NOTFOUND); m->in[k] = 0; break;
    case INCR: ok &= o->ret == (in ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND); if (in) { ok &= o->got == m->v[k]; m->v[k]++; } break;
    case BATCH2: for (int i = 0; i < 2; i++) { m->in[i] = 1; m->v[i] = o->val; } break;
    case CLEAR: for (int i = 0; i < NK; i++) m->in[i] = 0; break;
    case COUNT: { int n = 0; for (int i = 0; i < NK; i++) n += m->in[i]; if (NSHARDS == 1) ok &= o->n == n + FILL; break; }
    }
}
static struct model F;
static int anyok;
static void orders(struct model m, int *pos, int okv) {
    int left = 0;
    for (int t = 0; t < NT; t++) if (pos[t] < NOPS) {
        left = 1;
        struct model m2 = m; ok = okv; apply(&m2, &ops[t][pos[t]]); int ok2 = ok;
        pos[t]++; orders(m2, pos, ok2); pos[t]--;
    }
    if (!left) {
        int e = okv;
        for (int k = 0; k < NK; k++) { e &= m.in[k] == F.in[k]; if (m.in[k] && F.in[k]) e &= m.v[k] == F.v[k]; }
        anyok |= e;
    }
}
static void thread(void *arg) {
    int t = (int)(intptr_t)arg;
    for (int i = 0; i < NOPS; i++) run(C, &ops[t][i]);
}
static void yielder(void *u) { (void)u; sx_yield(); }
void harness(void) {
    struct pogocache_opts po = {0}; po.nshards = NSHARDS; po.yield = yielder; po.usethreadbatch = THREADBATCH;
#ifdef SHRINK
    po.allowshrink = 1;
#endif
    size_t live0 = sx_heap_live();
    C = pogocache_new(&po); sx_assume(C != 0);
#if FILL
    for (int i = 0; i < FILL; i++) { char f[3] = {'F', '0'+i/10, '0'+i%10}; struct pogocache_store_opts so = {0}; so.time = 1; pogocache_store(C, f, 3, f, 1, &so); }
#endif
    for (int k = 0; k < NK; k++) if (sx_choose(2, "present")) {
        M0.in[k] = 1; M0.v[k] = 10 + k; struct pogocache_store_opts so = {0}; so.time = 1;
        pogocache_store(C, KEYS[k], KLEN[k], &M0.v[k], 1, &so);
    }
    static const int kinds[] = { KINDLIST };
    for (int t = 0; t < NT; t++) for (int i = 0; i < NOPS; i++) {
        struct op *o = &ops[t][i];
        int nk = sizeof kinds / sizeof kinds[0];
        o->kind = kinds[sx_choose(nk, "kind")];
        if (t > 0 && NOPS == 1 && NT == 2) sx_assume(o->kind >= ops[0][0].kind || o->key != ops[0][0].key);
        o->key = o->kind <= INCR ? sx_choose(NK, "key") : 0;
        o->val = 100 + 10 * t + i;
    }
    int id[NT];
    for (int t = 1; t < NT; t++) id[t] = sx_spawn(thread, (void*)(intptr_t)t);
    thread((void*)0);
    for (int t = 1; t < NT; t++) sx_join(id[t]);
    for (int k = 0; k < NK; k++) {
        struct pogocache_load_opts lo = {0}; lo.time = 2; lo.entry = on_load; lo.udata = &F.v[k];
        F.in[k] = pogocache_load(C, KEYS[k], KLEN[k], &lo) == POGOCACHE_FOUND;
        sx_obs(F.in[k]); sx_obs(F.v[k]);
    }
    for (int t = 0; t < NT; t++) for (int i = 0; i < NOPS; i++) { sx_obs(ops[t][i].ret); sx_obs(ops[t][i].got); }
    int pos[NT] = {0};
    orders(M0, pos, 1);
    sx_assert(anyok, "the results and the final contents are those of some sequential order");
    int n = 0; for (int k = 0; k < NK; k++) n += F.in[k];
#if !FILL
    sx_assert(pogocache_count(C, 0) == (size_t)n, "count is exact after concurrent operations");
#endif
    pogocache_free(C);
    sx_assert(sx_heap_live() == live0, "everything is released");
    sx_cover("end");
}
