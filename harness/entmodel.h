// A reference model of the cache contents: what every live entry must be.
#ifndef ENTMODEL_H
#define ENTMODEL_H
#define KM 4
struct tok { const uint8_t *p; size_t n; };
static struct ent { int live; size_t kl; uint8_t k[8]; size_t n; uint8_t v[32]; int isnum; uint64_t num; int64_t exp; uint64_t flags; } M[KM];

// ------------------------------------------------ model
static int alive(struct ent *e) { if (e->live && e->exp > 0 && e->exp <= H_now) e->live = 0; return e->live; }
static struct ent *find(struct tok *t) {
    for (int i = 0; i < KM; i++) if (M[i].live && M[i].kl == t->n && same_bytes(M[i].k, t->p, t->n)) return alive(&M[i]) ? &M[i] : 0;
    return 0;
}
static struct ent *slot(struct tok *t) {
    struct ent *e = find(t); if (e) return e;
    for (int i = 0; i < KM; i++) if (!M[i].live) { memset(&M[i], 0, sizeof M[i]); M[i].kl = t->n; if (t->n > sizeof M[i].k) sx_end(); memcpy(M[i].k, t->p, t->n); M[i].live = 1; return &M[i]; }
    sx_end();
}
struct got { struct ent *m; int n; uint64_t cas; };
static void g_entry(int shard, int64_t time, const void *key, size_t kl, const void *v, size_t vl, int64_t exp, uint32_t flags, uint64_t cas, struct pogocache_update **u, void *ud) {
    (void)shard; (void)time; (void)u; struct got *g = ud; struct ent *m = g->m; g->n++; g->cas = cas;
    sx_assert(kl == m->kl && same_bytes(key, m->k, kl), "key");
    if (m->isnum) sx_assert(nt_same(v, vl, m->num), "stored number"); else sx_assert(vl == m->n && same_bytes(v, m->v, vl), "stored value");
    sx_assert(exp == m->exp, "stored expiration"); sx_assert(flags == m->flags, "stored flags");
}
static uint64_t cas_of(struct ent *e) {
    struct got g = { .m = e };
    int r = pogocache_load(cache, e->k, e->kl, &(struct pogocache_load_opts){ .time = H_now, .entry = g_entry, .udata = &g, .notouch = 1 });
    sx_assert(r == POGOCACHE_FOUND && g.n == 1, "every live key is found"); return g.cas;
}
static void check(void) {
    size_t n = 0; for (int i = 0; i < KM; i++) if (alive(&M[i])) { n++; cas_of(&M[i]); }
    pogocache_sweep(cache, 0, 0, &(struct pogocache_sweep_opts){ .time = H_now });
    sx_assert(pogocache_count(cache, 0) == n, "number of entries");
}
static int64_t sat_mul(int64_t a, int64_t b) { int64_t r; if (__builtin_mul_overflow(a, b, &r)) return a < 0 ? INT64_MIN : INT64_MAX; return r; }
static int64_t sat_add(int64_t a, int64_t b) { int64_t r; if (__builtin_add_overflow(a, b, &r)) return b < 0 ? INT64_MIN : INT64_MAX; return r; }
static void set_exp(struct ent *e, int64_t x) { if (x == INT64_MIN) { e->live = 0; return; } e->exp = x; if (x && x <= H_now) e->live = 0; }
static uint64_t bits(int n, const char *nm) { return sx_u64(nm) & (((uint64_t)1 << n) - 1); }
#endif
