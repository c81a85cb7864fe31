// The same bytes, whole or cut into pieces, have the same replies and effect.
#include "server.h"
#ifndef CUTS
#define CUTS 1
#endif
#ifndef L
#define L 4
#endif
struct one { int n; uint8_t k[8]; size_t kl; uint8_t v[32]; size_t vl; int64_t exp; uint32_t flags; };
struct all { int n; struct one e[4]; };
static int g_all(int shard, int64_t time, const void *key, size_t kl, const void *v, size_t vl, int64_t exp, uint32_t flags, uint64_t cas, void *ud) {
    (void)shard; (void)time; (void)cas; struct all *a = ud; if (a->n == 4) sx_end(); struct one *e = &a->e[a->n++]; if (kl > 8 || vl > 32) sx_end();
    e->kl = kl; memcpy(e->k, key, kl); e->vl = vl; memcpy(e->v, v, vl); e->exp = exp; e->flags = flags; return POGOCACHE_ITER_CONTINUE;
}
static uint8_t in[600]; static size_t n;
static void lit(const char *s) { while (*s) in[n++] = *s++; }
static void raw(const void *d, size_t k) { memcpy(in + n, d, k); n += k; }
static void sym(int k) { sx_bytes(in + n, k, "b"); n += k; }
static void be32(uint32_t v) { in[n++] = v >> 24; in[n++] = v >> 16; in[n++] = v >> 8; in[n++] = v; }
static void pg(int t, const char *s, size_t l) { if (t) in[n++] = t; be32((uint32_t)l + 4); raw(s, l); }
static void pstart(void) { pg(0, "\0\3\0\0user\0me\0", 13); n--; in[n - 1] = 0; in[3] = (uint8_t)n; }
static void pgq(void) { size_t m = n; n += 5; lit("SET k "); sym(2); in[n++] = 0; in[m] = 'Q'; uint32_t l = (uint32_t)(n - m - 1); in[m + 1] = in[m + 2] = in[m + 3] = 0; in[m + 4] = (uint8_t)l; }
static void build(void) {
#ifdef TEMPLATE
    switch (TEMPLATE * 100 + sx_choose(KINDS, "shape")) {
    case 0: lit("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$2\r\n"); sym(2); lit("\r\n*2\r\n$3\r\nGET\r\n$1\r\na\r\n"); break;
    case 1: lit("*2\r\n$"); sym(2); lit("\r\nGET\r\n$1\r\na\r\n*1\r\n$4\r\nPING\r\n"); break;
    case 2: lit("*"); sym(2); lit("\r\n$3\r\nGET\r\n$1\r\na\r\nPING\r\n"); break;
    case 3: lit("SET a "); sym(3); lit("\r\nGET a\r\n"); break;
    case 4: sym(1); lit("PING\r\nGET a\r\n"); break;
    case 5: lit("PING\n"); sym(2); lit("\r\nKEYS *\r\nGET a\r\n"); break;
    case 100: lit("set a 0 0 2\r\n"); sym(4); lit("get a\r\n"); break;
    case 101: lit("set a 0 0 "); sym(1); lit("\r\nxy\r\nget a\r\n"); break;
    case 102: lit("add a 1 0 2"); sym(1); lit("noreply\r\nxy\r\nget a"); sym(2); lit("version\r\n"); break;
    case 103: lit("set "); sym(2); lit(" 0 0 2\r\nxy\r\nget a\r\n"); break;
    case 104: lit("version\r\n"); sym(2); lit("\r\nget a b\r\n"); break;
    case 105: lit("set a 0 0"); sym(2); lit("\r\nxy\r\nversion\r\n"); break;
    case 106: lit("se"); sym(1); lit(" a 0 0 2\r\n"); sym(2); lit("\r\nget a\r\n"); break;
    case 200: lit("PUT /a HTTP/1.1\r\nContent-Length: "); sym(1); lit("\r\n\r\nab"); break;
    case 201: lit("PUT /a HTTP/1."); sym(2); lit("\nContent-Length: 2\r\n\r\nab"); break;
    case 202: lit("GET /a HTTP/1.1\r\n"); sym(2); lit("\r\n\r\n"); break;
    case 203: lit("GET /"); sym(2); lit(" HTTP/1.1\r\nA: b\r\n\r\n"); break;
    case 204: lit("DELETE /a?ttl=1 HTTP/1.1\r\nAcc"); sym(1); lit("pt: x\r\n\r"); sym(1); break;
    case 300: pstart(); pgq(); pg('Q', "GET k\0", 6); break;
    case 301: pstart(); pg('P', "\0SET $1 $2\0\0\0", 14); in[n++] = 'B'; be32(20); raw("\0\0\0\0\0\2\0\0\0\1", 10); sym(1); raw("\0\0\0\1", 4); sym(1); raw("\0\0", 2); n -= 2; pg('E', "\0\0\0\0\0", 5); pg('S', "", 0); pg('Q', "MGET k a\0", 9); break;
    case 302: pstart(); in[n++] = 'Q'; raw("\0\0\0", 3); sym(1); raw("GET a\0", 6); sym(1); break;
    case 303: be32(8); raw("\x04\xd2\x16", 3); sym(1); { size_t m = n; pstart(); in[3] = 8; in[m + 3] = (uint8_t)(n - m); } pg('Q', "GET a\0", 6); break;
    default: pstart(); sym(1); be32(4); pg('Q', "GET a\0", 6); break;
    }
#else
    sym(L); if (sx_choose(2, "tail")) lit(sx_choose(2, "tk") ? "\r\n" : "\n");
#endif
}
static struct pogocache *fresh(void) { srv_start(); pogocache_store(cache, "a", 1, "old", 3, &(struct pogocache_store_opts){ .time = H_now }); return cache; }
void harness(void) {
    build();
    struct pogocache *A = fresh(); struct net_conn *a = srv_open(); srv_feed(a, in, n);
    struct pogocache *B = fresh(); struct net_conn *b = srv_open();
    if (sx_choose(2, "bytewise")) { for (size_t i = 0; i < n; i++) srv_feed(b, in + i, 1); }
    else { size_t p = 0; for (int k = 0; k < CUTS; k++) { size_t x = p + 1 + sx_choose((int)(n - p - 1), "cut"); srv_feed(b, in + p, x - p); p = x; if (p + 1 >= n) break; } srv_feed(b, in + p, n - p); }
    sx_assert(a->closed == b->closed, "connection open or closed alike");
    sx_assert(a->nsent == b->nsent && same_bytes(a->sent, b->sent, a->nsent), "the same replies");
    static struct all ra, rb; pogocache_iter(A, &(struct pogocache_iter_opts){ .time = H_now, .entry = g_all, .udata = &ra }); pogocache_iter(B, &(struct pogocache_iter_opts){ .time = H_now, .entry = g_all, .udata = &rb });
    sx_assert(ra.n == rb.n, "the same entries");
    for (int i = 0; i < ra.n; i++) { int hit = 0; for (int j = 0; j < rb.n; j++) { struct one *x = &ra.e[i], *y = &rb.e[j]; if (x->kl == y->kl && x->vl == y->vl && same_bytes(x->k, y->k, x->kl)) hit |= same_bytes(x->v, y->v, x->vl) & (x->exp == y->exp) & (x->flags == y->flags); } sx_assert(hit, "the same entries"); }
    if (a->nsent) sx_cover("answered"); else sx_cover("waits");
    srv_close(a); srv_close(b); pogocache_free(A); pogocache_free(B);
}
