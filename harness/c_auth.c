// With a password configured nothing is read, written or disclosed on a
// connection before exactly that password has been given.
#include "server.h"
#ifndef NOPS
#define NOPS 2
#endif
#ifndef PL
#define PL 3
#endif
static uint8_t pw[PL + 1]; static size_t pn; static struct net_conn *c; static struct bb q, e;
static int authed, have = 1; static uint8_t val = 'v'; static int rnd;
static uint8_t guess[PL + 2]; static size_t gn;
static int graphic(uint8_t x) { return (x > ' ') & (x < 127) & (x != '&') & (x != '?') & (x != '=') & (x != '%') & (x != '+') & (x != '#'); }
static void mkguess(int text) { gn = sx_choose(PL + 2, "glen"); sx_bytes(guess, gn, "guess"); if (text) for (size_t i = 0; i < gn; i++) sx_assume(graphic(guess[i])); }
static int right(void) { return gn == pn && same_bytes(guess, pw, pn); }
static struct { int n, live; uint8_t v; } G;
static void g_entry(int shard, int64_t time, const void *key, size_t kl, const void *v, size_t vl, int64_t exp, uint32_t flags, uint64_t cas, struct pogocache_update **u, void *ud) { (void)shard; (void)time; (void)key; (void)kl; (void)exp; (void)flags; (void)cas; (void)u; (void)ud; G.n++; sx_assert(vl == 1 && *(const uint8_t *)v == val, "value in the cache"); }
static void contents(void) { G.n = 0; pogocache_load(cache, "k", 1, &(struct pogocache_load_opts){ .time = H_now, .entry = g_entry, .notouch = 1 }); sx_assert(G.n == have, "the entry is there exactly when it should be"); sx_assert(pogocache_count(cache, 0) == (size_t)have, "no other entry"); }
static int starts(const char *s) { size_t n = strlen(s); return c->nsent >= n && memcmp(c->sent, s, n) == 0; }
// one error line, which does not disclose the value
static void one_error(const char *s) { sx_assert(starts(s), "refused"); sx_assert(c->nsent > 2 && memcmp(c->sent + c->nsent - 2, "\r\n", 2) == 0, "one line"); for (size_t i = 0; i + 2 < c->nsent; i++) sx_assert((uint8_t)c->sent[i] >= ' ', "one line"); c->nsent = 0; }
static void step_resp(int telnet) {
    q.n = e.n = 0; c->nsent = 0; int k = sx_choose(8, "op"), refused = 0;
    struct tokv { const void *p; size_t n; } a[4]; int n = 0;
    #define W(s) (a[n].p = s, a[n++].n = strlen(s))
    switch (k) {
    case 0: mkguess(telnet); W(rnd ? "AUTH" : "Auth"); a[n].p = guess; a[n++].n = gn; if (telnet && gn == 0) n--; break;
    case 1: W("GET"); W("k"); break;
    case 2: W("SET"); W("k"); W("w"); break;
    case 3: W("DEL"); W("k"); break;
    case 4: W("AUTH"); W("u"); mkguess(1); if (gn == 0) sx_end(); a[n].p = guess; a[n++].n = gn; refused = 1; break;
    case 5: W("AUTH"); refused = 1; break;
    case 6: W("NOSUCH"); W("k"); refused = 1; break;
    default: W("FLUSHALL"); break;
    }
    if (telnet) { for (int i = 0; i < n; i++) { if (i) b_c(&q, ' '); for (size_t z = 0; z < a[i].n; z++) { uint8_t x = ((const uint8_t *)a[i].p)[z]; sx_assume((x != '"') & (x != '\'') & (x != '\\')); } b_raw(&q, a[i].p, a[i].n); } b_s(&q, "\r\n"); }
    else { r_cmd(&q, n); for (int i = 0; i < n; i++) r_arg(&q, a[i].p, a[i].n); }
    srv_feed(c, q.d, q.n); sx_assert(!c->closed, "connection stays open");
    if (k == 0 && n == 2) { if (right()) { authed = 1; sx_assert(starts("+OK\r\n") && c->nsent == 5, "the password is accepted"); sx_cover("accepted"); } else { one_error("-"); sx_cover("wrong password"); } return; }
    if (k == 0) { one_error("-"); return; }
    if (!authed || refused) { one_error("-"); if (!authed && (k == 1 || k == 2)) sx_cover("refused"); return; }
    switch (k) {
    case 1: if (have) { sx_assert(c->nsent == 7 && starts("$1\r\n") && (uint8_t)c->sent[4] == val, "value in the reply"); sx_cover("read"); } else sx_assert(starts("$-1\r\n"), "no value"); break;
    case 2: sx_assert(starts("+OK\r\n"), "stored"); have = 1; val = 'w'; break;
    case 3: sx_assert(starts(have ? ":1" : ":0"), "deleted"); have = 0; break;
    case 7: sx_assert(starts("+OK\r\n"), "flushed"); have = 0; break;
    }
}
static void step_mc(void) {
    static const char *C[] = { "get k", "gets k", "set k 0 0 1\r\nx", "set k 0 0 1 noreply\r\nx", "delete k", "delete k noreply", "flush_all", "flush_all noreply", "version", "stats", "append k 0 0 1\r\nx", "touch k 1", "incr k 1" };
    q.n = 0; c->nsent = 0; int k = sx_choose(14, "op");
    if (k < 13) b_s(&q, C[k]); else { mkguess(1); b_s(&q, "auth "); b_raw(&q, guess, gn); }
    b_s(&q, "\r\n"); srv_feed(c, q.d, q.n);
    if (c->nsent) one_error(k == 13 && c->sent[0] == 'E' ? "ERROR" : "CLIENT_ERROR"); else sx_assert(k == 3 || k == 5 || k == 7, "an answer");
    sx_cover("refused");
}
static void step_http(void) {
    c = srv_open(); q.n = 0; int m = sx_choose(3, "method"), w = sx_choose(6, "where"), ok = 0;
    b_s(&q, m == 0 ? "GET /k" : m == 1 ? "PUT /k" : "DELETE /k");
    if (w) { mkguess(1); ok = right(); }
    if (w == 1 || w == 2) { b_s(&q, w == 1 ? "?auth=" : "?ttl=100&auth="); b_raw(&q, guess, gn); if (m != 1) b_s(&q, "&nx"); }
    b_s(&q, " HTTP/1.1\r\nHost: h\r\n");
    if (w == 3) { b_s(&q, "Authorization: Bearer "); b_raw(&q, guess, gn); b_s(&q, "\r\n"); }
    if (w == 4) { b_s(&q, "Authorization: Basic "); b_raw(&q, guess, gn); b_s(&q, "\r\n"); ok = 0; }
    if (w == 5) { b_s(&q, "Authorization: "); b_raw(&q, guess, gn); b_s(&q, "\r\n"); ok = 0; }
    if (m == 1) b_s(&q, "Content-Length: 1\r\n\r\nw"); else b_s(&q, "\r\n");
    srv_feed(c, q.d, q.n); sx_assert(c->closed, "closed after the reply");
    if (!ok) { sx_assert(starts("HTTP/1.1 401 Unauthorized\r\n"), "refused"); sx_cover("refused"); }
    else { sx_assert(starts(have || m == 1 ? "HTTP/1.1 200 OK\r\n" : "HTTP/1.1 404"), "served"); if (m == 0 && have) sx_assert((uint8_t)c->sent[c->nsent - 1] == val, "value in the reply"); if (m == 1) { have = 1; val = 'w'; } if (m == 2) have = 0; sx_cover("served"); }
    srv_close(c);
}
static size_t mark; static void begin(int t) { if (t) b_c(&q, t); mark = q.n; b_be32(&q, 0); }
static void end(void) { uint32_t n = (uint32_t)(q.n - mark); q.d[mark] = n >> 24; q.d[mark + 1] = n >> 16; q.d[mark + 2] = n >> 8; q.d[mark + 3] = n; }
static int started;
// an AuthenticationOk or ReadyForQuery message, or any row, anywhere in what was sent
static void nothing_granted(void) {
    for (size_t i = 0; i + 5 <= c->nsent;) { uint8_t t = c->sent[i]; uint32_t n = 0; for (int k = 1; k < 5; k++) n = n << 8 | (uint8_t)c->sent[i + k]; sx_assert(t != 'D' && t != 'C' && t != 'T', "nothing is executed"); if (t == 'R') sx_assert(i + 9 <= c->nsent && c->sent[i + 8] == 3, "a password is asked for"); if (n < 4 || i + 1 + n > c->nsent) sx_fail("message length"); i += 1 + n; }
}
static void step_pg(void) {
    q.n = 0; c->nsent = 0; static int nth; int k = nth++ ? sx_choose(8, "op") : sx_choose(2, "op") * 7, ok = 0, isq = 0;
    switch (k) {
    case 0: begin(0); b_be32(&q, 0x30000); b_raw(&q, "user\0me\0\0", 9); end(); break;
    case 1: begin('p'); mkguess(0); for (size_t i = 0; i < gn; i++) sx_assume(guess[i] != 0); b_raw(&q, guess, gn); b_c(&q, 0); end(); ok = right(); break;
    case 2: begin('Q'); b_raw(&q, "GET k", 6); end(); isq = 1; break;
    case 3: begin('Q'); b_raw(&q, "SET k w", 8); end(); isq = 1; break;
    case 4: begin('P'); b_c(&q, 0); b_raw(&q, "SET k w", 8); b_be16(&q, 0); end(); begin('B'); b_raw(&q, "\0\0\0\0\0\0\0\0", 8); end(); begin('E'); b_raw(&q, "\0\0\0\0\0", 5); end(); begin('S'); end(); isq = 1; break;
    case 5: begin('Q'); b_raw(&q, "::bytea GET k", 14); end(); isq = 1; break;
    case 6: begin('Q'); b_raw(&q, "begin", 6); end(); isq = 1; break;
    default: begin(0); b_be32(&q, 0x04D2162F); end(); break;
    }
    int wasc = c->closed, was = authed; srv_feed(c, q.d, q.n); if (wasc) { sx_assert(c->nsent == 0, "closed"); return; }
    if (k == 7) { sx_assert(c->nsent == 1 && c->sent[0] == 'N', "no TLS"); return; }
    if (!was && k == 0) { nothing_granted(); sx_assert(c->nsent == 9 && c->sent[0] == 'R', "a password is asked for"); started = 1; return; }
    if (!was && k == 1 && started) {
        if (ok) { sx_assert(starts("R\0\0\0\10\0\0\0\0") && c->nsent > 9 && memcmp(c->sent, "R\0\0\0\10\0\0\0\0", 9) == 0 && memcmp(c->sent + c->nsent - 6, "Z\0\0\0\5I", 6) == 0, "the password is accepted"); authed = 1; sx_cover("accepted"); }
        else { nothing_granted(); sx_assert(c->closed && c->nsent && c->sent[0] == 'E', "refused"); sx_cover("wrong password"); }
        return;
    }
    if (!was) { nothing_granted(); if (isq) { sx_assert(c->closed, "refused"); sx_cover("refused"); } return; }
    if (k == 3 || (k == 4 && !c->closed)) { have = 1; val = 'w'; sx_cover("executed"); }
}
void harness(void) {
    pn = 1 + sx_choose(PL, "plen"); sx_bytes(pw, pn, "pw"); for (size_t i = 0; i < pn; i++) sx_assume(HTTPMODE ? graphic(pw[i]) : pw[i] != 0); pw[pn] = 0;
    auth = (const char *)pw; useauth = true;
    srv_start(); pogocache_store(cache, "k", 1, "v", 1, &(struct pogocache_store_opts){ .time = H_now });
#if KIND != 2
    c = srv_open();
#endif
    for (int i = 0; i < NOPS; i++) {
        rnd = i & 1;
#if KIND == 0
        step_resp(0);
#elif KIND == 1
        step_mc();
#elif KIND == 2
        step_http();
#elif KIND == 3
        step_pg();
#else
        step_resp(1);
#endif
        contents();
    }
#if KIND != 2
    srv_close(c);
    // another connection starts without
#if KIND == 0
    c = srv_open(); authed = 0; q.n = 0; r_cmd(&q, 2); r_str(&q, "GET"); r_str(&q, "k"); srv_feed(c, q.d, q.n); one_error("-"); srv_close(c);
#endif
#endif
    srv_stop();
}
