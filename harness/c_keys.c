// Commands over the whole keyspace: KEYS, SCAN, FLUSH, SWEEP, PURGE, DBSIZE,
// with every way they can be divided among shards and threads.
#include "server.h"
#ifdef CHANGE
#define CHANGED 1
#else
#define CHANGED 0
#endif
#ifndef NPROCS
#define NPROCS 2
#endif
#ifndef PN
#define PN 2
#endif
#ifndef NK
#define NK 4
#endif
static struct net_conn *c; static struct bb q; static size_t rp; static int seen[NK + 1], live[NK]; static const char *KEYS_[] = { "a", "ab", "b*", "c", "dd", "e?e", "f", "g" };
static uint8_t rd_byte(void) { if (rp >= c->nsent) sx_fail("reply ends early"); return c->sent[rp++]; }
static uint64_t rd_num(void) { uint64_t v = 0; for (uint8_t b = rd_byte(); b != '\r'; b = rd_byte()) { sx_assert(b >= '0' && b <= '9', "number in the reply"); v = v * 10 + (b - '0'); } uint8_t b = rd_byte(); sx_assert(b == '\n', "line end"); return v; }
static void rd_lit(const char *s) { size_t n = strlen(s); if (n > c->nsent - rp) sx_fail("reply ends early"); sx_assert(memcmp(c->sent + rp, s, n) == 0, "reply text"); rp += n; }
static void rd_key(void) {
    rd_lit("$"); size_t n = rd_num(); if (n > c->nsent - rp) sx_fail("reply ends early"); int k = 0; while (k < NK && !(strlen(KEYS_[k]) == n && memcmp(KEYS_[k], c->sent + rp, n) == 0)) k++;
#ifdef CHANGE
    if (k == NK && n == 3 && memcmp(c->sent + rp, "new", 3) == 0) { rp += n; rd_lit("\r\n"); return; }
#endif
    sx_assert(k < NK, "a key of the cache"); seen[k]++; rp += n; rd_lit("\r\n");
}
static void send(void) { c->nsent = rp = 0; srv_feed(c, q.d, q.n); q.n = 0; }
static void done(void) { sx_assert(rp == c->nsent && !c->closed, "exactly one reply"); }
static int glob(const uint8_t *p, size_t pn, const char *s) {
    size_t sn = strlen(s); unsigned at = 1, all = (1u << (sn + 1)) - 1; int esc = 0;
    for (size_t i = 0; i < pn; i++) {
        unsigned eq = 0; for (size_t j = 0; j < sn; j++) eq |= (unsigned)((uint8_t)s[j] == p[i]) << j;
        unsigned from = at & (all >> 1), m_lit = (from & eq) << 1, m_any = from << 1, m_star = at; for (size_t j = 0; j < sn; j++) m_star |= m_star << 1; m_star &= all;
        int st = (p[i] == '*') & !esc, qm = (p[i] == '?') & !esc, bs = (p[i] == '\\') & !esc; at = bs ? at : st ? m_star : qm ? m_any : m_lit; esc = bs;
    }
    return (at >> sn & 1) & !esc;
}
static void fill(void) {
    for (int k = 0; k < NK; k++) {
        int kind = sx_choose(KINDS, "kind"); live[k] = kind == 1; if (!kind) continue;          // 0 absent, 1 live, 2 expired
        pogocache_store(cache, KEYS_[k], strlen(KEYS_[k]), "v", 1, &(struct pogocache_store_opts){ .time = H_now, .expires = kind == 2 ? H_now + 1 : k & 1 ? H_now + 100 : 0 });
    }
    H_now += 2;
}
static void r_num(uint64_t v) { struct bb t = { .n = 0 }; b_u(&t, v); r_arg(&q, t.d, t.n); }
static int count(void) { int n = 0; for (int k = 0; k < NK; k++) n += live[k]; return n; }
static void keys_(void) {
    uint8_t p[8]; size_t pn = sx_choose(PN + 1, "plen"); sx_bytes(p, pn, "pattern");
    r_cmd(&q, 2); r_str(&q, "KEYS"); r_arg(&q, p, pn); send();
    rd_lit("*"); uint64_t n = rd_num(); for (uint64_t i = 0; i < n; i++) rd_key(); done();
    for (int k = 0; k < NK; k++) sx_assert(seen[k] == (live[k] & glob(p, pn, KEYS_[k])), "exactly the live keys the pattern describes");
    if (n) sx_cover("listed");
}
static void scan(void) {
    static struct pogocache_store_opts so; uint8_t p[8]; size_t pn = PN ? sx_choose(PN + 2, "plen") : 0; int all = pn == PN + 1 || !PN; if (!all) sx_bytes(p, pn, "pattern");
    uint64_t cur = 0; int cnt = sx_choose(4, "count"), calls = 0, up = sx_choose(2, "case");
    do {
        r_cmd(&q, 2 + (all ? 0 : 2) + (cnt ? 2 : 0)); r_str(&q, "SCAN"); r_num(cur);
        if (cnt && up) { r_str(&q, "COUNT"); r_num(cnt); }
        if (!all) { r_str(&q, up ? "MATCH" : "match"); r_arg(&q, p, pn); }
        if (cnt && !up) { r_str(&q, "count"); r_num(cnt); }
        send(); rd_lit("*2\r\n$"); rd_num(); cur = rd_num(); rd_lit("*"); uint64_t n = rd_num(); sx_assert(n <= (cnt ? (unsigned)cnt : 100), "no more than asked for"); for (uint64_t i = 0; i < n; i++) rd_key(); done();
        if (++calls > NK + 2) sx_fail("a scan comes to an end");
#ifdef CHANGE
        if (calls == 1) { so.time = H_now; pogocache_store(cache, "new", 3, "v", 1, &so); live[0] = 0; pogocache_delete(cache, KEYS_[0], 1, &(struct pogocache_delete_opts){ .time = H_now }); seen[0] = 0; }
#endif
    } while (cur && !0);
    for (int k = 0; k < NK; k++) { int want = live[k] & (all ? 1 : glob(p, pn, KEYS_[k])); sx_assert(want ? CHANGED || seen[k] >= 1 : seen[k] == 0, "every live key the pattern describes, and no other"); if (!CHANGED) sx_assert(seen[k] <= 1, "each key once"); }
    if (calls > 1) sx_cover("several calls");
}
static void scanbad(void) {
    static const char *B[][5] = { { "SCAN" }, { "SCAN", "x" }, { "SCAN", "-1" }, { "SCAN", "0", "MATCH" }, { "SCAN", "0", "COUNT" }, { "SCAN", "0", "COUNT", "0" }, { "SCAN", "0", "COUNT", "x" }, { "SCAN", "0", "COUNT", "2147483648" }, { "SCAN", "0", "TYPE" }, { "SCAN", "0", "TYPE", "list" }, { "SCAN", "0", "x" }, { "KEYS" }, { "KEYS", "a", "b" }, { "DBSIZE", "x" }, { "SWEEP", "x" }, { "PURGE", "x" }, { "FLUSHALL", "x" }, { "FLUSHALL", "DELAY" }, { "FLUSHALL", "DELAY", "-1" }, { "FLUSHALL", "DELAY", "31536001" }, { "FLUSHALL", "DELAY", "x" } };
    int b = sx_choose(21, "bad"), n = 0; while (n < 5 && B[b][n]) n++; r_cmd(&q, n); for (int i = 0; i < n; i++) r_str(&q, B[b][i]); send(); rd_lit("-"); while (rp < c->nsent && c->sent[rp] != '\r') rp++; rd_lit("\r\n"); done(); sx_assert((int)pogocache_count(cache, 0) >= count(), "nothing is removed"); sx_cover("refused");
}
static void whole(void) {
    static const char *F[] = { "FLUSHALL", "flushdb", "Flush" }; int k = sx_choose(4, "cmd"), o = sx_choose(16, "opts"), rev = sx_choose(2, "rev");
    H_nprocs = 1 + sx_choose(NPROCS, "procs"); H_failthread = sx_choose(4, "nothreads");
    const char *A[6]; int n = 0, async = o & 1, fast = o & 2; A[n++] = k < 3 ? F[k] : "SWEEP";
    if (k == 3) { if (o & 12) sx_end(); if (rev) { if (fast) A[n++] = "FAST"; if (async) A[n++] = "async"; } else { if (async) A[n++] = "ASYNC"; if (fast) A[n++] = "fast"; } }
    else { if (fast && rev) A[n++] = "FAST"; if (async) A[n++] = "ASYNC"; else if (o & 4) A[n++] = "sync"; if (o & 8) { A[n++] = "DELAY"; A[n++] = rev ? "3" : "0"; } if (fast && !rev) A[n++] = "fast"; if (o & 8 && rev) async = 1; }
    size_t before = pogocache_count(cache, 0); r_cmd(&q, n); for (int i = 0; i < n; i++) r_str(&q, A[i]); send();
    if ((H_failthread & 1) && async) { rd_lit("-ERR failed to do work\r\n"); done(); sx_assert(pogocache_count(cache, 0) == before, "nothing is removed"); sx_cover("not started"); return; }
    rd_lit("+OK\r\n"); done();
    if (k < 3) { sx_assert(pogocache_count(cache, 0) == 0, "every shard is emptied"); for (int i = 0; i < NK; i++) live[i] = 0; sx_cover("flushed"); }
    else { sx_assert(pogocache_count(cache, 0) == (size_t)count(), "exactly the expired entries are removed"); sx_cover("swept"); }
    H_failthread = 0; r_cmd(&q, 1); r_str(&q, "DBSIZE"); send(); rd_lit(":"); sx_assert(rd_num() == (uint64_t)count(), "number of entries"); done();
    for (int i = 0; i < NK; i++) { r_cmd(&q, 2); r_str(&q, "EXISTS"); r_str(&q, KEYS_[i]); send(); rd_lit(live[i] ? ":1\r\n" : ":0\r\n"); done(); }
}
void harness(void) {
    nshards = 1 + sx_choose(NSH, "shards");
    // one session to allocate what is kept for good
    srv_start(); c = srv_open(); r_cmd(&q, 1); r_str(&q, "PING"); send(); srv_close(c); srv_stop();
    size_t live0 = sx_heap_live();
    srv_start(); c = srv_open(); fill();
    OP();
    srv_close(c); srv_stop(); sx_assert(sx_heap_live() == live0, "nothing is left behind");
}
