// Commands given to the Postgres protocol, as simple queries or as prepared
// statements: rows, command tag, ready, and the contents afterwards.
#include "server.h"
#include "numtext.h"
#include "entmodel.h"
#ifndef NK
#define NK 2
#endif
#ifndef NOPS
#define NOPS 1
#endif
static struct net_conn *c; static size_t rp; static int ext, oid = 25;
static uint8_t rd_byte(void) { if (rp >= c->nsent) sx_fail("reply ends early"); return c->sent[rp++]; }
static void rd_raw(const void *d, size_t n) { if (n > c->nsent - rp) sx_fail("reply ends early"); sx_assert(same_bytes(c->sent + rp, d, n), "reply bytes"); rp += n; }
static uint32_t rd_be(int n) { uint32_t v = 0; while (n--) v = v << 8 | rd_byte(); return v; }
static void msg(int t, size_t *end) { uint8_t b = rd_byte(); sx_assert(b == t, "message type in the reply"); size_t s = rp; uint32_t n = rd_be(4); if (n < 4 || n > c->nsent - s) sx_fail("message length in the reply"); *end = s + n; }
static void desc(int n, const char **f) {
    if (ext && rp < c->nsent && c->sent[rp] != 'T') return;      // described separately
    size_t e; msg('T', &e); sx_assert(rd_be(2) == (uint32_t)n, "number of columns");
    for (int i = 0; i < n; i++) { rd_raw(f[i], strlen(f[i]) + 1); rd_be(4); rd_be(2); sx_assert(rd_be(4) == (uint32_t)oid, "column type"); rd_be(2); rd_be(4); uint32_t fc = rd_be(2); sx_assert(fc <= 1, "column format"); }
    sx_assert(rp == e, "row description length");
}
static void desc1(const char *f) { desc(1, &f); }
static size_t row_end; static int row_n;
static void row(int n) { msg('D', &row_end); sx_assert(rd_be(2) == (uint32_t)n, "number of values"); row_n = n; }
static void rowdone(void) { if (!--row_n) sx_assert(rp == row_end, "row length"); }
static void col(const void *d, size_t n) { sx_assert(rd_be(4) == n, "length of a value"); rd_raw(d, n); rowdone(); }
static size_t dec(char *t, int64_t v) { char r[24]; size_t n = 0, k = 0; uint64_t u = v < 0 ? 0 - (uint64_t)v : (uint64_t)v; do r[n++] = '0' + (char)(u % 10); while (u /= 10); if (v < 0) t[k++] = '-'; while (n) t[k++] = r[--n]; t[k] = 0; return k; }
static void colnum(int64_t v) { char t[24]; col(t, dec(t, v)); }
static void colu(uint64_t u) { char r[24], t[24]; size_t n = 0, k = 0; do r[n++] = '0' + (char)(u % 10); while (u /= 10); while (n) t[k++] = r[--n]; col(t, k); }
static void done(const char *tag) { size_t e; msg('C', &e); rd_raw(tag, strlen(tag) + 1); sx_assert(rp == e, "tag length"); rd_raw("Z\0\0\0\5I", 6); sx_assert(rp == c->nsent, "nothing after the reply"); sx_assert(!c->closed, "connection stays open"); }
static void donen(const char *tag, int64_t v) { char t[64]; size_t n = strlen(tag); memcpy(t, tag, n); t[n++] = ' '; dec(t + n, v); done(t); }
static void refused(void) { size_t e; msg('E', &e); int f = 0; while (rp < e - 1) { uint8_t k = rd_byte(); sx_assert(k >= 'A' && k <= 'Z', "error field"); while (rp < e && rd_byte()) f++; } sx_assert(f > 3 && rp == e - 1, "error fields"); sx_assert(rd_byte() == 0, "error end"); rd_raw("Z\0\0\0\5I", 6); sx_assert(rp == c->nsent, "nothing after the reply"); sx_assert(!c->closed, "connection stays open"); }
// ------------------------------------------------ requests
static struct tok A[8]; static int na; static uint8_t pool[256]; static size_t np;
static void word(const void *p, size_t n) { A[na].p = pool + np; A[na].n = n; memcpy(pool + np, p, n); np += n; na++; }
static void w(const char *s) { word(s, strlen(s)); }
static struct bb q; static size_t mark;
static void begin(int t) { b_c(&q, t); mark = q.n; b_be32(&q, 0); }
static void end(void) { uint32_t n = (uint32_t)(q.n - mark); q.d[mark] = n >> 24; q.d[mark + 1] = n >> 16; q.d[mark + 2] = n >> 8; q.d[mark + 3] = n; }
static void run(void) {
    q.n = 0; c->nsent = rp = 0;
    if (!ext) {
        begin('Q'); for (int i = 0; i < na; i++) { if (i) b_c(&q, ' '); int quote = i > 1 && A[i].n != 1; if (quote) b_c(&q, '\''); for (size_t k = 0; k < A[i].n; k++) { uint8_t x = A[i].p[k]; if (i > 1) sx_assume((x != '\'') & (x > ' ') & (x != '"') & (x != '$') & (x != ';') & (x < 128)); } b_raw(&q, A[i].p, A[i].n); if (quote) b_c(&q, '\''); }
        if (sx_choose(2, "semi")) b_c(&q, ';'); b_c(&q, 0); end();
    } else {
        begin('P'); b_c(&q, 0); b_raw(&q, A[0].p, A[0].n); for (int i = 1; i < na; i++) { b_s(&q, " $"); b_c(&q, '0' + i); } b_c(&q, 0); b_be16(&q, 0); end();
        begin('B'); b_c(&q, 0); b_c(&q, 0); b_be16(&q, 0); b_be16(&q, na - 1); for (int i = 1; i < na; i++) { b_be32(&q, (uint32_t)A[i].n); b_raw(&q, A[i].p, A[i].n); } b_be16(&q, 0); end();
        begin('E'); b_c(&q, 0); b_be32(&q, 0); end(); begin('S'); end();
    }
    srv_feed(c, q.d, q.n);
    if (ext) { rd_raw("1\0\0\0\4", 5); rd_raw("2\0\0\0\4", 5); }
}
static const char *KEY[] = { "ka", "kb", "kc" };
static struct tok KT[3];
static int key(const char *nm) { int k = sx_choose(NK, nm); w(KEY[k]); return k; }
static struct ent *E(int k) { return find(&KT[k]); }
static void put(int k, const void *v, size_t n, int64_t exp, uint64_t flags) { struct ent *e = slot(&KT[k]); if (n > sizeof e->v) sx_end(); e->isnum = 0; e->n = n; memcpy(e->v, v, n); e->exp = exp; e->flags = flags; }
static const char *NUMS_[] = { "7", "-3", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "x" };
static int num(const uint8_t *p, size_t n, int sgn, uint64_t *v) {
    size_t i = 0; int neg = 0; if (n && p[0] == '-') { neg = 1; i++; if (!sgn) return 0; } if (i == n) return 0;
    uint64_t x = 0; for (; i < n; i++) { if (p[i] < '0' || p[i] > '9') return 0; if (x > (UINT64_MAX - 9) / 10 && !(x == UINT64_MAX / 10 && p[i] < '6')) return 0; x = x * 10 + (p[i] - '0'); }
    if (sgn && (neg ? x > (uint64_t)INT64_MAX + 1 : x > INT64_MAX)) return 0;
    *v = neg ? 0 - x : x; return 1;
}
enum { Q_SET, Q_GET, Q_MGET, Q_DEL, Q_COUNT, Q_DBSIZE, Q_TTL, Q_EXPIRE, Q_INCR, Q_APPEND, Q_TOUCH, Q_KEYS, Q_ECHO, Q_TYPE, Q_BAD };
static void op(void) {
    static const int OL[] = { OPLIST }; int k, j; struct ent *e, *f; na = 0; np = 0;
    ext = sx_choose(2, "ext");
    switch (OL[sx_choose((int)(sizeof OL / sizeof OL[0]), "op")]) {
    case Q_SET: {
        int o = sx_choose(4, "opt"), cond = sx_choose(3, "cond"), sx = cond == 0 && o == 0 ? sx_choose(2, "setex") : 0; uint8_t v[4]; size_t n = sx_choose(3, "len"); sx_bytes(v, n, "v"); int64_t ex = 0; uint64_t fl = 0; uint8_t t[2];
        w(sx ? "setex" : "SET"); k = key("key"); e = E(k);
        if (sx) { sx_bytes(t, 2, "sec"); sx_assume(t[0] >= '1' && t[0] <= '9' && t[1] >= '0' && t[1] <= '9'); word(t, 2); ex = (t[0] - '0') * 10 + t[1] - '0'; }
        word(v, n);
        if (o & 1) { w("EX"); sx_bytes(t, 2, "sec"); sx_assume(t[0] >= '1' && t[0] <= '9' && t[1] >= '0' && t[1] <= '9'); word(t, 2); ex = (t[0] - '0') * 10 + t[1] - '0'; }
        if (o & 2) { w("flags"); sx_bytes(t, 2, "fl"); sx_assume(t[0] >= '1' && t[0] <= '9' && t[1] >= '0' && t[1] <= '9'); word(t, 2); fl = (t[0] - '0') * 10 + t[1] - '0'; }
        if (cond) w(cond == 1 ? "nx" : "XX");
        run(); int st = !cond || (cond == 1) == !e;
        if (st) put(k, v, n, ex ? H_now + ex * SECOND : 0, fl);
        donen(sx ? "SETEX" : "SET", st); sx_cover(st ? "stored" : "not stored"); break; }
    case Q_GET: w("get"); k = key("key"); run(); desc1("value"); if ((e = E(k))) { row(1); col(e->v, e->n); } donen("GET", !!e); sx_cover(e ? "found" : "missing"); break;
    case Q_MGET: {
        int s = sx_choose(2, "mgets"); w(s ? "MGETS" : "mget"); int ks[2]; ks[0] = key("key"); ks[1] = key("key2"); run(); static const char *F[] = { "key", "flags", "cas", "value" }, *G[] = { "key", "value" }; int n = 0;
        if (s) desc(4, F); else desc(2, G);
        for (int i = 0; i < 2; i++) if ((e = E(ks[i]))) { n++; row(s ? 4 : 2); col(e->k, e->kl); if (s) { colu(e->flags); uint64_t cas = cas_of(e); colu(cas); } col(e->v, e->n); }
        donen("MGET", n); break; }
    case Q_DEL: w("DEL"); k = key("key"); j = key("key2"); e = E(k); f = E(j); run(); { int n = 0; if (e) n++, e->live = 0; if (f && f->live) n++, f->live = 0; donen("DEL", n); } break;
    case Q_COUNT: w("exists"); k = key("key"); j = key("key2"); run(); desc1("exists"); row(1); colnum(!!E(k) + !!E(j)); done("EXISTS"); break;
    case Q_DBSIZE: { w("DBSIZE"); int n = 0; for (int i = 0; i < NK; i++) n += !!E(i); run(); desc1("count"); row(1); colnum(n); done("DBSIZE"); break; }
    case Q_TTL: {
        int p = sx_choose(2, "pttl"); w(p ? "PTTL" : "TTL"); k = key("key"); run(); desc1(p ? "pttl" : "ttl"); e = E(k);
        if (e) { row(1); colnum(e->exp ? (e->exp - H_now) / (p ? MILLISECOND : SECOND) : -1); } donen(p ? "PTTL" : "TTL", !!e); break; }
    case Q_EXPIRE: { w("expire"); k = key("key"); uint8_t t[2]; sx_bytes(t, 2, "sec"); sx_assume(((t[0] >= '1' && t[0] <= '9') || t[0] == '-') && t[1] >= '1' && t[1] <= '9'); word(t, 2); int64_t s = t[0] == '-' ? -(t[1] - '0') : (t[0] - '0') * 10 + t[1] - '0'; run(); e = E(k); if (e) { e->exp = H_now + s * SECOND; if (s <= 0) e->live = 0; } donen("EXPIRE", !!e); break; }
    case Q_INCR: {
        static const char *C[] = { "INCR", "decr", "INCRBY", "DECRBY", "uincrby", "UDECRBY" }; static const char *T[] = { "INCR", "DECR", "INCRBY", "DECRBY", "INCRBY", "DECRBY" };
        int i = sx_choose(6, "cmd"), by = i > 1, sgn = i < 4; w(C[i]); k = key("key"); uint64_t d = 1, v = 0; int ok = 1;
        if (by) { const char *t = NUMS_[sx_choose(6, "delta")]; w(t); ok = num((const uint8_t *)t, strlen(t), sgn, &d); }
        e = E(k); run(); if (ok && e) ok = num(e->v, e->n, sgn, &v);
        if (ok && sgn) { int64_t r; ok = !(i & 1 ? __builtin_sub_overflow((int64_t)v, (int64_t)d, &r) : __builtin_add_overflow((int64_t)v, (int64_t)d, &r)); v = (uint64_t)r; }
        else if (ok) ok = !(i & 1 ? __builtin_sub_overflow(v, d, &v) : __builtin_add_overflow(v, d, &v));
        if (!ok) { refused(); sx_cover("not counted"); break; }
        char t[24]; size_t n; if (sgn) n = dec(t, (int64_t)v); else { char r[24]; size_t z = 0; n = 0; uint64_t u = (uint64_t)v; do r[z++] = '0' + (char)(u % 10); while (u /= 10); while (z) t[n++] = r[--z]; }
        desc1("value"); row(1); col(t, n); done(T[i]); put(k, t, n, e ? e->exp : 0, e ? e->flags : 0); sx_cover("counted"); break; }
    case Q_APPEND: {
        int pre = sx_choose(2, "prepend"); w(pre ? "prepend" : "APPEND"); k = key("key"); uint8_t v[2], x[32]; size_t n = sx_choose(3, "len"); sx_bytes(v, n, "v"); word(v, n); run(); e = E(k); size_t m = e ? e->n : 0;
        if (pre) memcpy(x, v, n); if (m) memcpy(x + (pre ? n : 0), e->v, m); if (!pre) memcpy(x + m, v, n);
        donen(pre ? "PREPEND" : "APPEND", n + m); put(k, x, n + m, e ? e->exp : 0, e ? e->flags : 0); break; }
    case Q_TOUCH: w("TOUCH"); k = key("key"); j = key("key2"); run(); donen("TOUCH", !!E(k) + !!E(j)); break;
    case Q_KEYS: {
        int s = sx_choose(2, "scan"); w(s ? "scan" : "KEYS"); w(s ? "0" : "*"); run(); static const char *F[] = { "key", "cursor" }; desc(s ? 2 : 1, F); int n = 0, seen = 0, want = 0; for (int i = 0; i < NK; i++) want |= !!E(i) << i;
        while (rp < c->nsent && c->sent[rp] == 'D') {
            row(s ? 2 : 1); if (rp + 6 > c->nsent) sx_fail("reply ends early"); int i = c->sent[rp + 5] - 'a'; sx_assert(i >= 0 && i < NK && !(seen >> i & 1), "each key once"); seen |= 1 << i; n++; col(KEY[i], 2); if (s) col("0", 1);
        }
        sx_assert(seen == want, "every live key"); donen(s ? "SCAN" : "KEYS", n); break; }
    case Q_ECHO: {
        int i = sx_choose(3, "which"); uint8_t v[3]; size_t n = sx_choose(4, "len"); sx_bytes(v, n, "v"); w(i ? "PING" : "echo"); if (i < 2) { na++; A[1].p = pool + 100; A[1].n = n; memcpy(pool + 100, v, n); if (!ext) for (size_t z = 0; z < n; z++) sx_assume(v[z] >= '0' && v[z] <= '9'); }
        if (i < 2 && !ext && n == 0) sx_end();
        run(); desc1("message"); row(1); if (i < 2) col(v, n); else col("PONG", 4); done(i ? "PING" : "ECHO"); break; }
    case Q_TYPE: {
        ext = 0; int i = sx_choose(4, "type"); w(i == 0 ? "::bytea" : i == 1 ? "::text" : i == 2 ? "::bytes" : "::x"); run(); if (i == 3) { refused(); break; } oid = i == 1 ? 25 : 17; done(i == 1 ? "TEXT" : "BYTEA"); sx_cover("type"); break; }
    case Q_BAD: {
        static const char *B[] = { "nosuch", "get", "setex", "expire", "mget", "ttl", "incrby", "append", "del", "exists", "keys", "touch" }; int i = sx_choose(12, "bad"); w(B[i]); run(); refused(); sx_cover("refused"); break; }
    }
}
void harness(void) {
    for (int i = 0; i < 3; i++) { KT[i].p = (const uint8_t *)KEY[i]; KT[i].n = 2; }
    H_po.usecas = 1; srv_start();
    c = srv_open();
    static const uint8_t st[] = "\0\0\0\x13\0\3\0\0user\0me\0\0\0\0"; srv_feed(c, st, 19); 
    for (int k = 0; k < NK; k++) {
        int kind = sx_choose(4, "pre"); if (kind && !(PRE >> (kind - 1) & 1)) sx_end(); if (!kind) continue;
        uint8_t v[24]; size_t n = 2; int64_t exp = 0; uint32_t fl = 0;
        if (kind == 3) { const char *t = NUMS_[sx_choose(6, "num")]; n = strlen(t); memcpy(v, t, n); fl = 7; } else sx_bytes(v, 2, "pv");
        if (kind == 2) { uint32_t ms = sx_u32("ms"); sx_assume(ms >= 1 && ms <= 99999); exp = H_now + (int64_t)ms * MILLISECOND + 999; fl = sx_u32("flags"); sx_assume(fl < 1000); }
        put(k, v, n, exp, fl);
        pogocache_store(cache, KEY[k], 2, v, n, &(struct pogocache_store_opts){ .time = H_now, .expires = exp, .flags = fl });
    }
    for (int i = 0; i < NOPS; i++) op();
    check(); srv_close(c); srv_stop();
}
