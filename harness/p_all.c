// Every command, with arbitrary argument bytes, is answered by exactly one
// well-framed reply; the connection stays in step and nothing is left behind.
#include "server.h"
#ifndef NAMELEN
#define NAMELEN 2
#endif
#ifndef NARGS
#define NARGS 2
#endif
static struct net_conn *c; static size_t rp; static struct bb q;
static uint8_t rd_byte(void) { if (rp >= c->nsent) sx_fail("reply ends early"); return c->sent[rp++]; }
static size_t rd_num(int *neg) { size_t v = 0, n = 0; *neg = 0; uint8_t b = rd_byte(); if (b == '-') { *neg = 1; b = rd_byte(); } for (; b != '\r'; b = rd_byte()) { sx_assert(b >= '0' && b <= '9', "number in the reply"); v = v * 10 + (b - '0'); n++; } sx_assert(n > 0, "number in the reply"); b = rd_byte(); sx_assert(b == '\n', "line end in the reply"); return v; }
static void rd_line(void) { for (;;) { uint8_t b = rd_byte(); sx_assert(b != '\n', "one line"); if (b == '\r') { b = rd_byte(); sx_assert(b == '\n', "line end in the reply"); return; } } }
static void rd_value(int depth) {
    uint8_t t = rd_byte(); int neg; if (depth > 3) sx_fail("reply nests too deep");
    if (t == '+' || t == '-') { rd_line(); return; }
    if (t == ':') { rd_num(&neg); return; }
    if (t == '$') { size_t n = rd_num(&neg); if (neg) { sx_assert(n == 1, "null"); return; } if (n > c->nsent - rp) sx_fail("reply ends early"); rp += n; uint8_t a = rd_byte(), b = rd_byte(); sx_assert(a == '\r' && b == '\n', "bulk end"); return; }
    sx_assert(t == '*', "a reply type"); size_t n = rd_num(&neg); sx_assert(!neg && n < 1000, "array length"); for (size_t i = 0; i < n; i++) rd_value(depth + 1);
}
static uint32_t rd_be(int n) { uint32_t v = 0; while (n--) v = v << 8 | rd_byte(); return v; }
static void rd_cstr(size_t e) { while (rp < e && rd_byte()) ; }
static void rd_pg(void) {
    int err = 0, fin = 0, desc = -1;
    for (;;) {
        uint8_t t = rd_byte(); size_t s = rp; uint32_t n = rd_be(4); if (n < 4 || n > c->nsent - s) sx_fail("message length in the reply"); size_t e = s + n;
        if (t == 'Z') { sx_assert(n == 5 && rd_byte() == 'I', "ready"); sx_assert(fin == 1, "exactly one outcome"); return; }
        sx_assert(!fin, "nothing after the outcome");
        if (t == 'T') { sx_assert(desc < 0, "one row description"); desc = (int)rd_be(2); for (int i = 0; i < desc; i++) { rd_cstr(e); rd_be(4); rd_be(4); rd_be(4); rd_be(4); rd_be(2); } }
        else if (t == 'D') { sx_assert(desc >= 0, "described before the rows"); sx_assert(rd_be(2) == (uint32_t)desc, "columns as described"); for (int i = 0; i < desc; i++) { uint32_t l = rd_be(4); if (l > e - rp) sx_fail("value length"); rp += l; } }
        else if (t == 'C') { rd_cstr(e); sx_assert(rp == e && c->sent[rp - 1] == 0, "tag"); fin = 1; }
        else if (t == 'E') { while (rp < e - 1) { uint8_t k = rd_byte(); sx_assert(k >= 'A' && k <= 'Z', "error field"); rd_cstr(e); } uint8_t z = rd_byte(); sx_assert(z == 0, "error end"); fin = 1; err = 1; }
        else sx_fail("a reply type");
        sx_assert(rp == e, "message length in the reply");
    }
}
static const char *NAME[] = { "SET", "GET", "DEL", "MGET", "MGETS", "TTL", "PTTL", "EXPIRE", "SETEX", "DBSIZE", "ECHO", "EXISTS", "FLUSHDB", "FLUSHALL", "FLUSH", "PURGE", "SWEEP", "KEYS", "SELECT", "PING", "TOUCH", "DEBUG", "INCRBY", "DECRBY", "INCR", "DECR", "UINCRBY", "UDECRBY", "UINCR", "UDECR", "APPEND", "PREPEND", "AUTH", "STATS", "VERSION", "SCAN", "QUIT", "NOSUCH" };
enum { NN = sizeof NAME / sizeof NAME[0] };
static struct { const void *p; size_t n; } A[8]; static int na; static uint8_t pool[64]; static size_t np;
static void arg(const void *p, size_t n) { A[na].p = p; A[na++].n = n; }
#ifdef MONITOR
static const uint8_t *mon; static size_t mn, mp;
static uint8_t m_byte(void) { if (mp >= mn) sx_fail("monitor line ends early"); return mon[mp++]; }
static int hex(uint8_t x) { return x >= '0' && x <= '9' ? x - '0' : x >= 'A' && x <= 'F' ? x - 'A' + 10 : x >= 'a' && x <= 'f' ? x - 'a' + 10 : -1; }
static struct net_conn *w;
static void others(void) {
    srv_flush(w);
    srv_feed(c, q.d, q.n);
    srv_flush(w);
}
#endif
static void body(void) {
    q.n = 0; na = 0; np = 0; int telnet = 0; (void)telnet;
#ifdef MONITOR
    static const int MC[] = { 1, 10, 18, 4 }; int k = MC[sx_choose(4, "cmd")];
#else
    int k = PART * 10 + sx_choose(PART == 3 ? NN - 30 : 10, "cmd");
#endif
    arg(NAME[k], strlen(NAME[k]));
    int n = sx_choose(NARGS + 1, "nargs");
    if (k == NN - 1 && sx_choose(2, "anyname")) { size_t l = 1 + sx_choose(NAMELEN, "len"); sx_bytes(pool, l, "name"); np = 4; A[0].p = pool; A[0].n = l; sx_assume(pool[0] != ':'); }
    static const char *W[] = { "a", "7", "match", "async" };
    for (int i = 0; i < n; i++) {
        int kind = i == 0 ? sx_choose(2, "kind") : sx_choose(3, "kind");
        if (kind == 0) { size_t l = i == 0 ? 1 + sx_choose(2, "len") : sx_choose(2, "len"); sx_bytes(pool + np, l, "arg"); arg(pool + np, l); np += l; }
        else arg(W[i == 0 ? kind - 1 : kind == 1 ? 1 : 3], i == 0 ? 1 : kind == 1 ? 1 : 5);
    }
#ifdef PGMODE
    #define BE(t) b_c(&q, t); { size_t m_ = q.n; b_be32(&q, 0);
    #define EN uint32_t z_ = (uint32_t)(q.n - m_); q.d[m_ + 3] = z_; q.d[m_ + 2] = z_ >> 8; }
    int o = A[0].p == (const void *)pool;
    BE('P') b_c(&q, 0); b_s(&q, A[0].p == (const void *)pool ? "$1" : NAME[k]); for (int i = 1; i < na; i++) { b_s(&q, " $"); b_c(&q, '0' + i + o); } b_c(&q, 0); b_be16(&q, 0); EN
    BE('B') b_raw(&q, "\0\0\0\0", 4); b_be16(&q, na - 1 + o); for (int i = 1 - o; i < na; i++) { b_be32(&q, (uint32_t)A[i].n); b_raw(&q, A[i].p, A[i].n); } b_be16(&q, 0); EN
    BE('E') b_raw(&q, "\0\0\0\0\0", 5); EN BE('S') EN
    srv_feed(c, q.d, q.n); rp = 0;
    sx_assert(c->nsent >= 10 && memcmp(c->sent, "1\0\0\0\4" "2\0\0\0\4", 10) == 0, "parsed and bound"); rp = 10;
    if (k == 36 && c->closed) { sx_cover("closed"); return; }
    rd_pg(); sx_assert(rp == c->nsent, "exactly one reply");
    c->nsent = rp = 0; srv_feed(c, "Q\0\0\0\x09PING", 10); rd_pg(); sx_assert(rp == c->nsent && !c->closed, "the connection stays in step");
#elif defined(MONITOR)
    r_cmd(&q, na); for (int i = 0; i < na; i++) r_arg(&q, A[i].p, A[i].n);
    w = srv_open(); H_onread = others; srv_feed_nobg(w, "*1\r\n$7\r\nMONITOR\r\n", 17); sx_assert(w->bg, "monitoring"); srv_bg(w); sx_assert(H_onread == 0 && w->closed, "monitored until the end");
    mon = (const uint8_t *)w->sent; mn = w->nsent; mp = 0; if (mn < 5) sx_fail("a reply to MONITOR"); sx_assert(memcmp(mon, "+OK\r\n", 5) == 0, "a reply to MONITOR"); mp = 5;
    if (k == 18 && 0) return;
    uint8_t b = m_byte(); sx_assert(b == '+', "a line"); while ((b = m_byte()) != '[') sx_assert(b == ' ' || b == '.' || (b >= '0' && b <= '9'), "time of the command");
    while ((b = m_byte()) != ']') sx_assert(b >= ' ', "client of the command");
    for (int i = 0; i < na; i++) {
        b = m_byte(); sx_assert(b == ' ', "blank before an argument"); b = m_byte(); sx_assert(b == '"', "quoted argument");
        for (size_t z = 0; z < A[i].n; z++) {
            uint8_t want = ((const uint8_t *)A[i].p)[z]; b = m_byte(); sx_assert(b >= ' ' && b < 127, "printable");
            if (b == '\\') { b = m_byte(); if (b == 'n') b = 10; else if (b == 'r') b = 13; else if (b == 't') b = 9; else if (b == 'x') { int h = hex(m_byte()), l = hex(m_byte()); sx_assert(h >= 0 && l >= 0, "hex escape"); b = (uint8_t)(h * 16 + l); } else sx_assert(b == '"' || b == '\\', "an escape"); }
            else sx_assert(b != '"', "argument continues");
            sx_assert(b == want, "argument bytes in the monitor line");
        }
        b = m_byte(); sx_assert(b == '"', "argument ends");
    }
    b = m_byte(); sx_assert(b == '\r', "line end"); b = m_byte(); sx_assert(b == '\n', "line end"); sx_assert(mp == mn, "one line for one command");
    sx_cover("monitored"); rp = 0; rd_value(0); sx_assert(rp == c->nsent, "exactly one reply");
    // no longer monitoring: the next command reaches nobody
    srv_close(w); c->nsent = rp = 0; srv_feed(c, "*1\r\n$4\r\nPING\r\n", 14); sx_assert(c->nsent == 7, "pong");
#else
    r_cmd(&q, na); for (int i = 0; i < na; i++) r_arg(&q, A[i].p, A[i].n); b_s(&q, "*1\r\n$4\r\nPING\r\n");
    srv_feed(c, q.d, q.n); rp = 0; rd_value(0);
    if (c->closed) { sx_assert(k == 36 && rp == c->nsent, "only QUIT closes"); sx_cover("closed"); return; }
    sx_assert(c->nsent - rp == 7 && memcmp(c->sent + rp, "+PONG\r\n", 7) == 0, "exactly one reply, and the connection stays in step");
#endif
}
static void session(int real) {
    srv_start(); pogocache_store(cache, "a", 1, "7", 1, &(struct pogocache_store_opts){ .time = H_now });
    c = srv_open();
#ifdef PGMODE
    static const uint8_t st[] = "\0\0\0\x13\0\3\0\0user\0me\0\0\0\0"; srv_feed(c, st, 19); c->nsent = 0;
    if (!real) { srv_feed(c, "Q\0\0\0\x09PING", 10); }
#elif defined(MONITOR)
    if (!real) { w = srv_open(); srv_feed(w, "*1\r\n$7\r\nMONITOR\r\n", 17); srv_close(w); }
#endif
    if (!real) srv_feed(c, "*1\r\n$4\r\nPING\r\n", 14); else body();
    srv_close(c); srv_stop();
}
void harness(void) {
    session(0); size_t live = sx_heap_live(); session(1); sx_assert(sx_heap_live() == live, "nothing is left behind");
}
