// Memcache text protocol against a reference interpreter: every line (and data
// block) is read by the reference, fed to the server, and the reply and the
// contents of the cache compared.
#include "server.h"
#include "numtext.h"
#ifndef L
#define L 7
#endif
#include "entmodel.h"
static struct net_conn *c; static size_t rp;
static struct tok T[24]; static int nt;
// ------------------------------------------------ replies
static uint8_t rd_byte(void) { if (rp >= c->nsent) sx_fail("reply ends early"); return c->sent[rp++]; }
static void rd_lit(const char *s) { for (; *s; s++) { uint8_t b = rd_byte(); sx_assert(b == (uint8_t)*s, "reply text"); } }
static void rd_bytes(const uint8_t *p, size_t n) { if (rp + n > c->nsent) sx_fail("reply ends early"); sx_assert(same_bytes(c->sent + rp, p, n), "bytes in the reply"); rp += n; }
static void rd_num(uint64_t v) {
    size_t n = 0; while (rp + n < c->nsent && c->sent[rp + n] != ' ' && c->sent[rp + n] != '\r') n++;
    sx_assert(nt_same((uint8_t *)c->sent + rp, n, v), "number in the reply");
    sx_assert(n == 1 || c->sent[rp] != '0', "number without leading zeros"); rp += n;
}
static void rd_done(void) { sx_assert(rp == c->nsent, "nothing after the reply"); c->nsent = 0; rp = 0; }
static void rd_clienterr(void) { rd_lit("CLIENT_ERROR "); while (rp < c->nsent && c->sent[rp] != '\r') { sx_assert((uint8_t)c->sent[rp] >= ' ', "error text is printable"); rp++; } rd_lit("\r\n"); rd_done(); }
static int is(struct tok *t, const char *s) { return t->n == strlen(s) && same_bytes(t->p, s, t->n); }
// when an entry with this exptime expires (0 never); INT64_MIN: at once
static int64_t expiry(int64_t x) {
    if (x == 0) return 0;
    if (x < 0) return INT64_MIN;
    if (x <= 60 * 60 * 24 * 30) return H_now + x * SECOND;
    int64_t at = sat_mul(x, SECOND); if (at <= H_unix) return INT64_MIN;
    return sat_add(H_now, at - H_unix);
}
// ------------------------------------------------ reference reading of a line
static int key_ok(struct tok *t) { if (t->n == 0 || t->n > 250) return 0; int bad = 0; for (size_t i = 0; i < t->n; i++) bad |= (t->p[i] <= ' ') | (t->p[i] == 0x7F); return !bad; }
static int unspec;
// decimal integer; 0 if it is not one
static int num(struct tok *t, int sgn, uint64_t *v) {
    if (nt_is(t->p, t->n)) { *v = nt_get(t->p); return t->p[0] == (sgn ? 'I' : 'U') || (int64_t)*v >= 0; }
    size_t i = 0; int neg = 0; uint64_t x = 0;
    if (t->n && t->p[0] == '+') { unspec = 1; return 0; }
    if (t->n && t->p[0] == '-') { neg = 1; i = 1; }
    if (i == t->n) return 0;
    if (t->n - i > 9) { unspec = 1; return 0; }
    for (; i < t->n; i++) { if (t->p[i] < '0' || t->p[i] > '9') return 0; x = x * 10 + (t->p[i] - '0'); }
    if (neg) { if (!sgn) return 0; if (!x) unspec = 1; x = 0 - x; }
    *v = x; return 1;
}
enum { OK, ERR, BADFMT, BADCHUNK, WAIT };
static const uint8_t *val; static size_t vlen; static uint64_t N_flags, N_exp, N_cas, N_delta; static int noreply;
// reads the line of n bytes (without its end) and what follows; the kind of outcome and how much it takes
static int ref_line(const uint8_t *b, size_t len, size_t *take) {
    size_t i = 0; while (i < len && b[i] != '\n') i++;
    if (i == len) return WAIT;
    *take = i + 1; size_t n = i; if (n && b[n - 1] == '\r') n--;
    nt = 0; noreply = 0; unspec = 0; vlen = 0;
    if (n == 0) return ERR;
    for (size_t s = 0;;) {
        size_t e = s; while (e < n && b[e] != ' ') e++;
        if (e == s) { unspec = 1; return ERR; }                 // empty word: unspecified
        if (nt == 24) sx_end();
        T[nt].p = b + s; T[nt++].n = e - s;
        if (e == n) break; s = e + 1; if (s == n) { unspec = 1; return ERR; }
    }
    struct tok *w = T;
    int store = is(w, "set") || is(w, "add") || is(w, "replace") || is(w, "append") || is(w, "prepend") || is(w, "cas");
    int writer = store || is(w, "incr") || is(w, "decr") || is(w, "delete") || is(w, "touch") || is(w, "flush_all") || is(w, "verbosity");
    if (writer && nt > 1 && is(&T[nt - 1], "noreply")) { nt--; noreply = 1; }
    if (store) {
        int cas = is(w, "cas");
        if (nt != (cas ? 6 : 5)) { if (noreply && nt == 4) unspec = 1; return ERR; }
        uint64_t len64;
        if (!key_ok(&T[1])) return BADFMT;
        if (!num(&T[2], 1, &N_flags) || (int64_t)N_flags < 0) return BADFMT;
        if (!num(&T[3], 1, &N_exp)) return BADFMT;
        if (!num(&T[4], 1, &len64) || (int64_t)len64 < 0 || len64 > 500 * 1024 * 1024) return BADFMT;
        if (cas && !num(&T[5], 0, &N_cas)) return BADFMT;
        if (N_flags > UINT32_MAX) unspec = 1;                   // too large flags: unspecified
        if (unspec) return OK;
        if (len - *take < len64 + 2) return WAIT;
        val = b + *take; vlen = len64; *take += len64 + 2;
        if (val[vlen] != '\r' || val[vlen + 1] != '\n') return BADCHUNK;
        return OK;
    }
    if (is(w, "get") || is(w, "gets")) { if (nt == 1) return ERR; for (int k = 1; k < nt; k++) if (!key_ok(&T[k])) return BADFMT; return OK; }
    if (is(w, "delete")) { if (nt == 1) return ERR; if (nt > 2) return BADFMT; return key_ok(&T[1]) ? OK : BADFMT; }
    if (is(w, "incr") || is(w, "decr") || is(w, "touch")) { if (nt != 3) return ERR; return key_ok(&T[1]) ? OK : BADFMT; }
    if (is(w, "flush_all")) return nt > 2 ? ERR : OK;
    if (is(w, "stats") || is(w, "version") || is(w, "quit")) return OK;
    if (is(w, "gat") || is(w, "gats") || is(w, "verbosity")) { unspec = 1; return OK; }   // not offered
    return ERR;
}
static void any_reply(void) { c->nsent = 0; rp = 0; }
static void expect_or_silent(int kind, const char *s) { if (noreply) rd_done(); else { if (kind) rd_clienterr(); else { rd_lit(s); rd_done(); } } }
static void exec(void) {
    struct tok *w = T;
    if (is(w, "get") || is(w, "gets")) {
        for (int k = 1; k < nt; k++) {
            struct ent *e = find(&T[k]); if (!e) continue;
            rd_lit("VALUE "); rd_bytes(e->k, e->kl); rd_lit(" "); rd_num(e->flags); rd_lit(" ");
            size_t vl = e->n; rd_num(vl); if (is(w, "gets")) { rd_lit(" "); rd_num(cas_of(e)); } rd_lit("\r\n");
            if (e->isnum) { sx_assert(nt_same((uint8_t *)c->sent + rp, vl, e->num), "value in the reply"); rp += vl; } else rd_bytes(e->v, vl);
            rd_lit("\r\n");
        }
        rd_lit("END\r\n"); rd_done(); return;
    }
    if (is(w, "version")) { rd_lit("VERSION 1.2.3\r\n"); rd_done(); return; }
    if (is(w, "quit")) { rd_done(); sx_assert(c->closed, "quit closes the connection"); return; }
    if (is(w, "stats")) { if (nt > 1) { rd_clienterr(); return; } size_t k = 0; while (rp < c->nsent && c->sent[rp] == 'S') { rd_lit("STAT "); while (rp < c->nsent && c->sent[rp] != '\n') rp++; rp++; k++; } sx_assert(k > 10, "statistics"); rd_lit("END\r\n"); rd_done(); return; }
    if (is(w, "flush_all")) {
        if (nt == 2) { uint64_t d; if (!num(&T[1], 1, &d) || (int64_t)d < 0) { if (unspec) { any_reply(); sx_end(); } expect_or_silent(1, 0); return; } if (d > 31536000) { any_reply(); sx_end(); } }
        expect_or_silent(0, "OK\r\n"); for (int i = 0; i < KM; i++) M[i].live = 0; return;
    }
    if (is(w, "delete")) { struct ent *e = find(&T[1]); expect_or_silent(0, e ? "DELETED\r\n" : "NOT_FOUND\r\n"); if (e) e->live = 0; return; }
    if (is(w, "touch")) {
        uint64_t x; if (!num(&T[2], 1, &x)) { if (unspec) { any_reply(); sx_end(); } expect_or_silent(1, 0); return; }
        struct ent *e = find(&T[1]); expect_or_silent(0, e ? "TOUCHED\r\n" : "NOT_FOUND\r\n"); if (e) set_exp(e, expiry((int64_t)x)); return;
    }
    if (is(w, "incr") || is(w, "decr")) {
        uint64_t d; if (!num(&T[2], 0, &d)) { if (unspec) { any_reply(); sx_end(); } expect_or_silent(1, 0); return; }
        struct ent *e = find(&T[1]); if (!e) { expect_or_silent(0, "NOT_FOUND\r\n"); return; }
        uint64_t x; if (e->isnum) x = e->num; else { struct tok t = { e->v, e->n }; if (!num(&t, 0, &x)) { if (unspec) { any_reply(); sx_end(); } expect_or_silent(1, 0); return; } }
        uint64_t r = is(w, "incr") ? x + d : x < d ? 0 : x - d;
        if (noreply) rd_done(); else { rd_num(r); rd_lit("\r\n"); rd_done(); }
        e->isnum = 1; e->num = r; uint8_t t[32]; e->n = u64toa(r, t);
        return;
    }
    struct ent *e = find(&T[1]); int app = is(w, "append"), pre = is(w, "prepend");
    if (app || pre) {
        if (!e) { expect_or_silent(0, "NOT_STORED\r\n"); return; }
        if (e->n + vlen > 32 || e->isnum) sx_end();
        uint8_t t[32]; if (pre) { memcpy(t, val, vlen); memcpy(t + vlen, e->v, e->n); } else { memcpy(t, e->v, e->n); memcpy(t + e->n, val, vlen); }
        e->n += vlen; memcpy(e->v, t, e->n); expect_or_silent(0, "STORED\r\n"); return;
    }
    if (is(w, "add") && e) { expect_or_silent(0, "NOT_STORED\r\n"); return; }
    if (is(w, "replace") && !e) { expect_or_silent(0, "NOT_STORED\r\n"); return; }
    if (is(w, "cas")) { if (!e) { expect_or_silent(0, "NOT_FOUND\r\n"); return; } extern uint64_t cas_before; if (N_cas != cas_before) { expect_or_silent(0, "EXISTS\r\n"); return; } }
    expect_or_silent(0, "STORED\r\n"); e = slot(&T[1]);
    e->isnum = 0; e->n = vlen; if (vlen > 32) sx_end(); memcpy(e->v, val, vlen); e->flags = N_flags; e->exp = 0; set_exp(e, expiry((int64_t)N_exp));
}
uint64_t cas_before;
static void run(const uint8_t *b, size_t len) {
    size_t p = 0;
    while (p < len && !c->closed) {
        size_t take = 0; int r = ref_line(b + p, len - p, &take);
        if (r == WAIT) { srv_feed(c, b + p, len - p); if (!unspec) { rd_done(); sx_cover("waits"); } return; }
        if (r == OK && !unspec && is(T, "cas")) { struct ent *e = find(&T[1]); cas_before = e ? cas_of(e) : 0; }
        srv_feed(c, b + p, take); p += take;
        if (unspec) { any_reply(); sx_end(); }
        switch (r) {
        case ERR: rd_lit("ERROR\r\n"); rd_done(); sx_cover("error"); break;
        case BADFMT: rd_lit("CLIENT_ERROR bad command line format\r\n"); rd_done(); sx_cover("format"); break;
        case BADCHUNK: rd_lit("CLIENT_ERROR bad data chunk\r\n"); rd_done(); sx_cover("chunk"); break;
        default: exec(); sx_cover("executed");
        }
        if (!c->closed) check();
    }
}
static uint8_t in[400]; static size_t n;
static void lit(const char *s) { while (*s) in[n++] = *s++; }
static void sym(int k, const char *name) { sx_bytes(in + n, k, name); n += k; }
static void numarg(int kind, uint64_t v) { nt_put(in + n, kind, v); n += 17; }
#ifdef NUMS
#ifndef NEGX
#define NEGX 1
#endif
// any 64-bit exptime, as ranges that together cover everything
static int64_t any_time(void) {
    int64_t T30 = 60 * 60 * 24 * 30, TM = INT64_MAX / SECOND;
    switch (sx_choose(NEGX ? 10 : 7, "range")) {
    case 0: return (int64_t)bits(21, "en");
    case 1: return T30 - (int64_t)bits(19, "en");                  // around 30 days
    case 2: return T30 + 1 + (int64_t)bits(33, "en");
    case 3: return TM - (int64_t)bits(30, "en");
    case 4: return TM + 1 + (int64_t)bits(62, "en");
    case 5: return INT64_MAX - (int64_t)bits(62, "en");
    case 6: return -(int64_t)bits(33, "en");
    case 7: return -TM + (int64_t)bits(31, "en");
    case 8: return -TM - 1 - (int64_t)bits(62, "en");
    default: return INT64_MIN + (int64_t)bits(62, "en");
    }
}
static void key(void) { lit(sx_choose(2, "key") ? " a" : " b"); }
static void build(void) {
    static const int WL[] = { WLIST };
    static const char *W[] = { "set", "add", "replace", "cas", "append", "prepend", "incr", "decr", "touch", "delete", "gets", "flush_all" };
    int w = WL[sx_choose((int)(sizeof WL / sizeof WL[0]), "word")];
    lit(W[w]); if (w != 11) key();
    size_t vl = sx_choose(VL + 1, "vlen");
    if (w < 6) {
        lit(" "); if (FLAGS && sx_choose(2, "fl")) numarg('I', sx_u64("flags") & 0xffffffff); else lit("0");
        lit(" "); if (EXP && sx_choose(2, "ex")) numarg('I', (uint64_t)any_time()); else lit("0");
        lit(" "); in[n++] = '0' + (int)vl;
        if (w == 3) { lit(" "); numarg('U', sx_u64("cas")); }
    } else if (w < 8) { lit(" "); numarg('U', sx_u64("delta")); }
    else if (w == 8) { lit(" "); numarg('I', (uint64_t)any_time()); }
    else if (w == 11 && sx_choose(2, "delay")) { static const char *D[] = { " 0", " 3", " x" }; lit(D[sx_choose(3, "d")]); }
    if (w != 10 && sx_choose(2, "noreply")) lit(" noreply");
    lit("\r\n"); if (w < 6) { sym(vl, "val"); lit("\r\n"); }
}
static void pre(const char *k) {
    int kind = sx_choose(4, "pre"); if (!kind) return;
    struct tok t = { (const uint8_t *)k, 1 }; struct ent *e = slot(&t);
    if (kind == 1) { e->n = sx_choose(VL + 1, "plen"); sx_bytes(e->v, e->n, "pv"); e->flags = 0; }
    else if (kind == 2) { e->isnum = 1; e->num = sx_u64("pnum"); sx_assume(e->num >= 10); nt_put(e->v, 'U', e->num); e->n = 17; e->flags = sx_u64("pflags") & 0xffffffff; }
    else { e->n = 1; e->v[0] = '7'; e->exp = 1 + (int64_t)bits(62, "pexp"); }
    pogocache_store(cache, k, 1, e->v, e->n, &(struct pogocache_store_opts){ .time = H_now, .expires = e->exp, .flags = (uint32_t)e->flags });
}
#else
static void pre(const char *k) { struct tok t = { (const uint8_t *)k, 1 }; struct ent *e = slot(&t); e->n = 1; e->v[0] = '5'; e->flags = 3; pogocache_store(cache, k, 1, "5", 1, &(struct pogocache_store_opts){ .time = H_now, .flags = 3 }); }
#ifdef TEMPLATE
static void build(void) {
    switch (sx_choose(12, "shape")) {
    case 0: lit("set "); sym(2, "k"); lit(" 0 0 2\r\n"); sym(4, "v"); break;
    case 1: lit("set a "); sym(1, "f"); lit(" "); sym(1, "e"); lit(" "); sym(1, "n"); lit("\r\n12\r\n4\r\n"); break;
    case 2: lit("add b 1 0 1"); sym(1, "s"); lit("noreply\r\n"); sym(3, "v"); break;
    case 3: lit("cas a 0 0 1 "); sym(2, "c"); lit("\r\nx\r\n"); break;
    case 4: lit("append a 0 0 2 "); sym(3, "t"); lit("\r\nxy\r\n"); break;
    case 5: lit("incr a "); sym(2, "d"); lit("\r\n"); break;
    case 6: lit("decr a "); sym(1, "d"); lit(" noreply\r\n"); break;
    case 7: lit("delete a"); sym(2, "t"); lit("\r\n"); break;
    case 8: lit("gets a "); sym(1, "k"); lit(" a\r\n"); break;
    case 9: lit("touch a "); sym(2, "e"); lit("\r\nget a\r\n"); break;
    case 10: lit("replace "); sym(1, "k"); lit(" 0 0 3\r\n"); sym(5, "v"); lit("get a\r\n"); break;
    default: { static const char *W[] = { "flush_all", "version", "quit", "stats", "prepend a 1 2 0", "flush_all noreply", "verbosity 1" }; lit(W[sx_choose(7, "word")]); sym(2, "t"); lit("\n"); break; }
    }
    size_t cut = sx_choose(3, "cut"); n -= cut;
    if (!cut) lit("version\r\n");
}
#else
static void build(void) { sym(L, "b"); lit("\nversion\r\n"); }
#endif
#endif
void harness(void) {
    H_po.usecas = 1;
    srv_start(); c = srv_open();
    srv_feed(c, "get zz\r\n", 8); rd_lit("END\r\n"); rd_done();
#ifdef NUMS
    // are the numbers the harness writes understood?
    lit("set zz 0 0 1\r\n1\r\nincr zz "); numarg('U', 123455); lit("\r\n"); srv_feed(c, in, n); n = 0;
    if (c->nsent < 8 || c->nsent != 8 + 19 || !nt_same((uint8_t *)c->sent + 8, 17, 123456)) sx_end();
    rd_lit("STORED\r\n"); rd_num(123456); rd_lit("\r\n"); rd_done(); lit("delete zz\r\n"); srv_feed(c, in, n); n = 0; rd_lit("DELETED\r\n"); rd_done();
    H_now = SECOND + (int64_t)bits(58, "now"); H_unix = SECOND + (int64_t)bits(61, "unix");
    pre("a"); if (PREB) pre("b");
    for (int o = 0; o < NOPS; o++) { build(); run(in, n); n = 0; if (c->closed) break; }
#else
    pre("a"); build(); run(in, n);
#endif
    srv_close(c); srv_stop();
}
