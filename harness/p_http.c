// HTTP requests against a reference reading: reply, connection closed, contents.
#include "server.h"
#include "numtext.h"
#include "entmodel.h"
#ifndef KL
#define KL 3
#endif
#ifndef QL
#define QL 5
#endif
static struct net_conn *c; static size_t rp;
static uint8_t rd_byte(void) { if (rp >= c->nsent) sx_fail("reply ends early"); return c->sent[rp++]; }
static void rd_lit(const char *s) { for (; *s; s++) { uint8_t b = rd_byte(); sx_assert(b == (uint8_t)*s, "reply text"); } }
static void rd_done(void) { sx_assert(rp == c->nsent, "nothing after the reply"); sx_assert(c->closed, "connection closed after the reply"); }
static void lenhdr(size_t n) { rd_lit("Content-Length: "); char t[24]; int i = 0; do t[i++] = '0' + (char)(n % 10); while (n /= 10); while (i) { uint8_t b = rd_byte(); sx_assert(b == (uint8_t)t[--i], "content length"); } rd_lit("\r\nConnection: Close\r\n\r\n"); }
static void rd_fixed(const char *status, const char *body) { rd_lit("HTTP/1.1 "); rd_lit(status); rd_lit("\r\n"); lenhdr(strlen(body)); rd_lit(body); rd_done(); }
// an error reply about the server's refusal, whatever its words
static void rd_500(void) {
    rd_lit("HTTP/1.1 500 Internal Server Error\r\n"); size_t h = rp; while (h < c->nsent && c->sent[h] != '\n') h++; h++; while (h < c->nsent && c->sent[h] != '\n') h++; h++; while (h < c->nsent && c->sent[h] != '\n') h++; h++;
    if (h >= c->nsent) sx_fail("reply ends early");
    lenhdr(c->nsent - h); sx_assert(rp == h, "reply head"); rd_lit("ERR "); while (rp + 2 < c->nsent) sx_assert((uint8_t)c->sent[rp++] >= ' ', "error text is printable"); rd_lit("\r\n"); rd_done();
}
enum { WAIT, OK, UNSPEC, NOTHTTP };
enum { E400 = 1, E405 = 2, EKEY = 4, EHELP = 8 };
static int errs, html; static struct tok me, uri, que, key, body, o_ex, o_flags, o_cas; static int nx, xx, has_ex, has_flags, has_cas;
static int is(struct tok *t, const char *s) { return t->n == strlen(s) && same_bytes(t->p, s, t->n); }
static int low(int ch) { return ch >= 'A' && ch <= 'Z' ? ch + 32 : ch; }
static int iis(struct tok *t, const char *s) { if (t->n != strlen(s)) return 0; int d = 0; for (size_t i = 0; i < t->n; i++) d |= low(t->p[i]) != s[i]; return !d; }
static int num(struct tok *t, int sgn, uint64_t *v) {
    if (nt_is(t->p, t->n)) { *v = nt_get(t->p); return t->p[0] == (sgn ? 'I' : 'U') || (int64_t)*v >= 0; }
    size_t i = 0; int neg = 0; uint64_t x = 0;
    if (t->n && t->p[0] == '+') return -1;
    if (t->n && t->p[0] == '-') { neg = 1; i = 1; }
    if (i == t->n) return 0; if (t->n - i > 9) return -1;
    for (; i < t->n; i++) { if (t->p[i] < '0' || t->p[i] > '9') return 0; x = x * 10 + (t->p[i] - '0'); }
    if (neg && !sgn) return x ? 0 : -1; *v = neg ? 0 - x : x; return 1;
}
static int key_ok(struct tok *t) { if (t->n == 0 || t->n > 250) return 0; int bad = 0; for (size_t i = 0; i < t->n; i++) { uint8_t k = t->p[i]; bad |= (k <= ' ') | (k >= 0x7F) | (k == '%') | (k == '+') | (k == '@') | (k == '$') | (k == '?') | (k == '='); } return !bad; }
static int ref_req(const uint8_t *b, size_t n) {
    if (b[0] == '*' || b[0] == 0) return NOTHTTP;
    size_t e = 0; while (e < n && b[e] != '\n') e++;
    if (e == n) return WAIT;
    // the first line decides the protocol
    if (e < 10 || memcmp(b + e - 10, " HTTP", 5) || b[e - 3] != '.' || b[e - 1] != '\r') return NOTHTTP;
    size_t i = 0; while (b[i] != ' ' && i < e) i++; if (i == e) return UNSPEC; me.p = b; me.n = i;
    size_t j = ++i; while (j < e && b[j] != ' ') j++; if (j == e) { errs |= E400; return OK; } uri.p = b + i; uri.n = j - i; j++;
    if (e - 1 - j != 8 || memcmp(b + j, "HTTP/", 5) || b[j + 5] < '0' || b[j + 5] > '9' || b[j + 6] != '.' || b[j + 7] < '0' || b[j + 7] > '9') { errs |= E400; return OK; }
    int v = (b[j + 5] - '0') * 10 + b[j + 7] - '0'; if (v < 9 || v >= 30) { errs |= E400; return OK; }
    size_t p = e + 1; uint64_t cl = 0; int ncl = 0;
    for (;;) {
        size_t q = p; while (q < n && b[q] != '\n') q++;
        int stray = 0; for (size_t z = p; z + 1 < n && z < q; z++) stray |= (b[z] == '\r') & (b[z + 1] != '\n');
        if (stray) return UNSPEC;                                                      // carriage return inside a line
        if (q == n) return errs ? UNSPEC : WAIT;
        size_t co = p; while (co < q && b[co] != ':') co++;
        if (co == q && !(q == p + 1 && b[p] == '\r')) return UNSPEC;                  // no colon
        if (b[q - 1] != '\r') { errs |= E400; return OK; }
        if (q == p + 1) { p = q + 1; break; }
        size_t m = p; while (m < q && b[m] != ':') m++;
        struct tok h = { b + p, m - p }; m++; while (m < q - 1 && b[m] == ' ') m++; struct tok hv = { b + m, q - 1 - m };
        if (q - 1 > 0 && m > q - 1) return UNSPEC;
        if (iis(&h, "content-length")) { if (ncl++) return UNSPEC; int r = num(&hv, 0, &cl); if (r < 0) return UNSPEC; if (!r || cl > 500 * 1024 * 1024) { errs |= E400; cl = 0; return OK; } }
        else if (iis(&h, "accept")) html = 1;
        else if (iis(&h, "authorization")) return UNSPEC;
        else if (iis(&h, "transfer-encoding") || iis(&h, "expect")) return UNSPEC;
        p = q + 1;
    }
    if (n - p < cl) return errs ? UNSPEC : WAIT;
    body.p = b + p; body.n = cl; if (n - p > cl) { sx_cover("more than the announced body"); }
    if (uri.n == 0 || uri.p[0] != '/') { errs |= E400; return OK; }
    uri.p++; uri.n--; size_t k = 0; while (k < uri.n && uri.p[k] != '?') k++;
    key.p = uri.p; key.n = k; que.n = 0;
    if (k < uri.n) {
        que.p = uri.p + k + 1; que.n = uri.n - k - 1;
        for (size_t a = 0; a < que.n;) {
            size_t z = a; while (z < que.n && que.p[z] != '&') z++;
            size_t q = a; while (q < z && que.p[q] != '=') q++;
            struct tok qk = { que.p + a, q - a }, qv = { que.p + q + 1, q < z ? z - q - 1 : 0 }; int val = q < z;
            if (is(&qk, "nx")) nx = 1; else if (is(&qk, "xx")) xx = 1;
            else if (is(&qk, "ttl") || is(&qk, "ex")) { if (has_ex++ || !val) return UNSPEC; o_ex = qv; }
            else if (is(&qk, "flags")) { if (has_flags++ || !val) return UNSPEC; o_flags = qv; }
            else if (is(&qk, "cas")) { if (has_cas++ || !val) return UNSPEC; o_cas = qv; }
            else if (is(&qk, "auth")) return UNSPEC;
            a = z + 1;
        }
    }
    int get = is(&me, "GET");
    if (!get && !is(&me, "PUT") && !is(&me, "DELETE")) { errs |= E405; return OK; }
    if (key.n && key.p[0] == '@') { errs |= E400; return OK; }
    if (!key.n && get) { errs |= EHELP; return OK; }
    if (!key_ok(&key)) { errs |= EKEY; return OK; }
    return OK;
}
static void run(const uint8_t *b, size_t n) {
    int r = ref_req(b, n);
    if (r == NOTHTTP) sx_end();
    struct ent *e = r == OK && !errs ? find(&key) : 0; uint64_t cas0 = e && has_cas ? cas_of(e) : 0;
    srv_feed(c, b, n);
    if (r == UNSPEC) { sx_cover("unspecified"); srv_close(c); srv_stop(); sx_end(); }
    if (has_cas && nx) { srv_close(c); srv_stop(); sx_end(); }                           // contradictory
    if (r == WAIT) { sx_assert(c->nsent == 0 && !c->closed, "an incomplete request waits"); sx_cover("waits"); return; }
    if (errs) {
        if (errs & E400) rd_fixed("400 Bad Request", "Bad Request\r\n");
        else if (errs & E405) rd_fixed("405 Method Not Allowed", "Method Not Allowed\r\n");
        else if (errs & EKEY) rd_500();
        else { rd_lit("HTTP/1.1 200 OK\r\n"); }
        sx_cover("refused"); return;
    }
    if (is(&me, "GET")) {
        if (!e) { rd_fixed("404 Not Found", "Not Found\r\n"); return; }
        rd_lit("HTTP/1.1 200 OK\r\n"); lenhdr(e->n); if (e->n > c->nsent - rp) sx_fail("reply ends early"); sx_assert(same_bytes(c->sent + rp, e->v, e->n), "value in the reply"); rp += e->n; rd_done(); sx_cover("get"); return;
    }
    if (is(&me, "DELETE")) { if (e) { e->live = 0; rd_fixed("200 OK", "Deleted\r\n"); sx_cover("delete"); } else rd_fixed("404 Not Found", "Not Found\r\n"); return; }
    uint64_t ex = 0, fl = 0, cs = 0; int r1 = !has_ex || num(&o_ex, 1, &ex), bad = 0;
    int a = has_ex ? num(&o_ex, 1, &ex) : 1, f = has_flags ? num(&o_flags, 0, &fl) : 1, s = has_cas ? num(&o_cas, 0, &cs) : 1; (void)r1;
    if (a < 0 || f < 0 || s < 0) sx_end();
    bad = !a || !f || !s || (has_ex && (int64_t)ex <= 0) || (nx && xx);
    if (bad) { rd_500(); sx_cover("bad option"); return; }
    int st = (!nx || !e) && (!xx || e) && (!has_cas || (e && cs == cas0));
    if (!st) { rd_fixed("404 Not Found", "Not Found\r\n"); sx_cover("not stored"); return; }
    rd_fixed("200 OK", "Stored\r\n"); sx_cover("stored");
    e = slot(&key); if (body.n > 32) sx_end(); e->isnum = 0; e->n = body.n; memcpy(e->v, body.p, body.n); e->flags = fl & 0xffffffff; e->exp = has_ex ? sat_add(H_now, sat_mul((int64_t)ex, SECOND)) : 0;
    if (e->exp && e->exp <= H_now) e->live = 0;
}
static uint8_t in[600]; static size_t n;
static void lit(const char *s) { while (*s) in[n++] = *s++; }
static void sym(int k, const char *name) { sx_bytes(in + n, k, name); n += k; }
static const char *pick3(const char *a, const char *b, const char *d, const char *nm) { int i = sx_choose(3, nm); return i == 0 ? a : i == 1 ? b : d; }
#ifdef NUMS
static void numarg(int kind, uint64_t v) { nt_put(in + n, kind, v); n += 17; }
static int64_t any_num(void) {
    int64_t T = INT64_MAX / SECOND;
    switch (sx_choose(5, "range")) {
    case 0: return (int64_t)bits(33, "en");
    case 1: return T - (int64_t)bits(30, "en");
    case 2: return T + 1 + (int64_t)bits(62, "en");
    case 3: return INT64_MAX - (int64_t)bits(62, "en");
    default: return INT64_MIN + (int64_t)bits(63, "en");
    }
}
static void build(void) {
    int m = sx_choose(3, "method"); lit(m == 0 ? "PUT /" : m == 1 ? "GET /" : "DELETE /"); lit(sx_choose(2, "key") ? "a" : "b");
    int o = sx_choose(16, "opts"), rev = sx_choose(2, "order"), k = 0;
    for (int i = 0; i < 4; i++) {
        int b = rev ? 3 - i : i; if (!(o >> b & 1)) continue;
        lit(k++ ? "&" : "?");
        switch (b) {
        case 0: lit(sx_choose(2, "ttl") ? "ttl=" : "ex="); numarg('I', (uint64_t)any_num()); break;
        case 1: lit("flags="); numarg('U', bits(33, "fl")); break;
        case 2: lit("cas="); numarg('U', sx_u64("cas")); break;
        default: lit(pick3("nx", "xx", "nx&xx", "cond")); break;
        }
    }
    lit(" HTTP/1.1\r\n"); if (sx_choose(2, "host")) lit("Host: x\r\n");
    int bl = sx_choose(3, "body"); if (bl) { lit("Content-Length: "); in[n++] = '0' + bl; lit("\r\n"); }
    lit("\r\n"); sym(bl, "val");
}
static void pre(const char *k) {
    int kind = sx_choose(3, "pre"); if (!kind) return;
    struct tok t = { (const uint8_t *)k, 1 }; struct ent *e = slot(&t); e->n = 2; sx_bytes(e->v, 2, "pv");
    if (kind == 2) { e->exp = 1 + (int64_t)bits(62, "pexp"); e->flags = 9; }
    pogocache_store(cache, k, 1, e->v, e->n, &(struct pogocache_store_opts){ .time = H_now, .expires = e->exp, .flags = (uint32_t)e->flags });
}
#else
static void build(void) {
    switch (sx_choose(9, "shape")) {
    case 0: sym(3, "m"); lit(" /a HTTP/1.1\r\n\r\n"); break;
    case 1: lit("GET /"); sym(KL, "k"); lit(" HTTP/1.1\r\n\r\n"); break;
    case 2: lit("PUT /a?"); sym(QL, "q"); lit(" HTTP/1.1\r\nContent-Length: 1\r\n\r\n"); sym(1, "v"); break;
    case 3: lit("GET /a HTTP"); sym(1, "s"); sym(1, "x"); lit("."); sym(1, "y"); sym(1, "z"); lit("\n\r\n"); break;
    case 4: lit("PUT /"); sym(1, "k"); lit(" HTTP/1.1\r\nContent-Length:"); sym(2, "l"); lit("\r\n\r\n"); sym(3, "v"); break;
    case 5: lit("DELETE /a HTTP/1.0\r\n"); sym(3, "h"); lit(":"); sym(3, "w"); lit("\r\n\r\n"); break;
    case 6: lit(pick3("PUT", "DELETE", "GET", "m")); lit(" "); sym(2, "u"); lit(" HTTP/1.1\r\ncontent-LENGTH: "); sym(1, "d"); lit("\r\nConnection: close\r\n\r\nxy"); break;
    case 7: lit("PUT /a HTTP/1.1\r\nA: b"); sym(2, "e"); lit("Content-Length: 4\r\n"); sym(2, "f"); sym(4, "v"); break;
    default: lit("PUT /b?"); lit(pick3("nx", "xx", "ttl=", "o")); sym(3, "q"); lit(" HTTP/1.1\r\n\r\n"); break;
    }
    size_t cut = sx_choose(4, "cut"); n -= cut;
}
static void pre(const char *k) { struct tok t = { (const uint8_t *)k, 1 }; struct ent *e = slot(&t); e->n = 1; sx_bytes(e->v, 1, "pv"); e->flags = 3; pogocache_store(cache, k, 1, e->v, 1, &(struct pogocache_store_opts){ .time = H_now, .flags = 3 }); }
#endif
void harness(void) {
    H_po.usecas = 1; srv_start();
#ifdef NUMS
    // are the numbers the harness writes understood?
    lit("PUT /a?flags="); numarg('U', 77777); lit(" HTTP/1.1\r\n\r\n"); c = srv_open(); srv_feed(c, in, n); n = 0; srv_close(c);
    { struct tok t = { (const uint8_t *)"a", 1 }; struct ent *e = slot(&t); struct got g = { .m = e }; e->flags = 77777; pogocache_load(cache, "a", 1, &(struct pogocache_load_opts){ .time = H_now, .udata = &g }); }
    { struct tok t = { (const uint8_t *)"a", 1 }; cas_of(slot(&t)); slot(&t)->live = 0; pogocache_delete(cache, "a", 1, &(struct pogocache_delete_opts){ .time = H_now }); }
    H_now = SECOND + (int64_t)bits(58, "now");
#endif
    pre("a"); build(); c = srv_open(); run(in, n); check(); srv_close(c); srv_stop();
}
