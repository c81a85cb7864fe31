// Postgres wire protocol against a reference: start-up and message framing,
// query text, prepared statements and portals. What reaches command execution
// is recorded instead of executed.
#include "server.h"
#ifndef L
#define L 5
#endif
#define MAXTOK 12
struct list { int n; size_t len[MAXTOK]; uint8_t d[MAXTOK][40]; };
static struct list got; static int ngot;
void evcommand(struct conn *conn, struct args *args) {
    (void)conn; ngot++; got.n = (int)args_count(args); if (got.n > MAXTOK) sx_end();
    for (int i = 0; i < got.n; i++) { size_t l; const char *p = args_at(args, i, &l); got.len[i] = l; if (l > sizeof got.d[i]) sx_end(); if (l) memcpy(got.d[i], p, l); }
}
static struct net_conn *c; static size_t rp;
static uint8_t rd_byte(void) { if (rp >= c->nsent) sx_fail("reply ends early"); return c->sent[rp++]; }
static void rd_raw(const void *d, size_t n) { for (size_t i = 0; i < n; i++) { uint8_t b = rd_byte(); sx_assert(b == ((const uint8_t *)d)[i], "reply bytes"); } }
static uint32_t rd_be(int n) { uint32_t v = 0; while (n--) v = v << 8 | rd_byte(); return v; }
static void rd_done(void) { sx_assert(rp == c->nsent, "nothing after the reply"); c->nsent = 0; rp = 0; }
static void rd_ready(void) { rd_raw("Z\0\0\0\5I", 6); }
// ErrorResponse: length, fields each a letter and text, ended by zero
static void rd_err(void) {
    sx_assert(rd_byte() == 'E', "an error is reported"); size_t s = rp; uint32_t n = rd_be(4); sx_assert(n >= 8 && s + n <= c->nsent, "error length");
    int f = 0, m = 0; while (rp < s + n - 1) { uint8_t k = rd_byte(); sx_assert(k >= 'A' && k <= 'Z', "error field"); m |= k == 'M'; f++; while (rp < s + n && rd_byte()) ; }
    sx_assert(f >= 3 && m && rp == s + n - 1, "error fields"); sx_assert(rd_byte() == 0, "error end");
}
static void rd_err_z(void) { rd_err(); if (rp < c->nsent) rd_ready(); rd_done(); }
static void rd_startup(void) {
    rd_raw("R\0\0\0\10\0\0\0\0", 9);
    while (rp < c->nsent && c->sent[rp] == 'S') { rp++; size_t s = rp; uint32_t n = rd_be(4); sx_assert(n > 6 && s + n <= c->nsent, "status length"); int z = 0; while (rp < s + n) z += rd_byte() == 0; sx_assert(z == 2 && c->sent[rp - 1] == 0, "status text"); }
    rd_ready(); rd_done();
}
static void nothing(void) { sx_assert(ngot == 0, "nothing is executed"); }
static void executed(struct list *w) {
    sx_assert(ngot == 1, "the command is executed once"); sx_assert(got.n == w->n, "argument count");
    for (int i = 0; i < w->n; i++) sx_assert(got.len[i] == w->len[i] && same_bytes(got.d[i], w->d[i], w->len[i]), "argument bytes");
    ngot = 0;
}
static uint8_t in[600]; static size_t n;
static void raw(const void *d, size_t k) { memcpy(in + n, d, k); n += k; }
static void lit(const char *s) { raw(s, strlen(s)); }
static void sym(int k, const char *name) { sx_bytes(in + n, k, name); n += k; }
static void be(uint32_t v, int k) { while (k--) in[n++] = v >> (8 * k); }
static size_t mark; static void begin(int t) { in[n++] = t; mark = n; n += 4; }
static void end(void) { size_t z = n; n = mark; be((uint32_t)(z - mark), 4); n = z; }
static void feed(void) { srv_feed(c, in, n); n = 0; }
static void start(void) { be(8 + 11, 4); be(0x00030000, 4); raw("user\0me\0\0\0\0", 11); feed(); rd_startup(); }
// ------------------------------------------------ query text
enum { OK, ERR, UNSPEC };
static int ws(uint8_t k) { return k == ' ' || (k >= 9 && k <= 13); }
static int hexv(uint8_t k) { return k >= '0' && k <= '9' ? k - '0' : k >= 'a' && k <= 'f' ? k - 'a' + 10 : k >= 'A' && k <= 'F' ? k - 'A' + 10 : -1; }
static int uni(const uint8_t *q, size_t n, size_t i, uint32_t *cp) { if (i + 6 > n || q[i] != '\\' || q[i + 1] != 'u') return 0; *cp = 0; for (int k = 2; k < 6; k++) { int h = hexv(q[i + k]); if (h < 0) return 0; *cp = *cp << 4 | (uint32_t)h; } return 1; }
static int ref_query(const uint8_t *q, size_t n, struct list *w) {
    memset(w, 0, sizeof *w); size_t i = 0;
    for (;;) {
        while (i < n && ws(q[i])) i++;
        if (i == n) return OK;
        if (q[i] == ';') { int u = 0; for (; i < n; i++) if (ws(q[i])) u = 1; else if (q[i] != ';') return u ? UNSPEC : ERR; return u ? UNSPEC : OK; }
        if (w->n == MAXTOK) sx_end();
        uint8_t *d = w->d[w->n]; size_t *l = &w->len[w->n];
        if (q[i] == '"') return ERR;
        if (q[i] == '$') return ERR;                                  // parameters belong to prepared statements
        int e = (q[i] == 'E' || q[i] == 'e') && i + 1 < n && q[i + 1] == '\'';
        if (q[i] == '\'' || e) {
            i += 1 + e; int done = 0, unspec = 0;
            while (i < n) {
                if (q[i] == '\'') { if (i + 1 < n && q[i + 1] == '\'') { d[(*l)++] = '\''; i += 2; continue; } i++; done = 1; break; }
                if (e && q[i] == '\\') {
                    if (i + 1 == n) { i++; break; }
                    uint32_t cp; uint8_t k = q[i + 1];
                    if (k == 'u') {
                        if (!uni(q, n, i, &cp)) { unspec = 1; i += 2; continue; } i += 6;
                        if (cp >= 0xD800 && cp < 0xE000) { unspec = 1; continue; }
                        if (cp < 0x80) d[(*l)++] = cp; else if (cp < 0x800) { d[(*l)++] = 0xC0 | cp >> 6; d[(*l)++] = 0x80 | (cp & 63); } else { d[(*l)++] = 0xE0 | cp >> 12; d[(*l)++] = 0x80 | (cp >> 6 & 63); d[(*l)++] = 0x80 | (cp & 63); }
                        continue;
                    }
                    i += 2;
                    if (k == 'b') k = 8; else if (k == 'f') k = 12; else if (k == 'n') k = 10; else if (k == 'r') k = 13; else if (k == 't') k = 9;
                    else if (k != '\\' && k != '\'' && k != '"' && k != '/') unspec = 1;   // other escapes
                    d[(*l)++] = k; continue;
                }
                d[(*l)++] = q[i++];
            }
            if (!done) return ERR;
            if (unspec) return UNSPEC;
            if (i < n && !ws(q[i]) && q[i] != ';') return UNSPEC;            // glued to what follows
        } else {
            while (i < n && !ws(q[i]) && q[i] != ';' && q[i] != '\'' && q[i] != '"' && q[i] != '$') d[(*l)++] = q[i++];
            if (i < n && (q[i] == '\'' || q[i] == '$')) return UNSPEC;
        }
        w->n++;
    }
}
static int iis(const uint8_t *p, size_t n, const char *s) { if (n != strlen(s)) return 0; int d = 0; for (size_t i = 0; i < n; i++) { uint8_t k = p[i]; if (k >= 'A' && k <= 'Z') k += 32; d |= k != (uint8_t)s[i]; } return !d; }
static void rd_complete(const char *s) { rd_raw("C", 1); sx_assert(rd_be(4) == 4 + strlen(s) + 1, "completion length"); rd_raw(s, strlen(s) + 1); }
// transaction words and output format directives are answered without execution
static int shortcut(struct list *w) {
    static const char *T[] = { "begin", "commit", "rollback" }; static const char *R[] = { "BEGIN", "COMMIT", "ROLLBACK" };
    for (int k = 0; k < 3; k++) if (iis(w->d[0], w->len[0], T[k])) { nothing(); rd_complete(R[k]); rd_ready(); rd_done(); sx_cover("transaction word"); return 1; }
    if (w->len[0] >= 2 && w->d[0][0] == ':' && w->d[0][1] == ':') {
        int t = iis(w->d[0], w->len[0], "::text"), b = iis(w->d[0], w->len[0], "::bytea") || iis(w->d[0], w->len[0], "::bytes");
        if (!t && !b) { nothing(); rd_err(); rd_ready(); rd_done(); return 1; }
        if (w->n == 1) { nothing(); rd_complete(t ? "TEXT" : "BYTEA"); rd_ready(); rd_done(); return 1; }
        struct list v = *w; for (int i = 1; i < w->n; i++) { v.len[i - 1] = w->len[i]; memcpy(v.d[i - 1], w->d[i], 40); } v.n--; executed(&v); rd_done(); sx_cover("format directive"); return 1;
    }
    return 0;
}
#ifdef QUERY
static void harness_body(void) {
    begin('Q'); size_t q = n; static uint8_t text[64]; static struct list w;
#ifdef TEMPLATE
    switch (sx_choose(8, "shape")) {
    case 0: lit("SET k E'"); sym(3, "a"); lit("' x"); break;
    case 1: lit("get '"); sym(4, "a"); lit("'"); break;
    case 2: lit("E'\\u"); sym(4, "h"); lit("' b"); break;
    case 3: lit("SET a "); sym(1, "a"); lit("1 "); sym(2, "b"); lit(";"); break;
    case 4: lit("::"); sym(1, "a"); lit("ext GET k"); break;
    case 5: { static const char *T[] = { "BEG", "comm", "Rollba", "::byte", "::TEX" }; lit(T[sx_choose(5, "w")]); sym(3, "z"); break; }
    case 6: lit("MGET 'a''b' \\ E'c\\\\' e'"); sym(2, "z"); lit("'"); break;
    default: lit("  SET\tk\n'v;"); sym(2, "y"); lit("';;"); sym(1, "z"); break;
    }
#else
    sym(sx_choose(L + 1, "len"), "q");
#endif
    size_t l = n - q; memcpy(text, in + q, l); in[n++] = 0; end();
    int z = 0; for (size_t i = 0; i < l; i++) z |= text[i] == 0;
    size_t all = n, cut = sx_choose(3, "cut"); n -= cut;
    int r = z ? OK : ref_query(text, l, &w);
    feed();
    if (cut) { nothing(); rd_done(); sx_assert(!c->closed, "an incomplete message waits"); memcpy(in, in + all - cut, cut); n = cut; feed(); }
    if (z) { nothing(); rd_err_z(); sx_assert(c->closed, "a malformed message closes the connection"); sx_cover("zero inside"); return; }
    if (r == UNSPEC) { sx_end(); }
    sx_assert(!c->closed, "connection stays open");
    if (r == ERR) { nothing(); rd_err(); rd_ready(); rd_done(); sx_cover("refused"); }
    else if (!w.n) { nothing(); rd_raw("I\0\0\0\4", 5); rd_ready(); rd_done(); sx_cover("empty query"); }
    else if (!shortcut(&w)) { executed(&w); rd_done(); sx_cover("executed"); }
    begin('Q'); raw("ok", 3); end(); feed(); w.n = 1; w.len[0] = 2; w.d[0][0] = 'o'; w.d[0][1] = 'k'; executed(&w);
}
#elif defined(FRAME)
static const uint8_t *P; static size_t N;
// any start-up packets and messages, in bytes that are partly arbitrary
static void harness_body(void) {
    int started = 0, ssl = 0; (void)ssl;
    switch (sx_choose(6, "shape")) {
    case 0: raw("\0\0\0", 3); sym(1, "len"); sym(4, "magic"); lit("ab"); raw("\0\0\0", 3); break;
    case 1: raw("\0\0\0\x10\0\3\0\0", 8); sym(8, "params"); break;
    case 2: raw("\0\0", 2); sym(2, "len"); raw("\x04\xd2\x16\x2f", 4); break;
    case 3: raw("\0\0\0\x21\0\3\0\0client_encoding", 24 - 1); in[n++] = 0; lit("UTF"); sym(1, "e"); raw("\0\0\0\0\0\0", 5); break;
    case 4: started = 1; sym(1, "type"); raw("\0\0\0", 3); sym(1, "len"); sym(4, "body"); break;
    default: started = 1; sym(1, "type"); sym(4, "len"); lit("ab"); break;
    }
    if (started) { size_t k = n; uint8_t keep[64]; memcpy(keep, in, k); n = 0; start(); memcpy(in, keep, k); n = k; }
    size_t cut = sx_choose(3, "cut"); n -= cut; P = in; N = n;
    if (!started) {
        feed(); nothing();
        uint32_t len = 0; if (N >= 4) for (int i = 0; i < 4; i++) len = len << 8 | P[i];
        uint32_t magic = 0; if (N >= 8) for (int i = 4; i < 8; i++) magic = magic << 8 | P[i];
        if (N < 4 || ((int32_t)len >= 8 && len <= 65536 && N < len)) { rd_done(); sx_assert(!c->closed, "an incomplete start-up waits"); return; }
        if ((int32_t)len < 8 || len > 65536) { if (N < 8 && !c->closed) { rd_done(); return; } sx_assert(c->closed, "a malformed start-up closes the connection"); rd_err_z(); sx_cover("bad start-up length"); return; }
        if (magic == 0x04D2162F) { if (N != len) return; sx_assert(rd_byte() == 'N', "no TLS offered"); rd_done(); sx_cover("tls request"); return; }
        if (magic != 0x00030000) { sx_assert(c->closed, "an unknown start-up closes the connection"); rd_err_z(); sx_cover("unknown start-up"); return; }
        if (N != len || c->closed) return;                                 // something follows, or a parameter is refused
        rd_startup(); sx_cover("started"); return;
    }
    uint8_t type = P[0]; uint32_t len = 0; for (int i = 1; i < 5 && N >= 5; i++) len = len << 8 | P[i];
    feed();
    if (type == 0) return;                                                 // another start-up packet
    if (N < 5) { nothing(); rd_done(); sx_assert(!c->closed, "an incomplete message waits"); return; }
    if ((int32_t)len < 4) { nothing(); sx_assert(c->closed, "a malformed message closes the connection"); rd_err_z(); sx_cover("bad length"); return; }
    if (N < (size_t)len + 1) { nothing(); rd_done(); sx_assert(!c->closed, "an incomplete message waits"); sx_cover("message waits"); return; }
    if (N > (size_t)len + 1) return;                                       // another message begins
    size_t bl = len - 4;
    if (type == 'S') { nothing(); if (bl) sx_assert(c->closed, "a malformed message closes the connection"); else { rd_ready(); rd_done(); } }
    else if (type == 'X' && !bl) { nothing(); rd_done(); sx_assert(c->closed, "terminate closes the connection"); sx_cover("terminate"); }
    else if (type == 'Q') { if (bl == 0 || P[N - 1] != 0) { nothing(); sx_assert(c->closed, "a malformed message closes the connection"); } }
    else if (type == 'P' || type == 'B' || type == 'D' || type == 'E' || type == 'X' || type == 'p') { nothing(); }
    else { nothing(); rd_err_z(); sx_assert(!c->closed, "an unknown message is refused"); sx_cover("unknown message"); }
}
#else
// ------------------------------------------------ extended protocol
static const char *QS[] = { "SET $1 $2", "GET $1", "get k ", "MGET $2 $1 $2", "SET k a$1", "", "GET $2", "SET 'x''y' E'\\n'", "DEL $1;", "A $1'b'" };
static const int QP[] = { 2, 1, 0, 2, 1, 0, -1, 0, 1, 1 };   // parameters; -1: refused
struct st { int live; int q; } S[2]; struct po { int live, s, np; size_t len[3]; uint8_t d[3][4]; } O[2];
static int nbind;
static const char *SN(int i) { return i ? "st" : ""; }
static void expect(int q, struct po *o, struct list *w) {
    memset(w, 0, sizeof *w);
    #define T(s) do { w->len[w->n] = strlen(s); memcpy(w->d[w->n++], s, strlen(s)); } while (0)
    #define A(i) do { w->len[w->n] = o->len[i]; memcpy(w->d[w->n++], o->d[i], o->len[i]); } while (0)
    #define J(p, k) do { memcpy(w->d[w->n - 1] + w->len[w->n - 1], p, k); w->len[w->n - 1] += k; } while (0)
    switch (q) {
    case 0: T("SET"); A(0); A(1); break;
    case 1: T("GET"); A(0); break;
    case 2: T("get"); T("k"); break;
    case 3: T("MGET"); A(1); A(0); A(1); break;
    case 4: T("SET"); T("k"); T("a"); J(o->d[0], o->len[0]); break;
    case 7: T("SET"); T("x'y"); T("\n"); break;
    case 8: T("DEL"); A(0); break;
    case 9: T("A"); A(0); J("b", 1); break;
    }
}
static void op(int first) {
    static struct list w; static const int QL_[] = { QLIST };
    int k = first ? 0 : sx_choose(5, "op");
    if (k == 0) {
        int s = sx_choose(2, "st"), q = QL_[sx_choose((int)(sizeof QL_ / sizeof QL_[0]), "q")], nt = first ? sx_choose(3, "types") : 1;
        if (nt == 2) nt = 40;
        begin('P'); raw(SN(s), strlen(SN(s)) + 1); raw(QS[q], strlen(QS[q]) + 1); be(nt, 2); for (int i = 0; i < nt; i++) be(25, 4); end(); feed();
        nothing(); if (QP[q] < 0) { rd_err_z(); sx_cover("bad statement"); } else { rd_raw("1\0\0\0\4", 5); rd_done(); S[s].live = 1; S[s].q = q; sx_cover("parsed"); }
    } else if (k == 1) {
        int o = sx_choose(2, "po"), s = sx_choose(2, "st"), np = sx_choose(3, "np"), nf = nbind++ == 0 ? sx_choose(2, "nf") : 0; struct po *t = &O[o]; struct po b = { 1, s, np };
        begin('B'); raw(SN(o), strlen(SN(o)) + 1); raw(SN(s), strlen(SN(s)) + 1); be(nf, 2); int fmt = nf ? sx_choose(3, "fmt") : 0; if (nf) be(fmt, 2); be(np, 2);
        for (int i = 0; i < np; i++) { int l = sx_choose(2, "pl") ? 2 : i ? 0 : -1; be((uint32_t)l, 4); if (l > 0) { sx_bytes(b.d[i], l, "pd"); raw(b.d[i], l); b.len[i] = l; } }
        be(1, 2); be(0, 2); end(); feed(); nothing();
        if (fmt == 2) { rd_err_z(); sx_cover("bad format"); return; }
        // an unknown statement may be refused here or when executed
        if (c->nsent && c->sent[0] == 'E') { sx_assert(!S[s].live || QP[S[s].q] != np, "a valid bind is accepted"); rd_err_z(); return; }
        rd_raw("2\0\0\0\4", 5); rd_done(); *t = b; sx_cover("bound");
    } else if (k == 2) {
        int s = sx_choose(2, "st"); begin('D'); in[n++] = 'S'; raw(SN(s), strlen(SN(s)) + 1); end(); feed(); nothing();
        if (!S[s].live) { rd_err_z(); return; }
        int np = QP[S[s].q]; sx_assert(rd_byte() == 't', "parameter description"); sx_assert(rd_be(4) == (uint32_t)(4 + 2 + 4 * np), "parameter description length"); sx_assert(rd_be(2) == (uint32_t)np, "number of parameters");
        for (int i = 0; i < np; i++) sx_assert(rd_be(4) == 25, "parameter type"); rd_done(); sx_cover("described");
    } else if (k == 3) {
        int o = sx_choose(2, "po"); begin('E'); raw(SN(o), strlen(SN(o)) + 1); be(0, 4); end(); feed(); struct po *t = &O[o];
        if (!t->live || !S[t->s].live || QP[S[t->s].q] != t->np) { nothing(); rd_err_z(); sx_cover("cannot execute"); return; }
        if (S[t->s].q == 5) { nothing(); c->nsent = rp = 0; return; }                             // empty statement
        expect(S[t->s].q, t, &w); executed(&w); sx_assert(c->nsent == 0, "nothing is written before the reply"); sx_cover("executed");
    } else { begin('S'); end(); feed(); nothing(); rd_ready(); rd_done(); sx_cover("synced"); }
}
static void harness_body(void) {
#ifdef NAMES
    static const int LN[] = { 0, 1, 62, 63, 64, 65, 200 }; int a = LN[sx_choose(7, "len")], b = LN[sx_choose(7, "len")];
    begin('P'); for (int i = 0; i < a; i++) in[n++] = 'x'; in[n++] = 0; raw("GET k", 6); be(0, 2); end(); feed(); nothing(); if (a >= 64) { rd_err_z(); return; } rd_raw("1\0\0\0\4", 5); rd_done();
    begin('B'); for (int i = 0; i < b; i++) in[n++] = 'y'; in[n++] = 0; for (int i = 0; i < a; i++) in[n++] = 'x'; in[n++] = 0; be(0, 2); be(0, 2); be(0, 2); end(); feed(); nothing(); if (b >= 64) { rd_err_z(); return; } rd_raw("2\0\0\0\4", 5); rd_done();
    begin('E'); for (int i = 0; i < b; i++) in[n++] = 'y'; in[n++] = 0; be(0, 4); end(); feed(); static struct list w; expect(2, 0, &w); w.len[0] = 3; memcpy(w.d[0], "GET", 3); executed(&w);
    begin('D'); in[n++] = 'S'; for (int i = 0; i < b; i++) in[n++] = 'x'; in[n++] = 0; end(); feed(); if (a == b) { sx_assert(rd_byte() == 't', "statement found"); } else rd_err_z();
#else
    for (int i = 0; i < NOPS; i++) op(i == 0);
    begin('S'); end(); feed(); nothing(); rd_ready(); rd_done();
    begin('Q'); raw("ok", 3); end(); feed(); static struct list w; w.n = 1; w.len[0] = 2; w.d[0][0] = 'o'; w.d[0][1] = 'k'; executed(&w);
#endif
}
#endif
void harness(void) {
    srv_start();
    size_t live = sx_heap_live();
    c = srv_open();
#ifndef FRAME
    start();
#endif
    harness_body();
    srv_close(c);
    sx_assert(sx_heap_live() == live, "the connection leaves no memory behind");
    srv_stop();
}
