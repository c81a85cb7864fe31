// RESP request parsing against a reference reading of the same bytes.
#include "server.h"
#ifndef L
#define L 10
#endif
#define MAXN 200
enum { VALID, WAIT, BAD, BADSOON, UNSPEC };
struct ref { int kind; size_t n; int nargs; size_t off[MAXN], len[MAXN]; };
// one "<number>\r\n" line; *pos is moved behind it
static int ref_num(const uint8_t *b, size_t n, size_t *pos, int64_t lo, int64_t hi, int64_t *out) {
    size_t i = *pos, e = i;
    int bad = 0, neg = 0, unspec = 0; uint64_t v = 0; int digits = 0, big = 0;
    while (e < n && b[e] != '\r') e++;
    for (size_t k = i; k < e; k++) {
        uint8_t c = b[k];
        if (k == i && c == '-') neg = 1;
        else if (k == i && c == '+') unspec = 1;
        else if (c >= '0' && c <= '9') { digits++; if (v > (UINT64_MAX / 2 - 9) / 10) big = 1; else v = v * 10 + (c - '0'); }
        else bad = 1;
    }
    if (e == n) { if (n - i > 32) return BAD; return bad || n - i > 20 ? BADSOON : WAIT; }   // no end of line yet
    if (e + 1 == n) return bad || digits == 0 || e - i > 20 ? BADSOON : WAIT;
    if (b[e + 1] != '\n') return BAD;
    if (bad || digits == 0 || big) return BAD;
    if (unspec || e - i > 20) return UNSPEC;      // a plus sign, or a pile of leading zeros: either reading is fine
    int64_t x = neg ? -(int64_t)v : (int64_t)v;
    if (x < lo || x > hi) return BAD;
    *out = x; *pos = e + 2; return VALID;
}
static void ref_parse(const uint8_t *b, size_t n, struct ref *r) {
    memset(r, 0, sizeof *r);
    size_t p = 1; int64_t na = 0;
    r->kind = ref_num(b, n, &p, INT64_MIN, MAXARGS, &na);
    if (r->kind != VALID) return;
    for (int64_t j = 0; j < na; j++) {
        if (p == n) { r->kind = WAIT; return; }
        if (b[p] != '$') { r->kind = BAD; return; }
        p++;
        int64_t len = 0;
        r->kind = ref_num(b, n, &p, 0, MAXARGSZ, &len);
        if (r->kind != VALID) return;
        if (n - p < (size_t)len + 2) { r->kind = WAIT; return; }
        if (b[p + len] != '\r' || b[p + len + 1] != '\n') { r->kind = UNSPEC; return; }
        if (r->nargs < MAXN) { r->off[r->nargs] = p; r->len[r->nargs] = len; }
        r->nargs++;
        p += len + 2;
    }
    r->n = p;
}
static uint8_t in[4096];
static size_t n;
#ifdef TEMPLATE
// a longer message whose shape is fixed but whose digits, payloads and line
// ends are arbitrary
static void lit(const char *s) { while (*s) in[n++] = *s++; }
static void sym(int k, const char *name) { sx_bytes(in + n, k, name); n += k; }
static void build(void) {
    switch (sx_choose(6, "shape")) {
    case 0: lit("*2\r\n$"); sym(1, "a"); lit("\r\n"); sym(3, "b"); lit("\r\n$1\r\n"); sym(1, "c"); lit("\r\n"); break;
    case 1: lit("*1\r\n$12\r\n"); sym(12, "a"); lit("\r\n"); sym(2, "b"); break;
    case 2: lit("*2\r\n$0\r\n\r\n$2\r\n"); sym(2, "a"); sym(2, "b"); break;
    case 3: lit("*3\r\n$3\r\nSET\r\n$1\r\n"); sym(1, "a"); lit("\r\n$"); sym(2, "b"); lit("\r\n"); sym(4, "c"); break;
    case 4: lit("*1\r\n"); sym(2, "a"); lit("0000000000000000000000000001\r"); sym(1, "c"); break;
    case 5: { int m = sx_choose(2, "big") ? 9 : 170; in[n++] = '*'; if (m > 99) in[n++] = '1'; if (m > 9) in[n++] = '0' + m / 10 % 10; in[n++] = '0' + m % 10; lit("\r\n");
        for (int i = 0; i < m; i++) { lit("$1\r\n"); if (i == m - 1) sym(1, "last"); else in[n++] = 'a' + i % 26; lit("\r\n"); } break; }
    }
    // cut anywhere near the end
    size_t cut = sx_choose(n > 8 ? 8 : 1, "cut"); n -= cut;
}
#else
static void build(void) { n = 1 + sx_choose(L, "len"); in[0] = '*'; if (n > 1) sx_bytes(in + 1, n - 1, "in"); }
#endif
void harness(void) {
    build();
    size_t live = sx_heap_live();
    // the network layer ends a fresh packet with a zero byte, a buffered one is not terminated
    int term = sx_choose(2, "term");
    char *d = malloc(n + term); memcpy(d, in, n); if (term) d[n] = 0;
    struct args a = {0}; int proto = sx_choose(2, "known") ? PROTO_RESP : 0; bool nr = 1, ka = 1; int hv = 9; struct pg *pg = 0;
    ssize_t r = parse_command(d, n, &a, &proto, &nr, &hv, &ka, &pg);
    sx_obs((uint64_t)r);
    sx_assert(proto == PROTO_RESP, "a request that starts with * is RESP");
    static struct ref f; ref_parse(in, n, &f);
    switch (f.kind) {
    case VALID: sx_cover("valid");
        sx_assert(r == (ssize_t)f.n, "a complete request is consumed exactly");
        sx_assert(args_count(&a) == f.nargs, "argument count");
        for (int i = 0; i < f.nargs && i < MAXN; i++) {
            size_t l; const char *p = args_at(&a, i, &l);
            sx_assert(l == f.len[i] && same_bytes(p, in + f.off[i], l), "argument bytes");
        }
        break;
    case WAIT: sx_cover("wait"); sx_assert(r == 0, "an unfinished request waits for more"); break;
    case BAD: sx_cover("bad"); sx_assert(r == -1, "a malformed request is refused"); break;
    case BADSOON: sx_assert(r == 0 || r == -1, "a malformed unfinished request is not executed"); break;
    default: break;
    }
    args_free(&a);
    free(d);
    sx_assert(sx_heap_live() == live, "parsing keeps no memory");
}
