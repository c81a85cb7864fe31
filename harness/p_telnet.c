// Inline ("telnet") commands against a reference tokenizer.
#include "server.h"
#ifndef L
#define L 8
#endif
enum { VALID, WAIT, BAD, UNSPEC };
#define MAXTOK 64
struct ref { int kind; size_t n; int nargs; size_t len[MAXTOK]; uint8_t d[MAXTOK][64]; };
static int ws(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static void ref_parse(const uint8_t *b, size_t n, struct ref *r) {
    memset(r, 0, sizeof *r);
    size_t i = 0;
    for (;;) {
        while (i < n && ws(b[i]) && b[i] != '\n') i++;
        if (i == n) { r->kind = WAIT; return; }
        if (b[i] == '\n') { r->kind = VALID; r->n = i + 1; return; }
        size_t *l = &r->len[r->nargs]; uint8_t *d = r->d[r->nargs];
        if (b[i] == '"' || b[i] == '\'') {
            uint8_t q = b[i++];
            for (;;) {
                if (i == n) { r->kind = WAIT; return; }
                uint8_t c = b[i];
                if (c == '\n') { r->kind = BAD; return; }
                if (c == q) { i++; break; }
                if (c == '\\') {
                    if (++i == n) { r->kind = WAIT; return; }
                    c = b[i];
                    if (c == '\n') { r->kind = UNSPEC; return; }
                    if (c == 'n') c = '\n'; else if (c == 'r') c = '\r'; else if (c == 't') c = '\t';
                    else if (c != '\\' && c != '"' && c != '\'') { r->kind = UNSPEC; return; }
                }
                d[(*l)++] = c; i++;
            }
            if (i == n) { r->kind = WAIT; return; }
            if (!ws(b[i])) { r->kind = BAD; return; }
        } else {
            while (i < n && !ws(b[i])) {
                if (b[i] == '"' || b[i] == '\'') { r->kind = UNSPEC; return; }   // a quote inside a word
                d[(*l)++] = b[i++];
            }
            if (i == n) { r->kind = WAIT; return; }
        }
        r->nargs++;
    }
}
static uint8_t in[256];
static size_t n;
static void lit(const char *s) { while (*s) in[n++] = *s++; }
static void sym(int k, const char *name) { sx_bytes(in + n, k, name); n += k; }
#ifdef TEMPLATE
static void build(void) {
    switch (sx_choose(5, "shape")) {
    case 0: lit("SET k \""); sym(4, "a"); lit("\"\r\n"); break;
    case 1: lit("SET '"); sym(2, "a"); lit("' 'x"); sym(2, "b"); lit("\r\n"); break;
    case 2: lit("GET "); sym(3, "a"); lit(" x\n"); sym(1, "b"); break;
    case 3: lit("DEL a b c d e f "); sym(2, "a"); lit(" 'q q'\t"); sym(1, "b"); lit("\n"); break;
    default: lit("\"GET\" "); sym(1, "a"); lit("\\\""); sym(2, "b"); lit("\n"); break;
    }
    size_t cut = sx_choose(4, "cut"); n -= cut;
}
#else
static void build(void) { n = 1 + sx_choose(L, "len"); sx_bytes(in, n, "in"); sx_assume(in[0] != '*'); }
#endif
void harness(void) {
    build();
    size_t live = sx_heap_live();
    int term = sx_choose(2, "term");
    char *d = malloc(n + term); memcpy(d, in, n); if (term) d[n] = 0;
    struct args a = {0}; int proto = PROTO_RESP; bool nr = 1, ka = 1; int hv = 9; struct pg *pg = 0;
    ssize_t r = parse_command(d, n, &a, &proto, &nr, &hv, &ka, &pg);
    sx_obs((uint64_t)r);
    static struct ref f; ref_parse(in, n, &f);
    switch (f.kind) {
    case VALID: sx_cover("valid");
        sx_assert(r == (ssize_t)f.n, "a complete line is consumed exactly");
        sx_assert(args_count(&a) == f.nargs, "argument count");
        for (int i = 0; i < f.nargs; i++) {
            size_t l; const char *p = args_at(&a, i, &l);
            sx_assert(l == f.len[i] && same_bytes(p, f.d[i], l), "argument bytes");
        }
        break;
    case WAIT: sx_cover("wait"); sx_assert(r == 0, "an unfinished line waits for more"); break;
    case BAD: sx_cover("bad"); sx_assert(r == -1, "unbalanced quotes are refused"); break;
    default: break;
    }
    args_free(&a);
    free(d);
    sx_assert(sx_heap_live() == live, "parsing keeps no memory");
}
