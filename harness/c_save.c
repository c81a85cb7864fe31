// SAVE and LOAD as commands: the path and options reach save.c as given, and
// the reply tells whether it worked. save.c itself is decided by D01 to D03.
#include "server.h"
#include "save.h"
static int S_calls, S_load, S_fast, S_ret; static char S_path[64];
static int rec(const char *p, bool fast, int ld) { S_calls++; S_load = ld; S_fast = fast; if (strlen(p) > 60) sx_fail("path length"); strcpy(S_path, p); return S_ret; }
int save(const char *p, bool fast) { return rec(p, fast, 0); }
int load(const char *p, bool fast, struct load_stats *s) { (void)s; return rec(p, fast, 1); }
bool cleanwork(const char *p) { (void)p; sx_fail("no cleaning"); }
static struct net_conn *c; static struct bb q; static char tx[200]; static size_t tn;
enum { RESP, MEMC, PG };
static int proto;
static void send(const char **A, int n) {
    q.n = 0; if (proto == RESP) { r_cmd(&q, n); for (int i = 0; i < n; i++) r_str(&q, A[i]); }
    else { tn = 0; for (int i = 0; i < n; i++) { if (i) tx[tn++] = ' '; strcpy(tx + tn, A[i]); tn += strlen(A[i]); }
        b_c(&q, 'Q'); b_be32(&q, (uint32_t)tn + 5); b_raw(&q, tx, tn); b_c(&q, 0); }
    if (!c->closed) c->nsent = 0; srv_feed(c, q.d, q.n);
}
static int starts(const char *s) { return c->nsent >= strlen(s) && !memcmp(c->sent, s, strlen(s)); }
static void session(int real) {
    static uint8_t sym[4]; srv_start(); S_calls = 0;
    c = srv_open(); if (proto == PG) srv_feed(c, "\0\0\0\22\0\3\0\0user\0me\0\0", 18);
    { const char *A[] = { "PING" }; send(A, 1); } if (!real) { srv_close(c); srv_stop(); return; }
    persist = sx_choose(2, "persist") ? "disk/p" : "";
    int ld = sx_choose(2, "load"), up = sx_choose(2, "upper"), form = sx_choose(9, "form"), n = 0, bad = 0, fast = 0; const char *A[8]; const char *path = persist;
    A[n++] = ld ? up ? "LOAD" : "load" : up ? "SAVE" : "save"; const char *TO = ld ? up ? "FROM" : "from" : up ? "TO" : "to", *FA = up ? "FAST" : "fast";
    size_t l = 1 + sx_choose(3, "plen"); sx_bytes(sym, l, "path"); for (size_t i = 0; i < l; i++) sx_assume((sym[i] >= 'a') & (sym[i] <= 'z'));
    switch (form) {
    case 0: break;
    case 1: A[n++] = FA; fast = 1; break;
    case 2: A[n++] = TO; A[n++] = path = (char *)sym; break;
    case 3: A[n++] = TO; A[n++] = path = (char *)sym; A[n++] = FA; fast = 1; break;
    case 4: A[n++] = FA; A[n++] = TO; A[n++] = path = (char *)sym; fast = 1; break;
    case 5: A[n++] = TO; bad = 1; break;
    case 6: A[n++] = ld ? "to" : "from"; A[n++] = "x"; bad = 1; break;
    case 7: A[n++] = FA; A[n++] = "x"; bad = 1; break;
    case 8: A[n++] = TO; A[n++] = path = "a/b/c.d"; break;
    }
    S_ret = sx_choose(2, "fails") ? -1 : 0;
    send(A, n);
    if (bad || !*path) { sx_assert(S_calls == 0, "nothing is done"); sx_assert(c->nsent && c->sent[0] == (proto == PG ? 'E' : '-'), "refused"); sx_cover("refused"); }
    else {
        sx_assert(S_calls == 1, "done once"); sx_assert(S_load == ld, "the right one"); sx_assert(S_fast == fast, "as fast as asked for"); sx_assert(strlen(S_path) == strlen(path), "to the path given"); for (size_t i = 0; path[i]; i++) sx_assert(S_path[i] == path[i], "to the path given");
        if (S_ret) { sx_assert(c->sent[0] == (proto == PG ? 'E' : '-'), "failure is reported"); sx_cover("failure"); } else { sx_assert(proto == PG ? c->sent[0] == 'C' : starts("+OK\r\n") && c->nsent == 5, "success is reported"); sx_cover("success"); }
    }
    if (proto == PG) sx_assert(c->nsent > 6 && !memcmp(c->sent + c->nsent - 6, "Z\0\0\0\5I", 6), "ready again");
    sx_assert(!c->closed, "the connection stays"); sx_assert(pogocache_count(cache, 0) == 0, "contents stay");
    { const char *P[] = { "PING" }; send(P, 1); sx_assert(c->nsent > 0, "in step"); }
    srv_close(c); srv_stop();
}
void harness(void) { proto = sx_choose(2, "pg") ? PG : RESP; session(0); size_t live0 = sx_heap_live(); session(1); sx_assert(sx_heap_live() == live0, "nothing is left behind"); }
