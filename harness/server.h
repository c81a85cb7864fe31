// The real protocol and command layers (conn.c parse.c resp.c memcache.c
// http.c postgres.c cmds.c ... pogocache.c) over a recording network layer and
// a controlled environment (time, threads, process facts). Nothing of the
// protocol, command or cache code is replaced here.
#ifndef SERVER_H
#define SERVER_H
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdatomic.h>
#include <errno.h>
#include <limits.h>
#include <sys/resource.h>
#include "net.h"
#include "conn.h"
#include "args.h"
#include "cmds.h"
#include "parse.h"
#include "util.h"
#include "sys.h"
#include "xmalloc.h"
#include "pogocache.h"
#include "stats.h"
// ------------------------------------------------ what main.c would define
uint64_t seed = 1;
const char *path = "";
int verb = 0;
const char *auth = "";
bool useauth = false;
const char *persist = "";
int nthreads = 2;
const char *version = "1.2.3";
const char *githash = "abc";
atomic_bool sweep;
atomic_bool lowmem;
int nshards = 1;
int narenas = 1;
int64_t procstart = 0;
int maxconns = 8;
int useallocator = 0;
bool usetrackallocs = false;
struct pogocache *cache;
// ------------------------------------------------ environment
static int64_t H_now = INT64_C(5000000000000);            // boot clock, ns
static int64_t H_unix = INT64_C(1700000000000000000);     // wall clock, ns
static int H_nprocs = 2;
#ifdef STUBHASH
// which table slot a key hashes to does not matter here (S02 decides that for any layout)
uint64_t th64(const void *d, size_t n, uint64_t seed) { (void)d; (void)seed; return n * 3; }
#endif
int64_t sys_now(void) { return H_now; }
int64_t sys_unixnow(void) { return H_unix; }
int sys_nprocs(void) { return H_nprocs; }
uint64_t sys_seed(void) { return 0x1234567; }
size_t sys_memory(void) { return (size_t)1 << 30; }
const char *sys_arch(void) { return "x"; }
const char *sys_libc(void) { return "x"; }
const char *sys_os(void) { return "x"; }
void sys_genuseid(char id[16]) { memset(id, 'a', 16); }
uint64_t sys_threadid(void) { return 1; }
void sys_getmeminfo(struct sys_meminfo *i) { i->virt = 2; i->rss = 1; }
#ifndef SX_NATIVE
int getpid(void) { return 77; }
int getrusage(int w, struct rusage *u) { (void)w; (void)u; return -1; }
#endif
// Threads the code starts run to completion at the point where they are
// created (SRV_THREADS harnesses use the engine's scheduler instead).
#ifndef SRV_THREADS
static int H_failthread;      // which pthread_create calls fail, as they may (EAGAIN): 1 all, 2 all but the first, 3 every other from the first
static int H_threads;
int sx_pthread_create(pthread_t *th, const void *attr, void *(*fn)(void *), void *arg) {
    (void)attr;
    static int nth; int k = nth++;
    if (H_failthread == 1 || (H_failthread == 2 && k) || (H_failthread == 3 && k % 2 == 0)) return EAGAIN;
    *th = (pthread_t)(uintptr_t)(++H_threads);
    fn(arg);
    return 0;
}
int sx_pthread_join(pthread_t th, void **r) { sx_assert((uintptr_t)th >= 1 && (uintptr_t)th <= (uintptr_t)H_threads, "a thread that was started is joined"); if (r) *r = 0; return 0; }
int sx_pthread_detach(pthread_t th) { sx_assert((uintptr_t)th >= 1 && (uintptr_t)th <= (uintptr_t)H_threads, "a thread that was started is detached"); return 0; }
#endif
unsigned sx_sleep(unsigned s) { H_now += (int64_t)s * SECOND; H_unix += (int64_t)s * SECOND; return 0; }
// ------------------------------------------------ network layer
struct net_conn {
    void *udata; bool closed, tls;
    char *out; size_t len, cap;
    char *sent; size_t nsent, capsent;
    bool bg; void (*work)(void *); void (*done)(struct net_conn *, void *); void *bgudata; int nbg;
    size_t get, set, hits, misses;
    const char *rd; size_t rdlen; int nread;
};
void net_conn_setudata(struct net_conn *c, void *u) { c->udata = u; }
void *net_conn_udata(struct net_conn *c) { return c->udata; }
bool net_conn_isclosed(struct net_conn *c) { return c->closed; }
void net_conn_close(struct net_conn *c) { c->closed = true; }
bool net_conn_istls(struct net_conn *c) { return c->tls; }
const char *net_conn_addr(struct net_conn *c) { (void)c; return "9.9.9.9:1"; }
char *net_conn_out(struct net_conn *c) { return c->out; }
size_t net_conn_out_len(struct net_conn *c) { return c->len; }
size_t net_conn_out_cap(struct net_conn *c) { return c->cap; }
// grows to exactly what was asked for
void net_conn_out_ensure(struct net_conn *c, size_t n) {
    if (c->cap - c->len >= n) return;
    char *p = malloc(c->len + n);
    if (c->len) memcpy(p, c->out, c->len);
    free(c->out); c->out = p; c->cap = c->len + n;
}
void net_conn_out_setlen(struct net_conn *c, size_t n) { sx_assert(n < c->cap, "output length within the ensured space"); c->len = n; }
void net_conn_out_write_byte_nocheck(struct net_conn *c, char b) { sx_assert(c->len < c->cap, "unchecked output write fits"); c->out[c->len++] = b; }
void net_conn_out_write_byte(struct net_conn *c, char b) { net_conn_out_ensure(c, 1); c->out[c->len++] = b; }
void net_conn_out_write_nocheck(struct net_conn *c, const void *d, size_t n) {
    sx_assert(c->cap - c->len >= n, "unchecked output write fits"); if (n) memcpy(c->out + c->len, d, n); c->len += n; }
void net_conn_out_write(struct net_conn *c, const void *d, size_t n) { net_conn_out_ensure(c, n); if (n) memcpy(c->out + c->len, d, n); c->len += n; }
static void srv_flush(struct net_conn *c) {
    if (!c->len) return;
    if (c->nsent + c->len > c->capsent) {
        size_t cap = (c->nsent + c->len) * 2 + 64;
        char *p = malloc(cap); if (c->nsent) memcpy(p, c->sent, c->nsent);
        free(c->sent); c->sent = p; c->capsent = cap;
    }
    memcpy(c->sent + c->nsent, c->out, c->len); c->nsent += c->len;
    free(c->out); c->out = 0; c->len = c->cap = 0;
}
bool net_conn_bgwork(struct net_conn *c, void (*w)(void *), void (*d)(struct net_conn *, void *), void *u) {
    if (c->bg || c->closed) return false;
    srv_flush(c);
    c->bg = true; c->work = w; c->done = d; c->bgudata = u; c->nbg++; return true;
}
bool net_conn_bgworking(struct net_conn *c) { return c->bg; }
int net_conn_setnonblock(struct net_conn *c, bool s) { (void)c; (void)s; return 0; }
static void (*H_onread)(void);      // what other connections do while a read blocks
ssize_t net_conn_read(struct net_conn *c, char *b, size_t n) {
    if (H_onread) { void (*f)(void) = H_onread; H_onread = 0; f(); }
    if (!c->rd || c->nread++) return 0;
    if (n > c->rdlen) n = c->rdlen;
    memcpy(b, c->rd, n); return n;
}
ssize_t net_conn_write(struct net_conn *c, const char *b, size_t n) { net_conn_out_write(c, b, n); return n; }
static size_t S_get, S_set, S_hits, S_misses;
void net_stat_cmd_get_incr(struct net_conn *c) { (void)c; S_get++; }
void net_stat_cmd_set_incr(struct net_conn *c) { (void)c; S_set++; }
void net_stat_get_hits_incr(struct net_conn *c) { (void)c; S_hits++; }
void net_stat_get_misses_incr(struct net_conn *c) { (void)c; S_misses++; }
uint64_t stat_cmd_get(void) { return S_get; }
uint64_t stat_cmd_set(void) { return S_set; }
uint64_t stat_get_hits(void) { return S_hits; }
uint64_t stat_get_misses(void) { return S_misses; }
size_t net_nconns(void) { return 1; }
size_t net_tconns(void) { return 1; }
size_t net_rconns(void) { return 0; }
// ------------------------------------------------ event loop
static struct net_conn *srv_open(void) {
    struct net_conn *c = malloc(sizeof *c); memset(c, 0, sizeof *c);
    evopened(c, 0); return c;
}
// runs whatever background work was requested, then hands the connection back
static void srv_bg(struct net_conn *c) {
    while (c->bg) {
        c->work(c->bgudata);
        c->done(c, c->bgudata);
        c->bg = false;
        srv_flush(c);
        if (!c->closed) { evdata(c, "", 0, 0); srv_flush(c); }
    }
}
static void srv_feed_nobg(struct net_conn *c, const void *d, size_t n) {
    if (c->closed) return;
    char *b = malloc(n + 1); if (n) memcpy(b, d, n); b[n] = 0;
    evdata(c, b, n, 0); srv_flush(c);
    free(b);
}
static void srv_feed(struct net_conn *c, const void *d, size_t n) { srv_feed_nobg(c, d, n); srv_bg(c); }
static void srv_close(struct net_conn *c) {
    c->closed = true; evclosed(c, 0);
    free(c->out); free(c->sent); free(c);
}
static struct pogocache_opts H_po;
static void srv_start(void) {
    H_po.nshards = nshards; H_po.seed = 1;
    cache = pogocache_new(&H_po);
    sx_assume(cache != 0);
}
static void srv_stop(void) { pogocache_free(cache); cache = 0; }
// ------------------------------------------------ building requests, replies
struct bb { uint8_t d[4096]; size_t n; };
static void b_raw(struct bb *b, const void *p, size_t n) { if (b->n + n > sizeof b->d) sx_fail("harness buffer"); if (n) memcpy(b->d + b->n, p, n); b->n += n; }
static void b_s(struct bb *b, const char *s) { b_raw(b, s, strlen(s)); }
static void b_c(struct bb *b, int c) { uint8_t x = (uint8_t)c; b_raw(b, &x, 1); }
// decimal text of a concrete number (independent of util.c)
static void b_u(struct bb *b, uint64_t v) {
    char t[24]; int n = 0; do t[n++] = '0' + (int)(v % 10); while (v /= 10);
    while (n--) b_c(b, t[n]);
}
static void b_i(struct bb *b, int64_t v) { if (v < 0) { b_c(b, '-'); b_u(b, 0 - (uint64_t)v); } else b_u(b, v); }
static void b_be32(struct bb *b, uint32_t v) { b_c(b, v >> 24); b_c(b, v >> 16); b_c(b, v >> 8); b_c(b, v); }
static void b_be16(struct bb *b, uint32_t v) { b_c(b, v >> 8); b_c(b, v); }
// RESP request
static void r_cmd(struct bb *b, int n) { b_c(b, '*'); b_u(b, n); b_s(b, "\r\n"); }
static void r_arg(struct bb *b, const void *p, size_t n) { b_c(b, '$'); b_u(b, n); b_s(b, "\r\n"); b_raw(b, p, n); b_s(b, "\r\n"); }
static void r_str(struct bb *b, const char *s) { r_arg(b, s, strlen(s)); }
// RESP replies
#define e_bulk r_arg
static void e_int(struct bb *b, int64_t v) { b_c(b, ':'); b_i(b, v); b_s(b, "\r\n"); }
static void e_arr(struct bb *b, uint64_t n) { b_c(b, '*'); b_u(b, n); b_s(b, "\r\n"); }
static void e_null(struct bb *b) { b_s(b, "$-1\r\n"); }
// Postgres messages
static void pg_msg(struct bb *b, int type, const void *body, size_t n) { b_c(b, type); b_be32(b, (uint32_t)n + 4); b_raw(b, body, n); }
static void pg_query(struct bb *b, const void *q, size_t n) { b_c(b, 'Q'); b_be32(b, (uint32_t)n + 5); b_raw(b, q, n); b_c(b, 0); }
static void pg_startup(struct bb *b) { b_be32(b, 8); b_be32(b, 0x00030000); }
// everything sent since the last check is exactly this
static int same_bytes(const void *a, const void *b, size_t n) {
    const uint8_t *x = a, *y = b; uint8_t d = 0;
    for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i];
    return d == 0;
}
static void srv_expect_(struct net_conn *c, struct bb *e, const char *len, const char *txt) {
    if (c->nsent != e->n) {
#ifdef SX_NATIVE
        fprintf(stderr, "got %zu bytes: ", c->nsent); for (size_t i = 0; i < c->nsent; i++) fprintf(stderr, c->sent[i] >= 32 && c->sent[i] < 127 ? "%c" : "\\x%02x", (uint8_t)c->sent[i]);
        fprintf(stderr, "\nexpected %zu: ", e->n); for (size_t i = 0; i < e->n; i++) fprintf(stderr, e->d[i] >= 32 && e->d[i] < 127 ? "%c" : "\\x%02x", e->d[i]); fprintf(stderr, "\n");
#endif
        sx_fail(len);
    }
    sx_assert(same_bytes(c->sent, e->d, e->n), txt);
    c->nsent = 0; e->n = 0;
}
#define srv_expect(c, e, what) srv_expect_(c, e, what ": reply length", what ": reply bytes")
#endif
