// The event loop (the real net.c) over sockets, an event queue and clients that
// the harness drives. Each call of epoll_wait is the environment's turn.
#include "sx.h"
#include "net.h"
#include "tls.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <stdatomic.h>
#ifndef ROUNDS
#define ROUNDS 3
#endif
#ifndef ACTS
#define ACTS 1
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef LIMIT_
#define LIMIT_ 10
#endif
#ifndef SLOW
#define SLOW 0        // how many times a socket takes less than offered
#endif
#ifndef IOERR
#define IOERR 0       // how many reads and writes may fail
#endif
#ifndef SETERR
#define SETERR 0
#endif
#ifndef BG
#define BG 0
#endif
#ifndef KINDS
#define KINDS 1       // 1 tcp, 2 tcp and unix, 3 and tls
#endif
#ifndef HASHMUL
#define HASHMUL 1
#endif
#ifndef NOUNIX
#define NOUNIX 0
#endif
#ifndef NOTHREAD
#define NOTHREAD 0
#endif
#ifndef QS
#define QS 4
#endif
const int verb = 0; int useallocator = 0; bool usetrackallocs = false; void sys_getmeminfo(void *i) { (void)i; }
void *xmalloc(size_t n) { void *p = malloc(n ? n : 1); sx_assume(p != 0); return p; } void *xrealloc(void *p, size_t n) { p = realloc(p, n); sx_assume(p != 0); return p; } void xfree(void *p) { free(p); }
uint64_t mix13(uint64_t k) { return k * HASHMUL; }
void sn_exit(int code) { (void)code; sx_fail("the server keeps running"); }
// ---- clients
enum { TCP, UNIX_, TLS_ };
#define NC 4
struct cli { int used, kind, fd, pend, eof, rst; uint8_t in[8]; int nin, rd; uint8_t tx[24]; int ntx; int dead, full, spin;   // socket side
    int opened, gone, resume; uint8_t got[8]; int ngot; uint8_t out[24]; int nout; int wantclose, bg, bgdone, werr; struct net_conn *nc; };  // application side
static struct cli C[NC]; static int nC;
#define LFD 10
static int L_kind[3], nL, L_on[3]; static int H_slow, H_ioerr, H_seterr, n_rej, n_tot, n_drop, n_seterr, n_nothread;
static struct { int open, cli, in, mask, nb; } FD[40];
static int fd_new(void) { for (int f = 20; f < 40; f++) if (!FD[f].open) { memset(&FD[f], 0, sizeof FD[f]); FD[f].open = 1; FD[f].cli = -1; return f; } sx_fail("harness: descriptors"); }
static int isL(int fd) { return fd >= LFD && fd < LFD + nL; }
static struct cli *who(int fd) { if (fd < 20 || fd >= 40 || !FD[fd].open || FD[fd].cli < 0) sx_fail("a socket that is open is used"); return &C[FD[fd].cli]; }
static int flip(int *left, const char *n) { if (*left > 0 && sx_choose(2, n)) { --*left; if (left == &H_seterr) n_seterr++; return 1; } return 0; }
static int nextkind;
int sn_socket(int a) { (void)a; L_kind[nL] = a == AF_UNIX ? UNIX_ : nextkind; return LFD + nL++; }
int sn_bind(int f, const void *a, size_t n) { (void)a; (void)n; if (!isL(f)) sx_fail("listener"); return 0; }
int sn_listen(int f, int b) { (void)b; if (!isL(f)) sx_fail("listener"); L_on[f - LFD] = 1; return 0; }
int sn_connect(int f) { (void)f; return -1; } int sn_unlink(const char *p) { (void)p; return 0; } int sn_getpeername(int f, void *a, void *l) { (void)f; (void)a; (void)l; return -1; } const char *sn_inet_ntop(int f, const void *a, char *b, size_t n) { (void)f; (void)a; (void)n; return b; }
static struct addrinfo AI; int sn_getaddrinfo(const char *h, const char *p, struct addrinfo **r) { (void)h; nextkind = strcmp(p, "2") ? TCP : TLS_; memset(&AI, 0, sizeof AI); AI.ai_family = AF_INET; *r = &AI; return 0; } void sn_freeaddrinfo(struct addrinfo *a) { (void)a; }
static int probe;
int sn_fcntl(int f, int c, long v) { if (probe) { probe = f; return 2; } if (c == F_GETFL) return 2; if (c != F_SETFL) return -1; if (isL(f)) return 0; who(f); if (flip(&H_seterr, "fcntl")) { errno = EINVAL; return -1; } FD[f].nb = (v & O_NONBLOCK) != 0; return 0; }
int sn_setsockopt(int f, int a, int b, const void *v, size_t n) { (void)a; (void)b; (void)v; (void)n; if (isL(f)) return 0; who(f); if (flip(&H_seterr, "setsockopt")) { errno = EINVAL; return -1; } return 0; }
int sn_epoll_create(void) { return 9; }
int sn_epoll_ctl(int q, int op, int f, struct epoll_event *e) {
    if (q != 9) sx_fail("the event queue is used");
    if (isL(f)) return 0; struct cli *c = who(f);
    if (op == EPOLL_CTL_ADD) { if (FD[f].in) { errno = EEXIST; return -1; } if (!c->opened && flip(&H_seterr, "ctl")) { errno = ENOSPC; return -1; } FD[f].in = 1; FD[f].mask = e->events & (EPOLLIN | EPOLLOUT); if (e->data.fd != f) sx_fail("events name their socket"); }
    else if (op == EPOLL_CTL_DEL) { if (!FD[f].in) { errno = ENOENT; return -1; } FD[f].in = 0; }
    else { if (!FD[f].in) { errno = ENOENT; return -1; } FD[f].mask = e->events & (EPOLLIN | EPOLLOUT); }
    return 0;
}
int sn_accept(int l) {
    if (!isL(l)) sx_fail("accepting on a listener");
    for (int i = 0; i < nC; i++) if (C[i].pend && C[i].kind == L_kind[l - LFD]) { if (flip(&H_seterr, "accept")) { errno = EMFILE; return -1; } int f = fd_new(); FD[f].cli = i; C[i].pend = 0; C[i].fd = f; return f; }
    errno = EAGAIN; return -1;
}
static int istls;
#ifdef RECORD
// one TLS client that sends records: a read takes (a part of) one record, and what is left of it makes no event
static char R_buf[16384]; static size_t R_size[2], R_left, R_sent, R_got; static int R_n, R_next;
static ssize_t rec_read(void *d, size_t n) {
    if (!R_left) { if (R_next == R_n) { errno = EAGAIN; return -1; } R_left = R_size[R_next++]; }
    size_t k = n < R_left ? n : R_left; memcpy(d, R_buf + (R_sent & 255), k > 4000 ? 4000 : k); memset((char *)d + (k > 4000 ? 4000 : k), 'r', k > 4000 ? k - 4000 : 0); R_left -= k; R_sent += k; return (ssize_t)k;
}
#endif
ssize_t sn_read(int f, void *d, size_t n) {
    struct cli *c = who(f); if (c->kind == TLS_ && !istls) sx_fail("a TLS client is read through TLS"); if (!FD[f].nb) sx_fail("sockets do not block the loop");
    if (n == 0) return 0; if (flip(&H_ioerr, "readerr")) { c->dead = 1; errno = ECONNRESET; return -1; } if (c->rst) { c->dead = 1; errno = ECONNRESET; return -1; }
    int left = c->nin - c->rd; if (!left) { if (c->eof) { c->dead = 1; return 0; } errno = EAGAIN; return -1; }
    if (left > 1 && flip(&H_slow, "readpart")) left = 1; if ((size_t)left > n) left = (int)n;
    memcpy(d, c->in + c->rd, left); c->rd += left; return left;
}
ssize_t sn_write(int f, const void *d, size_t n) {
    struct cli *c = who(f); if (c->kind == TLS_ && !istls) sx_fail("a TLS client is written through TLS");
    if (c->full || flip(&H_slow, "full")) { if (c->full && ++c->spin > 2) sx_fail("a client that does not read does not hold up the others"); c->full = 1; errno = EAGAIN; return -1; } if (c->rst) { c->werr = c->dead = 1; errno = EPIPE; return -1; } if (flip(&H_ioerr, "writeerr")) { c->werr = c->dead = 1; errno = EPIPE; return -1; }
    if (n > 1 && flip(&H_slow, "writepart")) n = 1; if (c->ntx + n > sizeof c->tx) sx_fail("a reply is sent once");
    memcpy(c->tx + c->ntx, d, n); c->ntx += (int)n; return (ssize_t)n;
}
int sn_close(int f) {
    if (isL(f)) sx_fail("listeners stay open"); struct cli *c = who(f); if (c->bg) sx_fail("a connection with work going on stays open");
    if (c->opened && !c->gone) sx_fail("the application is told before the socket is closed");
    if (!c->opened && !c->gone) { n_drop++; if (FD[f].in && !n_seterr) { int o = 0; for (int i = 0; i < nC; i++) o += C[i].opened & !C[i].gone; sx_assert(o >= LIMIT_, "a client is turned away only when there are too many"); sx_cover("turned away"); } } c->gone = 1; c->fd = -1; FD[f].open = 0; FD[f].in = 0; return 0;
}
#ifdef RECORD
#define RECREAD R_n ? rec_read(d, n) :
#else
#define RECREAD
#endif
#if KINDS > 2
struct tls { int cli; }; static struct tls T[NC];
bool tls_accept(int fd, struct tls **t) { struct cli *c = who(fd); sx_assert(c->kind == TLS_, "TLS is spoken on the TLS port only"); if (flip(&H_seterr, "tls")) return false; T[FD[fd].cli].cli = FD[fd].cli + 1; *t = &T[FD[fd].cli]; return true; }
int tls_close(struct tls *t, int fd) { who(fd); if (!t->cli) sx_fail("TLS state is released once"); t->cli = 0; return sn_close(fd); }
ssize_t tls_read(struct tls *t, int fd, void *d, size_t n) { if (!t || t != &T[FD[fd].cli]) sx_fail("the connection's own TLS state"); istls = 1; ssize_t r = RECREAD sn_read(fd, d, n); istls = 0; return r; }
ssize_t tls_write(struct tls *t, int fd, const void *d, size_t n) { if (!t || t != &T[FD[fd].cli]) sx_fail("the connection's own TLS state"); istls = 1; ssize_t r = sn_write(fd, d, n); istls = 0; return r; }
#else
bool tls_accept(int fd, struct tls **t) { (void)fd; *t = 0; sx_fail("no TLS"); } int tls_close(struct tls *t, int fd) { (void)t; (void)fd; sx_fail("no TLS"); } ssize_t tls_read(struct tls *t, int fd, void *d, size_t n) { (void)t; (void)fd; (void)d; (void)n; sx_fail("no TLS"); } ssize_t tls_write(struct tls *t, int fd, const void *d, size_t n) { (void)t; (void)fd; (void)d; (void)n; sx_fail("no TLS"); }
#endif
// ---- the application
static struct cli *app(struct net_conn *nc) { struct cli *c = net_conn_udata(nc); if (!c || !c->opened || c->gone || c->nc != nc) sx_fail("callbacks are for open connections"); return c; }
static void say(struct net_conn *nc, struct cli *c, const void *d, int n) { if (n) { net_conn_out_write(nc, d, (size_t)n); memcpy(c->out + c->nout, d, n); c->nout += n; } }
static void a_opened(struct net_conn *nc, void *u) {
    sx_assert(u == (void *)C, "the application's own data is passed"); probe = 1; net_conn_setnonblock(nc, true); int f = probe; probe = 0; struct cli *c = who(f);
    if (c->opened || c->gone) sx_fail("a connection is opened once"); c->opened = 1; c->nc = nc; net_conn_setudata(nc, c); n_tot++; sx_assert(FD[f].nb, "sockets do not block the loop");
    int o = 0; for (int i = 0; i < nC; i++) o += C[i].opened & !C[i].gone; sx_assert(o <= LIMIT_, "the connection limit holds");
    sx_assert(net_conn_istls(nc) == (c->kind == TLS_), "TLS exactly on the TLS port"); sx_cover("opened");
}
static void a_closed(struct net_conn *nc, void *u) { (void)u; struct cli *c = app(nc); c->gone = 1; sx_assert(!c->bg, "no work is going on when it closes"); sx_assert(c->dead || c->wantclose, "a connection is closed for a reason"); sx_assert(c->ntx == c->nout || c->werr, "replies are sent before closing"); sx_cover("closed"); }
static struct { void *(*fn)(void *); void *arg; } W; static int W_on, H_nothread;
int sx_pthread_create(pthread_t *t, const void *a, void *(*fn)(void *), void *arg) { (void)a; memset(t, 0, sizeof *t); if (flip(&H_nothread, "nothread")) { n_nothread++; return EAGAIN; } if (W_on) sx_fail("harness: one piece of work"); W.fn = fn; W.arg = arg; W_on = 1; return 0; }
int sx_pthread_join(pthread_t t, void **r) { (void)t; (void)r; sx_fail("no waiting"); } int sx_pthread_detach(pthread_t t) { (void)t; return 0; } unsigned sx_sleep(unsigned s) { (void)s; return 0; }
static void b_work(void *u) { struct cli *c = u; if (c->bg != 1) sx_fail("work is done once"); c->bg = 2; }
static void b_done(struct net_conn *nc, void *u) { struct cli *c = u; if (app(nc) != c) sx_fail("work is done for its own connection"); if (c->bg != 2) sx_fail("work is done before the loop goes on"); c->bg = 0; c->bgdone++; c->resume = 1; say(nc, c, "!", 1); sx_cover("work done"); }
static int inwork(void) { for (int i = 0; i < nC; i++) if (C[i].bg) return 1; return 0; }
static void a_data(struct net_conn *nc, const void *d, size_t n, void *u) {
    (void)u; struct cli *c = app(nc); c->resume = 0;
#ifdef RECORD
    if (R_n) { R_got += n; sx_assert(R_got == R_sent, "everything read is passed on"); if (sx_choose(2, "answer")) say(nc, c, "ok", 2); return; }
#endif
 if (c->bg) sx_fail("nothing is read while work is going on"); if (c->ntx != c->nout) sx_fail("a client that does not read is not read from"); if (c->wantclose) sx_fail("nothing is read after closing");
    if (c->ngot + n > sizeof c->got) sx_fail("more is read than was sent"); memcpy(c->got + c->ngot, d, n); c->ngot += (int)n;
    sx_assert(((const char *)d)[n] == 0, "the data is followed by a zero byte"); sx_assert(c->ngot == c->rd, "everything read is passed on");
    switch (n ? sx_choose(3 + (BG && !inwork()), "answer") : 0) {
    case 0: break;
    case 1: say(nc, c, d, (int)n); say(nc, c, "xyz", 3); sx_cover("answered"); break;
    case 2: say(nc, c, "bye", 3); c->wantclose = 1; net_conn_close(nc); break;
    case 3: say(nc, c, "<", 1); c->bg = 1; { int was = n_nothread; if (!net_conn_bgwork(nc, b_work, b_done, c)) { c->bg = 0; sx_assert(!net_conn_bgworking(nc), "refused work does not go on"); sx_assert(c->werr || n_nothread > was, "work is refused for a reason"); if (!c->werr) say(nc, c, ">", 1); } else sx_assert(net_conn_bgworking(nc), "work goes on"); } break;
    }
}
// ---- the environment's turn
static int rounds; static size_t live0, bytes0;
static int waits(struct cli *c) { return c->fd >= 0 && FD[c->fd].in && FD[c->fd].mask == EPOLLOUT; }
static void check(void) {
    size_t o = 0;
    for (int i = 0; i < nC; i++) { struct cli *c = &C[i];
        if (c->opened && !c->werr) { if (!c->full && !c->bg) sx_assert(c->ntx == c->nout || waits(c), "every reply is sent"); sx_assert(c->ntx <= c->nout, "every reply is sent once"); for (int j = 0; j < c->ntx; j++) sx_assert(c->tx[j] == c->out[j], "replies arrive as they were written"); }
        for (int j = 0; j < c->ngot; j++) sx_assert(c->got[j] == c->in[j], "requests arrive as they were sent");
        if (!c->opened || c->gone) continue;
        o++; if (c->bg) continue; sx_assert(!c->dead, "a broken connection is closed");
        if (c->ntx < c->nout) { sx_assert(waits(c), "a reply that is left is sent when there is room"); sx_cover("full"); continue; }
        sx_assert(!c->wantclose, "a connection that is to be closed is closed"); sx_assert(!c->resume, "requests that came with the work are answered");
        sx_assert(FD[c->fd].in && FD[c->fd].mask == EPOLLIN, "an open connection is listened to");
    }
    sx_assert(net_nconns() == o, "connections are counted"); sx_assert(net_tconns() == (size_t)n_tot, "all connections are counted"); sx_assert(net_rconns() <= (size_t)n_drop, "rejections are counted"); if (!n_seterr) sx_assert(net_rconns() == (size_t)n_drop, "rejections are counted");
    if (!o && !W_on) { sx_assert(sx_heap_live() <= live0 + (KINDS > 2), "nothing is left of closed connections"); if (n_tot) sx_cover("all gone"); }
}
static int ready_(int f) { if (!FD[f].open || !FD[f].in) return 0; struct cli *c = &C[FD[f].cli]; int m = 0; if ((FD[f].mask & EPOLLIN) && (c->rd < c->nin || c->eof || c->rst)) m |= EPOLLIN; if ((FD[f].mask & EPOLLOUT) && (!c->full || c->rst)) m |= EPOLLOUT; if (c->rst) { c->full = 0; m |= EPOLLERR | EPOLLHUP; } return m; }
static void act(void) {
    int opt[32], n = 0; opt[n++] = 0;
    if (nC < MAXC) for (int k = 0; k < KINDS; k++) if (!NOUNIX || k != 1) opt[n++] = 1 + k;
    for (int i = 0; i < nC; i++) { struct cli *c = &C[i]; if (c->gone || c->eof || c->rst) continue; if (c->nin < 4) opt[n++] = 10 + i; opt[n++] = 20 + i; if (IOERR) opt[n++] = 30 + i; } for (int i = 0; i < nC; i++) if (C[i].full && !C[i].gone) opt[n++] = 40 + i;
    if (W_on) opt[n++] = 4;
    int a = opt[sx_choose(n, "act")];
    if (a == 0) return;
    if (a == 4) { W_on = 0; W.fn(W.arg); return; }
    if (a < 4) { struct cli *c = &C[nC++]; c->used = 1; c->kind = a == 1 ? TCP : a == 2 ? UNIX_ : TLS_; c->pend = 1; c->fd = -1; return; }
    struct cli *c = &C[a % 10]; if (a < 20) { int k = 1 + (SLOW ? sx_choose(2, "two") : 0); sx_bytes(c->in + c->nin, k, "sent"); c->nin += k; } else if (a < 30) c->eof = 1; else if (a < 40) c->rst = 1; else c->full = 0;
}
int sn_epoll_wait(int q, struct epoll_event *ev, int max, int tmo) {
    static int fds[12], ms[12]; (void)tmo; for (int i = 0; i < nC; i++) C[i].spin = 0; if (q != 9 || max < 1) sx_fail("the event queue is used");
    if (!rounds) { live0 = sx_heap_live(); bytes0 = sx_heap_bytes(); } check();
#ifdef RECORD
    if (R_n) sx_assert(R_left == 0, "everything a TLS client sent is passed on"); struct cli *rc = &C[0]; memset(ev, 0, sizeof *ev); ev[0].events = EPOLLIN;
    if (rounds++ == 0) { nC = 1; rc->used = 1; rc->kind = TLS_; rc->pend = 1; rc->fd = -1; for (int l = 0; l < nL; l++) if (L_kind[l] == TLS_) ev[0].data.fd = LFD + l; return 1; }
    if (rounds == 2) { R_n = 1 + sx_choose(2, "records"); for (int i = 0; i < R_n; i++) { static const int SZ[] = { 16384, 16383, 16382, 1 }; R_size[i] = (size_t)SZ[sx_choose(4, "size")]; } }
    if (R_next < R_n) { ev[0].data.fd = rc->fd; return 1; }
    size_t all = 0; for (int i = 0; i < R_n; i++) all += R_size[i]; sx_assert(R_got == all, "everything a TLS client sent is passed on"); sx_cover("records"); sx_end();
#endif
#ifdef CHURN
    struct cli *c = &C[0]; if (!(rounds & 1)) { if (c->opened) sx_assert(c->gone, "the client is gone"); if (rounds == 2) bytes0 = sx_heap_bytes(); if (rounds == ROUNDS) { sx_assert(sx_heap_bytes() <= bytes0, "memory does not grow with the number of past connections"); sx_cover("churned"); sx_end(); } memset(c, 0, sizeof *c); nC = 1; c->used = 1; c->pend = 1; c->fd = -1; c->eof = 1; }
    rounds++; int f = c->pend ? LFD : c->fd; memset(ev, 0, sizeof *ev); ev[0].events = EPOLLIN; ev[0].data.fd = f; return 1;
#endif
    if (rounds++ == ROUNDS) sx_end();
    for (int i = 0; i < ACTS; i++) act();
    int n = 0;
    for (int l = 0; l < nL; l++) for (int i = 0; i < nC; i++) if (C[i].pend && C[i].kind == L_kind[l]) { fds[n] = LFD + l; ms[n++] = EPOLLIN; break; }
    for (int f = 20; f < 40; f++) { int m = ready_(f); if (m) { fds[n] = f; ms[n++] = m; } }
    if (!n) { errno = EINTR; return -1; }
    int from = 0, to = n; if (n > 1) { int w = sx_choose(n + 1, "events"); if (w < n) { from = w; to = w + 1; } } if (to - from > max) to = from + max;
    memset(ev, 0, sizeof *ev * (size_t)(to - from)); for (int i = from; i < to; i++) { ev[i - from].events = ms[i]; ev[i - from].data.fd = fds[i]; }
    return to - from;
}
static void a_listening(void *u) { sx_assert(u == (void *)C, "the application's own data is passed"); sx_assert(nL > 0 && L_on[0], "listening has begun"); } static int rdy; static void a_ready(void *u) { (void)u; rdy++; }
void harness(void) {
    H_slow = SLOW; H_ioerr = IOERR; H_seterr = SETERR; H_nothread = NOTHREAD;
    static struct net_opts o; o.host = "h"; o.port = "1"; o.tlsport = KINDS > 2 ? "2" : ""; o.unixsock = KINDS > 1 ? "s" : ""; o.queuesize = QS; o.nthreads = 1; o.maxconns = LIMIT_; o.nowarmup = true; o.nouring = true; o.tcpnodelay = o.keepalive = true; o.udata = C; o.listening = a_listening; o.ready = a_ready; o.data = a_data; o.opened = a_opened; o.closed = a_closed;
    net_main(&o); sx_fail("the server keeps running");
}
