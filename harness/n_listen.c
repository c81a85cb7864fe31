// Where the server listens and how its sockets are set up: the real net_main
// over recorded system calls, any of which may fail.
#include "sx.h"
#include "net.h"
#include "tls.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <netinet/tcp.h>
#include <sys/un.h>
#ifndef FAIL
#define FAIL 0
#endif
#ifndef NTH
#define NTH 1
#endif
const int verb = 0; int useallocator = 0; bool usetrackallocs = false; void sys_getmeminfo(void *i) { (void)i; }
void *xmalloc(size_t n) { void *p = malloc(n ? n : 1); sx_assume(p != 0); return p; } void *xrealloc(void *p, size_t n) { p = realloc(p, n); sx_assume(p != 0); return p; } void xfree(void *p) { free(p); }
uint64_t mix13(uint64_t k) { return k; }
bool tls_accept(int fd, struct tls **t) { (void)fd; *t = 0; sx_fail("no client yet"); } int tls_close(struct tls *t, int fd) { (void)t; (void)fd; sx_fail("no client yet"); } ssize_t tls_read(struct tls *t, int fd, void *d, size_t n) { (void)t; (void)fd; (void)d; (void)n; sx_fail("no client yet"); } ssize_t tls_write(struct tls *t, int fd, const void *d, size_t n) { (void)t; (void)fd; (void)d; (void)n; sx_fail("no client yet"); }
static int H_fail = FAIL, failed, noaddr, toolong, ended; static struct net_opts o; static char UPATH[128]; static int want[3], wantany;
static int flip(const char *n) { if (H_fail > 0 && sx_choose(2, n)) { H_fail--; failed = 1; return 1; } return 0; }
// ---- sockets
struct sock { int open, family, nb, bound, listening, backlog, reuse, nodelay, quick, keep, idle, intvl, cnt, cli; const void *addr; int which; };
static struct sock S[12]; static int nS; enum { F0 = 10 };
static struct sock *sk(int f) { if (f < F0 || f >= F0 + nS || !S[f - F0].open) sx_fail("a socket that is open is used"); return &S[f - F0]; }
static struct sockaddr_in A4[2]; static struct sockaddr_in6 A6[2]; static struct addrinfo AI[4]; static int nai, freed, gai; static const char *curport;
void sn_exit(int code) {
    if (ended) sx_fail("the program ends once"); ended = 1;
    sx_assert(code != 0, "failing to start is an error"); sx_assert(failed | noaddr | toolong | !wantany, "the server starts when nothing is wrong"); sx_cover("refused"); sx_end();
}
int sn_socket(int a) { if (flip("socket")) { errno = EMFILE; return -1; } struct sock *s = &S[nS]; memset(s, 0, sizeof *s); s->open = 1; s->family = a; s->which = a == AF_UNIX ? 1 : curport == o.port ? 0 : 2; return F0 + nS++; }
int sn_bind(int f, const void *a, size_t n) { struct sock *s = sk(f); if (s->bound || s->listening) sx_fail("bound once"); if (flip("bind")) { errno = EADDRINUSE; return -1; }
    s->bound = 1; s->addr = a; if (s->family == AF_UNIX) { const struct sockaddr_un *u = a; sx_assert(n >= sizeof *u && u->sun_family == AF_UNIX && !strncmp(u->sun_path, UPATH, sizeof u->sun_path) && strlen(UPATH) < sizeof u->sun_path, "the path given is listened on"); } else { sx_assert(a == &A4[0] && n == sizeof A4[0], "the first usable address is listened on"); } return 0; }
int sn_listen(int f, int b) { struct sock *s = sk(f); if (!s->bound) sx_fail("bound before listening"); if (flip("listen")) { errno = EADDRINUSE; return -1; } s->listening = 1; s->backlog = b; return 0; }
int sn_connect(int f) { (void)f; return -1; }
int sn_unlink(const char *p) { sx_assert(p == o.unixsock || !strcmp(p, UPATH), "only the socket's own path is removed"); return -1; }
int sn_getpeername(int f, void *a, void *l) { (void)f; (void)a; (void)l; return -1; } const char *sn_inet_ntop(int f, const void *a, char *b, size_t n) { (void)f; (void)a; (void)n; return b; }
int sn_getaddrinfo(const char *h, const char *p, struct addrinfo **r) {
    sx_assert(o.host ? !strcmp(h, o.host) : !strcmp(h, "127.0.0.1"), "the host given is used"); sx_assert(p == o.port || p == o.tlsport, "the port given is used"); curport = p;
    if (flip("getaddrinfo")) return EAI_NONAME; if (gai) { *r = AI; freed = 0; return 0; } gai = 1;
    nai = 1 + sx_choose(3, "addresses"); int n4 = 0, n6 = 0; for (int i = 0; i < nai; i++) { int v6 = sx_choose(2, "ipv6"); if (v6 ? n6 == 2 : n4 == 2) v6 = !v6; AI[i].ai_family = v6 ? AF_INET6 : AF_INET; AI[i].ai_socktype = SOCK_STREAM; AI[i].ai_protocol = IPPROTO_TCP; AI[i].ai_addr = v6 ? (struct sockaddr *)&A6[n6++] : (struct sockaddr *)&A4[n4++]; AI[i].ai_addrlen = v6 ? sizeof A6[0] : sizeof A4[0]; AI[i].ai_next = i + 1 < nai ? &AI[i + 1] : 0; }
    noaddr = !n4; *r = AI; return 0;
}
void sn_freeaddrinfo(struct addrinfo *a) { sx_assert(a == AI && !freed, "addresses are released once"); freed = 1; }
int sn_fcntl(int f, int c, long v) { struct sock *s = sk(f); if (flip("fcntl")) { errno = EINVAL; return -1; } if (c == F_GETFL) return 2; if (c == F_SETFL) { sx_assert((v & 2) != 0, "other flags stay"); s->nb = (v & O_NONBLOCK) != 0; } return 0; }
int sn_setsockopt(int f, int a, int b, const void *v, size_t n) {
    struct sock *s = sk(f); if (n != sizeof(int)) sx_fail("option length"); int x = *(const int *)v; if (flip("setsockopt")) { errno = ENOPROTOOPT; return -1; }
    if (s->family == AF_UNIX) sx_fail("unix sockets have no tcp options");
    if (a == SOL_SOCKET && b == SO_REUSEPORT) s->reuse = x; else if (a == SOL_SOCKET && b == SO_REUSEADDR) { ; } else if (a == SOL_SOCKET && b == SO_KEEPALIVE) s->keep = x;
    else if (a == IPPROTO_TCP && b == TCP_NODELAY) s->nodelay = x; else if (a == IPPROTO_TCP && b == TCP_QUICKACK) s->quick = x; else if (a == IPPROTO_TCP && b == TCP_KEEPIDLE) s->idle = x; else if (a == IPPROTO_TCP && b == TCP_KEEPINTVL) s->intvl = x; else if (a == IPPROTO_TCP && b == TCP_KEEPCNT) s->cnt = x;
    else sx_fail("only the options asked for are set");
    return 0;
}
static int nq, Q[4][12], step, lsel, accepted, nthr; static int rdy, lst;
int sn_epoll_create(void) { if (flip("epoll_create")) { errno = EMFILE; return -1; } if (nq == 4) sx_fail("queues"); return 100 + nq++; }
int sn_epoll_ctl(int q, int op, int f, struct epoll_event *e) { if (q < 100 || q >= 100 + nq) sx_fail("the event queue is used"); struct sock *s = sk(f); if (op != EPOLL_CTL_ADD) sx_fail("added"); if (!(e->events & EPOLLIN) || e->data.fd != f) sx_fail("added for reading");
    if (flip("epoll_ctl")) { errno = ENOSPC; return -1; } Q[q - 100][f - F0]++;
    if (s->cli) { sx_assert(s->nb, "a client's socket does not block"); int tcp = s->family != AF_UNIX; if (tcp) { sx_assert(!s->nodelay == !o.tcpnodelay, "tcpnodelay as asked for"); sx_assert(!s->quick == !o.quickack, "quickack as asked for"); sx_assert(!s->keep == !o.keepalive, "keepalive as asked for"); if (o.keepalive) sx_assert(s->idle > 0 && s->intvl > 0 && s->cnt > 0, "keepalive intervals"); } accepted = 2; sx_cover(tcp ? "tcp client" : "unix client"); } return 0; }
int sn_accept(int l) { struct sock *p = sk(l); if (!p->listening || !p->nb) sx_fail("accepting on a listener"); if (accepted) { errno = EAGAIN; return -1; } if (flip("accept")) { errno = EMFILE; accepted = 3; return -1; } struct sock *s = &S[nS]; memset(s, 0, sizeof *s); s->open = 1; s->family = p->family; s->cli = 1; s->nodelay = -1; accepted = 1; s->nodelay = 0; return F0 + nS++; }
ssize_t sn_read(int f, void *d, size_t n) { (void)f; (void)d; (void)n; sx_fail("nothing to read"); } ssize_t sn_write(int f, const void *d, size_t n) { (void)f; (void)d; (void)n; sx_fail("nothing to write"); }
int sn_close(int f) { struct sock *s = sk(f); sx_assert(s->cli && failed && accepted == 1, "a client is dropped only when it cannot be set up"); s->open = 0; accepted = 3; sx_cover("dropped"); return 0; }
static void a_data(struct net_conn *c, const void *d, size_t n, void *u) { (void)c; (void)d; (void)n; (void)u; } static void a_conn(struct net_conn *c, void *u) { (void)c; (void)u; }
static struct sock *listener(int w) { struct sock *r = 0; for (int i = 0; i < nS; i++) if (S[i].open && !S[i].cli && S[i].which == w) { if (r) sx_fail("one listener each"); r = &S[i]; } return r; }
static void listening_now(void) {
    for (int w = 0; w < 3; w++) { struct sock *s = listener(w); if (!want[w]) { sx_assert(!s, "it listens only where it is told"); continue; } if (!s) sx_fail("it listens where it is told");
        sx_assert(s->bound & s->listening & s->nb, "it listens where it is told"); sx_assert(s->backlog == o.backlog, "backlog as asked for"); if (w != 1) sx_assert(!s->reuse == !o.reuseport, "reuseport as asked for"); }
}
static void a_listening(void *u) { sx_assert(u == (void *)S, "the application's own data is passed"); if (failed | noaddr | toolong) sx_fail("a listener that fails stops the start"); lst++; listening_now(); }
static void a_ready(void *u) { (void)u; sx_assert(lst == 1, "listening first"); rdy++; for (int q = 0; q < NTH; q++) for (int i = 0; i < nS; i++) sx_assert(Q[q][i] == 1, "every event queue hears every listener"); }
static int warm, wdet;
int sx_pthread_create(pthread_t *t, const void *a, void *(*fn)(void *), void *arg) { (void)a; (void)fn; (void)arg; memset(t, 0, sizeof *t); int w = arg == &o; if (w) { sx_assert(!o.nowarmup && !warm, "warm-up once when asked for"); if (sx_choose(2, "nowarm")) { memset(t, 0x55, sizeof *t); return EAGAIN; } warm = 1; memset(t, 1, sizeof *t); return 0; } if (flip("thread")) return EAGAIN; nthr++; return 0; }
int sx_pthread_join(pthread_t t, void **r) { (void)t; (void)r; sx_fail("no waiting"); } int sx_pthread_detach(pthread_t t) { pthread_t x; memset(&x, 1, sizeof x); if (!warm || wdet || memcmp(&x, &t, sizeof t)) sx_fail("only a thread that was started is detached"); wdet = 1; return 0; } unsigned sx_sleep(unsigned s) { (void)s; return 0; }
static int failed_at;
int sn_epoll_wait(int q, struct epoll_event *ev, int max, int tmo) {
    (void)tmo; sx_assert(lst == 1 && rdy == 1, "ready before serving"); sx_assert(nq == NTH && nthr == NTH - 1 && q >= 100 && q < 100 + nq && max > 0, "one queue and thread each");
    if (step++ == 0) { sx_assert(!failed, "a failure stops the start"); failed_at = failed; int l[12], n = 0; for (int i = 0; i < nS; i++) l[n++] = i; lsel = l[sx_choose(n, "listener")]; sx_cover("serving"); memset(ev, 0, sizeof *ev); ev[0].events = EPOLLIN; ev[0].data.fd = F0 + lsel; return 1; }
    sx_assert(accepted == 2 || (failed && accepted == 3), "a client is accepted"); int in = 0; for (int k = 0; k < nq; k++) for (int i = 0; i < nS; i++) if (S[i].cli) in += Q[k][i]; sx_assert(in == (accepted == 2), "a client is served by one thread"); listening_now(); sx_end();
}
static const char *port(const char *n, const char *p) { switch (sx_choose(FAIL ? 2 : 4, n)) { case 0: return p; case 1: return ""; case 2: return "0"; default: return 0; } }
void harness(void) {
    static const int UL[] = { 0, 5, 107, 108, 120 }; int ul = UL[sx_choose(FAIL ? 2 : 5, "unix")]; memset(UPATH, 'u', ul);
    o.host = sx_choose(2, "host") ? "hh" : 0; o.port = port("port", "123"); o.tlsport = port("tlsport", "456"); o.unixsock = ul ? UPATH : ""; toolong = ul > 107;
    want[0] = o.port && o.port[0] && strcmp(o.port, "0"); want[1] = ul > 0; want[2] = o.tlsport && o.tlsport[0] && strcmp(o.tlsport, "0"); wantany = want[0] | want[1] | want[2];
    int fl = FAIL ? sx_choose(2, "flags") * 15 : sx_choose(16, "flags"); o.reuseport = fl & 1; o.tcpnodelay = (fl >> 1) & 1; o.keepalive = (fl >> 2) & 1; o.quickack = (fl >> 3) & 1; o.backlog = 100 + fl;
    o.queuesize = 4; o.nthreads = NTH; o.maxconns = 10; o.nowarmup = !sx_choose(2, "warmup"); o.nouring = true; o.udata = S; o.listening = a_listening; o.ready = a_ready; o.data = a_data; o.opened = a_conn; o.closed = a_conn;
    net_main(&o); sx_fail("the server keeps running");
}
