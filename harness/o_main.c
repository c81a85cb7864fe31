// The program from its command line on: the real main.c. What main.c hands to
// the network and the cache is recorded (OPTIONS), or its background threads
// run against a clock the harness advances (TICKS, SHUTDOWN).
#include "sx.h"
#include "net.h"
#include "sys.h"
#include "save.h"
#include "pogocache.h"
#include <stdatomic.h>
#ifndef SMALL
#define SMALL 0
#endif
#ifndef NOPT
#define NOPT 1
#endif
int pogo_main(int argc, char **argv);
#define SYSMEM ((size_t)1 << 30)
#define NPROCS 3
int64_t sys_now(void); size_t sys_memory(void) { return SYSMEM; } int sys_nprocs(void) { return NPROCS; } uint64_t sys_seed(void) { return 777; }
const char *sys_arch(void) { return "x"; } const char *sys_libc(void) { return "x"; } const char *sys_os(void) { return "x"; } void sys_genuseid(char u[16]) { memcpy(u, "0123456789abcdef", 16); }
bool uring_available(void) { return false; } void tls_init(void) {}
void evdata(struct net_conn *c, const void *d, size_t n, void *u) { (void)c; (void)d; (void)n; (void)u; } void evopened(struct net_conn *c, void *u) { (void)c; (void)u; } void evclosed(struct net_conn *c, void *u) { (void)c; (void)u; }
size_t net_nconns(void) { return 0; }
int sx_setvbuf(void *f, char *b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; return 0; } int sx_isatty(int f) { (void)f; return 0; } int sx_fileno(void *f) { (void)f; return 1; } pid_t sx_getpid(void) { return 7; }
int sx_getrlimit(int w, struct rlimit *r) { (void)w; r->rlim_cur = 64; r->rlim_max = 100; return 0; } int sx_setrlimit(int w, const struct rlimit *r) { (void)w; (void)r; return 0; }
static void (*SIG[64])(int);
void (*sx_signal(int s, void (*f)(int)))(int) { if (s > 0 && s < 64) SIG[s] = f; return 0; }
extern int verb, nthreads, nshards, maxconns; extern bool useauth, usetrackallocs; extern char *auth, *persist; extern struct pogocache *cache; extern int useallocator; extern uint64_t seed; extern atomic_bool lowmem, sweep;
static char *ARGV[12]; static int ARGC = 1;
static void arg(const char *s) { ARGV[ARGC++] = (char *)s; ARGV[ARGC] = 0; }

#ifdef OPTIONS
int64_t sys_now(void) { return 5; } void sys_getmeminfo(struct sys_meminfo *i) { i->virt = i->rss = 1; }
int save(const char *p, bool f) { (void)p; (void)f; sx_fail("no saving"); } int load(const char *p, bool f, struct load_stats *s) { (void)p; (void)f; (void)s; sx_fail("no loading"); } bool cleanwork(const char *p) { (void)p; sx_fail("no cleaning"); }
static int bad, nothr;
int sx_pthread_create(pthread_t *t, const void *a, void *(*f)(void *), void *x) { (void)a; (void)f; (void)x; memset(t, 0, sizeof *t); if (nothr && sx_choose(2, "nothread")) { bad = 1; nothr = 0; return EAGAIN; } return 0; }
int sx_pthread_join(pthread_t t, void **r) { (void)t; (void)r; return 0; } int sx_pthread_detach(pthread_t t) { (void)t; return 0; }
unsigned sx_sleep(unsigned s) { (void)s; return 0; } int sx_usleep(unsigned s) { (void)s; return 0; }
static struct pogocache_opts PO; static int PO_n, XI = -1; static int THE;
struct pogocache *pogocache_new(struct pogocache_opts *o) { PO = *o; PO_n++; return (struct pogocache *)(void *)&THE; }
size_t pogocache_count(struct pogocache *c, struct pogocache_count_opts *o) { (void)c; (void)o; return 0; } void pogocache_sweep(struct pogocache *c, size_t *a, size_t *b, struct pogocache_sweep_opts *o) { (void)c; (void)a; (void)b; (void)o; } double pogocache_sweep_poll(struct pogocache *c, struct pogocache_sweep_poll_opts *o) { (void)c; (void)o; return 0; }
void xmalloc_init(int n) { XI = n; } void *xmalloc(size_t n) { void *p = malloc(n); sx_assume(p != 0); return p; } void xfree(void *p) { free(p); } size_t xrss(void) { return 1; } size_t xallocs(void) { return 0; }

// ---- what the command line asks for
enum { YN_EVICT, YN_REUSE, YN_NODELAY, YN_KEEPALIVE, YN_QUICKACK, YN_CAS, YN_SIXPACK, YN_TRACK, YN_SWEEP, YN_URING, YN_WARM, N_YN };
static const char *YN[N_YN] = { "evict", "reuseport", "tcpnodelay", "keepalive", "quickack", "cas", "sixpack", "trackallocs", "autosweep", "uring", "warmup" };
static const int YND[N_YN] = { 1, 0, 1, 1, 0, 0, 1, 0, 1, 1, 1 };
enum { N_THREADS, N_SHARDS, N_BACKLOG, N_QUEUE, N_CONNS, N_LOAD, N_SEED, N_T, N_NUM };
static const char *NUM[N_NUM] = { "--threads", "--shards", "--backlog", "--queuesize", "--maxconns", "--loadfactor", "--seed", "-t" };
enum { S_AUTH, S_PERSIST, S_SOCK, S_HOST, S_PORT, S_PPORT, N_STR };
static const char *STR[N_STR] = { "--auth", "--persist", "-s", "-h", "--port", "-p" };
static const struct { const char *v; size_t lim; int bad; } MEM[] = { { "unlimited", SIZE_MAX, 0 }, { "80%", 858993459u, 0 }, { "1gb", 1u << 30, 0 }, { "1500", 1500, 0 }, { "2k", 2048, 0 }, { "3MB", 3u << 20, 0 }, { "2T", (size_t)2 << 40, 0 }, { "1.5G", (size_t)3 << 29, 0 }, { "0.5K", 512, 0 }, { "150%", (size_t)3 << 29, 0 }, { " 7 m", 0, 2 }, { "4Kb", 4096, 0 },
    { "abc", 0, 1 }, { "-1", 0, 1 }, { "0", 0, 1 }, { "10x", 0, 1 }, { "10kbx", 0, 1 }, { "10kk", 0, 1 }, { "5%%", 0, 1 }, { "inf", 0, 1 }, { "nan", 0, 1 }, { "", 0, 1 }, { "5bk", 0, 1 }, { "Unlimitedx", 0, 1 } };
static int ynv[N_YN], V; static long long num[N_NUM]; static int hasnum[N_NUM], hasmem, nomem; static size_t mem; static char *str[N_STR]; static int eport;
static char BUF[4][40]; static int nb;
extern size_t memlimit;
static int sopt(const char *n, char *v, int eq) { if (eq) { char *b = BUF[nb++]; strcpy(b, n); strcat(b, "="); strcat(b, v); arg(b); return 1; } arg(n); arg(v); return 0; }
static void one(int kind, int i) {
    static char vb[3][24]; static int nv; char *v = vb[nv++];
    switch (kind) {
    case 0: {
        int w = sx_choose(3, "yn"), eq = (SMALL ? 0 : sx_choose(2, "eq")); char nm[20] = "--"; strcat(nm, YN[i]); static char nms[3][20]; static int k; char *n = nms[k++]; strcpy(n, nm);
        if (w < 2) { strcpy(v, w ? "yes" : "no"); ynv[i] = w; }
        else { size_t l = 1 + sx_choose(SMALL ? 1 : 4, "vlen") - !SMALL; sx_bytes(v, l, "value"); for (size_t j = 0; j < l; j++) sx_assume(v[j] != 0); v[l] = 0;
            int y = l == 3 ? (v[0] == 'y') & (v[1] == 'e') & (v[2] == 's') : 0, o = l == 2 ? (v[0] == 'n') & (v[1] == 'o') : 0;
            if (i == YN_WARM) sx_assume(y | o);
            ynv[i] = y; bad |= !(y | o); }
        sopt(n, v, eq); break; }
    case 1: {
        int d = 1 + sx_choose(i == N_LOAD ? 3 : SMALL ? 1 : i == N_SEED ? 4 : 5, "digits"), neg = i == N_SEED ? 0 : sx_choose(2, "neg"); long long x = 0; int p = 0; if (neg) v[p++] = '-';
        sx_bytes(v + p, d, "digit"); for (int j = 0; j < d; j++) { sx_assume((v[p + j] >= '0') & (v[p + j] <= '9')); x = x * 10 + (v[p + j] - '0'); } v[p + d] = 0;
        int eq = i == N_T ? 0 : (SMALL ? 0 : sx_choose(2, "eq")); int j = i == N_T ? N_THREADS : i; num[j] = neg ? 0 - x : x; hasnum[j] = 1; sopt(NUM[i], v, eq); break; }
    case 2: {
        size_t l = sx_choose(SMALL ? 2 : i >= S_PORT ? 6 : 4, "slen"); sx_bytes(v, l, "text"); v[l] = 0; for (size_t j = 0; j < l; j++) sx_assume(v[j] != 0);
        int eq = STR[i][1] == '-' ? (SMALL ? 0 : sx_choose(2, "eq")) : 0; int k = i == S_PPORT ? S_PORT : i; str[k] = v;
        if (k == S_PORT) { unsigned x = 0; int dg = 1; for (size_t j = 0; j < l; j++) { dg &= (v[j] >= '0') & (v[j] <= '9'); x = x * 10 + (unsigned)(v[j] - '0'); } if (l) bad |= !(dg & (x <= 65535)); eport = l == 0; if (l > 1) sx_assume(v[0] != '0'); if (l) { sx_assume(v[0] != '+'); sx_assume(v[0] != '-'); } }
        sopt(STR[i], v, eq); break; }
    case 3: {
        int w = sx_choose(SMALL ? 2 : sizeof MEM / sizeof *MEM, "mem"); int eq = SMALL ? 0 : sx_choose(2, "eq"); hasmem = 1; mem = MEM[w].lim; nomem = mem == SIZE_MAX; if (MEM[w].bad == 1) bad |= 1; if (MEM[w].bad == 2) mem = 7u << 20; sopt("--maxmemory", (char *)MEM[w].v, eq); break; }
    case 4: hasmem = 1; if (i) { arg("-m"); arg("25"); mem = 25u << 20; } else { arg("-m"); arg("1x"); bad |= 1; } break;
    case 5: arg("-M"); ynv[YN_EVICT] = 0; break;
    case 6: arg(i == 0 ? "-v" : i == 1 ? "-vv" : "-vvv"); V = i + 1; break;
    case 7: arg("--allocator"); { int w = sx_choose(4, "alloc"); static const char *A[] = { "stock", "mimalloc", "jemalloc", "x" }; arg(A[w]); bad |= w != 0; } break;
    case 8: { static const char *U[] = { "--bogus", "x", "--evictx", "--threadsx=1", "-", "--", "-P", "", "---evict=no", "-vvvv" }; arg(U[i]); bad |= 1; } break;
    case 9: { static const char *U[] = { "--port", "-p", "--auth", "-m", "--evict", "--shards" }; arg(U[i]); bad |= 1; } break;
    }
}
static int help;
void sx_exit(int code) {
    if (help) { sx_assert(code == 0, "asking for help is no failure"); sx_cover("help"); sx_end(); }
    sx_assert(bad, "a valid command line starts the server"); sx_assert(code == 1, "an invalid command line is an error"); sx_cover("refused"); sx_end();
}
static int clamp(long long v, long long lo, long long hi) { return (int)(v < lo ? lo : v > hi ? hi : v); }
static int same(const char *a, const char *b) { if (!a || !b) return 0; for (;; a++, b++) { if (!*b) return *a == 0; if (!*a) return 0; sx_assert(*a == *b, "text options are passed on"); } }
void net_main(struct net_opts *o) {
    sx_assert(!bad, "an invalid option is refused"); sx_assert(!help, "help does not start the server");
    sx_assert(PO_n == 1, "one cache");
    int e = ynv[YN_EVICT] & !nomem; sx_assert(PO.noevict == !e, "evict"); sx_assert(PO.usecas == !!ynv[YN_CAS], "cas"); sx_assert(PO.nosixpack == !ynv[YN_SIXPACK], "sixpack");
    sx_assert(o->reuseport == !!ynv[YN_REUSE], "reuseport"); sx_assert(o->tcpnodelay == !!ynv[YN_NODELAY], "tcpnodelay"); sx_assert(o->keepalive == !!ynv[YN_KEEPALIVE], "keepalive"); sx_assert(o->quickack == !!ynv[YN_QUICKACK], "quickack"); sx_assert(usetrackallocs == !!ynv[YN_TRACK], "trackallocs"); sx_assert(o->nowarmup == !ynv[YN_WARM], "warmup"); sx_assert(o->nouring, "uring only where there is one");
    long long *n = num; int nt = n[N_THREADS] <= 0 ? NPROCS : clamp(n[N_THREADS], 1, 4096); sx_assert(o->nthreads == nt, "threads"); sx_assert(nthreads == nt, "threads"); sx_assert(XI == nt, "threads");
    int ns = n[N_SHARDS] <= 0 ? 4096 : clamp(n[N_SHARDS], 1, 65536); sx_assert(PO.nshards == ns, "shards"); sx_assert(nshards == ns, "shards");
    sx_assert(o->backlog == (hasnum[N_BACKLOG] ? n[N_BACKLOG] : 1024), "backlog"); sx_assert(o->queuesize == (hasnum[N_QUEUE] ? clamp(n[N_QUEUE], 1, 4096) : 128), "queuesize");
    int mc = n[N_CONNS] <= 0 ? 1024 : (int)n[N_CONNS]; sx_assert(o->maxconns == mc, "maxconns"); sx_assert(maxconns == mc, "maxconns");
    sx_assert(PO.loadfactor == (hasnum[N_LOAD] ? clamp(n[N_LOAD], 55, 95) : 75), "loadfactor"); sx_assert(PO.seed == (hasnum[N_SEED] ? (uint64_t)n[N_SEED] : 777), "seed");
    if (hasmem) { sx_assert(memlimit == mem, "maxmemory"); } else sx_assert(memlimit == 858993459u, "maxmemory default");
    sx_assert(verb == V, "verbosity");
    if (str[S_AUTH]) { sx_assert(same(auth, str[S_AUTH]), "auth"); sx_assert(useauth == (str[S_AUTH][0] != 0), "auth is on when a password is given"); } else { sx_assert(!*auth & !useauth, "no auth by default"); }
    sx_assert(same(persist, str[S_PERSIST] ? str[S_PERSIST] : ""), "persist"); sx_assert(same(o->unixsock, str[S_SOCK] ? str[S_SOCK] : ""), "unix socket"); sx_assert(same(o->host, str[S_HOST] ? str[S_HOST] : "127.0.0.1"), "host");
    if (str[S_PORT] && str[S_PORT][0] == '0') sx_assert(!*o->port, "port 0 means none"); else sx_assert(same(o->port, str[S_PORT] ? str[S_PORT] : "9401"), "port"); sx_assert(!*o->tlsport, "tlsport");
    sx_assert(*o->port || *o->unixsock, "there is something to listen on");
    sx_assert((o->data == evdata) & (o->opened == evopened) & (o->closed == evclosed), "events are handled");
    sx_assert(SIG[SIGPIPE] == SIG_IGN, "a broken connection does not end the program");
    sx_cover("started"); sx_end();
}
static int pick(int *i) {
    static const int cnt[] = { N_YN, N_NUM, N_STR, 1, 2, 1, 3, 1, 10, 6 };
    int k = sx_choose(10, "kind");
    *i = cnt[k] > 1 ? sx_choose(cnt[k], "which") : 0; return k;
}
void harness(void) {
    for (int i = 0; i < N_YN; i++) ynv[i] = YND[i];
    ARGV[0] = "pogocache"; int used[NOPT + 1][2]; int n = sx_choose(NOPT + 1, "nopt");
    for (int a = 0; a < n; a++) {
        int i, k = pick(&i); used[a][0] = k; used[a][1] = i;
        for (int b = 0; b < a; b++) { sx_assume(!(used[b][0] == k && used[b][1] == i)); sx_assume(used[b][0] != 9); sx_assume(!(used[b][0] >= 3 && used[b][0] <= 4 && k >= 3 && k <= 4)); 
            sx_assume(!(k == 5 && used[b][0] == 0 && used[b][1] == YN_EVICT)); sx_assume(!(used[b][0] == 5 && k == 0 && i == YN_EVICT));
            sx_assume(!(k == 1 && used[b][0] == 1 && (i == N_T || i == N_THREADS) && (used[b][1] == N_T || used[b][1] == N_THREADS))); sx_assume(!(k == 2 && used[b][0] == 2 && i >= S_PORT && used[b][1] >= S_PORT)); sx_assume(!(k == 6 && used[b][0] == 6)); sx_assume(!(k == 8 && used[b][0] == 8)); }
        one(k, i);
    }
    if (n == 0) { nothr = 1; int h = sx_choose(3, "help"); if (h) { arg(h == 1 ? "--help" : "--version"); help = 1; } }
    else if (str[S_PORT] && !(str[S_SOCK] && str[S_SOCK][0])) { if (!str[S_PORT][0]) bad |= 1; else bad |= (str[S_PORT][0] == '0') & (str[S_PORT][1] == 0); }
    pogo_main(ARGC, ARGV); sx_fail("main returns only when the network ends");
}
#endif
#if defined TICKS || defined LIFE
// ---- threads that sleep on a clock the harness advances
#ifndef NE
#define NE 3
#endif
static int64_t H_now = INT64_C(5000000000); int64_t sys_now(void) { return H_now; }
static uint64_t H_rss = 1; void sys_getmeminfo(struct sys_meminfo *i) { i->virt = H_rss; i->rss = H_rss; }
static _Atomic int K_tick, K_in; static int T_n; static struct { void *(*fn)(void *); void *arg; } T_t[8];
static void T_run(void *p) { int i = (int)(intptr_t)p; T_t[i].fn(T_t[i].arg); atomic_fetch_add(&K_in, 100); }
int sx_pthread_create(pthread_t *th, const void *a, void *(*fn)(void *), void *arg) { (void)a; if (T_n == 8) sx_fail("harness: too many threads"); int i = T_n++; T_t[i].fn = fn; T_t[i].arg = arg; memset(th, 0, sizeof *th); sx_spawn(T_run, (void *)(intptr_t)i); return 0; }
int sx_pthread_join(pthread_t t, void **r) { (void)t; (void)r; sx_fail("no thread is waited for"); } int sx_pthread_detach(pthread_t t) { (void)t; return 0; }
static void nap(void) { int t = atomic_load(&K_tick); atomic_fetch_add(&K_in, 1); while (atomic_load(&K_tick) == t) sx_yield(); }
unsigned sx_sleep(unsigned s) { (void)s; nap(); return 0; } int sx_usleep(unsigned s) { (void)s; nap(); return 0; }
static void settle(void) { while (atomic_load(&K_in) < T_n) sx_yield(); }
static void tick(void) { settle(); atomic_store(&K_in, 0); atomic_fetch_add(&K_tick, 1); settle(); }
static char PATH_[] = "disk/p"; static int S_exists = 1, S_clean = 1, S_load, S_save; static _Atomic int n_clean, n_load, n_save, phase, sigs, over;
static void signal_(void) { int s = sx_choose(2, "sig") ? SIGTERM : SIGINT; sx_assert(SIG[s] != 0 && SIG[s] != SIG_IGN && SIG[s] != SIG_DFL, "the program handles the request to stop"); sigs++; SIG[s](s); }
bool cleanwork(const char *p) { sx_assert(!strcmp(p, PATH_), "the path given"); n_clean++; return S_clean; }
int sx_access(const char *p, int m) { (void)m; sx_assert(!strcmp(p, PATH_), "the path given"); if (!S_exists) errno = ENOENT; return S_exists ? 0 : -1; }
ssize_t sx_read(int fd, void *d, size_t n) { (void)fd; (void)d; (void)n; sx_fail("nothing is read"); }
ssize_t sx_write(int fd, const void *d, size_t n) { (void)d; sx_assert(fd == 1 || fd == 2, "messages only"); return (ssize_t)n; }

#endif
#ifdef TICKS
const char *memstr(double n, char *buf) { (void)n; strcpy(buf, "x"); return buf; }
static int inuse(void) { return (int)pogocache_count(cache, 0); }
static void stop(void) { over = 1; sx_end(); }
int save(const char *p, bool f) { (void)p; (void)f; sx_fail("no saving"); } int load(const char *p, bool f, struct load_stats *s) { (void)p; (void)f; (void)s; sx_fail("no loading"); }
void sx_exit(int code) { (void)code; sx_fail("the server keeps running"); }
static int O_sweep, O_mem, O_evict;
void net_main(struct net_opts *o) {
    static const uint64_t LIM[] = { 1000, SIZE_MAX, 1u << 29 };
    settle(); uint64_t lim = LIM[O_mem]; int mode = 0; int64_t exp[NE]; int in[NE];
    sx_assert(!lowmem, "memory is not low at first");
    for (int i = 0; i < NE; i++) {
        char k[2] = { (char)('a' + i), 0 }; in[i] = 1; exp[i] = 0; int w = MEMO ? 0 : sx_choose(3, "exp"); if (w) exp[i] = H_now + (w == 1 ? 2 : 1000);
        if (SYMEXP && i == 0 && w) { exp[i] = H_now + (int64_t)(1 + sx_u8("ttl")); }
        struct pogocache_store_opts so = { .time = H_now, .expires = exp[i] }; if (pogocache_store(cache, k, 1, "v", 1, &so) != POGOCACHE_INSERTED) sx_fail("harness: store"); }
    H_rss = 1; int early = sx_choose(2, "early");
    if (early) { H_rss = (uint64_t)1 << 40; H_now += 5; tick(); sx_assert(!lowmem && inuse() == NE, "nothing happens before the data is there"); H_now -= 5; }
    o->listening(o->udata); o->ready(o->udata);
    for (int t = 0; t < STEPS; t++) {
        uint64_t rss = MEMO ? sx_u64("rss") : 1; sx_assume(rss >= 1); H_rss = rss; if (t) H_now += 10;
        tick();
        int hi = rss > lim, lo = rss < lim; if (O_mem == 1) mode = 0; else mode = hi | (mode & !lo);
        sx_assert(lowmem == mode, "low memory mode is on exactly while more than the limit is used"); if (lowmem) sx_cover("low"); else sx_cover("enough");
        struct pogocache_count_opts co = { 0 }; (void)co; int n = inuse(), live = 0, dead = 0;
        for (int i = 0; i < NE; i++) { int d = exp[i] && exp[i] <= H_now; dead += d; live += !d; }
        if (!O_sweep) sx_assert(n == NE, "nothing is swept when that is turned off"); else { if (dead * 10 > NE) { sx_assert(n == live, "a cache with many expired entries is swept"); sx_cover("swept"); } if (!dead) sx_assert(n == NE, "a live entry is never swept"); sx_assert(n >= live, "a live entry is never swept"); }
    }
    stop();
}
void harness(void) {
    ARGV[0] = "pogocache"; arg("--shards"); arg("1"); arg("--maxmemory"); O_mem = MEMO ? sx_choose(3, "mem") : 1; static const char *M[] = { "1000", "unlimited", "50%" }; arg(M[O_mem]);
    int w = MEMO ? 0 : sx_choose(3, "sweepopt"); O_sweep = w != 1; if (w) { arg("--autosweep"); arg(w == 1 ? "no" : "yes"); if (sx_choose(2, "cas")) { arg("--cas"); arg("yes"); } }
    pogo_main(ARGC, ARGV); sx_fail("main returns only when the network ends");
}
#endif
#ifdef LIFE
static int withpath, wait_save;
void sx_exit(int code) {
    if (over) sx_fail("the program ends once"); over = 1;
    if (sigs == 2) { sx_assert(code == 0, "stopping at once was asked for"); sx_assert(n_save <= 1, "saved at most once"); sx_cover("forced"); sx_end(); }
    if (sigs) {
        int want = phase == 3 && withpath;
        sx_assert(n_save == want, want ? "the data is saved before the program ends" : "data that is not complete is not saved");
        sx_assert((code != 0) == (want && S_save != 0), "the exit code tells whether the data was saved"); sx_cover(want ? "saved" : "ended");
    } else { sx_assert(n_save == 0, "nothing is saved when loading failed"); sx_assert(withpath && (!S_clean || (S_exists && S_load)), "the program ends for a reason"); if (S_clean) sx_assert(code != 0, "failing to load is an error"); sx_cover("load failed"); }
    sx_end();
}
int save(const char *p, bool f) { (void)f; sx_assert(!strcmp(p, PATH_), "the path given"); n_save++; sx_assert(sigs > 0, "saved when asked to stop"); if (sx_choose(2, "again")) { signal_(); sx_fail("the second request stops at once"); } return S_save; }
int load(const char *p, bool f, struct load_stats *s) { (void)f; sx_assert(!strcmp(p, PATH_), "the path given"); n_load++; memset(s, 0, sizeof *s); sx_assert(n_clean == 1, "left-over files are removed first");
    if (phase == 1 && sx_choose(2, "during")) { phase = 2; signal_(); tick(); tick(); sx_fail("the program ends when asked to"); }
    if (S_load) errno = EIO; return S_load; }
void net_main(struct net_opts *o) {
    settle(); if (sx_choose(2, "before")) { signal_(); tick(); tick(); sx_fail("the program ends when asked to"); }
    phase = 1; o->listening(o->udata); sx_assert(!withpath || S_clean, "the program ends when its directory cannot be used"); sx_assert(!(withpath && S_exists && S_load), "the program ends when loading fails");
    sx_assert(n_load == (withpath && S_exists), "the data is loaded when there is any"); sx_assert(n_clean == withpath, "left-over files are removed"); phase = 3; o->ready(o->udata);
    for (int t = 0; t < 2; t++) { if (sx_choose(2, "now")) { signal_(); tick(); tick(); sx_fail("the program ends when asked to"); } tick(); sx_assert(n_save == 0, "saved only when asked to stop"); }
    sx_cover("running"); sx_end();
}
void harness(void) {
    ARGV[0] = "pogocache"; arg("--shards"); arg("1"); if ((withpath = sx_choose(2, "persist"))) { arg("--persist"); arg(PATH_); S_exists = sx_choose(2, "exists"); S_clean = sx_choose(2, "clean"); S_load = sx_choose(2, "load") ? -1 : 0; S_save = sx_choose(2, "save") ? -1 : 0; }
    pogo_main(ARGC, ARGV); sx_fail("main returns only when the network ends");
}
#endif
