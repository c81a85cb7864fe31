// Command names are matched exactly, ignoring the case of letters.
#ifdef HASH
#include "sx.h"
#include <string.h>
#include "util.h"
int useallocator = 0; bool usetrackallocs = false;
// The table's hash does not distinguish names which differ in case only: a
// change of case at one place, whatever the other bytes, keeps the hash.
void harness(void) {
    uint8_t a[10], b[10]; size_t n = 1 + sx_choose(10, "len"), p = sx_choose((int)n, "at"); sx_bytes(a, n, "name");
    a[p] = 'a' + sx_choose(26, "letter"); memcpy(b, a, n); b[p] -= 32;
    sx_assert(fnv1a_case((char *)a, n) == fnv1a_case((char *)b, n), "one hash for every case of a name"); sx_cover("hashed");
}
#else
#include "server.h"
// Which slot a name starts at is left out: every name probes the same way.
uint32_t fnv1a_case(const char *b, size_t n) { (void)b; return (uint32_t)n * 37; }
static const struct { const char *name, *args[4]; } T[] = {
    { "set", { "a", "x" } }, { "get", { "a" } }, { "del", { "a" } }, { "mget", { "a" } }, { "mgets", { "a" } }, { "ttl", { "a" } }, { "pttl", { "a" } }, { "expire", { "a", "5" } }, { "setex", { "a", "5", "x" } },
    { "dbsize" }, { "quit" }, { "echo", { "hello" } }, { "exists", { "a" } }, { "flushdb" }, { "flushall" }, { "flush" }, { "purge" }, { "sweep" }, { "keys", { "*" } }, { "select", { "0" } }, { "ping" }, { "touch", { "a" } }, { "debug", { "detach" } },
    { "incrby", { "a", "5" } }, { "decrby", { "a", "3" } }, { "incr", { "a" } }, { "decr", { "a" } }, { "uincrby", { "a", "4" } }, { "udecrby", { "a", "2" } }, { "uincr", { "a" } }, { "udecr", { "a" } }, { "append", { "a", "x" } }, { "prepend", { "a", "x" } }, { "auth", { "" } }, { "stats", { "x" } }, { "version" }, { "scan", { "0" } }, { "monitor" }, { "save", { 0 } }, { "load", { 0 } },
};
enum { NT = sizeof T / sizeof T[0] };
static struct bb q; static uint8_t R[2][1500]; static size_t RN[2]; static int closed[2];
static void run(int w, const uint8_t *name, size_t nl, int t) {
    srv_start(); pogocache_store(cache, "a", 1, "7", 1, &(struct pogocache_store_opts){ .time = H_now, .ttl = 9 * SECOND });
    struct net_conn *c = srv_open(); int n = 0; while (n < 4 && T[t].args[n]) n++; q.n = 0; r_cmd(&q, n + 1); r_arg(&q, name, nl); for (int i = 0; i < n; i++) r_str(&q, T[t].args[i]);
    srv_feed(c, q.d, q.n); RN[w] = c->nsent; if (c->nsent > sizeof R[0]) sx_end(); memcpy(R[w], c->sent, c->nsent); closed[w] = c->closed;
    size_t cnt = pogocache_count(cache, 0); R[w][RN[w]++] = (uint8_t)cnt;
    srv_close(c); srv_stop();
}
static int low(int ch) { return ch >= 'A' && ch <= 'Z' ? ch + 32 : ch; }
void harness(void) {
    uint8_t b[16]; size_t n = 1 + sx_choose(10, "len"); sx_bytes(b, n, "name"); for (size_t i = 0; i < n; i++) sx_assume((b[i] > ' ') & (b[i] < 127));
    static const char unk[] = "-ERR unknown command '"; int t = -1;
    for (int j = 0; j < NT; j++) if (strlen(T[j].name) == n) { int d = 0; for (size_t i = 0; i < n; i++) d |= low(b[i]) != T[j].name[i]; if (!d) t = j; }
    run(1, b, n, t < 0 ? 1 : t);
    if (t >= 0) {
        run(0, (const uint8_t *)T[t].name, n, t);
        sx_assert(RN[0] < sizeof unk || memcmp(R[0], unk, sizeof unk - 1) != 0, "a documented command is known");
        sx_assert(RN[0] == RN[1] && closed[0] == closed[1] && same_bytes(R[0], R[1], RN[0]), "the same command whatever its case"); sx_cover("same command");
    } else { sx_assert(RN[1] >= sizeof unk && memcmp(R[1], unk, sizeof unk - 1) == 0 && !closed[1], "any other name is unknown"); sx_assert(R[1][RN[1] - 1] == 1, "nothing happens"); sx_cover("unknown"); }
}
#endif
