// Arbitrary bytes in the places a client controls, in the middle of well-formed
// conversations: the server survives, nothing outside its memory is touched,
// an entry the input does not name stays, another client is served as usual,
// and closing the connections releases everything.
#include "server.h"
#ifndef L
#define L 3
#endif
static uint8_t in[600]; static size_t n;
static void lit(const char *s) { while (*s) in[n++] = *s++; }
static void raw(const void *d, size_t k) { memcpy(in + n, d, k); n += k; }
static void sym(int k) { sx_bytes(in + n, k, "b"); n += k; }
static void be32(uint32_t v) { in[n++] = v >> 24; in[n++] = v >> 16; in[n++] = v >> 8; in[n++] = v; }
static void pstart(void) { raw("\0\0\0\22\0\3\0\0user\0me\0\0", 18); }
// a framed message: MSG(type) { … } END
static size_t at;
static void msg(int t) { in[n++] = t; at = n; n += 4; }
static void end(void) { uint32_t l = (uint32_t)(n - at); in[at] = in[at + 1] = 0; in[at + 2] = l >> 8; in[at + 3] = (uint8_t)l; }
static void psync(void) { msg('S'); end(); }
static void build(void) {
    switch (PROTO * 100 + sx_choose(KINDS, "shape")) {
    // RESP
    case 0: lit("*"); sym(L); lit("\r\n$4\r\nPING\r\n"); break;
    case 1: lit("*2\r\n$3\r\nGET\r\n$"); sym(L); lit("\r\nab\r\n"); break;
    case 2: lit("*1\r\n"); sym(L); lit("\r\nPING\r\n"); break;
    case 3: lit("*3\r\n$3\r\nSET\r\n$1\r\nb\r\n$4\r\n"); sym(L + 1); sym(2); break;
    case 4: lit("SET b \""); sym(L); lit("\" x\r\n"); break;
    case 5: lit("SET b '"); sym(L); lit("' '\n"); break;
    case 6: lit("SET b \"\\x"); sym(L); lit("\"\r\n"); break;
    case 7: lit("*-1\r\n*0\r\n*00000000000000000000"); sym(2); lit("\r\n$4\r\nPING\r\n"); break;
    case 8: lit("*2\r\n$4\r\nECHO\r\n$1844674407370955161"); sym(2); lit("\r\nab\r\n"); break;
    case 9: lit("*922337203685477580"); sym(2); lit("\r\n$4\r\nPING\r\n"); break;
    case 10: lit("MONITOR\r\n"); sym(L); lit("\r\n"); break;
    // memcache
    case 100: lit("set b 0 0 "); sym(L); lit("\r\nxy\r\n"); break;
    case 101: lit("set b "); sym(L); lit(" 0 2\r\nxy\r\n"); break;
    case 102: lit("set b 0 "); sym(L); lit(" 2\r\nxy\r\n"); break;
    case 103: lit("cas b 0 0 2 "); sym(L); lit("\r\nxy\r\n"); break;
    case 104: lit("get "); sym(L); lit("\r\n"); break;
    case 105: lit("incr b "); sym(L); lit("\r\n"); break;
    case 106: lit("touch b "); sym(L); lit("\r\n"); break;
    case 107: lit("set b 0 0 1844674407370955161"); sym(2); lit("\r\nxy\r\n"); break;
    case 108: lit("set b 0 0 922337203685477580"); sym(2); lit("\r\nxy\r\n"); break;
    case 109: lit("delete b "); sym(L); lit("\r\n"); break;
    case 110: lit("set b 0 0 2"); sym(L); lit("\r\nxy\r\n"); break;
    case 111: lit("append "); sym(L); lit(" 0 0 1\r\nx\r\n"); break;
    case 112: lit("stats"); sym(L); lit("\r\n"); break;
    // HTTP
    case 200: lit("GET /"); sym(L); lit(" HTTP/1.1\r\n\r\n"); break;
    case 201: lit("PUT /b?"); sym(L); lit("=1 HTTP/1.1\r\nContent-Length: 2\r\n\r\nxy"); break;
    case 202: lit("PUT /b?ttl="); sym(L); lit(" HTTP/1.1\r\nContent-Length: 2\r\n\r\nxy"); break;
    case 203: lit("PUT /b HTTP/1.1\r\nContent-Length: "); sym(L); lit("\r\n\r\nxy"); break;
    case 204: lit("GET /b HTTP/1.1\r\n"); sym(L); lit("\r\n\r\n"); break;
    case 205: lit("GET /b HTTP/"); sym(3); lit("\r\n\r\n"); break;
    case 206: lit("PUT /b HTTP/1.1\r\nContent-Length: 1844674407370955161"); sym(2); lit("\r\n\r\nxy"); break;
    case 207: lit("PUT /b HTTP/1.1\r\nContent-Length: 922337203685477580"); sym(2); lit("\r\n\r\nxy"); break;
    case 208: lit("PUT /%"); sym(L); lit("?flags=%"); sym(1); lit(" HTTP/1.1\r\nContent-Length: 2\r\n\r\nxy"); break;
    case 209: lit("GET /b HTTP/1.1\r\nAuthorization: "); sym(L); lit("\r\n\r\n"); break;
    case 210: sym(L); lit(" /b HTTP/1.1\r\n\r\n"); break;
    case 211: lit("GET /b?auth="); sym(L); lit(" HTTP/1.1\r\n\r\n"); break;
    // Postgres
    case 300: sym(4); raw("\0\3\0\0user\0me\0\0", 14); break;
    case 301: raw("\0\0\0\22", 4); sym(4); lit("user"); n++; lit("me"); n += 2; break;
    case 302: raw("\0\0\0\16\0\3\0\0", 8); sym(6); break;
    case 303: pstart(); sym(1); sym(4); lit("GET b"); n++; break;
    case 304: pstart(); msg('Q'); lit("GET "); sym(L); end(); break;
    case 305: pstart(); msg('P'); sym(L + 1); end(); psync(); break;
    case 306: pstart(); msg('P'); n++; lit("GET $1"); n++; sym(2); end(); msg('B'); n += 2; sym(2); end(); psync(); break;
    case 307: pstart(); msg('P'); n++; lit("GET $1"); n += 3; end(); msg('B'); n += 3; in[n++] = 0; n += 1; in[n++] = 1; sym(4); sym(L); end(); msg('E'); n += 5; end(); psync(); break;
    case 308: pstart(); msg('P'); n++; lit("GET $1"); n += 3; end(); msg('B'); n += 2; sym(2); sym(L); end(); msg('E'); n += 5; end(); psync(); break;
    case 309: pstart(); msg('P'); n++; lit("GET $"); sym(L); n += 3; end(); msg('D'); sym(2); end(); psync(); break;
    case 310: pstart(); msg('E'); sym(L); end(); msg('C'); sym(2); end(); psync(); break;
    case 311: pstart(); msg('Q'); lit("SET b '"); sym(L); lit("'"); n++; end(); break;
    case 312: pstart(); msg('Q'); lit("SET b E'\\"); sym(L); lit("'"); n++; end(); break;
    case 313: pstart(); msg('p'); sym(L); end(); msg('Q'); lit("GET b"); n++; end(); break;
    case 314: pstart(); msg('B'); sym(L); end(); msg('X'); end(); sym(2); break;
    case 315: raw("\0\0\0\x8", 4); raw("\x4\xd2\x16", 3); sym(1); raw("\0\0\0\22\0\3\0\0user\0me\0\0", 18); sym(1); break;
    case 316: pstart(); msg('P'); n++; lit("SET b $"); sym(2); lit("::"); sym(L - 1); n += 3; end(); psync(); break;
    default: pstart(); msg('Q'); lit("/*"); sym(L); lit("*/ GET b;--"); sym(1); n++; end(); break;
    }
}
static void is(struct net_conn *c, const char *s) { sx_assert(c->nsent == strlen(s) && !memcmp(c->sent, s, c->nsent), "another client is served as usual"); }
static int ver(const struct net_conn *c) { return c->nsent > 0; }
void harness(void) {
    // a first session allocates what is kept for good
    srv_start(); { struct net_conn *c = srv_open(); srv_feed(c, "PING\r\nMONITOR\r\n", 15); srv_close(c); } srv_stop();
    size_t live0 = sx_heap_live();
    if (sx_choose(2, "auth")) { auth = "tok"; useauth = true; }
    build();
    srv_start();
    if (sx_choose(2, "there")) pogocache_store(cache, "b", 1, "9", 1, &(struct pogocache_store_opts){ .time = H_now });
    pogocache_store(cache, "guarded-key", 11, "old", 3, &(struct pogocache_store_opts){ .time = H_now });
    struct net_conn *c = srv_open(), *d = srv_open();
    if (sx_choose(2, "bytewise")) for (size_t i = 0; i < n; i++) srv_feed(c, in + i, 1); else srv_feed(c, in, n);
    if (ver(c)) sx_cover("answered"); else sx_cover("silent");
    if (useauth) srv_feed(d, "AUTH tok\r\n", 10);
    srv_feed(d, "GET guarded-key\r\n", 17);
    is(d, useauth ? "+OK\r\n$3\r\nold\r\n" : "$3\r\nold\r\n");
    srv_close(c); srv_close(d); srv_stop();
    sx_assert(sx_heap_live() == live0, "nothing is left behind");
}
