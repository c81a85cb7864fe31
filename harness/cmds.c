// RESP commands against a reference model of the cache contents: an arbitrary
// pre-state, then NOPS arbitrary commands, each reply and the whole contents
// compared with the model.
#include "server.h"
#include "numtext.h"
#ifndef NK
#define NK 2
#endif
#ifndef NOPS
#define NOPS 1
#endif
#ifndef VL
#define VL 2
#endif
#ifndef PRE
#define PRE 7         // 1: with expiration, 2: with flags, 4: number
#endif
#ifndef OPTS
#define OPTS 63       // SET options: 1 conditions, 2 expirations, 4 GET, 8 FLAGS, 16 CAS, 32 malformed
#endif
#ifndef NOEVICT
#define NOEVICT 0      // low memory without eviction: stores are refused
#endif
enum { Q_SET, Q_GET, Q_DEL, Q_COUNT, Q_MGET, Q_APPEND, Q_INCR, Q_EXPIRE, Q_TTL, Q_SETEX, Q_DBSIZE, Q_TIME, Q_MGETS, NOPKIND };
static const char *KEY[] = { "ka", "kb", "kc" };
static struct { int live; int isnum; uint64_t num; size_t n; uint8_t v[24]; int64_t exp; uint32_t flags; } M[3];
static struct net_conn *c; static struct bb q; static size_t rp;
static int alive(int k) { if (M[k].live && M[k].exp > 0 && M[k].exp <= H_now) M[k].live = 0; return M[k].live; }
// ------------------------------------------------ replies
static void send(void) { srv_feed(c, q.d, q.n); q.n = 0; rp = 0; }
static uint8_t rd_byte(void) { if (rp >= c->nsent) sx_fail("reply ends early"); return c->sent[rp++]; }
static void rd_lit(const char *s) { for (; *s; s++) { uint8_t b = rd_byte(); sx_assert(b == (uint8_t)*s, "reply text"); } }
static size_t rd_line(void) { size_t n = 0; while (rp + n < c->nsent && c->sent[rp + n] != '\r') n++; if (rp + n + 1 >= c->nsent || c->sent[rp + n + 1] != '\n') sx_fail("reply line is terminated"); return n; }
static void rd_is(uint64_t v) { size_t n = rd_line(); sx_assert(nt_same((uint8_t *)c->sent + rp, n, v), "number in the reply"); rp += n + 2; }
static void rd_int(int64_t v) { rd_lit(":"); rd_is((uint64_t)v); }
static void rd_uint(uint64_t v) { uint8_t b = rd_byte(); sx_assert(b == '+' || b == ':', "a number reply"); rd_is(v); }
static void rd_arr(uint64_t v) { rd_lit("*"); rd_is(v); }
static void rd_null(void) { rd_lit("$-1\r\n"); }
static void rd_done(void) { sx_assert(rp == c->nsent, "nothing after the reply"); c->nsent = 0; rp = 0; sx_assert(!c->closed, "connection stays open"); }
static void rd_err(const char *s) { rd_lit("-"); rd_lit(s); size_t n = rd_line(); rp += n + 2; rd_done(); }
static int same_val(int k, const void *p, size_t n) { if (M[k].isnum) return nt_same(p, n, M[k].num); return n == M[k].n && same_bytes(p, M[k].v, n); }
static void rd_val(int k) {
    rd_lit("$");
    size_t l = rd_line(); const uint8_t *t = (uint8_t *)c->sent + rp; size_t n = 0;
    if (nt_is(t, l)) n = nt_get(t); else for (size_t i = 0; i < l; i++) n = n * 10 + (t[i] - '0');
    rp += l + 2; if (n > 64 || rp + n + 2 > c->nsent) sx_fail("bulk length");
    sx_assert(same_val(k, c->sent + rp, n), "value in the reply"); rp += n; rd_lit("\r\n");
}
// ------------------------------------------------ requests
static int upper;
static void arg(const char *s) { char t[16]; size_t n = strlen(s); for (size_t i = 0; i < n; i++) t[i] = upper && s[i] >= 'a' && s[i] <= 'z' ? s[i] - 32 : s[i]; r_arg(&q, t, n); }
static void arg_num(int kind, uint64_t v) { uint8_t t[17]; nt_put(t, kind, v); r_arg(&q, t, 17); }
static uint64_t bits(int n, const char *nm) { return sx_u64(nm) & ((UINT64_C(1) << n) - 1); }
// Any 64-bit number, as a choice of ranges (which together cover everything) that
// separate the amounts of a unit which overflow 64 bits of nanoseconds
static int64_t any_num(int64_t unit, int negs, const char *nm) {
    int64_t T = INT64_MAX / unit; int B = unit == SECOND ? 33 : 43;
    switch (sx_choose(negs ? 8 : 5, "range")) {
    case 0: return (int64_t)bits(B, nm);
    case 1: return T - (int64_t)bits(B - 3, nm);
    case 2: return T + 1 + (int64_t)bits(62, nm);
    case 3: return INT64_MAX - (int64_t)bits(62, nm);
    case 4: if (!negs) return INT64_MIN + (int64_t)bits(63, nm); return -(int64_t)bits(B, nm);
    case 5: return -T + (int64_t)bits(B - 3, nm);
    case 6: return -1 - T - (int64_t)bits(62, nm);
    default: return INT64_MIN + (int64_t)bits(62, nm);
    }
}
struct got { int n; int live; int k; };
static uint64_t lastcas;
static void g_entry(int shard, int64_t time, const void *key, size_t kl, const void *v, size_t vl, int64_t exp, uint32_t flags, uint64_t cas, struct pogocache_update **u, void *ud) {
    (void)shard; (void)time; (void)u; struct got *g = ud; int k = g->k; g->n++; lastcas = cas;
    sx_assert(kl == 2 && memcmp(key, KEY[k], 2) == 0, "key");
    if (!M[k].live) sx_fail("no value is left behind");
    sx_assert(same_val(k, v, vl), "stored value");
    sx_assert(exp == M[k].exp, "stored expiration");
    sx_assert(flags == M[k].flags, "stored flags");
}
static void check(void) {
    for (int k = 0; k < NK; k++) {
        struct got g = { .k = k }; int l = alive(k);
        int r = pogocache_load(cache, KEY[k], 2, &(struct pogocache_load_opts){ .time = H_now, .entry = g_entry, .udata = &g, .notouch = 1 });
        sx_assert((r == POGOCACHE_FOUND) == l && g.n == l, "exactly the live keys are found");
    }
}
static int64_t sat_mul(int64_t a, int64_t b) { int64_t r; if (__builtin_mul_overflow(a, b, &r)) return a < 0 ? INT64_MIN : INT64_MAX; return r; }
static int64_t sat_add(int64_t a, int64_t b) { int64_t r; if (__builtin_add_overflow(a, b, &r)) return b < 0 ? INT64_MIN : INT64_MAX; return r; }
static void pre(int k) {
    M[k].live = sx_choose(2, "present"); if (!M[k].live) return;
    int kind = PRE ? sx_choose(4, "kind") : 0;
    if (kind && !(PRE >> (kind - 1) & 1)) { M[k].live = 0; sx_assume(0); }
    uint8_t t[24];
    if (kind == 3) { int s = sx_choose(2, "signed"); M[k].isnum = 1; M[k].num = sx_u64("num"); sx_assume(M[k].num >= 10); nt_put(t, s ? 'I' : 'U', M[k].num); M[k].n = 17; memcpy(M[k].v, t, 17); M[k].flags = 7; M[k].exp = H_now + 5; }
    else { M[k].n = sx_choose(VL + 1, "vlen"); sx_bytes(M[k].v, M[k].n, "v"); }
    if (kind == 1) { M[k].exp = 1 + (int64_t)bits(62, "exp"); }
    if (kind == 2) M[k].flags = sx_u32("flags");
    pogocache_store(cache, KEY[k], 2, M[k].v, M[k].n, &(struct pogocache_store_opts){ .time = H_now, .expires = M[k].exp, .flags = M[k].flags });
}
static void set_model(int k, const uint8_t *v, size_t n, int64_t exp, uint32_t flags) { M[k].live = 1; M[k].isnum = 0; memcpy(M[k].v, v, n); M[k].n = n; M[k].exp = exp; M[k].flags = flags; }
// refused for lack of memory: reported, and nothing changes
static int nomem_reply(int k) { if (!lowmem) return 0; if (c->nsent && c->sent[0] == '-') { rd_err("ERR out of memory"); return 1; } return 0; }
// ------------------------------------------------ commands
static void op_set(void) {
    int k = sx_choose(NK, "key"); uint8_t v[8]; size_t n = sx_choose(VL + 1, "len"); sx_bytes(v, n, "val");
    int cond = OPTS & 1 ? sx_choose(4, "cond") : 0, ek = OPTS & 2 ? sx_choose(6, "ex") : 0, get = OPTS & 4 ? sx_choose(2, "get") : 0, fl = OPTS & 8 ? sx_choose(2, "fl") : 0, cs = OPTS & 16 ? sx_choose(2, "cs") : 0;
    int bad = OPTS & 32 ? sx_choose(8, "bad") : 0, rev = sx_choose(2, "rev");
    static const char *EX[] = { 0, "ex", "px", "exat", "pxat", "keepttl" };
    int64_t en = 0; uint64_t fn = 0, cn = 0; int na = 3 + (cond == 3 ? 2 : cond ? 1 : 0) + (ek == 5 ? 1 : ek ? 2 : 0) + get + 2 * fl + 2 * cs + (bad == 5 || bad == 6 || bad == 7 ? 2 : bad ? 1 : 0);
    r_cmd(&q, na); arg("set"); r_arg(&q, KEY[k], 2); r_arg(&q, v, n);
    for (int s = 0; s < 5; s++) switch (rev ? 4 - s : s) {
    case 0: if (cond & 1) arg("nx"); if (cond & 2) arg("xx"); break;
    case 1: if (ek) { arg(EX[ek]); if (ek < 5) { en = any_num(ek & 1 ? SECOND : MILLISECOND, 0, "en"); arg_num('I', (uint64_t)en); } } break;
    case 2: if (get) arg("get"); break;
    case 3: if (fl) { arg("flags"); fn = sx_u64("fn"); arg_num('U', fn); } break;
    case 4: if (cs) { arg("cas"); cn = sx_u64("cn"); arg_num('U', cn); } break;
    }
    int synerr = 0, experr = 0;
    switch (bad) {
    case 1: arg("ex"); synerr = 1; break;
    case 2: arg("flags"); synerr = 1; break;
    case 3: arg("cas"); synerr = 1; break;
    case 4: arg("nxx"); synerr = 1; break;
    case 5: arg("ex"); r_str(&q, "1x"); experr = 1; break;
    case 6: arg("flags"); r_str(&q, "-1"); synerr = 1; break;
    case 7: arg("cas"); r_str(&q, "z"); synerr = 1; break;
    }
    if (cond == 3) synerr = 1;
    if (ek == 5 && bad == 5) synerr = 0;
    struct got g = { .k = k }; int was = alive(k); lastcas = 0;
    pogocache_load(cache, KEY[k], 2, &(struct pogocache_load_opts){ .time = H_now, .entry = g_entry, .udata = &g, .notouch = 1 });
    uint64_t cas0 = lastcas;
    send();
    // option errors win over everything; either message is acceptable when there are two mistakes
    int64_t exp = 0;
    if (ek >= 1 && ek <= 4) {
        if (en <= 0) experr = 1;
        else if (ek == 1) exp = sat_add(H_now, sat_mul(en, SECOND)); else if (ek == 2) exp = sat_add(H_now, sat_mul(en, MILLISECOND));
        else { int64_t abs = sat_mul(en, ek == 3 ? SECOND : MILLISECOND); exp = sat_add(H_now, abs - H_unix); }
    }
    if (synerr || experr) { rd_err(synerr && experr ? "ERR " : synerr ? "ERR syntax error" : "ERR invalid expire time"); return; }
    if (ek == 5 && was) exp = M[k].exp;
    int ok = 1;
    if (cond == 1 && was) ok = 0;
    if (cond == 2 && !was) ok = 0;
    if (cs) {
        if (ok && !was) ok = 0;
        if (ok && cn != cas0) ok = 0;
    }
    if (cs && cond == 1) { c->nsent = 0; M[k].live = -1; return; }
    if (nomem_reply(k)) return;
    if (cs && get && !ok && was) { c->nsent = 0; return; }      // the old value or null are both acceptable here
    if (get) { if (was) rd_val(k); else rd_null(); } else if (ok) rd_lit("+OK\r\n"); else rd_null();
    rd_done();
    if (ok) {
        sx_assert(!lowmem || was, "no entry is added while memory is low");
        set_model(k, v, n, exp, (uint32_t)fn);
        if (exp <= H_now && exp != 0) M[k].live = 0;
        if (ek >= 3 && ek <= 4 && exp <= 0) M[k].live = 0;
    }
}
static void op_setex(void) {
    int k = sx_choose(NK, "key"); uint8_t v[8]; size_t n = sx_choose(VL + 1, "len"); sx_bytes(v, n, "val");
    int shape = sx_choose(4, "shape"); int64_t en = any_num(SECOND, 0, "en");
    r_cmd(&q, shape == 1 ? 3 : shape == 2 ? 5 : 4); arg("setex"); r_arg(&q, KEY[k], 2); if (shape == 3) r_str(&q, "1s"); else arg_num('I', (uint64_t)en);
    if (shape != 1) r_arg(&q, v, n); if (shape == 2) r_str(&q, "nx");
    send();
    if (shape == 1 || shape == 2) { rd_err("ERR wrong number of arguments"); return; }
    if (shape == 3 || en <= 0) { rd_err("ERR invalid expire time"); return; }
    if (nomem_reply(k)) return;
    sx_assert(!lowmem || alive(k), "no entry is added while memory is low"); rd_lit("+OK\r\n"); rd_done(); set_model(k, v, n, sat_add(H_now, sat_mul(en, SECOND)), 0);
}
static void op_get(void) {
    int k = sx_choose(NK, "key"); int shape = sx_choose(3, "shape");
    r_cmd(&q, 1 + shape); arg("get"); for (int i = 0; i < shape; i++) r_arg(&q, KEY[k], 2);
    send();
    if (shape != 1) { rd_err("ERR wrong number of arguments"); return; }
    if (alive(k)) rd_val(k); else rd_null(); rd_done();
}
static int keys(int *ks) { int n = sx_choose(4, "nkeys"); for (int i = 0; i < n; i++) ks[i] = sx_choose(NK, "key"); return n; }
static void op_del(void) {
    int ks[3], n = keys(ks); r_cmd(&q, 1 + n); arg("del"); for (int i = 0; i < n; i++) r_arg(&q, KEY[ks[i]], 2);
    send(); if (!n) { rd_err("ERR wrong number of arguments"); return; }
    int d = 0; for (int i = 0; i < n; i++) if (alive(ks[i])) { d++; M[ks[i]].live = 0; }
    rd_int(d); rd_done();
}
static void op_count(void) {
    int ks[3], touch = sx_choose(2, "touch"), n = keys(ks); r_cmd(&q, 1 + n); arg(touch ? "touch" : "exists"); for (int i = 0; i < n; i++) r_arg(&q, KEY[ks[i]], 2);
    send(); if (!n) { rd_err("ERR wrong number of arguments"); return; }
    int d = 0; for (int i = 0; i < n; i++) d += alive(ks[i]);
    rd_int(d); rd_done();
}
static void op_mget(int cas) {
    int ks[3], n = keys(ks); r_cmd(&q, 1 + n); arg(cas ? "mgets" : "mget"); for (int i = 0; i < n; i++) r_arg(&q, KEY[ks[i]], 2);
    send(); if (!n) { rd_err("ERR wrong number of arguments"); return; }
    rd_arr(n);
    for (int i = 0; i < n; i++) {
        int k = ks[i];
        if (!alive(k)) { rd_null(); continue; }
        if (cas) {
            struct got g = { .k = k }; pogocache_load(cache, KEY[k], 2, &(struct pogocache_load_opts){ .time = H_now, .entry = g_entry, .udata = &g, .notouch = 1 });
            rd_arr(3); rd_uint(M[k].flags); rd_uint(lastcas);
        }
        rd_val(k);
    }
    rd_done();
}
static void op_append(void) {
    int k = sx_choose(NK, "key"), p = sx_choose(2, "prepend"), shape = sx_choose(3, "shape"); uint8_t v[8]; size_t n = sx_choose(VL + 1, "len"); sx_bytes(v, n, "val");
    r_cmd(&q, 2 + shape); arg(p ? "prepend" : "append"); r_arg(&q, KEY[k], 2); for (int i = 0; i < shape; i++) r_arg(&q, v, n);
    send();
    if (shape != 1) { rd_err("ERR wrong number of arguments"); return; }
    if (!alive(k)) set_model(k, v, n, 0, 0);
    else { uint8_t t[48]; M[k].isnum = 0; if (p) { memcpy(t, v, n); memcpy(t + n, M[k].v, M[k].n); } else { memcpy(t, M[k].v, M[k].n); memcpy(t + M[k].n, v, n); } M[k].n += n; memcpy(M[k].v, t, M[k].n); }
    rd_int((int64_t)M[k].n); rd_done();
}
static void op_incr(void) {
    static const char *W[] = { "incr", "decr", "incrby", "decrby", "uincr", "udecr", "uincrby", "udecrby" };
    int k = sx_choose(NK, "key"), w = sx_choose(8, "word"), by = w & 2, dec = w & 1, uns = w & 4, shape = sx_choose(3, "shape");
    uint64_t d = 1; int baddelta = 0;
    r_cmd(&q, 2 + (by ? 1 : 0) + (shape == 1) - (shape == 2)); arg(W[w]); if (shape != 2) r_arg(&q, KEY[k], 2); else if (by) r_arg(&q, KEY[k], 2);
    if (shape == 2 && by) {} else if (by) { d = sx_u64("delta"); int s = sx_choose(2, "dsign"); arg_num(s ? 'I' : 'U', d); if (s ? uns && (int64_t)d < 0 : !uns && (int64_t)d < 0) baddelta = 1; }
    if (shape == 1) r_str(&q, "1");
    send();
    if (shape) { rd_err("ERR wrong number of arguments"); return; }
    if (baddelta) { rd_err("ERR value is not an integer or out of range"); return; }
    uint64_t x = 0; int ok = 1;
    if (alive(k)) { if (uns) ok = parse_u64((char*)M[k].v, M[k].n, &x); else ok = parse_i64((char*)M[k].v, M[k].n, (int64_t*)&x); }
    if (!ok) { rd_err("ERR value is not an integer or out of range"); return; }
    uint64_t r; int over;
    if (uns) over = dec ? __builtin_sub_overflow(x, d, &r) : __builtin_add_overflow(x, d, &r);
    else { int64_t s; over = dec ? __builtin_sub_overflow((int64_t)x, (int64_t)d, &s) : __builtin_add_overflow((int64_t)x, (int64_t)d, &s); r = (uint64_t)s; }
    if (over) { rd_err("ERR increment or decrement would overflow"); return; }
    if (uns) rd_uint(r); else rd_int((int64_t)r); rd_done();
    if (!alive(k)) { M[k].exp = 0; M[k].flags = 0; M[k].live = 1; }
    M[k].isnum = 1; M[k].num = r; uint8_t t[32]; size_t n = uns ? u64toa(r, t) : i64toa((int64_t)r, t); memcpy(M[k].v, t, n); M[k].n = n;
}
static void op_expire(void) {
    int k = sx_choose(NK, "key"), shape = sx_choose(3, "shape"); int64_t en = any_num(SECOND, 1, "en");
    r_cmd(&q, shape == 1 ? 2 : 3); arg("expire"); r_arg(&q, KEY[k], 2); if (shape == 0) arg_num('I', (uint64_t)en); else if (shape == 2) r_str(&q, "1s");
    send();
    if (shape == 1) { rd_err("ERR wrong number of arguments"); return; }
    if (shape == 2) { rd_err("ERR value is not an integer or out of range"); return; }
    int l = alive(k); rd_int(l); rd_done();
    if (l) { M[k].exp = sat_add(H_now, sat_mul(en, SECOND)); if (M[k].exp <= H_now) M[k].live = 0; }
}
static void op_ttl(void) {
    int k = sx_choose(NK, "key"), p = sx_choose(2, "pttl"), shape = sx_choose(3, "shape");
    r_cmd(&q, 1 + shape); arg(p ? "pttl" : "ttl"); for (int i = 0; i < shape; i++) r_arg(&q, KEY[k], 2);
    send(); if (shape != 1) { rd_err("ERR wrong number of arguments"); return; }
    if (!alive(k)) rd_int(-2); else if (M[k].exp == 0) rd_int(-1); else rd_int((M[k].exp - H_now) / (p ? MILLISECOND : SECOND));
    rd_done();
}
static void op_dbsize(void) {
    int shape = sx_choose(2, "shape"); r_cmd(&q, 1 + shape); arg("dbsize"); if (shape) r_str(&q, "x");
    send(); if (shape) { rd_err("ERR wrong number of arguments"); return; }
    int n = 0, unk = 0; for (int k = 0; k < NK; k++) { int was = M[k].live; n += alive(k); if (was && !M[k].live) unk = 1; }
    if (unk) { c->nsent = 0; return; }    // expired but not yet swept entries may or may not be counted
    rd_int(n); rd_done();
}
static void op_time(void) {
    int64_t d = (int64_t)bits(56, "dt"); H_now += d; H_unix += d;
}
void harness(void) {
    H_po.noevict = NOEVICT; H_po.usecas = OPTS & 16 ? 1 : 0;
    srv_start(); c = srv_open();
#ifdef SYMTIME
    H_now = SECOND + (int64_t)bits(58, "now"); H_unix = H_now + (int64_t)bits(61, "unix");
#endif
    r_cmd(&q, 1); r_str(&q, "ping"); send(); rd_lit("+PONG\r\n"); rd_done();
    // the numbers the harness writes are understood (if not, only the code's own number reading changed)
    r_cmd(&q, 3); r_str(&q, "incrby"); r_str(&q, "pp"); arg_num('I', 123456); send();
    if (c->nsent != 20 || !nt_same((uint8_t *)c->sent + 1, 17, 123456)) sx_end();
    rd_int(123456); rd_done(); r_cmd(&q, 2); r_str(&q, "del"); r_str(&q, "pp"); send(); rd_int(1); rd_done();
    for (int k = 0; k < NK; k++) pre(k);
    size_t live = sx_heap_live(); (void)live;
    static const int OPSEL[] = { OPLIST };
    for (int o = 0; o < NOPS; o++) {
        upper = sx_choose(2, "upper"); lowmem = NOEVICT ? sx_choose(2, "lowmem") : 0;
        int op = OPSEL[sx_choose((int)(sizeof OPSEL / sizeof OPSEL[0]), "op")];
        switch (op) {
        case Q_SET: op_set(); break; case Q_GET: op_get(); break; case Q_DEL: op_del(); break; case Q_COUNT: op_count(); break;
        case Q_MGET: op_mget(0); break; case Q_MGETS: op_mget(1); break; case Q_APPEND: op_append(); break; case Q_INCR: op_incr(); break;
        case Q_EXPIRE: op_expire(); break; case Q_TTL: op_ttl(); break; case Q_SETEX: op_setex(); break; case Q_DBSIZE: op_dbsize(); break; case Q_TIME: op_time(); break;
        }
        for (int k = 0; k < NK; k++) if (M[k].live < 0) sx_end();
        check();
    }
    srv_close(c); srv_stop();
}
