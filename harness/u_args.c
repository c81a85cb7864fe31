// buf.c and args.c against plain sequences of byte strings.
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include <ctype.h>
#include "util.h"
#include "args.h"
#include "buf.h"
#include "xenv.h"
char *arg_cstr(struct args *args, size_t idx); char *cstr_copy(const char *cstr);
static int same(const void *a, const void *b, size_t n) { const uint8_t *x = a, *y = b; uint8_t d = 0; for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i]; return d == 0; }
#if defined(BUFS)
static const int LEN[] = { 0, 1, 15, 16, 17, 40 };
void harness(void) {
    static uint8_t m[512]; size_t n = 0;
    struct buf b = {0}; uint8_t t[64];
    for (int k = 0; k < NOPS; k++) {
        switch (sx_choose(6, "op")) {
        case 0: { int l = LEN[sx_choose(6, "len")]; sx_bytes(t, l < 2 ? l : 2, "d"); for (int i = 2; i < l; i++) t[i] = 'a' + i; buf_append(&b, t, l); memcpy(m + n, t, l); n += l; break; }
        case 1: { int r = sx_choose(2, "many") ? 17 : 1; for (int i = 0; i < r; i++) { uint8_t c = i ? 'x' : sx_u8("c"); buf_append_byte(&b, c); m[n++] = c; } break; }
        case 2: { uint64_t v = sx_u64("v"); buf_append_uvarint(&b, v); do { uint8_t c = v & 127; v >>= 7; m[n++] = c | (v ? 128 : 0); } while (v); break; }
        case 3: { int64_t v = sx_i64("v"); buf_append_varint(&b, v); uint64_t u = v < 0 ? ~((uint64_t)v << 1) : (uint64_t)v << 1; do { uint8_t c = u & 127; u >>= 7; m[n++] = c | (u ? 128 : 0); } while (u); break; }
        case 4: buf_clear(&b); n = 0; break;
        case 5: { size_t l = sx_choose(2, "e") ? 33 : 0; buf_ensure(&b, l); sx_assert(b.cap - b.len >= l, "room was made"); break; }
        }
        sx_assert(b.len == n && b.len <= b.cap, "length");
        if (n) sx_assert(same(b.data, m, n), "content");
    }
    buf_clear(&b);
    sx_assert(sx_heap_live() == 0, "memory released");
}
#elif defined(ARGS)
#define MAXA 24
static struct { size_t n; uint8_t d[24]; } M[MAXA];
void harness(void) {
    struct args a = {0}; int n = 0; static uint8_t keep[64][24]; int nk = 0;
    for (int k = 0; k < NOPS; k++) {
        switch (sx_choose(5, "op")) {
        case 0: case 1: case 2: { int r = sx_choose(2, "many") ? 5 : 1; int mode = sx_choose(3, "mode");
            for (int i = 0; i < r && n < MAXA; i++) {
                int zc = mode == 0 ? 0 : mode == 1 ? 1 : i & 1;
                size_t l = (size_t)(i + k + (zc ? 0 : 14)) % 19; uint8_t *d = keep[nk++ & 63]; for (size_t j = 0; j < l; j++) d[j] = j == 0 ? sx_u8("d") : 'a' + j;
                M[n].n = l; memcpy(M[n].d, d, l);
                if (zc) args_append(&a, (char*)d, l, true);
                else { char *t = malloc(l + 1); memcpy(t, d, l); args_append(&a, t, l, false); memset(t, 0x55, l + 1); free(t); }   // the copy must be its own
                n++; } break; }
        case 3: args_clear(&a); n = 0; break;
        case 4: args_remove_first(&a); if (n) { memmove(&M[0], &M[1], sizeof M[0] * (n - 1)); n--; } break;
        }
        sx_assert(args_count(&a) == n, "count");
        for (int i = 0; i < n; i++) { size_t l; const char *p = args_at(&a, i, &l); sx_assert(l == M[i].n && same(p, M[i].d, l), "each argument keeps its bytes"); }
    }
    args_free(&a);
    sx_assert(sx_heap_live() == 0, "memory released");
}
#else
// names are compared without regard to case, whole and exactly
static const char *W[] = { "get", "flags", "exat" };
void harness(void) {
    struct args a = {0}; uint8_t t[8]; size_t n = sx_choose(6, "n"); sx_bytes(t, n, "t");
    char *d = malloc(n ? n : 1); memcpy(d, t, n); args_append(&a, d, n, sx_choose(2, "zc"));
    const char *w = W[sx_choose(3, "word")]; size_t wl = strlen(w); int eq = n == wl, ex = eq;
    for (size_t i = 0; i < n && i < wl; i++) { eq = SX_AND(eq, (t[i] == (uint8_t)w[i]) | (t[i] == (uint8_t)(w[i] - 32))); }
    sx_assert(argeq(&a, 0, w) == eq, "argeq"); sx_assert(argeq_bytes(d, n, w) == eq, "argeq_bytes"); sx_assert(args_eq(&a, 0, w) == eq, "args_eq");
    (void)ex; sx_assert(!args_eq(&a, 1, w), "no such argument");
    int nul = 0; for (size_t i = 0; i < n; i++) nul |= t[i] == 0;
    char *c = arg_cstr(&a, 0);
    sx_assert((c == 0) == (nul != 0), "a C string only without a zero byte");
    if (c) { sx_assert(same(c, t, n) && c[n] == 0, "C string content"); char *e = cstr_copy(c); sx_assert(same(e, t, n) && e[n] == 0, "copy"); free(e); free(c); }
    sx_assert(arg_cstr(&a, 1) == 0 && cstr_copy(0) == 0, "nothing to copy");
    args_free(&a); free(d);
    sx_assert(sx_heap_live() == 0, "memory released");
}
#endif
