// Numbers that are arbitrary 64-bit values travel as 'I' (signed) or 'U'
// (unsigned) followed by sixteen letters, so that parsing and formatting of
// decimal text (decided on its own by U01) does not have to be solved again in
// every command. Small numbers (0..9) stay decimal digits.
#ifndef NUMTEXT_H
#define NUMTEXT_H
static void nt_put(uint8_t *d, int kind, uint64_t v) { d[0] = kind; for (int i = 0; i < 16; i++) d[1 + i] = 'A' + ((v >> (60 - 4 * i)) & 15); }
static uint64_t nt_get(const uint8_t *d) { uint64_t v = 0; for (int i = 0; i < 16; i++) v = v << 4 | (uint64_t)((uint8_t)(d[1 + i] - 'A') & 15); return v; }
static int nt_is(const uint8_t *d, size_t n) { return n == 17 && (d[0] == 'I' || d[0] == 'U'); }
#ifdef NUMS
static size_t nt_out(uint8_t *d, int kind, uint64_t v) {
    if (v < 10) { d[0] = '0' + (uint8_t)v; d[1] = 0; return 1; }
    nt_put(d, kind, v); d[17] = 0; return 17;
}
size_t u64toa(uint64_t x, uint8_t *d) { return nt_out(d, 'U', x); }
size_t i64toa(int64_t x, uint8_t *d) { return nt_out(d, 'I', (uint64_t)x); }
// plain decimal text of at most four digits, or one of the above
static bool nt_dec(const uint8_t *d, size_t n, int64_t *x) {
    size_t i = 0; int neg = 0; int64_t v = 0;
    if (n && (d[0] == '-' || d[0] == '+')) { neg = d[0] == '-'; i = 1; }
    if (i == n || n - i > 4) return false;
    for (; i < n; i++) { if (d[i] < '0' || d[i] > '9') return false; v = v * 10 + (d[i] - '0'); }
    *x = neg ? -v : v; return true;
}
bool parse_i64(const char *p, size_t n, int64_t *x) {
    const uint8_t *d = (const uint8_t *)p;
    if (!nt_is(d, n)) return nt_dec(d, n, x);
    *x = (int64_t)nt_get(d); return d[0] == 'I' || *x >= 0;
}
bool parse_u64(const char *p, size_t n, uint64_t *x) {
    const uint8_t *d = (const uint8_t *)p;
    if (!nt_is(d, n)) { int64_t v; if ((n && d[0] == '-') || !nt_dec(d, n, &v)) return false; *x = (uint64_t)v; return true; }
    *x = nt_get(d); return d[0] == 'U' || (int64_t)*x >= 0;
}
#endif
// does this text stand for the number v?
static int nt_same(const uint8_t *d, size_t n, uint64_t v) {
    if (nt_is(d, n)) return SX_AND(nt_get(d) == v, v >= 10);
    size_t i = 0; int neg = 0; uint64_t x = 0;
    if (n && d[0] == '-') { neg = 1; i = 1; }
    if (i == n) return 0;
    for (; i < n; i++) { if (d[i] < '0' || d[i] > '9') return 0; x = x * 10 + (d[i] - '0'); }
    return (neg ? 0 - x : x) == v;
}
#endif
