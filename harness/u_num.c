// Integer text parsing, formatting and clamped arithmetic (util.c).
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include "util.h"
#include "xenv.h"
#ifndef L
#define L 22
#endif
// an arbitrary decimal digit, in a form whose range is plain to see
static uint8_t digit(const char *name) { static volatile uint8_t v; v = (uint8_t)(((uint16_t)sx_u8(name) * 10) >> 8); return v; }
#if defined(PARSE)
// what a decimal integer text means
enum { NO, YES, UNSPEC };
static int ref(const uint8_t *b, size_t n, int sgn, uint64_t *mag, int *neg) {
    size_t i = 0; *neg = 0;
    if (n == 0) return NO;
    if (b[0] == '-') { if (!sgn) return NO; *neg = 1; i = 1; }
    else if (b[0] == '+') i = 1;
    if (i == n) return NO;
    uint64_t v = 0; size_t s = i;
    for (; i < n; i++) { if (b[i] < '0' || b[i] > '9') return NO; }
    while (s + 1 < n && b[s] == '0') s++;
    if (n - s > 20) return NO;
    if (n - s >= 19) {          // compare with the largest magnitude, digit by digit
        const char *lim = !sgn ? "18446744073709551615" : *neg ? "09223372036854775808" : "09223372036854775807";
        if (n - s == 19) lim++;
        if (n - s == 20 || sgn) for (size_t k = s; k < n; k++) { if (b[k] < lim[k - s]) break; if (b[k] > lim[k - s]) return NO; }
    }
    for (i = *neg || b[0] == '+'; i < n; i++) v = v * 10 + (uint64_t)(b[i] - '0');
    if (b[0] == '+') return UNSPEC;                         // "+5": either reading is fine
    if (n > 20 || (s > (size_t)*neg && n > 19)) return UNSPEC;   // padded with many zeros
    *mag = v; return YES;
}
void harness(void) {
    uint8_t b[32]; size_t n = 0;
    int sgn = sx_choose(2, "signed");
#if defined(DIGITS)
    switch (sx_choose(3, "sign")) { case 1: b[n++] = '-'; break; case 2: b[n++] = '+'; break; }
    int k = sx_choose(L + 1, "digits");
    for (int i = 0; i < k; i++) b[n++] = '0' + digit("d");
    if (sx_choose(2, "junk")) b[n++] = sx_u8("junk");
#elif defined(EDGE)
    // the texts around the limits: a limit with W arbitrary digits somewhere
    static const char *T[] = { "18446744073709551615", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "09223372036854775808", "-0999999999999999999", "000000000000000000001", "10000000000000000000" };
    const char *lim = T[sx_choose(8, "limit")]; n = strlen(lim); memcpy(b, lim, n);
    int at = sx_choose(20, "at");
    for (int i = 0; i < W; i++) if (at + i < (int)n && b[at + i] != '-') b[at + i] = '0' + digit("d");
    switch (sx_choose(3, "more")) { case 1: b[n++] = '0' + digit("m"); break; case 2: n--; break; }
#else
    n = sx_choose(L + 1, "n"); sx_bytes(b, n, "text");
#endif
    char *t = malloc(n ? n : 1); if (n) memcpy(t, b, n);   // nothing readable behind the text
    uint64_t u = 77; int64_t s = 77; int ok;
    if (sgn) ok = parse_i64(t, n, &s); else ok = parse_u64(t, n, &u);
    sx_obs(ok);
    uint64_t mag = 0; int neg; int r = ref(b, n, sgn, &mag, &neg);
    if (r == YES) { sx_cover("yes"); sx_assert(ok, "an integer in range is accepted");
        if (sgn) sx_assert((uint64_t)s == (neg ? 0 - mag : mag), "signed value"); else sx_assert(u == mag, "unsigned value"); }
    else if (r == NO) { sx_cover("no"); sx_assert(!ok, "a text that is not an integer in range is refused"); }
    free(t);
}
#elif defined(FORMAT)
void harness(void) {
    // every value: its decimal digits are the inputs
    int sgn = sx_choose(2, "signed"), neg = sgn ? sx_choose(2, "negative") : 0;
    const char *lim = !sgn ? "18446744073709551615" : neg ? "09223372036854775808" : "09223372036854775807";
    uint8_t d[20]; int k = 1 + sx_choose(20, "digits");
    if (lim[20 - k] == '0') return;
    d[0] = 1 + sx_choose(9, "first");
    if (k == 1 && !neg && sx_choose(2, "zero")) d[0] = 0;
    int full = k == 20 || (sgn && k == 19);
    if (!full) for (int i = 1; i < k; i++) d[i] = digit("d");
    else {                      // a common prefix with the limit, then one smaller digit, then anything
        const char *l = lim + 20 - k; int eq = 1;
        if (d[0] + '0' > l[0]) return;
        eq = d[0] + '0' == l[0];
        for (int i = 1; i < k; i++) {
            if (!eq) { d[i] = digit("d"); continue; }
            int m = l[i] - '0'; int c = sx_choose(m + 1, "p"); d[i] = c; eq = c == m;
        }
    }
    uint64_t mag = 0; for (int i = 0; i < k; i++) mag = mag * 10 + d[i];
    uint8_t o[32]; memset(o, 0xAA, sizeof o);
    size_t n = sgn ? i64toa((int64_t)(neg ? 0 - mag : mag), o + 2) : u64toa(mag, o + 2);
    sx_obs(n);
    sx_assert(n == (size_t)(k + neg), "length of the text");
    sx_assert(o[0] == 0xAA && o[1] == 0xAA && o[2 + n] == 0 && o[3 + n] == 0xAA, "terminated and nothing written around it");
    if (neg) sx_assert(o[2] == '-', "minus sign");
    for (int i = 0; i < k; i++) sx_assert(o[2 + neg + i] == '0' + d[i], "the digits of the value");
}
#elif defined(CLAMP)
void harness(void) {
    int64_t a = sx_i64("a"), b;
#ifdef MUL
    static const int64_t F[] = { 1000000000, 1000000, 1, 0, -1, INT64_MIN, INT64_MAX };
    b = F[sx_choose(7, "factor")];
    if (b == 1000000000 || b == 1000000) {
        int64_t lim = INT64_MAX / b, low = INT64_MIN / b;
        int64_t r = int64_mul_clamp(a, b);
        if (a > lim) sx_assert(r == INT64_MAX, "clamped product high");
        else if (a < low) sx_assert(r == INT64_MIN, "clamped product low");
        else sx_assert(r == a * b, "exact product");
        return;
    }
    int64_t r = int64_mul_clamp(a, b), want = 0;
    if (b == 1) want = a;
    else if (b == -1) want = a == INT64_MIN ? INT64_MAX : -a;
    else if (b == INT64_MAX) want = a == 0 ? 0 : a == 1 ? INT64_MAX : a > 1 ? INT64_MAX : a == -1 ? -INT64_MAX : INT64_MIN;
    else if (b == INT64_MIN) want = a == 0 ? 0 : a >= 1 ? INT64_MIN : INT64_MAX;
    sx_assert(r == want, "clamped product");
#else
    b = sx_i64("b");
    int64_t r = int64_add_clamp(a, b), sum = (int64_t)((uint64_t)a + (uint64_t)b);
    int over = ((a ^ sum) & (b ^ sum)) < 0;       // both operands have the other sign than the sum
    if (over) sx_assert(r == (a < 0 ? INT64_MIN : INT64_MAX), "clamped sum");
    else sx_assert(r == sum, "exact sum");
#endif
}
#endif
