// The pattern matcher against the meaning of a pattern: '*' any bytes, '?' one
// byte, a backslash takes the next byte literally, anything else itself.
#include "sx.h"
#include <string.h>
#include "util.h"
int useallocator = 0; bool usetrackallocs = false;
#ifndef PN
#define PN 5
#endif
#ifndef SN
#define SN 5
#endif
void harness(void) {
    uint8_t *p, *s; size_t pn = sx_choose(PN + 1, "plen"), sn = sx_choose(SN + 1, "slen"); p = malloc(pn); s = malloc(sn);   // exact size: no byte beyond is read
    sx_bytes(p, pn, "pattern"); sx_bytes(s, sn, "string");
#ifdef STARS
    for (size_t i = 0; i < pn; i++) sx_assume((p[i] == '*') | (p[i] == 'a') | (p[i] == '\\') | (p[i] == '?'));
#endif
    int r = match((char *)p, pn, (char *)s, sn, 0);
    // sets of string positions reachable after each pattern element, without branching on the bytes
    unsigned at = 1, all = (1u << (sn + 1)) - 1; int esc = 0;
    unsigned lit = 0; (void)lit;
    for (size_t i = 0; i < pn; i++) {
        unsigned eq = 0; for (size_t j = 0; j < sn; j++) eq |= (unsigned)(s[j] == p[i]) << j;
        unsigned from = at & (all >> 1);
        unsigned m_lit = (from & eq) << 1, m_any = from << 1, m_star = at; for (size_t j = 0; j < sn; j++) m_star |= m_star << 1; m_star &= all;
        int isstar = (p[i] == '*') & !esc, isq = (p[i] == '?') & !esc, isb = (p[i] == '\\') & !esc;
        unsigned nx = isb ? at : isstar ? m_star : isq ? m_any : m_lit;
        at = nx; esc = isb;
    }
    int want = (at >> sn & 1) & !esc;          // a pattern ending in a lone backslash matches nothing
    sx_assert((r != 0) == want, "match exactly when the pattern describes the string");
    if (r) sx_cover("match"); else sx_cover("no match");
    free(p); free(s);
}
