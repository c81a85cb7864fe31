// Binary encodings of util.c.
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include "util.h"
#include "buf.h"
#include "xenv.h"
void harness(void) {
    switch (sx_choose(7, "what")) {
    case 0: { uint64_t x = sx_u64("x"); uint8_t b[16]; memset(b, 0xAA, sizeof b);
        int n = varint_write_u64(b, x); sx_assert(n >= 1 && n <= 10, "varint length"); sx_assert(b[n] == 0xAA, "varint writes what it reports");
        uint64_t need = 1, t = x; while (t >= 128) { t >>= 7; need++; }
        sx_assert((uint64_t)n == need, "shortest form");
        uint8_t *e = malloc(n); memcpy(e, b, n);
        uint64_t y = 1; sx_assert(varint_read_u64(e, n, &y) == n && y == x, "varint round trip");
        for (int k = 0; k < n; k++) { uint8_t *s = malloc(k ? k : 1); memcpy(s, b, k); sx_assert(varint_read_u64(s, k, &y) == 0, "a cut varint is incomplete"); free(s); }
        free(e); break; }
    case 1: { int64_t x = sx_i64("x"), y = 1; uint8_t b[16]; int n = varint_write_i64(b, x);
        sx_assert(n >= 1 && n <= 10 && varint_read_i64(b, n, &y) == n && y == x, "signed varint round trip"); break; }
    case 2: { uint8_t b[12]; sx_bytes(b, 12, "b"); size_t n = sx_choose(13, "n"); uint8_t *e = malloc(n ? n : 1); memcpy(e, b, n);
        uint64_t y, v = 0; int r = varint_read_u64(e, n, &y);
        int w = 0; for (size_t i = 0; i < n && i < 10; i++) { v |= (uint64_t)(b[i] & 127) << (7 * i); if (b[i] < 128) { w = (int)i + 1; break; } if (i == 9) w = -1; }
        sx_assert(r == w, "any bytes: consumed length");
        if (w > 0) sx_assert(y == v, "any bytes: value");
        free(e); break; }
    case 3: { uint64_t x = sx_u64("x"); uint8_t b[9] = {0}; b[8] = 7; write_u64(b, x); sx_assert(b[8] == 7 && read_u64(b) == x, "u64 round trip");
        for (int i = 0; i < 8; i++) sx_assert(b[i] == (uint8_t)(x >> (8 * i)), "u64 is little endian"); break; }
    case 4: { uint32_t x = sx_u32("x"); uint8_t b[5] = {0}; b[4] = 7; write_u32(b, x); sx_assert(b[4] == 7 && read_u32(b) == x, "u32 round trip");
        for (int i = 0; i < 4; i++) sx_assert(b[i] == (uint8_t)(x >> (8 * i)), "u32 is little endian"); break; }
    case 5: { // crc32: bitwise definition
        uint8_t b[3]; size_t n = sx_choose(CRC + 1, "n"); sx_bytes(b, n, "b");
        uint32_t c = ~0u; for (size_t i = 0; i < n; i++) { c ^= b[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xedb88320u & (0u - (c & 1))); }
        sx_assert(crc32(b, n) == (uint32_t)~c, "crc32 of the bytes"); break; }
    case 6: { // pointers in entry tables
        uint8_t p[PTRSIZE + 1]; p[PTRSIZE] = 9; uint64_t v = sx_u64("ptr"); sx_assume((v >> 47) == 0);
        store_ptr(p, (void*)(uintptr_t)v); sx_assert(p[PTRSIZE] == 9 && (uintptr_t)load_ptr(p) == v, "pointer round trip"); break; }
    }
}
