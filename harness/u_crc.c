// The checksum of the saved file is CRC-32.
#include "sx.h"
#include "util.h"
int useallocator; bool usetrackallocs;
#ifndef L
#define L 2
#endif
static uint32_t ref(const uint8_t *p, size_t n) { uint32_t c = 0xffffffffu; for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xedb88320u & (0u - (c & 1))); } return ~c; }
void harness(void) {
    static uint8_t a[L + 8]; size_t pre = sx_choose(3, "prefix"), n = 1 + sx_choose(L, "len"); for (size_t i = 0; i < pre; i++) a[i] = (uint8_t)(i * 77 + 9);
    for (size_t i = 0; i + 1 < n; i++) a[pre + i] = (uint8_t)sx_choose(256, "byte"); sx_bytes(a + pre + n - 1, 1, "a"); sx_assert(crc32(a, pre + n) == ref(a, pre + n), "the standard checksum");
    sx_assert(crc32("123456789", 9) == 0xcbf43926u, "the check value of the standard"); sx_assert(crc32(a, 0) == 0, "nothing");
    sx_cover("checked");
}
