// The key hash against the published algorithm, for every byte string of the given length.
#include "hx.h"
#ifdef UNIT_HASH
#include "config.h"
#include "hash.h"
__attribute__((noinline)) static uint32_t rotl(uint32_t x, int r) { return x << r | x >> (32 - r); }
// (kept apart so that the reference keeps the published steps when it is compiled)
__attribute__((noinline)) static uint32_t mul(uint32_t x, uint32_t c) { return x * c; }
__attribute__((noinline)) static uint32_t ref(const uint8_t* p, int n, uint32_t h) { // MurmurHash3_x86_32 as published
    int i = 0; for (; i + 4 <= n; i += 4) { uint32_t k = (uint32_t)p[i] | (uint32_t)p[i + 1] << 8 | (uint32_t)p[i + 2] << 16 | (uint32_t)p[i + 3] << 24; k = mul(k, 0xcc9e2d51u); k = rotl(k, 15); k = mul(k, 0x1b873593u); h ^= k; h = rotl(h, 13); h = mul(h, 5) + 0xe6546b64u; }
    uint32_t k = 0; for (int j = (n & 3) - 1; j >= 0; j--) k = k << 8 | p[i + j]; if (n & 3) { k = mul(k, 0xcc9e2d51u); k = rotl(k, 15); k = mul(k, 0x1b873593u); h ^= k; }
    h ^= (uint32_t)n; h ^= h >> 16; h = mul(h, 0x85ebca6bu); h ^= h >> 13; h = mul(h, 0xc2b2ae35u); h ^= h >> 16; return h; }
extern "C" void vx_main(void) {
    int n = (int)vx_param("min", 0) + (int)vx_choose((uint32_t)vx_param("lengths", 17), "length"); uint8_t* b = (uint8_t*)vx_malloc(n ? n : 1); if (vx_param("few", 0)) { for (int i = 0; i < n; i++) b[i] = (uint8_t)(i * 37 + n * 11 + 1); int at = n ? (int)vx_choose(n, "position") : 0; if (n) vx_sym(b + at, 1, "byte"); } else vx_sym(b, n, "key"); uint32_t out = 0, seed = vx_param("anyseed", 0) ? (uint32_t)vx_range(0, 0xffffffffu, "seed") : HASH_SEED;
    MurmurHash3_x86_32(b, n, seed, &out); vx_check(out == ref(b, n, seed), "the hash is MurmurHash3_x86_32 of exactly the given bytes"); vx_reach("hash"); if (n & 3) vx_reach("tail"); if (n >= 8) vx_reach("blocks"); vx_free(b); }
#endif
