// The hash map with keys of the same kind as the server's, against a plain list, for every history of insertions, deletions and lookups.
#include "hx.h"
#include <stdlib.h>
#include "khash.h"
KHASH_MAP_INIT_INT(vx, uint32_t)
enum { NKEY = 6 };
static uint32_t key[64]; static uint32_t val[64]; static int in[64]; static int nk, ver;
static void verify(khash_t(vx)* h) {
    int n = 0; for (int i = 0; i < nk; i++) { khiter_t k = kh_get(vx, h, key[i]); if (in[i]) { n++; vx_check(k != kh_end(h) && k < kh_end(h) && kh_exist(h, k) && kh_key(h, k) == key[i], "an inserted element is found"); vx_check(kh_value(h, k) == val[i], "it is found with its value"); } else vx_check(k == kh_end(h), "an element that is not in the map is not found"); }
    vx_check((int)kh_size(h) == n, "the size is the number of elements"); int seen[64] = {0}, total = 0; for (khiter_t k = kh_begin(h); k != kh_end(h); ++k) if (kh_exist(h, k)) { total++; for (int i = 0; i < nk; i++) if (in[i] && kh_key(h, k) == key[i]) { seen[i]++; vx_check(kh_value(h, k) == val[i], "iteration pairs keys with their values"); } } 
    vx_check(total == n, "iteration visits as many elements as there are"); for (int i = 0; i < nk; i++) vx_check(seen[i] == (in[i] != 0), "iteration visits every element once"); }
static void put(khash_t(vx)* h, int i) { int ret = -5; khiter_t k = kh_put(vx, h, key[i], &ret); vx_check(ret >= 0 && k != kh_end(h) && kh_key(h, k) == key[i], "insertion returns the slot"); vx_check((ret == 0) == (in[i] != 0), "insertion reports whether the key was there"); kh_value(h, k) = val[i] = ++ver; in[i] = 1; }
static void del(khash_t(vx)* h, int i) { khiter_t k = kh_get(vx, h, key[i]); if (in[i]) vx_check(k != kh_end(h), "an inserted element is found"); if (k != kh_end(h)) kh_del(vx, h, k); in[i] = 0; }
extern "C" void vx_main(void) {
    khash_t(vx)* h = kh_init(vx); ver = 100;
    if (vx_param("many", 0)) { // many keys, colliding or not, in different orders
        static const uint32_t stride[] = {1, 4, 8, 16, 64, 1024, 0x10001, 0x9E3779B1u}; uint32_t st = stride[vx_choose(8, "stride")], base = (uint32_t)vx_range(0, 0xffffffffu, "first key") & ~1023u; nk = 1 + vx_choose((uint32_t)vx_param("many", 40), "keys"); int pat = vx_choose(5, "deleted"); 
        for (int i = 0; i < nk; i++) { key[i] = base + st * (uint32_t)i; put(h, i); } verify(h); 
        for (int i = 0; i < nk; i++) if (pat == 0 ? i % 2 == 0 : pat == 1 ? i < nk / 2 : pat == 2 ? i >= nk / 2 : pat == 3 ? i % 3 != 0 : 1) del(h, i); verify(h);
        for (int i = nk - 1; i >= 0; i -= 2) put(h, i); verify(h); for (int r = 0; r < 6; r++) { for (int i = 0; i < nk; i++) if ((i + r) % 3 == 0) { if (in[i]) del(h, i); else put(h, i); } } verify(h); vx_reach("many"); }
    else { // arbitrary keys
        nk = (int)vx_param("keys", 4); int steps = (int)vx_param("steps", 5); int pre = (int)vx_param("pre", 0); uint32_t hi = (uint32_t)vx_range(0, 0x3ffffff, "high bits"); int lowb = (int)vx_param("low", 8); for (int i = 0; i < nk; i++) { key[i] = vx_param("any", 0) ? (uint32_t)vx_range(0, 0xffffffffu, "key") : hi << 6 | (uint32_t)vx_choose(lowb, "low bits") << (int)vx_param("shift", 0); for (int j = 0; j < i; j++) vx_assume(key[i] != key[j]); }
        for (int i = 0; i < pre; i++) put(h, i);
        for (int s = 0; s < steps; s++) { int i = vx_choose(nk, "which"); int op = vx_choose(2, "operation"); if (op == 0) put(h, i); else del(h, i); }
        verify(h); vx_reach("arbitrary keys"); }
    kh_destroy(vx, h); vx_reach("end"); }
