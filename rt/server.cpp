// Runs the server's own main() on the modelled world.
#include "world.h"
#include <string.h>
extern "C" int scache_main(int argc, char** argv); // main() of /repo, renamed at link level
static char* dec(char* b, uint64_t v) { char d[24]; int k = 0, n = 0; do { d[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) b[n++] = d[--k]; b[n] = 0; return b; }
int server_main(int argc, const char* const* argv) { static char* a[16]; int i = 0; for (; i < argc && i < 15; i++) { size_t n = strlen(argv[i]) + 1; a[i] = (char*)vx_shared_alloc(n); memcpy(a[i], argv[i], n); } a[i] = nullptr; return scache_main(i, a); }
#ifndef VX_NATIVE
extern "C" unsigned long long vx_num_value;
static char* num(char* b, uint64_t v) { if (!vx_is_sym(v)) return dec(b, v); vx_num_value = v; b[0] = 1; b[1] = 0; return b; }
#else
static char* num(char* b, uint64_t v) { return dec(b, v); }
#endif
void server_run(const ServerCfg& c) {
    static char size[24], lru[24]; const char* a[12]; int n = 0; a[n++] = "scache"; a[n++] = "-b"; a[n++] = "0.0.0.0:80"; a[n++] = "-B"; a[n++] = "0.0.0.0:81"; a[n++] = "-r"; a[n++] = c.path;
    a[n++] = "-l"; a[n++] = dec(lru, c.clear_percent); if (vx_is_sym(c.max_size) || c.max_size) { a[n++] = "-s"; a[n++] = num(size, c.max_size); }
    server_main(n, a);
}
