// Many small values: more free blocks than the server keeps before it shortens the block file.
#include "hx.h"
enum { NB = 300 }; static int N, bytab, ver[NB]; static uint8_t sb;
static char pb[16]; static const char* kp(int i) { sprintf(pb, bytab ? "/%d/t" : "/t/%d", i); return pb; }
static void val(int i, uint8_t* v) { v[0] = (uint8_t)i; v[1] = (uint8_t)ver[i]; v[2] = (uint8_t)(sb ^ (i * 3)); }
static int C0; static void o_put(int i) { uint8_t v[3]; ver[i]++; val(i, v); vx_check(is200(put(C0, kp(i), v, 3)), "PUT answers 200"); if (W.s[C0].out_pos > 12000) { W.s[C0].out_pos = W.s[C0].out_len = 0; } }
static void o_del(int i) { vx_check(is200(simple(C0, "DELETE", kp(i))), "DELETE answers 200"); ver[i] = -(ver[i] < 0 ? -ver[i] : ver[i]); }
static int64_t num(const Resp& r, const char* nm) { int l = (int)strlen(nm); for (int i = 0; i + l < r.body_len; i++) if (eqn(r.body + i, nm, l)) { int64_t v = 0; for (i += l; i < r.body_len && r.body[i] >= '0' && r.body[i] <= '9'; i++) v = v * 10 + r.body[i] - '0'; return v; } return -1; }
static void totals(void) { int n = 0; for (int i = 0; i < N; i++) n += ver[i] > 0; Resp r = get(C0, "/"); vx_check(is200(r), "statistics"); int64_t f = num(r, "DB Blocks Free: "); int64_t t = -1; for (int i = 0; i + 16 < r.body_len; i++) if (eqn(r.body + i, "DB Blocks Free: ", 16)) { int j = i; while (r.body[j] != '/') j++; t = 0; for (j++; r.body[j] >= '0' && r.body[j] <= '9'; j++) t = t * 10 + r.body[j] - '0'; }
    vx_check(t - f == n, "blocks in use are those of the stored values"); vx_check(w_size("/db/blockfile.db") >= t * 4096, "the block file is long enough for every block"); vx_check(num(r, "DB Keys: ") == n && num(r, "DB Size Bytes: ") == 3 * n, "keys and bytes are those stored"); }
static void values(void) { for (int i = 0; i < N; i++) { Resp r = get(C0, kp(i)); if (ver[i] > 0) { uint8_t v[3]; val(i, v); vx_check(got(r, v, 3), "every stored value is intact"); } else vx_check(is404(r), "deleted keys are gone"); } }
static void listing(void) { if (bytab) return; int n = 0; for (int i = 0; i < N; i++) n += ver[i] > 0; if (!n) return; int c = cl_connect(PORT_CACHE); settle(); cl_puts(c, "GET /t HTTP/1.1\r\n\r\n"); settle(); const uint8_t* p = W.s[c].out; int len = W.s[c].out_len, pos = 0, seen[NB] = {0}, body = 0, cnt = 0;
    for (;;) { int e = hx_line(p + pos, len - pos); if (e < 0) break; if (body) { int i = (int)hx_num(p + pos, e); vx_check(i >= 0 && i < N && ver[i] > 0 && !seen[i], "the listing names stored keys, once"); if (i >= 0 && i < N) seen[i] = 1; cnt++; } else if (e == 0) body = 1; pos += e + 2; } vx_check(pos == len && body && cnt == n, "the listing names every stored key"); cl_close(c); settle(); vx_reach("listing"); }
static void script(void) {
    settle(); C0 = cl_connect(PORT_CACHE); settle(); for (int i = 0; i < N; i++) ver[i] = 0; for (int i = 0; i < N; i++) o_put(i); totals();
    int order = vx_choose(4, "order of deletion"); static const int cnt[] = {2, 256, 257, 258, 259, 300, 10, 25}; int d = N < 256 ? (int)vx_choose(N + 1, "deleted") : cnt[vx_choose(8, "deleted")]; if (d > N) d = N;
    for (int k = 0; k < d; k++) { int i = order == 0 ? k : order == 1 ? N - 1 - k : order == 2 ? (k * 7) % N : k < d - 3 ? k : N - 1 - (k - (d - 3)); if (ver[i] > 0) o_del(i); } totals();
    static const int rep[] = {0, 1, 3, 300}; int r = rep[vx_choose(4, "stored again")]; if (r > N) r = N; for (int i = N - 1, k = 0; i >= 0 && k < r; i--) if (ver[i] <= 0) { ver[i] = -ver[i]; o_put(i); k++; } totals(); 
    if (vx_choose(2, "replace too")) { for (int i = 0; i < 5; i++) { if (ver[i] < 0) ver[i] = -ver[i]; o_put(i); } totals(); } values(); listing(); if (bytab) { for (int i = 0; i < N; i++) if (ver[i] > 0) o_del(i); } else simple(C0, "DELETE", "/t"); for (int i = 0; i < N; i++) ver[i] = 0; totals(); cl_close(C0); settle(); vx_reach("end"); }
static void proc(void*) { w_init_proc(); ServerCfg c = {"/db/", 0, 20}; server_with(script, c); }
extern "C" void vx_main(void) { w_init_fs(); N = (int)vx_param("n", 262); bytab = (int)vx_param("tables", 0); vx_sym(&sb, 1, "byte"); vx_proc_run(proc, nullptr); vx_reach("done"); }
