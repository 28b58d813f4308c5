// A table of thousands of keys: its listing is complete up to the built-in limit of 10,000 keys, in pages, and after changes.
#include "hx.h"
static int N, C1; static uint8_t* there; static char pb[24]; static uint8_t sb;
static const char* kp(int i) { sprintf(pb, "/t/%d", i); return pb; }
static int conn(void) { if (C1 < 0 || !cl_open(C1)) { if (C1 >= 0) W.s[C1].used = 0; C1 = cl_connect(PORT_CACHE); settle(); } return C1; }
// every line names a stored key not yet seen; returns how many
static int list(const char* hdr, uint8_t* seen, int64_t* entries) {
    int c = conn(); Txt* x = &hx_t; t0(x); ta(x, "GET /t HTTP/1.1\r\n"); ta(x, hdr); ta(x, "\r\n"); cl_send(c, x->b, x->n); settle(); WSock* s = &W.s[c]; vx_check(!cl_open(c), "the listing ends by closing the connection");
    const uint8_t* p = s->out + s->out_pos; int len = s->out_len - s->out_pos, pos = 0, body = 0, n = 0; *entries = -1; vx_check(hx_pre(p, len, "HTTP/1.1 200"), "a listing");
    for (;;) { int e = hx_line(p + pos, len - pos); if (e < 0) break; if (body) { int i = (int)hx_num(p + pos, e); if (!(i >= 0 && i < N && there[i] && !seen[i])) { vx_check(0, "the listing names stored keys, once"); return n; } seen[i] = 1; n++; } else if (e == 0) body = 1; else if (hx_pre(p + pos, e, "X-Entries: ")) *entries = hx_num(p + pos + 11, e - 11); pos += e + 2; }
    vx_check(pos == len && body, "the listing consists of complete lines"); return n; }
static void script(void) {
    settle(); C1 = -1; there = (uint8_t*)vx_shared_alloc(N); uint8_t* seen = (uint8_t*)vx_shared_alloc(N); memset(there, 0, N); Txt* x = &hx_t;
    for (int i = 0; i < N;) { t0(x); int k = 0; for (; k < 100 && i < N; k++, i++) { ta(x, "PUT "); ta(x, kp(i)); ta(x, " HTTP/1.1\r\nContent-Length: 1\r\n\r\n"); x->b[x->n++] = (char)sb; there[i] = 1; } cl_send(conn(), x->b, x->n); settle(); while (k--) { Resp r = take(C1); vx_check(is200(r), "PUT answers 200"); } } vx_reach("stored");
    int gap = (int)vx_choose(3, "deleted"), left = N; if (gap) for (int i = gap == 1 ? 0 : N / 2; i < N; i += gap == 1 ? 1000 : 1) { if (gap == 2 && i > N / 2 + 200) break; vx_check(is200(simple(conn(), "DELETE", kp(i))), "DELETE"); if (W.s[C1].out_pos > 12000) W.s[C1].out_pos = W.s[C1].out_len = 0; there[i] = 0; left--; }
    int64_t e; int how = (int)vx_choose(3, "listing"); memset(seen, 0, N);
    if (how == 0) { int n = list("", seen, &e); vx_check(n == (left < 10000 ? left : 10000), "the listing names every key, up to 10,000"); vx_check(e == left, "X-Entries is the number of keys"); vx_reach("whole"); }
    else if (how == 1) { int n = list("X-Limit: 20000\r\n", seen, &e); vx_check(n == left && e == left, "the listing names every key"); vx_reach("all"); }
    else { int n = 0, pg = 4000; for (int s = 0; s < left + pg; s += pg) { static char h[64]; sprintf(h, "X-Start: %d\r\nX-Limit: %d\r\n", s, pg); int k = list(h, seen, &e); int want = left - s; if (want > pg) want = pg; if (want < 0) want = 0; vx_check(k == want, "a page has the keys asked for"); n += k; } vx_check(n == left, "pages together name every key once"); vx_reach("pages"); }
    vx_reach("end"); }
static void proc(void*) { w_init_proc(); W.maxout = 200000; server_with(script, DEFCFG); }
extern "C" void vx_main(void) { w_init_fs(); N = (int)vx_param("keys", 10001); vx_sym(&sb, 1, "byte"); vx_proc_run(proc, nullptr); vx_reach("done"); }
