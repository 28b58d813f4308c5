// More clients at once than the server takes from the kernel in one go (on either port): they arrive together, send together and leave
// together. One of them, any, behaves differently from the others.
#include "hx.h"
static int N, fds, CC; static int64_t live; static int cl[128]; static uint8_t sb;
static char pb[24]; static const char* kp(int i) { sprintf(pb, "/t/%d", i); return pb; }
static void val(int i, uint8_t* v) { v[0] = (uint8_t)i; v[1] = sb; v[2] = (uint8_t)(sb ^ (i * 5)); }
static void txt(Txt* x, const char* m, const char* p) { t0(x); ta(x, m); ta(x, " "); ta(x, p); ta(x, " HTTP/1.1\r\n\r\n"); }
static void ask(int c, const char* m, const char* p) { Txt* x = &hx_t; txt(x, m, p); cl_send(c, x->b, x->n); }
static int mon(int i) { return (int)vx_param("mons", 0) && i % 3 == 2; }
enum { S_SAME, S_CLOSE, S_RESET, S_HALF, S_DELETE, S_FIN, S_BAD, S_N };
static int special, how, same;
static void send(int i) { int k = i == special ? how : S_SAME; int c = cl[i]; if (mon(i)) { switch (k) { case S_CLOSE: cl_close(c); break; case S_RESET: cl_reset(c); break; case S_HALF: cl_puts(c, "GET /co"); break; default: ask(c, "GET", i & 1 ? "/conn" : "/"); } return; }
    switch (k) { case S_CLOSE: cl_close(c); break; case S_RESET: ask(c, "GET", kp(i)); cl_reset(c); break; case S_HALF: cl_puts(c, "GET /t"); break; case S_DELETE: ask(c, "DELETE", kp(i)); break; case S_FIN: ask(c, "GET", kp(i)); cl_fin(c); break; case S_BAD: ask(c, "XX", "/"); break;
    default: if (same == 0) ask(c, "GET", kp(i)); else if (same == 1) ask(c, "HEAD", kp(i)); else { ask(c, "GET", kp(i)); if (i % 4 == 0) ask(c, "DELETE", kp(i)); } } }
static int gone[128], del[128];
static void judge(int i) { int c = cl[i], k = i == special ? how : S_SAME; uint8_t v[3]; val(i, v); Resp r;
    if (mon(i)) { if (k == S_CLOSE || k == S_RESET) { vx_check(!cl_open(c), "a client that left is released"); gone[i] = 1; } else if (k == S_HALF) vx_check(unread(c) == 0 && cl_open(c), "half a request is not answered"); else if (i & 1) { Resp q; hx_parse(W.s[c].out, W.s[c].out_len, 1, &q); vx_check(q.ok == 1 && q.status == 200, "a stream is started"); W.s[c].out_pos = W.s[c].out_len; } else { r = take(c); vx_check(got(r, "OK\r\n", 4), "the monitoring request is answered"); } return; }
    switch (k) { case S_CLOSE: case S_RESET: vx_check(!cl_open(c), "a client that left is released"); gone[i] = 1; return; case S_HALF: vx_check(unread(c) == 0 && cl_open(c), "half a request is not answered"); cl_puts(c, "/1 HTTP/1.1\r\n\r\n"); settle(); { uint8_t u[3]; val(1, u); r = take(c); vx_check(got(r, u, 3), "the request completed later is answered"); } return;
    case S_DELETE: r = take(c); vx_check(is200(r), "DELETE answers 200"); del[i] = 1; return; case S_FIN: r = take(c); vx_check(got(r, v, 3), "a client that sends nothing more is answered"); vx_check(!cl_open(c), "and its connection closed"); gone[i] = 1; return; case S_BAD: r = take(c); vx_check(r.ok == 1 && r.status >= 400, "an unknown method is refused"); if (!cl_open(c)) gone[i] = 1; return; }
    if (same == 1) { r = take(c, 1); vx_check(r.ok == 1 && r.status == 200 && r.clen == 3, "HEAD is answered"); } else { r = take(c); vx_check(got(r, v, 3), "GET is answered with the value"); if (same == 2 && i % 4 == 0) { r = take(c); vx_check(is200(r), "the request behind it is answered"); del[i] = 1; } }
    vx_check(unread(c) == 0 && cl_open(c), "one answer to each request, and the connection is kept"); }
static void script(void) {
    settle(); CC = cl_connect(PORT_CACHE); settle(); { uint8_t z = 0; vx_check(is200(put(CC, "/warm/up", &z, 1)), "PUT"); simple(CC, "DELETE", "/warm"); }
    fds = w_open_fds(); live = (int64_t)vx_live();
    for (int i = 0; i < N; i++) cl[i] = cl_connect(mon(i) ? PORT_MON : PORT_CACHE); int first = (int)vx_choose(2, "requests arrive with the clients"); if (!first) settle();
    for (int i = 0; i < N; i++) if (!mon(i)) { uint8_t v[3]; val(i, v); send_put(cl[i], kp(i), v, 3); } settle();
    for (int i = 0; i < N; i++) { vx_check(cl_open(cl[i]) && !W.s[cl[i]].queued, "every client is accepted"); if (!mon(i)) { Resp r = take(cl[i]); vx_check(is200(r) && unread(cl[i]) == 0, "every PUT is answered"); } } vx_reach("served");
    special = (int)vx_choose(N, "one client"); how = (int)vx_choose(S_N, "behaves differently"); same = (int)vx_choose(3, "the others"); for (int i = 0; i < N; i++) gone[i] = del[i] = 0;
    for (int i = 0; i < N; i++) send(i); settle(); if (vx_param("mons", 0)) { w_tick(); settle(); } for (int i = 0; i < N; i++) judge(i);
    for (int i = 0; i < N; i++) if (!mon(i)) { uint8_t v[3]; val(i, v); Resp r = get(CC, kp(i)); if (del[i]) vx_check(is404(r), "a deleted key is gone"); else vx_check(got(r, v, 3), "every stored value is intact"); if (W.s[CC].out_pos > 12000) W.s[CC].out_pos = W.s[CC].out_len = 0; }
    for (int i = 0; i < N; i++) if (!gone[i]) { if ((i + special) & 1) cl_close(cl[i]); else cl_reset(cl[i]); } settle(); for (int i = 0; i < N; i++) vx_check(!cl_open(cl[i]), "every client that left is released");
    vx_check(w_open_fds() == fds, "every descriptor of the clients is closed"); simple(CC, "DELETE", "/t"); w_advance(1); settle(); vx_check((int64_t)vx_live() <= live + N, "what was allocated for connections is released"); 
    { uint8_t v[3]; val(0, v); int c = cl_connect(PORT_CACHE); settle(); vx_check(is200(put(c, "/t/0", v, 3)), "a new client is served"); cl_close(c); settle(); } vx_reach("end"); }
static void proc(void*) { w_init_proc(); server_with(script, DEFCFG); vx_check(W.bad_close == 0 && W.bad_fd == 0, "no closed descriptor is used"); vx_check(w_open_kind(WF_SOCK) + w_open_kind(WF_LISTEN) + w_open_kind(WF_EPOLL) + w_open_kind(WF_EVENT) == 0, "stopping closes every descriptor"); }
extern "C" void vx_main(void) { w_init_fs(); N = (int)vx_param("clients", 40); vx_sym(&sb, 1, "byte"); vx_proc_run(proc, nullptr); vx_reach("done"); }
