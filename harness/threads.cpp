// Two accepting threads and the serving thread: preempted at symbolic points, with clients arriving, leaving, and the server being stopped
// at symbolic points of the execution of any of them. Every accepted client must be served once and every descriptor released.
#include "hx.h"
enum { A_GET, A_PUT, A_MON, A_SILENT, A_GONE, A_STREAM, NACT };
static int na, acts, act[6], cl[6], next_act, quiet, fds, live, how, CC, stops; static uint8_t wv[5];
static void one(void) { // the next client appears
    if (next_act >= na) return; int i = next_act++; int a = act[i]; int c = cl[i] = cl_connect(a == A_MON || a == A_STREAM ? PORT_MON : PORT_CACHE);
    switch (a) { case A_GET: cl_puts(c, "GET /w/k HTTP/1.1\r\n\r\n"); break; case A_PUT: { Txt* x = &hx_t; t0(x); ta(x, "PUT /w/"); x->b[x->n++] = (char)('0' + i); ta(x, " HTTP/1.1\r\nContent-Length: 5\r\n\r\n"); tb(x, wv, 5); cl_send(c, x->b, x->n); break; }
    case A_MON: cl_puts(c, "GET / HTTP/1.1\r\n\r\n"); break; case A_STREAM: cl_puts(c, "GET /conn HTTP/1.1\r\n\r\n"); break; case A_GONE: cl_puts(c, "GET /w/k HTTP/1.1\r\n\r\n"); cl_reset(c); break; } }
static void arrive(void) { int k = 1 + (how & 1 ? (int)vx_choose(2, "at once") : 0); while (k--) one(); vx_reach("arrives at a point"); }
static void halt(void) { if (W.stopping) return; if (!w_handled(15)) { vx_reach("killed before the start"); vx_proc_exit(143); } W.stopping = 1; w_signal(15); vx_reach("stopped at a point"); }
static void async(void) { if (stops && stops < 3 && next_act >= na) halt(); else if (stops == 2 && vx_choose(2, "stop")) halt(); else arrive(); }
static void judge(int i) { int c = cl[i]; vx_check(!W.s[c].queued, "a client is accepted"); Resp r;
    switch (act[i]) { case A_GET: r = take(c); vx_check(live ? got(r, wv, 5) : is404(r), "GET is answered"); break; case A_PUT: r = take(c); vx_check(is200(r), "PUT is answered"); break; case A_MON: r = take(c); vx_check(got(r, "OK\r\n", 4), "the monitoring request is answered"); break;
    case A_STREAM: { Resp q; hx_parse(W.s[c].out, W.s[c].out_len, 1, &q); vx_check(q.ok == 1 && q.status == 200, "a stream is started"); W.s[c].out_pos = W.s[c].out_len; break; } case A_SILENT: vx_check(cl_open(c), "a silent client stays connected"); break; case A_GONE: vx_check(!cl_open(c), "a client that left is released"); W.s[c].out_pos = W.s[c].out_len; break; }
    vx_check(unread(c) == 0, "every request is answered once"); if (act[i] != A_GONE && act[i] != A_SILENT) vx_check(cl_open(c), "the connection is kept"); vx_reach("served"); }
static void script(void) {
    if (vx_param("late", 1)) { settle(); { CC = cl_connect(PORT_CACHE); settle(); vx_check(is200(put(CC, "/w/k", wv, 5)), "PUT"); int c = cl_connect(PORT_MON); cl_puts(c, "GET / HTTP/1.1\r\n\r\n"); settle(); take(c); cl_close(c); settle(); W.s[c].used = 0; } fds = w_open_fds(); live = (int)vx_live(); W.sched_budget = (int)vx_param("preempt", 1); W.accept_errs = (int)vx_param("refusals", 0); W.ep_rotate = (int)vx_param("rotate", 0); W.async = async; W.async_budget = (int)vx_param("events", 1); }
    while (next_act < na) { one(); settle(); } // each idle moment brings the next client
    if (stops) { vx_reach("idle before the stop"); if (stops == 3) return; }
    settle(); W.sched_budget = 0; W.async_budget = 0; if (!vx_param("late", 1)) { CC = cl_connect(PORT_CACHE); settle(); vx_check(is200(put(CC, "/w/k", wv, 5)), "PUT"); } 
    for (int i = 0; i < na; i++) judge(i);
    for (int i = 0; i < na; i++) { if (act[i] == A_PUT) { char p[8] = "/w/0"; p[3] = (char)('0' + i); Resp r = get(CC, p); vx_check(got(r, wv, 5), "an acknowledged value is found"); r = simple(CC, "DELETE", p); vx_check(is200(r), "DELETE"); } if (act[i] == A_GET) { Resp r = get(cl[i], "/w/k"); vx_check(got(r, wv, 5), "a further request on the connection is answered"); } }
    for (int i = 0; i < na; i++) if (act[i] != A_GONE) { if (i & 1) cl_reset(cl[i]); else cl_close(cl[i]); } settle(); for (int i = 0; i < na; i++) vx_check(!cl_open(cl[i]), "a client that left is released");
    if (fds) vx_check(w_open_fds() == fds, "every descriptor is closed"); if (live) { w_advance(1); settle(); vx_check((int)vx_live() <= live + na, "what was allocated for connections is released"); }
    int c = cl_connect(PORT_CACHE); cl_puts(c, "GET /w/k HTTP/1.1\r\n\r\n"); settle(); Resp r = take(c); vx_check(got(r, wv, 5), "a new client is served"); vx_reach("end"); }
static void proc(void*) { w_init_proc(); if (!vx_param("late", 1)) { W.async = async; W.async_budget = (int)vx_param("events", 1); W.sched_budget = (int)vx_param("preempt", 1); }
    server_with(script, DEFCFG); vx_check(W.bad_close == 0 && W.bad_fd == 0, "no closed descriptor is used"); vx_check(w_open_kind(WF_SOCK) + w_open_kind(WF_LISTEN) + w_open_kind(WF_EPOLL) + w_open_kind(WF_EVENT) == 0 && w_open_kind(WF_FILE) <= 1, "stopping closes every descriptor but the block file"); for (int i = 1; i < W.nt; i++) if (W.t[i].used) vx_check(W.t[i].done, "every thread has ended");
    for (int i = 0; i < next_act; i++) if (!W.s[cl[i]].queued) vx_check(!cl_open(cl[i]), "every accepted connection is closed"); }
extern "C" void vx_main(void) { w_init_fs(); vx_sym(wv, 5, "value"); na = (int)vx_param("clients", 2); acts = (int)vx_param("acts", 7); how = (int)vx_param("how", 1); stops = (int)vx_param("stops", 0); int k[NACT], n = 0; for (int i = 0; i < NACT; i++) if (acts >> i & 1) k[n++] = i; for (int i = 0; i < na; i++) act[i] = k[vx_choose(n, "client")]; vx_proc_run(proc, nullptr); vx_reach("done"); }
