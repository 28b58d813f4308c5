// The monitoring port: up to three monitoring clients (one-shot requests, streaming, stalled, cut, leaving) and one cache client, with the
// clock moving in between. Every client's received bytes are compared with the documented answers and state records after every step.
#include "conv.h"
enum { K_STREAM, K_ROOT, K_HEAD, K_MISS, K_BAD, K_PATH, K_LONG, NKIND };
static const char* const MREQ[] = {"GET /conn HTTP/1.1\r\nHost: a\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "HEAD / HTTP/1.1\r\nX: y\r\n\r\n", "GET /con HTTP/1.1\r\n\r\n", "PUT / HTTP/1.1\r\n\r\n", "GET conn HTTP/1.1\r\n\r\n", "DELETEDELETE /conn HTTP/1.1\r\n\r\n"};
static const char* const MRSP[] = {"HTTP/1.1 200 OK\r\nConnection: Close\r\nContent-Type: text/x-streaming\r\nX-Hostname: host\r\n\r\n", "HTTP/1.1 200 OK\r\nConnection: Keep-Alive\r\nContent-Length: 4\r\n\r\nOK\r\n", "HTTP/1.1 200 OK\r\nConnection: Keep-Alive\r\n\r\n",
    "HTTP/1.1 404 Not Found\r\nConnection: Keep-Alive\r\nContent-Length: 16\r\n\r\nPath Not Found\r\n", "HTTP/1.1 400 Bad Request\r\nConnection: Close\r\nContent-Length: 16\r\n\r\nUnknown Method\r\n", "HTTP/1.1 400 Bad Request\r\nConnection: Close\r\nContent-Length: 17\r\n\r\nUnknown Request\r\n", "HTTP/1.1 400 Bad Request\r\nConnection: Close\r\nContent-Length: 17\r\n\r\nMethod too Long\r\n"};
enum { S_NONE, S_IDLE, S_PART, S_STREAM, S_ENDED };
struct Mon { int st, c, kind, sent, hdr, hdone, lim, n, nrec, left; int64_t due; char exp[700]; };
static Mon M[3]; static int NM, ops, batch, ticking, unsettled, kinds, CC; static uint8_t wv[5];
enum { O_OPEN = 1, O_MORE = 2, O_TIME = 4, O_STALL = 8, O_LEAVE = 16, O_SEND = 32, O_CACHE = 64, O_BADCLIENT = 128 };
static void add(Mon* m, const char* s) { int l = (int)strlen(s); vx_assume(m->n + l < (int)sizeof m->exp); memcpy(m->exp + m->n, s, l); m->n += l; }
static void addn(Mon* m, int v) { char d[12]; int k = 0; do { d[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) m->exp[m->n++] = d[--k]; m->exp[m->n++] = '\n'; }
static int shown(Mon* m) { return m->lim >= 0 && m->lim < m->n ? m->lim : m->n; }
static void headers(void);
static void look(void) { // what every client has received, and who is connected
    headers();
    for (int i = 0; i < NM; i++) { Mon* m = &M[i]; if (m->st == S_NONE) continue; WSock* s = &W.s[m->c]; if (m->left) { vx_check(!cl_open(m->c), "a client that has left is disconnected"); continue; }
        vx_check(s->out_len == shown(m), "a monitoring client has received exactly the documented bytes so far"); if (s->out_len == shown(m)) vx_check(eqn(s->out, m->exp, s->out_len), "a monitoring client receives the documented bytes");
        vx_check(cl_open(m->c) == (m->st != S_ENDED), m->st == S_ENDED ? "the connection is closed" : "the connection stays open"); }
}
static void headers(void) { for (int i = 0; i < NM; i++) { Mon* m = &M[i]; if (m->st == S_STREAM && !m->left && !m->hdone && shown(m) >= m->hdr) { m->hdone = 1; m->due = FS->now_sec; vx_reach("streaming"); } } }
static void records(void) { for (int i = 0; i < NM; i++) { Mon* m = &M[i]; if (m->st != S_STREAM || m->left || !m->hdone) continue; if (m->due > FS->now_sec) continue;
    if (shown(m) < m->n) { m->st = S_ENDED; m->n = shown(m); m->lim = -1; vx_reach("stalled client dropped"); } else { addn(m, m->nrec++); m->due = FS->now_sec + 5; if (m->nrec > 1) vx_reach("second record"); } } }
static void calm(void) { settle(); if (ticking) { headers(); w_tick(); records(); settle(); } unsettled = 0; look(); }
static void maybe(void) { if (batch && vx_choose(2, "more at once")) { unsettled = 1; return; } calm(); }
static void answered(Mon* m) { add(m, MRSP[m->kind]); if (m->kind == K_STREAM) { m->st = S_STREAM; m->hdr = m->n; } else if (m->kind >= K_BAD) m->st = S_ENDED; else { m->st = S_IDLE; vx_reach("answer"); } if (m->st == S_ENDED) vx_reach("refused"); }
static int pick_kind(void) { int k[NKIND], n = 0; for (int i = 0; i < NKIND; i++) if (kinds >> i & 1) k[n++] = i; return k[vx_choose(n, "request")]; }
static void request(Mon* m) { m->kind = pick_kind(); const char* q = MREQ[m->kind]; int l = (int)strlen(q), cut = (int)vx_param("cut", 0), at = l; if (cut == 1 && vx_choose(2, "cut")) { int b = (int)strlen(q); const int p[] = {2, 5, 9, b - 2, b - 1}; at = p[vx_choose(5, "cut at")]; } else if (cut == 2 && m->kind < K_BAD) at = 1 + (int)vx_choose(l, "cut at");
    if (m->kind >= K_BAD) at = l; cl_send(m->c, q, at); m->sent = at; if (at == l) answered(m); else m->st = S_PART; }
static void o_open(int i) { Mon* m = &M[i]; memset(m, 0, sizeof *m); m->c = cl_connect(PORT_MON); m->lim = -1; m->st = S_IDLE; if (vx_param("silent", 0) && vx_choose(2, "silent")) return; request(m); }
static void o_more(Mon* m) { if (m->st == S_IDLE) { request(m); return; } const char* q = MREQ[m->kind]; int l = (int)strlen(q); cl_send(m->c, q + m->sent, l - m->sent); answered(m); vx_reach("rest"); }
static void o_time(void) {
    int64_t d = (int64_t)vx_range(0, (uint64_t)vx_param("secs", 6), "seconds"); FS->now_sec += d; if (!ticking) { w_tick(); settle(); headers(); w_tick(); records(); }
    calm(); vx_reach("time"); }
static void o_stall(Mon* m) { if (m->lim < 0) { WSock* s = &W.s[m->c]; int q = (int)vx_choose((uint32_t)vx_param("quota", 2), "bytes taken"); s->wmode = 7; s->quota = q; m->lim = s->out_len + q; if (!unsettled && m->lim > m->n) {} vx_reach("stalled"); } else { W.s[m->c].wmode = 0; m->lim = -1; vx_reach("resumed"); } }
static void o_leave(Mon* m) { int pend = shown(m) < m->n || unsettled, how = (int)vx_choose(pend ? 2 : 3, "how"); if (how == 0) { if (pend) cl_reset(m->c); else cl_close(m->c); } else if (how == 1) cl_reset(m->c); else cl_fin(m->c); m->left = 1; vx_reach("left"); }
static void free_left(void) { for (int i = 0; i < NM; i++) if (!unsettled && (M[i].left || M[i].st == S_ENDED)) { if (!M[i].left) { cl_close(M[i].c); } M[i].st = S_NONE; M[i].left = 0; } }
static int sigs; static void signals(void) { int k[3], n = 0; for (int i = 0; i < 3; i++) if (sigs >> i & 1) k[n++] = i; static const int sg[] = {14, 10, 17}; int s = sg[k[vx_choose(n, "signal")]]; vx_reach("signal"); int b = W.bad_fd; w_signal(s); if (W.stopping) W.bad_fd = b; /* a wake-up of the event loop that has ended goes nowhere */ }
static void o_cache(void) { Resp r = get(CC, "/w/k"); unsettled = 0; look(); vx_check(got(r, wv, 5), "a cache client is served"); }
static void step(void) {
    free_left(); int c[40], a[40], n = 0, fresh = -1; for (int i = 0; i < NM; i++) { Mon* m = &M[i]; if (m->st == S_NONE) { if (fresh < 0) fresh = i; continue; } if (m->left) continue;
        if ((ops & O_MORE) && (m->st == S_IDLE || m->st == S_PART)) { c[n] = O_MORE; a[n++] = i; } if ((ops & O_STALL) && m->st == S_STREAM) { c[n] = O_STALL; a[n++] = i; } if ((ops & O_LEAVE) && m->st != S_ENDED) { c[n] = O_LEAVE; a[n++] = i; } if ((ops & O_SEND) && m->st == S_STREAM) { c[n] = O_SEND; a[n++] = i; } }
    if (fresh >= 0 && (ops & O_OPEN)) { c[n] = O_OPEN; a[n++] = fresh; } if (ops & O_TIME) { c[n] = O_TIME; a[n++] = 0; } if (ops & O_CACHE) { c[n] = O_CACHE; a[n++] = 0; }
    if (!n) return; int k = (int)vx_choose(n, "step"), i = a[k];
    switch (c[k]) { case O_OPEN: o_open(i); maybe(); break; case O_MORE: o_more(&M[i]); maybe(); break; case O_TIME: o_time(); break; case O_STALL: o_stall(&M[i]); maybe(); break; case O_LEAVE: o_leave(&M[i]); maybe(); break; case O_CACHE: o_cache(); break;
    case O_SEND: { uint8_t w[2]; vx_sym(w, 2, "bytes"); cl_send(M[i].c, w, 1 + (int)vx_choose(2, "length")); vx_reach("sent while streaming"); maybe(); break; } }
}
static int base_fds, base_live, endmode;
static void script(void) {
    settle(); CC = cl_connect(PORT_CACHE); settle(); vx_check(is200(put(CC, "/w/k", wv, 5)), "PUT"); { int c = cl_connect(PORT_MON); cl_puts(c, MREQ[K_ROOT]); settle(); cl_close(c); settle(); W.s[c].used = 0; } base_fds = w_open_fds(); base_live = (int)vx_live();
    if (int n = (int)vx_param("long", 0)) { // one stream for a long time
        int c = cl_connect(PORT_MON); cl_puts(c, MREQ[0]); settle(); WSock* s = &W.s[c]; vx_check(s->out_len == (int)strlen(MRSP[0]), "the streaming headers"); W.s[c].out_len = 0; for (int i = 0; i < n; i++) { w_advance(5); settle(); Mon* m = &M[0]; m->n = 0; addn(m, i); vx_check(s->out_len == m->n && eqn(s->out, m->exp, m->n), "the state records count up"); s->out_len = 0; if (i % 100 == 50) { w_advance(4); settle(); vx_check(s->out_len == 0, "nothing between the intervals"); FS->now_sec -= 4; } } vx_check(cl_open(c), "the stream goes on"); cl_close(c); settle(); vx_reach("long stream"); return; }
    int n = (int)vx_param("pre", 0); for (int i = 0; i < n; i++) { Mon* m = &M[i]; memset(m, 0, sizeof *m); m->c = cl_connect(PORT_MON); m->lim = -1; m->kind = K_STREAM; cl_puts(m->c, MREQ[0]); answered(m); calm(); if (i + 1 < n && vx_param("apart", 0)) o_time(); }
    if (sigs) { W.async = signals; W.async_budget = 1; }
    n = (int)vx_param("steps", 3); for (int i = 0; i < n; i++) step(); if (unsettled) calm();
    endmode = (int)vx_choose(2, "stopped while clients are connected"); o_time(); o_cache(); for (int i = 0; i < NM; i++) if (M[i].st == S_STREAM && !M[i].left && M[i].lim >= 0) { o_stall(&M[i]); } calm();
    if (endmode) { vx_reach("stop"); return; }
    for (int i = 0; i < NM; i++) if (M[i].st != S_NONE && !M[i].left) { cl_close(M[i].c); M[i].left = 1; } calm(); vx_check(w_open_fds() == base_fds, "every descriptor is closed"); vx_check((int)vx_live() == base_live, "every allocation for a monitoring client is released");
    Resp r = get(CC, "/w/k"); vx_check(got(r, wv, 5), "a cache client is served at the end"); int c = cl_connect(PORT_MON); cl_puts(c, MREQ[K_ROOT]); settle(); Resp q = take(c); vx_check(got(q, "OK\r\n", 4), "a new monitoring client is answered"); vx_reach("end"); }
static void proc(void*) { w_init_proc(); W.ep_rotate = (int)vx_param("rotate", 0); server_with(script, DEFCFG); vx_check(W.bad_close == 0 && W.bad_fd == 0, "no closed descriptor is used");
    vx_check(hx_done, "the server runs until it is stopped");
    if (endmode) for (int i = 0; i < NM; i++) { Mon* m = &M[i]; if (m->st == S_STREAM && !m->left) { if (m->hdone) add(m, "q\n"); WSock* s = &W.s[m->c]; vx_check(s->out_len == m->n && eqn(s->out, m->exp, m->n), "a streaming client is told that the server stops"); vx_check(!cl_open(m->c), "stopping closes the connection"); } }
    vx_check(w_open_kind(WF_SOCK) + w_open_kind(WF_LISTEN) + w_open_kind(WF_EPOLL) + w_open_kind(WF_EVENT) == 0, "stopping closes every socket"); }
extern "C" void vx_main(void) { w_init_fs(); vx_sym(wv, 5, "value"); NM = (int)vx_param("clients", 2); ops = (int)vx_param("ops", 127); batch = (int)vx_param("batch", 0); kinds = (int)vx_param("kinds", 127); ticking = (int)vx_param("ticking", 0); sigs = (int)vx_param("sigs", 0); vx_proc_run(proc, nullptr); vx_reach("done"); }
