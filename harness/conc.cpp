// Requests of several connections in progress at the same time, in every order of their steps: uploads that have delivered part of
// their body, downloads whose client reads slowly, requests whose header has only partly arrived, and complete requests between them.
#include "model.h"
#ifndef SIZES
#define SIZES {3, 4097}
#endif
static const int SZ[] = SIZES; enum { NS = sizeof SZ / sizeof *SZ };
struct Ver { uint8_t* v; int size; int64_t expires; };
// what a key may answer: one of the candidate versions, or nothing
struct Key { int n; int c[8]; int none; int stamp; };
static Ver VR[24]; static int nver; static Key K[NT][NK]; static int tstamp[NT], stamp, steps, opmask, started, quiet_ins, quiet_del, evicting, gets, gets_maybe; static int64_t base_live;
enum { OP_UP = 1, OP_UP2 = 2, OP_DOWN = 4, OP_HALF = 8, I_PUT = 16, I_GET = 32, I_DEL = 64, I_DELT = 128, I_BULK = 256, I_LIST = 512, I_GC = 1024, I_TIME = 2048, I_PUTTTL = 4096, I_HEAD = 8192, DOWN_LIST = 16384, OP_DOWN2 = 32768 };
static int ver_new(int n, int64_t ttl) { if (nver >= 23) { vx_unsupported("too many versions"); vx_kill(); } uint8_t* v = (uint8_t*)vx_shared_alloc(n); for (int i = 0; i < n; i++) v[i] = (uint8_t)(i * 7 + (i >> 8) * 31 + nver * 59); if (n > 1) vx_sym(v + n - 1, 1, "last byte"); if (n > 4100) vx_sym(v + 4095, 2, "byte at block boundary"); v[0] = (uint8_t)nver; VR[nver].v = v; VR[nver].size = n; VR[nver].expires = ttl ? FS->now_sec + ttl : 0; return nver++; }
static void touch(int t, int k) { K[t][k].stamp = ++stamp; tstamp[t] = stamp; }
static void k_none(int t, int k) { K[t][k].n = 0; K[t][k].none = 1; touch(t, k); }
static void k_set(int t, int k, int v) { K[t][k].n = 1; K[t][k].c[0] = v; K[t][k].none = 0; touch(t, k); }
static void k_add(int t, int k, int v) { Key* e = &K[t][k]; if (e->n < 8) e->c[e->n++] = v; touch(t, k); }
static int past(int v) { return VR[v].expires && VR[v].expires < FS->now_sec; }
static int edge(int v) { return VR[v].expires && VR[v].expires == FS->now_sec; }
// an answer to a request for a key: narrow down what it can be
static void judge(int t, int k, const Resp& r, const char* what) {
    Key* e = &K[t][k];
    if (is404(r)) { int ok = e->none; for (int i = 0; i < e->n; i++) if (past(e->c[i]) || edge(e->c[i])) ok = 1; vx_check(ok || e->n == 0, what); e->n = 0; e->none = 1; vx_reach("miss"); return; }
    gets++; vx_check(r.ok == 1 && r.status == 200 && r.has_clen, "a GET is answered 200 with a length or 404"); if (r.ok != 1 || r.clen < 1) return;
    for (int i = 0; i < e->n; i++) { int v = e->c[i]; if (r.clen == VR[v].size && r.body[0] == (uint8_t)v) { vx_check(got(r, VR[v].v, VR[v].size), "GET returns exactly a completely stored value"); vx_check(!past(v), "no value is returned past its deadline"); e->n = 1; e->c[0] = v; e->none = 0; vx_reach("hit"); return; } }
    vx_check(0, "GET returns a value that is completely stored under this key now"); }
static int CC = -1; static int cc(void) { if (CC < 0 || !cl_open(CC)) { CC = cl_connect(PORT_CACHE); settle(); } vx_check(unread(CC) == 0, "nothing follows an answer"); return CC; }
static void i_get(int t, int k) { judge(t, k, get(cc(), path(t, k)), "GET of a stored key finds it"); }
static void i_head(int t, int k) { Resp r = simple(cc(), "HEAD", path(t, k)); Key* e = &K[t][k]; int sure = e->n && !e->none, lap = 0; for (int i = 0; i < e->n; i++) lap |= past(e->c[i]) || edge(e->c[i]); if (is404(r)) { vx_check(!sure || lap, "HEAD of a stored key finds it"); return; } gets++; int f = 0; for (int i = 0; i < e->n; i++) f |= VR[e->c[i]].size == r.clen && !past(e->c[i]); vx_check(r.ok == 1 && r.status == 200 && r.has_clen && r.body_len == 0 && f, "HEAD reports a completely stored value"); vx_reach("head"); }
// ---- uploads
struct Up { int on, c, t, k, v, sent, started, killed, over, deltab; }; static Up U[2]; static Txt ux[2];
static int up_on(int t, int k, Up* but) { int n = 0; for (int i = 0; i < 2; i++) if (&U[i] != but && U[i].on && U[i].started && !U[i].killed && !U[i].deltab && U[i].t == t && U[i].k == k) n++; return n; }
static void kill_ups(int t, int k, int tab) { for (int i = 0; i < 2; i++) if (U[i].on && U[i].t == t && (k < 0 || U[i].k == k)) { if (U[i].started == 1) { if (tab) U[i].deltab = 1; else U[i].killed = 1; } else U[i].killed = 1; } }
static void up_begin(Up* u) { // the headers have arrived completely: the old value goes
    u->started = 1; quiet_ins++; if (u->killed || u->over || u->deltab) { K[u->t][u->k].none = 1; touch(u->t, u->k); } else if (up_on(u->t, u->k, u)) { u->over = 1; for (int i = 0; i < 2; i++) if (&U[i] != u && U[i].on && U[i].t == u->t && U[i].k == u->k) U[i].over = 1; K[u->t][u->k].none = 1; touch(u->t, u->k); } else k_none(u->t, u->k); }
static void up_done(Up* u) { // the body has arrived completely
    int alone = !u->over && !u->killed && !u->deltab; if (alone) k_set(u->t, u->k, u->v); else if (!u->deltab) { k_add(u->t, u->k, u->v); if (u->over && !u->killed && !up_on(u->t, u->k, u) && u->over != 2) K[u->t][u->k].none |= 0; } u->on = 0; }
static void up_step(int i) {
    Up* u = &U[i]; Txt* x = &ux[i];
    if (!u->on) {
        memset(u, 0, sizeof *u); u->on = 1; u->t = vx_choose(NT, "upload table"); u->k = vx_choose(NK, "upload key"); int n = SZ[vx_choose(NS, "upload size")]; u->v = ver_new(n, 0); if (u->c < 0 || !cl_open(u->c) || !W.s[u->c].used || u->c == 0) u->c = cl_connect(PORT_CACHE);
        t0(x); ta(x, "PUT "); ta(x, path(u->t, u->k)); ta(x, " HTTP/1.1\r\n"); int p0 = x->n; ta(x, "Content-Length: "); tn(x, n); ta(x, "\r\n"); int p1 = x->n; ta(x, "\r\n"); int p2 = x->n; tb(x, VR[u->v].v, n);
        int w = vx_choose((int)vx_param("upcuts", 3), "upload stops"); u->sent = w == 0 ? p2 : w == 1 ? p2 + 1 : w == 2 ? x->n - 1 : w == 3 ? p0 : p1; cl_send(u->c, x->b, u->sent); settle(); vx_check(unread(u->c) == 0, "an upload is not answered before it is complete");
        if (u->sent >= p2) up_begin(u); else { K[u->t][u->k].none = 1; touch(u->t, u->k); if (up_on(u->t, u->k, u)) { u->over = 1; for (int j = 0; j < 2; j++) if (&U[j] != u && U[j].on && U[j].t == u->t && U[j].k == u->k) U[j].over = 1; } u->started = 2; } vx_reach("upload begins"); return; }
    int a = vx_choose(3, "upload"); if (a == 0) { if (u->started == 2) up_begin(u); cl_send(u->c, x->b + u->sent, x->n - u->sent); settle(); Resp r = take(u->c); vx_check(r.ok == 1 && r.status == 200, "a completely received upload is answered"); up_done(u); cl_close(u->c); settle(); vx_reach("upload ends"); }
    else { if (a == 1) cl_close(u->c); else cl_reset(u->c); settle(); vx_check(!cl_open(u->c), "the connection of a client that went away is closed"); if (u->started == 2) quiet_ins++; u->on = 0; touch(u->t, u->k); vx_reach("upload aborted"); } }
// ---- downloads
struct Down { int on, c, t, v, list, alive; }; static Down D[2];
static void down_step(int i) {
    Down* d = &D[i];
    if (!d->on) {
        int t = vx_choose(NT, "download table"), k = 0; d->list = (opmask & DOWN_LIST) ? (int)vx_choose(2, "listing") : 0; if (!d->list) k = vx_choose(NK, "download key");
        int c = cl_connect(PORT_CACHE); static const int q[] = {1, 300, 4200}; int big = 0; for (int j = 0; j < K[t][k].n; j++) if (VR[K[t][k].c[j]].size > big) big = VR[K[t][k].c[j]].size;
        W.s[c].wmode = 7; W.s[c].quota = d->list || big < 300 ? 1 : q[vx_choose(big > 5000 ? 3 : 2, "bytes read")]; Txt* x = &hx_t; t0(x); ta(x, "GET "); ta(x, path(t, d->list ? -1 : k)); ta(x, " HTTP/1.1\r\n\r\n"); cl_send(c, x->b, x->n); settle();
        if (!d->list) { // which version: look at a second, unhindered answer
            vx_check(unread(c) > 0, "an answer begins"); d->v = -1; Resp r = get(cc(), path(t, k)); judge(t, k, r, "GET of a stored key finds it"); if (K[t][k].n == 1) { d->v = K[t][k].c[0]; gets++; } }
        d->on = 1; d->c = c; d->t = t; vx_reach(d->list ? "listing begins" : d->v >= 0 ? "download begins" : "miss begins"); return; }
    int a = vx_choose(2, "download"); if (a == 0) { W.s[d->c].wmode = 0; settle();
        if (d->list) { const uint8_t* p = W.s[d->c].out + W.s[d->c].out_pos; if (hx_pre(p, unread(d->c), "HTTP/1.1 404")) { Resp r = take(d->c); vx_check(is404(r), "listing answers"); } else { Lst l; int ok = lst_read(d->c, &l); vx_check(ok == 1 && l.unknown == 0, "a listing consists of complete lines naming keys"); vx_check(!cl_open(d->c), "a listing ends by closing"); vx_reach("listing ends"); } }
        else { Resp r = take(d->c); if (d->v >= 0) { vx_check(got(r, VR[d->v].v, VR[d->v].size), "a download completes with the version it started with"); vx_reach("download ends"); } else vx_check(is404(r), "the answer of a missing key completes"); }
        vx_check(unread(d->c) == 0, "nothing follows the answer"); cl_close(d->c); settle(); }
    else { cl_reset(d->c); settle(); vx_reach("download aborted"); }
    vx_check(!cl_open(d->c), "the connection is closed"); d->on = 0; }
// ---- requests whose header has only partly arrived
struct Half { int on, c, kind, t, k, at, sent; Key old; int seen[8], ns; }; static Half Hf; static Txt hxx;
static void half_step(void) {
    Half* h = &Hf; static const char* const m[] = {"GET", "DELETE", "DELETE", "GET", "BULK", "HEAD"}; Txt* x = &hxx;
    if (!h->on) {
        memset(h, 0, sizeof *h); h->on = 1; h->kind = vx_choose(6, "request"); h->t = vx_choose(NT, "table"); h->k = h->kind == 2 || h->kind == 3 ? -1 : (int)vx_choose(NK, "key"); h->c = cl_connect(PORT_CACHE);
        t0(x); ta(x, m[h->kind]); ta(x, " "); ta(x, path(h->t, h->kind == 4 ? -1 : h->k)); int p0 = x->n + 1; ta(x, " HTTP/1.1\r\n"); int p1 = x->n; if (h->kind == 4) { ta(x, "X-Delete: "); ta(x, KN[h->k]); ta(x, "\r\n"); } else ta(x, "X-Start: 0\r\n"); ta(x, "\r\n");
        int w = vx_choose(3, "arrives up to"); h->sent = w == 0 ? p0 : w == 1 ? p1 : x->n - 1; cl_send(h->c, x->b, h->sent); settle(); h->at = ++stamp; if (h->k >= 0) h->old = K[h->t][h->k];
        if (h->kind == 4 && w == 2 && h->k >= 0) { K[h->t][h->k].none = 1; kill_ups(h->t, h->k, 0); h->old.none = 1; quiet_del++; } vx_check(unread(h->c) == 0, "a request is not answered before it is complete"); vx_reach("half a request"); return; }
    if (vx_choose(2, "rest of the request") == 1) { cl_close(h->c); settle(); if (h->kind == 1) quiet_del++; if (h->kind == 0 || h->kind == 5) gets_maybe++; vx_check(!cl_open(h->c), "the connection is closed"); h->on = 0; vx_reach("half aborted"); return; }
    cl_send(h->c, x->b + h->sent, x->n - h->sent); settle(); int t = h->t, k = h->k, same = k >= 0 ? K[t][k].stamp < h->at : tstamp[t] < h->at;
    switch (h->kind) {
    case 0: { Resp r = take(h->c); if (same) judge(t, k, r, "GET of a stored key finds it"); else if (!is404(r)) { int f = 0; gets++; for (int j = 0; j < nver; j++) if (r.ok == 1 && r.clen == VR[j].size && r.body[0] == (uint8_t)j) { f = 1; vx_check(got(r, VR[j].v, VR[j].size), "GET returns exactly a completely stored value"); int known = 0; for (int i = 0; i < h->old.n; i++) known |= h->old.c[i] == j; for (int i = 0; i < K[t][k].n; i++) known |= K[t][k].c[i] == j; vx_check(known || K[t][k].stamp > h->at + 1, "GET returns a value of this key"); for (int u = 0; u < 2; u++) vx_check(!(U[u].on && U[u].v == j), "an incomplete upload is never visible"); } vx_check(r.ok == 1 && f, "GET answers with a stored value"); } break; }
    case 5: { Resp r = take(h->c, 1); vx_check(r.ok == 1 && (r.status == 200 || r.status == 404), "HEAD is answered"); gets += r.status == 200; break; }
    case 1: { Resp r = take(h->c); vx_check(r.ok == 1 && (r.status == 200 || r.status == 404), "DELETE is answered"); quiet_del++; if (same && !up_on(t, k, nullptr)) { int was = 0; for (int i = 0; i < K[t][k].n; i++) was |= 1; if (K[t][k].n == 0) vx_check(r.status == 404, "DELETE of a missing key answers 404"); else if (!K[t][k].none && !past(K[t][k].c[0]) && !edge(K[t][k].c[0])) vx_check(r.status == 200, "DELETE of a stored key answers 200"); k_none(t, k); } else { K[t][k].none = 1; touch(t, k); } kill_ups(t, k, 0); break; }
    case 2: { Resp r = take(h->c); vx_check(r.ok == 1 && (r.status == 200 || r.status == 404), "DELETE of a table is answered"); for (int j = 0; j < NK; j++) { if (same && r.status == 200) k_none(t, j); else { K[t][j].none = 1; touch(t, j); } } for (int u = 0; u < 2; u++) if (U[u].on && U[u].t == t) U[u].killed = 1; break; }
    case 3: { const uint8_t* p = W.s[h->c].out + W.s[h->c].out_pos; if (hx_pre(p, unread(h->c), "HTTP/1.1 404")) take(h->c); else { Lst l; int ok = lst_read(h->c, &l); vx_check(ok == 1 && l.unknown == 0, "a listing consists of complete lines naming keys"); } break; }
    case 4: { Resp r = take(h->c); vx_check(r.ok == 1 && (r.status == 200 || r.status == 404), "BULK is answered"); K[t][k].none = 1; if (same && r.status == 200 && h->sent < x->n - 1) k_none(t, k); kill_ups(t, k, 0); quiet_del++; touch(t, k); break; }
    }
    vx_check(unread(h->c) == 0, "nothing follows the answer"); cl_close(h->c); settle(); vx_check(!cl_open(h->c), "the connection is closed"); h->on = 0; vx_reach("half completed"); }
// ---- complete requests
static void i_put(int t, int k, int64_t ttl) { int n = SZ[vx_choose(NS, "size")]; int v = ver_new(n, ttl); int other = up_on(t, k, nullptr); Resp r = put(cc(), path(t, k), VR[v].v, n, ttl); vx_check(is200(r), "PUT answers 200"); quiet_ins++; for (int i = 0; i < 2; i++) if (U[i].on && U[i].t == t && U[i].k == k) U[i].over = 1; if (other) { K[t][k].none = 1; k_add(t, k, v); } else k_set(t, k, v); vx_reach("put"); }
static void i_del(int t, int k) { Resp r = simple(cc(), "DELETE", path(t, k)); vx_check(r.ok == 1 && (r.status == 200 || r.status == 404), "DELETE is answered"); Key* e = &K[t][k]; if (!up_on(t, k, nullptr)) { if (e->n == 0) vx_check(r.status == 404, "DELETE of a missing key answers 404"); else if (!e->none && !past(e->c[0]) && !edge(e->c[0])) vx_check(r.status == 200, "DELETE of a stored key answers 200"); } quiet_del++; k_none(t, k); kill_ups(t, k, 0); vx_reach("delete"); }
static void i_delt(int t) { int up = 0, sure = 0; for (int k = 0; k < NK; k++) { up |= up_on(t, k, nullptr); Key* e = &K[t][k]; if (e->n && !e->none && !past(e->c[0]) && !edge(e->c[0])) sure = 1; } int half = Hf.on && Hf.t == t; for (int i = 0; i < 2; i++) half |= U[i].on && U[i].t == t; Resp r = simple(cc(), "DELETE", path(t, -1)); vx_check(r.ok == 1 && (r.status == 200 || r.status == 404), "DELETE of a table is answered"); if (sure) vx_check(r.status == 200, "DELETE of a table with keys answers 200"); for (int k = 0; k < NK; k++) k_none(t, k); for (int i = 0; i < 2; i++) if (U[i].on && U[i].t == t) { if (r.status == 200 && U[i].started == 1) U[i].deltab = 1; else U[i].killed = 1; } vx_reach("delete table"); }
static void i_bulk(int t) { static char h[200]; h[0] = 0; for (int k = 0; k < NK; k++) { strcat(h, "X-Delete: "); strcat(h, KN[k]); strcat(h, "\r\n"); } Resp r = simple(cc(), "BULK", path(t, -1), h); vx_check(r.ok == 1 && (r.status == 200 || r.status == 404), "BULK is answered"); for (int k = 0; k < NK; k++) { k_none(t, k); kill_ups(t, k, 0); quiet_del++; } vx_reach("bulk"); }
static void i_list(int t) { int c = cc(); Txt* x = &hx_t; t0(x); ta(x, "GET "); ta(x, path(t, -1)); ta(x, " HTTP/1.1\r\n\r\n"); cl_send(c, x->b, x->n); settle(); int any = 0; for (int k = 0; k < NK; k++) { Key* e = &K[t][k]; any |= e->n && !e->none && !past(e->c[0]) && !edge(e->c[0]); }
    if (hx_pre(W.s[c].out + W.s[c].out_pos, unread(c), "HTTP/1.1 404")) { vx_check(!any, "a table with keys is found"); take(c); return; } Lst l; int ok = lst_read(c, &l); vx_check(ok == 1 && l.unknown == 0, "a listing consists of complete lines naming keys"); for (int k = 0; k < NK; k++) { Key* e = &K[t][k]; vx_check(l.seen[k] <= 1, "a key is named once"); if (e->n && !e->none && !past(e->c[0]) && !edge(e->c[0])) vx_check(l.seen[k] == 1, "every stored key is named"); if (e->n == 0 && l.seen[k]) { int up = 0; for (int i = 0; i < 2; i++) up |= U[i].on && U[i].t == t && U[i].k == k; vx_check(up, "only stored keys and uploads are named"); } } vx_reach("list"); }
static void expired_gone(void) { for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) { Key* e = &K[t][k]; for (int i = 0; i < e->n; i++) if (past(e->c[i]) || edge(e->c[i])) { e->none = 1; touch(t, k); } } }
static void i_gc(void) { Resp r = simple(cc(), "ADMIN", "/gc"); vx_check(r.ok == 1, "ADMIN is answered"); expired_gone(); if (evicting) { for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) if (K[t][k].n) { K[t][k].none = 1; touch(t, k); } } vx_reach("gc"); }
static void each(void) { if (vx_param("each", 1)) for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) i_get(t, k); }
static void step(void) {
    int ops[20], n = 0; for (int i = 0; i < 16; i++) if ((opmask >> i & 1) && (1 << i) != DOWN_LIST) ops[n++] = 1 << i; int op = ops[vx_choose(n, "step")]; int t = 0, k = 0; if (op >= I_PUT && op != OP_DOWN2 && op != I_GC && op != I_TIME) { t = vx_choose(NT, "table"); if (op == I_PUT || op == I_GET || op == I_DEL || op == I_PUTTTL || op == I_HEAD) k = vx_choose(NK, "key"); }
    switch (op) { case OP_UP: up_step(0); break; case OP_UP2: up_step(1); break; case OP_DOWN: down_step(0); break; case OP_DOWN2: down_step(1); break; case OP_HALF: half_step(); break;
    case I_PUT: i_put(t, k, 0); break; case I_PUTTTL: i_put(t, k, 1); break; case I_GET: i_get(t, k); break; case I_DEL: i_del(t, k); break; case I_DELT: i_delt(t); break; case I_BULK: i_bulk(t); break; case I_LIST: i_list(t); break; case I_HEAD: i_head(t, k); break; case I_GC: i_gc(); break; case I_TIME: w_advance(2); expired_gone(); vx_reach("time passes"); break; } }
static void finish(void) {
    for (int i = 0; i < 2; i++) { if (D[i].on) down_step(i); if (U[i].on) up_step(i); } if (Hf.on) half_step(); each();
    // no request is in progress any more: totals
    Resp r = get(cc(), "/"); vx_check(is200(r) && r.clen == r.body_len, "the statistics page answers"); MC = CC; Stats s = o_stats(); int64_t keys = 0, size = 0, blocks = 0, files = 0, xk = 0, xs = 0, xb = 0, xf = 0; 
    for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) { i_get(t, k); Key* e = &K[t][k]; if (e->n == 1) { Ver* v = &VR[e->c[0]]; int ed = edge(e->c[0]) || past(e->c[0]); if (ed) { xk++; xs += v->size; xb += v->size <= 4096; xf += v->size > 4096; } else { keys++; size += v->size; blocks += v->size <= 4096; files += v->size > 4096; } } }
    s = o_stats(); vx_check(s.gets >= gets && s.gets <= gets + gets_maybe, "the get counter counts the keys fetched"); vx_check(s.keys >= keys && s.keys <= keys + xk, "the reported number of keys is the number stored"); vx_check(s.size >= size && s.size <= size + xs, "the reported size is the sum of the stored sizes"); vx_check(s.btot - s.bfree >= blocks && s.btot - s.bfree <= blocks + xb, "blocks in use are those of the stored values"); vx_check(w_value_files() >= files && w_value_files() <= files + xf, "one value file per large value and no other");
    for (int t = 0; t < NT; t++) simple(cc(), "DELETE", path(t, -1)); s = o_stats(); vx_check(s.keys == 0 && s.tables == 0 && s.size == 0 && s.bfree == s.btot && w_value_files() == 0, "nothing is left after deleting every table"); vx_reach("totals");
    for (int i = 0; i < 2; i++) if (U[i].c > 0 && cl_open(U[i].c)) cl_close(U[i].c); cl_close(CC); settle(); CC = MC = -1; vx_check((int64_t)vx_live() - s.bfree == base_live, "every allocation for requests, connections, keys and tables is released"); vx_check(w_open_fds() == started, "every descriptor is closed"); vx_reach("end"); }
static void script(void) {
    CC = MC = -1; settle(); { uint8_t z = 0; int c = cl_connect(PORT_CACHE); settle(); vx_check(is200(put(c, "/warm/up", &z, 1)), "warm-up"); simple(c, "DELETE", "/warm"); cl_close(c); settle(); base_live = (int64_t)vx_live() - 1; started = w_open_fds(); }
    int pre = (int)vx_param("pre", 3); for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) { K[t][k].none = 1; if (pre >> k & 1) i_put(t, k, 0); }
    for (int i = 0; i < steps; i++) { step(); each(); } finish(); }
static void proc(void*) { w_init_proc(); W.fork_mode = 0; W.maxout = (int)vx_param("out", 20480); ServerCfg c = {"/db/", (uint64_t)(evicting ? 1 : 0), 100}; server_with(script, c); vx_check(W.bad_close == 0 && W.bad_fd == 0, "no closed descriptor is used"); vx_check(w_open_kind(WF_SOCK) + w_open_kind(WF_LISTEN) + w_open_kind(WF_EPOLL) + w_open_kind(WF_EVENT) == 0, "stopping closes every socket"); }
extern "C" void vx_main(void) { w_init_fs(); m_init(); opmask = (int)vx_param("ops", OP_UP | I_PUT | I_DEL | I_DELT); steps = (int)vx_param("steps", 3); evicting = (int)vx_param("evict", 0); nver = 1; vx_proc_run(proc, nullptr); vx_reach("done"); }
