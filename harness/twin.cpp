// The same conversation with the plain client and with one whose bytes arrive in pieces / whose socket takes few bytes at a time:
// both must see the same bytes and leave the same store.
#include "conv.h"
static int which, mode, cuts, cut[4], piece, lead, quota; static Seen *A, *Bn, *cur;
static void take_all(int c) { WSock* s = &W.s[c]; int k = s->out_len - s->out_pos; if (cur->n + k > 16000) { vx_unsupported("long conversation"); vx_kill(); } memcpy(cur->b + cur->n, s->out + s->out_pos, k); cur->n += k; s->out_pos += k; }
static void script(void) {
    settle(); conv_store(); int other = cl_connect(PORT_CACHE), c = cl_connect(PORT_CACHE); settle(); int first = cur == A;
    if (!first) { W.s[c].wmode = (int)vx_param("wmode", 0); if (W.s[c].wmode == 7) W.s[c].quota = quota; if (vx_param("rotate", 0)) W.ep_rotate = 1; }
    if (!first && lead) { Txt* t = &hx_t; t0(t); for (int i = 0; i < lead; i++) ta(t, "\n"); cl_send(c, t->b, t->n); settle(); }
    int pos = 0; if (!first && piece) while (cv.n - pos > piece) { cl_send(c, cv.b + pos, piece); pos += piece; settle(); }
    if (!first) for (int i = 0; i < cuts; i++) { cl_send(c, cv.b + pos, cut[i] - pos); pos = cut[i]; settle(); if (vx_param("meanwhile", 0)) { Resp r = get(other, "/o/k"); vx_check(got(r, "other", 5), "another connection is served meanwhile"); } }
    if (first && vx_param("meanwhile", 0)) for (int i = 0; i < cuts; i++) get(other, "/o/k");
    cl_send(c, cv.b + pos, cv.n - pos); if (vx_param("fin", 0)) cl_fin(c); settle(); if (!first && W.s[c].wmode == 7) { vx_check(eqn(W.s[c].out, A->b, unread(c)), "what has been sent so far is the beginning of the answer"); Resp r = get(other, "/o/nope"); vx_check(is404(r), "another connection is served meanwhile"); }
    if (!first && vx_param("wmode", 0)) W.s[c].wmode = 0; settle(); take_all(c); cur->closed = !cl_open(c); cl_close(c); cl_close(other); settle(); vx_check(!cl_open(c), "the connection is closed when the client leaves"); conv_observe(cur); }
static void proc(void*) { w_init_proc(); server_with(script, DEFCFG); vx_check(W.bad_close == 0, "no descriptor is closed twice"); }
extern "C" void vx_main(void) {
    A = (Seen*)vx_shared_alloc(sizeof(Seen)); Bn = (Seen*)vx_shared_alloc(sizeof(Seen)); conv_values(); int lo = (int)vx_param("from", 0), hi = (int)vx_param("to", NCONV); which = lo + (int)vx_choose(hi - lo, "conversation"); conv_make(which); cuts = (int)vx_param("cuts", 1); piece = vx_param("pieces", 0) ? 1 + (int)vx_choose((uint32_t)vx_param("pieces", 0), "piece size") : 0;
    w_init_fs(); cur = A; vx_proc_run(proc, nullptr);
    if (vx_param("wrap", 0)) lead = (int)vx_param("wrap", 0) - 1 - (int)vx_choose(cv.n, "wrap position");
    if (vx_param("wmode", 0) == 7) { int n = A->n; quota = n <= 300 ? (int)vx_choose(n, "bytes accepted") : (int)vx_choose(2, "part") ? n - 1 - (int)vx_choose(150, "bytes missing") : (int)vx_choose(150, "bytes accepted"); }
    int p = 0; for (int i = 0; i < cuts; i++) { if (i && vx_param("alone", 0)) { cut[i] = ++p; continue; } p += 1 + (int)vx_choose(cv.n - 1 - p - (cuts - 1 - i), "piece"); cut[i] = p; }
    w_init_fs(); cur = Bn; vx_proc_run(proc, nullptr);
    vx_check(A->n == Bn->n, "the same number of bytes is answered"); vx_check(eqn(A->b, Bn->b, A->n < Bn->n ? A->n : Bn->n), "the same bytes are answered"); vx_check(A->closed == Bn->closed, "the connection is kept or closed alike"); vx_check(A->after_n == Bn->after_n && eqn(A->after, Bn->after, A->after_n), "the same contents are stored"); vx_reach("same"); }
