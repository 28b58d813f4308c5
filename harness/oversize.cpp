// Requests with a header line, a name or a version of any length around the size of the receive buffer: answered or refused by one
// well-formed message, or the connection is closed; lines that fit well are served.
#include "model.h"
#ifndef BUFSZ
#define BUFSZ 256
#endif
enum { KINDS = 9 };
static void script(void) {
    settle(); MC = -1; int c = cl_connect(PORT_CACHE); settle(); vx_check(is200(put(c, "/a/x", "val", 3)), "PUT answers 200"); int other = cl_connect(PORT_CACHE); settle();
    int kind = (int)vx_choose(KINDS, "request"), where = (int)vx_choose(4, "long part"), n = (int)vx_param("from", BUFSZ - 40) + (int)vx_choose((uint32_t)vx_param("count", 60), "length"), cut = (int)vx_choose(3, "arrives"); uint8_t fill[1] = {'q'}; if (where != 1) { vx_sym(fill, 1, "filler"); vx_assume(fill[0] > ' ' && fill[0] < 127 && fill[0] != ':' && fill[0] != '/'); }
    static const char* const m[] = {"GET", "HEAD", "GET", "PUT", "DELETE", "BULK", "GET", "FOO", "ADMIN"}; static const char* const p[] = {"/a/x", "/a/x", "/no/x", "/a/y", "/a/z", "/a", "/a", "/a/x", "/gc"};
    Txt* x = &hx_t; t0(x); ta(x, m[kind]); ta(x, " "); ta(x, p[kind]); if (where == 1) for (int i = 0; i < n; i++) tb(x, fill, 1); ta(x, " HTTP/1.1"); if (where == 2) for (int i = 0; i < n; i++) tb(x, fill, 1); ta(x, "\r\nHost: h\r\n");
    if (where == 0) { for (int i = 0; i < n; i++) tb(x, fill, 1); ta(x, "\r\n"); } if (where == 3) { ta(x, "A: "); for (int i = 0; i < n; i++) tb(x, fill, 1); ta(x, "\r\n"); } if (kind == 3) ta(x, "Content-Length: 3\r\n"); ta(x, "\r\n"); if (kind == 3) ta(x, "new");
    int at = cut == 0 ? x->n : cut == 1 ? n / 2 : n + 10; if (at > x->n) at = x->n; cl_send(c, x->b, at); settle(); if (at < x->n) { cl_send(c, x->b + at, x->n - at); settle(); }
    int fits = n <= BUFSZ - 30, head = kind == 1; const uint8_t* o = W.s[c].out + W.s[c].out_pos; int list = 0;
    if (unread(c) == 0) { vx_check(!fits && !cl_open(c), "a request is answered, or too long and its connection is closed"); vx_reach("closed"); }
    else { if (kind == 6 && hx_pre(o, unread(c), "HTTP/1.1 200")) { Lst l; list = lst_read(c, &l); vx_check(list == 1, "a listing is headers and complete lines"); vx_check(!cl_open(c), "a listing ends by closing"); }
        else { Resp r = take(c, head); vx_check(r.ok == 1 && r.has_clen, "the answer is one complete well-formed message of the length announced"); vx_check(unread(c) == 0, "nothing follows the answer"); vx_check(r.close == !cl_open(c), "an answer announces Close exactly when the connection is closed"); vx_check(!r.close || r.status >= 400, "only refusals close the connection");
            if (fits && where != 1) { static const int st[] = {200, 200, 404, 200, 404, 200, 200, 0, 200}; vx_check(st[kind] ? r.status == st[kind] : r.status >= 400, "a request that fits is served"); } vx_reach(r.close ? "refused" : "served"); if (kind == 0 && r.status == 200) vx_check(got(r, "val", 3), "GET returns the value"); }
        if (cl_open(c)) { Resp r = get(c, "/a/x"); vx_check(got(r, "val", 3), "the connection serves the next request"); } }
    cl_close(c); settle(); Resp r = get(other, "/a/x"); vx_check(got(r, "val", 3), "other connections are served, nothing was changed"); r = get(other, "/a/y"); vx_check(is404(r) || (kind == 3 && got(r, "new", 3)), "a PUT that is answered is the only effect"); cl_close(other); settle(); vx_reach("end"); }
static void proc(void*) { w_init_proc(); server_with(script, DEFCFG); vx_check(W.bad_close == 0 && W.bad_fd == 0, "no closed descriptor is used"); }
extern "C" void vx_main(void) { w_init_fs(); m_init(); vx_proc_run(proc, nullptr); vx_reach("done"); }
