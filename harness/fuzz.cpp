// One client sends bytes no other client would send, stops anywhere, leaves in any way: the server stays up, never loops, and another
// connection keeps being served exactly. (Out of bounds, freed and uninitialised accesses and endless loops are found by the executor.)
#include "conv.h"
static int which, port_mon; static Txt T; static uint8_t wild[16]; static int wn, wat; static uint8_t wv[5];
static void witness(int c, const char* m) { Resp r = get(c, "/witness-table/witness-key"); vx_check(got(r, wv, 5), m); }
static void wild_bytes(int n) { wn = n; vx_sym(wild, n, "wild"); }
static void mon_conv(int w) { static const char* const c[] = {"GET /conn HTTP/1.1\r\nHost: a\r\n\r\nxyz", "HEAD / HTTP/1.1\r\n\r\nGET /other HTTP/1.1\r\nA: b\r\n\r\nGET /conn HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\n\r\n\r\nGET / HTTP/1.1\r\n\r\n", "OPTIONS / HTTP/1.1\r\n\r\nGET / HTTP/1.1\r\n\r\n"}; t0(&cv); ta(&cv, c[w]); }
// names: a free byte in a name that is stored would need a file name per value: representative values there
static void narrow(uint8_t b) { vx_assume((b == 0) | (b == '/') | (b == ' ') | (b == '\r') | (b == '\n') | (b == 0xff) | (b == 'k') | (b == 't') | (b == 'n') | (b == '.') | (b == '%') | (b == 1) | (b == ':')); }
static int in_name(int at) { int l = at; while (l > 0 && cv.b[l - 1] != '\n') l--; int sp = 0, co = 0; for (int i = l; i < at; i++) { if (cv.b[i] == ' ') sp = 1; if (cv.b[i] == ':') co = 1; } return co ? (cv.b[l] | 32) == 'x' && (cv.b[l + 2] | 32) == 'd' : sp; }
static void make(void) { int mode = (int)vx_param("mode", 0), n = (int)vx_param("len", 1); t0(&T);
    if (mode == 0) { int k = 1 + (int)vx_choose(n, "length"); wild_bytes(k); tb(&T, wild, k); if (vx_choose(2, "tail")) ta(&T, " /t/k HTTP/1.1\r\nContent-Length: 1\r\n\r\nz"); }
    else if (mode <= 2) { // replace or insert bytes of a conversation
        wat = (int)vx_choose(cv.n + (mode == 2), "place"); wild_bytes(n); tb(&T, cv.b, wat); tb(&T, wild, n); int skip = mode == 1 ? n : 0; if (wat + skip < cv.n) tb(&T, cv.b + wat + skip, cv.n - wat - skip);
        int q = vx_param("narrow", 0) || (!port_mon && in_name(wat)); for (int i = 1; i < n; i++) q |= !port_mon && in_name(wat + i); if (q) for (int i = 0; i < n; i++) { narrow(wild[i]); T.b[wat + i] = (char)vx_concretize(wild[i]); } }
    else if (mode == 3) { tb(&T, cv.b, cv.n); wat = (int)vx_choose(cv.n, "cut"); T.n = wat; }
    else if (mode == 4) { // one very long field
        static const int L[] = {255, 256, 511, 512, 513, 4095, 4096, 8191, 16383, 16384, 16385, 17500}; int m = (int)vx_param("lens", 12), l = vx_param("len_max", 0) ? 1 + (int)vx_choose((uint32_t)vx_param("len_max", 0), "length") : L[vx_choose(m, "length")]; int f = (int)vx_choose(9, "field"); uint8_t c; static const uint8_t cs[] = {'a', ' ', '/', '\r', '\n', 0, ':', '9', 0xff}; c = cs[vx_choose(9, "fill byte")];
        static const char* const pre[] = {"", "GET ", "GET /", "GET /t/", "PUT /t/n HTTP/1.1\r\n", "PUT /t/n HTTP/1.1\r\nX", "BULK /t HTTP/1.1\r\nX-Delete: ", "PUT /t/n HTTP/1.1\r\nContent-Length: ", "GET /t/k "}; ta(&T, pre[f]); for (int i = 0; i < l && T.n < 17900; i++) T.b[T.n++] = (char)c; if (vx_choose(2, "ended")) ta(&T, " HTTP/1.1\r\n\r\n"); } }
static void ticks(void) { w_tick(); settle(); w_advance(5); settle(); }
static void script(void) {
    settle(); conv_store(); int o = cl_connect(PORT_CACHE); settle(); vx_check(is200(put(o, "/witness-table/witness-key", wv, 5)), "PUT"); int fds = w_open_fds(), blocked = (int)vx_param("blocked", 0);
    make(); int c = cl_connect(port_mon ? PORT_MON : PORT_CACHE); if (blocked) { W.s[c].wmode = 7; W.s[c].quota = (int)vx_choose(blocked, "bytes taken"); }
    int pos = 0; if (vx_param("split", 0)) { pos = wat + (int)vx_choose(2, "after"); if (pos > T.n) pos = T.n; cl_send(c, T.b, pos); settle(); witness(o, "another connection is served meanwhile"); } else if (vx_param("bytewise", 0)) { for (; pos < T.n; pos++) { cl_send(c, T.b + pos, 1); settle(); } }
    if (vx_param("fin", 0) && vx_choose(2, "half-closed")) cl_fin(c); cl_send(c, T.b + pos, T.n - pos); if (!vx_param("at_once", 0)) settle(); if (port_mon) ticks(); witness(o, "another connection is served meanwhile");
    if (blocked || (vx_param("leaves", 0) ? (int)vx_choose(2, "leaves") : T.n & 1)) cl_reset(c); else cl_close(c); settle(); vx_check(!cl_open(c), "the connection is closed when the client leaves"); witness(o, "another connection is served afterwards"); vx_check(w_open_fds() == fds, "no descriptor is left behind");
    // the rest of the store works
    Resp r = get(o, "/t/k"); vx_check(r.ok == 1 && (r.status == 200 || r.status == 404), "other keys are answered"); vx_check(is200(put(o, "/t/k", "again", 5)), "new values are accepted"); r = get(o, "/t/k"); vx_check(got(r, "again", 5), "and served"); r = simple(o, "DELETE", "/t"); vx_check(is200(r), "tables can be deleted"); r = simple(o, "ADMIN", "/gc"); vx_check(r.ok == 1, "clean-up works"); r = get(o, "/"); vx_check(is200(r), "statistics are answered"); witness(o, "another connection is served at the end");
    int c2 = cl_connect(PORT_CACHE); settle(); witness(c2, "a new connection is served"); cl_close(c2); cl_close(o); settle(); vx_reach("end"); }
static void proc(void*) { w_init_proc(); server_with(script, DEFCFG); vx_check(W.bad_close == 0 && W.bad_fd == 0, "no closed descriptor is used"); }
extern "C" void vx_main(void) { w_init_fs(); W.maxin = 20000; vx_sym(wv, 5, "witness"); conv_values(); for (int i = 0; i < 64; i++) cv_body[i] = (uint8_t)("A /\nk:P\r"[i % 8]); int m = (int)vx_param("mode", 0); port_mon = (int)vx_param("mon", 0); if (m >= 1 && m <= 3) { int lo = (int)vx_param("from", 0), hi = (int)vx_param("to", NCONV); which = lo + (int)vx_choose(port_mon ? 4 : hi - lo, "conversation"); if (port_mon) mon_conv(which); else conv_make(which); } vx_proc_run(proc, nullptr); vx_reach("done"); }
