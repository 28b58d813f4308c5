// BULK with arbitrary bytes in its headers: exactly the keys named by X-Delete headers go.
#define TABLES {"a", "b"}
#define KEYS {"x", "y", "zz"}
#include "model.h"
static int upto(const uint8_t* p, int n, int at, int c) { while (at < n && p[at] != c) at++; return at; }
static Txt T; static int del[NK];
static int interpret(const uint8_t* p, int n, int at) { // from the first header on; returns the end of the request or -1
    for (;;) { int nl = upto(p, n, at, '\n'); if (nl >= n) return -1; int e = nl; while (e > at && p[e - 1] == '\r') e--; if (e == at) return nl + 1; 
        int col = upto(p, e, at, ':'); if (col - at == 8 && (eqn(p + at, "X-Delete", 8) || eqn(p + at, "x-delete", 8))) {
            int v = col + 1; while (v < nl && p[v] == ' ') v++; int ve = nl; if (ve > v && p[ve - 1] == '\r') ve--; int known = 0;
            for (int k = 0; k < NK; k++) if ((int)strlen(KN[k]) == ve - v && eqn(p + v, KN[k], ve - v)) { del[k] = 1; known = 1; }
            if (!known) { int q = 0; for (int i = v; i < ve; i++) if (vx_is_sym(p[i]) && q++) vx_assume(p[i] == 'q'); } }
        at = nl + 1; } }
static void script(void) {
    settle(); for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) o_put(t, k, 1 + k);
    int lines = (int)vx_param("lines", 2); static uint8_t wild[32]; t0(&T); ta(&T, lines == 1 && vx_choose(2, "method") ? "PURGE /a HTTP/1.1\r\n" : "BULK /a HTTP/1.1\r\n"); int start = T.n;
    for (int l = 0; l < lines; l++) { uint8_t* w = wild + l * 4; switch (l == 0 || vx_param("full", 0) ? vx_choose(5, "header") : 4 + vx_choose(2, "header")) {
        case 5: ta(&T, "X-Delete: y"); break;
        case 0: vx_sym(w, 2, "value"); ta(&T, "X-Delete: "); tb(&T, w, 2); break;
        case 1: vx_sym(w, 2, "name"); ta(&T, "X-Del"); tb(&T, w, 2); ta(&T, "e: y"); break;
        case 2: vx_sym(w, 3, "around"); tb(&T, w, 1); ta(&T, "-Delete"); tb(&T, w + 1, 2); ta(&T, "x"); break;
        case 3: vx_sym(w, 1, "value"); ta(&T, "x-delete:"); tb(&T, w, 1); break;
        case 4: ta(&T, "Host: h"); break; }
        ta(&T, (lines == 1 || l == 1) && vx_choose(2, "line end") ? "\n" : "\r\n"); }
    ta(&T, "\r\n"); int e = interpret((uint8_t*)T.b, T.n, start); vx_check(e > 0, "harness"); T.n = e; // nothing behind the request
    int cut = vx_param("cut", 0) ? (int)vx_choose(T.n - start, "cut") + start : T.n; int c = cl_connect(PORT_CACHE); cl_send(c, T.b, cut); if (cut < T.n) { settle(); cl_send(c, T.b + cut, T.n - cut); } settle(); Resp r = take(c); vx_check(is200(r), "BULK answers 200"); vx_check(unread(c) == 0, "BULK answers once");
    for (int k = 0; k < NK; k++) if (del[k]) { m_del(0, k); M->deletes++; vx_reach("deleted"); } else vx_reach("kept");
    r = get(c, "/b/x"); vx_check(got(r, mv(1, 0)->v, 1), "the connection serves the next request"); M->gets++; cl_close(c);
    m_check_values(); m_check_stats(1); if (MC >= 0) { cl_close(MC); settle(); } vx_reach("end"); }
static void proc(void*) { w_init_proc(); server_with(script, DEFCFG); vx_check(W.bad_close == 0, "no descriptor is closed twice"); }
extern "C" void vx_main(void) { w_init_fs(); m_init(); vx_proc_run(proc, nullptr); vx_reach("done"); }
