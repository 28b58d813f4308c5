// Listings: every subset of the keys stored (in every order of a rotation), some deleted again, every X-Start and X-Limit.
#define TABLES {"a", "b"}
#ifndef KEYS
#define KEYS {"k1", "longer-key", "z", "q7", "m", "n2"}
#endif
#include "model.h"
static void script(void) {
    settle(); int nk = (int)vx_param("keys", 5), set = 1 + (int)vx_choose((1 << nk) - 1, "stored keys"), rot = vx_param("rotate", 0) ? vx_choose(nk, "first") : 0;
    for (int i = 0; i < nk; i++) { int k = (i + rot) % nk; if (set >> k & 1) o_put(0, k, 1 + k); }
    if (vx_param("other", 1)) o_put(1, 0, 3);
    int del = vx_choose(nk + 1, "deleted"); if (del < nk) o_del(0, del);
    if (vx_param("again", 0) && vx_choose(2, "stored again") && del < nk) o_put(0, del, 2);
    int m = vx_choose(5, "headers"), s = 0, l = 10000; static char h[120]; h[0] = 0;
    if (m & 1) { s = (int)vx_concretize(vx_range(0, nk + 2, "start")); sprintf(h + strlen(h), "X-Start: %d\r\n", s); }
    if (m & 2) { l = (int)vx_concretize(vx_range(0, nk + 2, "limit")); sprintf(h + strlen(h), "X-Limit: %d\r\n", l); }
    if (m == 4) { s = nk > 0; l = 2147483647; strcpy(h, "x-start: 1\r\nHost: h\r\nx-limit: 2147483647\r\n"); }
    o_list(0, h, s, l);
    if (m == 0 && m_table_live(0)) { // page by page: every key exactly once
        int pg = 1 + (int)vx_choose(3, "page size"), seen[NK] = {}; for (int at = 0; at < m_count(0); at += pg) { sprintf(h, "X-Limit: %d\r\nX-Start: %d\r\n", pg, at); o_list(0, h, at, pg); for (int k = 0; k < NK; k++) seen[k] += l_last.seen[k]; }
        for (int k = 0; k < NK; k++) vx_check(seen[k] == (mv(0, k)->live != 0), "the pages together name every key once"); vx_reach("pages"); }
    o_list(0); m_check_stats(); m_check_values(); if (MC >= 0) { cl_close(MC); settle(); } vx_reach("end"); }
static void proc(void*) { w_init_proc(); W.wr_mode = (int)vx_param("wr", 0); server_with(script, DEFCFG); vx_check(W.bad_close == 0, "no descriptor is closed twice"); }
extern "C" void vx_main(void) { w_init_fs(); m_init(); vx_proc_run(proc, nullptr); vx_reach("done"); }
