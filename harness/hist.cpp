// Every history of a bounded number of operations on a few names, through the real event loop, against the model.
#include "model.h"
#ifndef SIZES
#define SIZES {3, 4096, 4097}
#endif
#ifndef TTLS
#define TTLS {1, 2}
#endif
static const int64_t TTL[] = TTLS; enum { NTTL = sizeof TTL / sizeof *TTL };
static const int SZ[] = SIZES; enum { NS = sizeof SZ / sizeof *SZ };
enum { PUT_, GET_, HEAD_, DEL_, DELT_, BULK_, LIST_, TIME_, GC_, RESTART_, ABORT_, PUTTTL_, LISTX_, NOPS };
static int opmask, steps, started; static int restart_now;
static void step(void) {
    int ops[NOPS], n = 0; for (int i = 0; i < NOPS; i++) if (opmask >> i & 1) ops[n++] = i; int op = ops[vx_choose(n, "operation")];
    int t = 0, k = 0; if (op != GC_ && op != RESTART_ && op != TIME_) t = vx_choose(NT, "table"); if (op == PUT_ || op == GET_ || op == HEAD_ || op == DEL_ || op == ABORT_ || op == PUTTTL_) k = vx_choose(NK, "key");
    switch (op) {
    case PUT_: o_put(t, k, SZ[vx_choose(NS, "size")]); break;
    case PUTTTL_: { int sz = SZ[vx_choose(NS, "size")]; int64_t ttl = TTL[vx_choose(NTTL, "ttl")]; o_put(t, k, sz, ttl); break; }
    case GET_: o_get(t, k); break; case HEAD_: o_head(t, k); break; case DEL_: o_del(t, k); break; case DELT_: o_deltable(t); break;
    case BULK_: o_bulk(t, 1 + vx_choose((1 << NK) - 1, "keys")); break; case LIST_: o_list(t); break;
    case LISTX_: { int m = vx_choose(3, "listing headers"), s = 0, l = 10000; static char h[80]; h[0] = 0; if (m != 1) { s = vx_choose(NK + 2, "start"); sprintf(h + strlen(h), "X-Start: %d\r\n", s); } if (m != 0) { l = vx_choose(NK + 2, "limit"); sprintf(h + strlen(h), "X-Limit: %d\r\n", l); } o_list(t, h, s, l); break; }
    #ifdef TIMES
    case TIME_: { static const int64_t TM[] = TIMES; w_advance(TM[vx_choose(sizeof TM / sizeof *TM, "seconds pass")]); break; }
#else
    case TIME_: w_advance((int64_t)vx_range(0, (uint64_t)vx_param("tmax", 4), "seconds pass")); break;
#endif
    case GC_: { Resp r = simple(mc(), "ADMIN", "/gc"); vx_check(r.ok == 1, "ADMIN is answered"); for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) if (m_lapsed(mv(t, k)) && !m_edge(mv(t, k))) { if (vx_param("gc_collects", 1)) m_del(t, k); } vx_reach("gc"); break; }
    case RESTART_: restart_now = 1; break;
    case ABORT_: o_abort(t, k, SZ[vx_choose(NS, "size")]); break;
    }
}
static int64_t base_live; static const int wblocks = 1;
static void leak_check(void) { // everything deleted and every client gone: nothing allocated per key, table, block in use or connection is left
    for (int t = 0; t < NT; t++) if (m_table_live(t)) o_deltable(t); Stats s = o_stats(); vx_check(s.keys == 0 && s.tables == 0 && s.size == 0, "nothing is stored after deleting every table"); vx_check(s.bfree == s.btot, "every block is free after deleting every table"); vx_check(w_value_files() == 0, "no value file is left after deleting every table");
    cl_close(MC); settle(); MC = -1; vx_check((int64_t)vx_live() - s.bfree == base_live, "every allocation for requests, connections, keys and tables is released"); vx_reach("leak check"); }
static void finish(void) {
    int chk = (int)vx_param("final", 7);
    if (chk & 8) { settle(); } if (chk & 1) m_check_values(); if (chk & 4) m_check_lists(); if (chk & 2) m_check_stats(vx_param("counters", 1) != 0);
    if (vx_param("leak", 0)) leak_check(); if (MC >= 0) { cl_close(MC); settle(); } MC = -1; vx_check(w_open_fds() == started, "every descriptor of the clients is closed"); vx_reach("end"); }
static void script(void) {
    MC = -1; settle(); started = w_open_fds(); restart_now = 0; int leak = (int)vx_param("leak", 0) && M->step == 0;
    if (leak) { uint8_t z = 0; int c = cl_connect(PORT_CACHE); settle(); vx_check(is200(put(c, "/warm/up", &z, 1)), "warm-up"); simple(c, "DELETE", "/warm"); cl_close(c); settle(); base_live = (int64_t)vx_live() - wblocks; M->inserts++; }
    while (M->step < steps && !restart_now) { M->step++; step(); if (vx_param("each", 0)) { m_check_values(); m_check_stats(0); } }
    if (!restart_now) finish(); else if (MC >= 0) { cl_close(MC); settle(); } }
static void proc(void*) {
    w_init_proc(); if (VX_BIG > 17000) W.maxin = W.maxout = VX_BIG + 4096; W.fork_mode = (int)vx_param("fork_mode", 0); static ServerCfg c = {"/db/", 0, 20}; server_with(script, c); vx_check(W.bad_close == 0, "no descriptor is closed twice"); vx_check(W.bad_fd == 0, "no closed descriptor is used"); vx_check(w_open_kind(WF_SOCK) + w_open_kind(WF_LISTEN) + w_open_kind(WF_EPOLL) + w_open_kind(WF_EVENT) == 0, "stopping closes every socket");
    if (restart_now) vx_proc_exit(40); }
extern "C" void vx_main(void) {
    w_init_fs(); m_init(); opmask = (int)vx_param("ops", 0x3f); steps = (int)vx_param("steps", 2);
    for (int i = 0; i < 6; i++) { int rc = vx_proc_run(proc, nullptr); if (rc == 40) { M->gets = M->inserts = M->deletes = M->slack = M->islack = 0; vx_reach("restarted"); continue; } break; }
    vx_reach("done"); }
