// Eviction: keys of different sizes, touched in some order, then a clean-up with an arbitrary size limit.
#define TABLES {"a", "b"}
#define KEYS {"k0", "k1", "k2", "k3"}
#include "model.h"
#ifdef UNIT_HUGE
#include "db.h"
#include "db_structures.h"
extern db_details db;
#endif
#ifndef SIZES
#define SIZES {1, 100, 4096, 4097}
#endif
static const int SZ[] = SIZES; enum { NS = sizeof SZ / sizeof *SZ };
static const int CNUM[] = {0, 20, 50, 100};
static uint64_t maxsz; static int clr; static int64_t extra[NT][NK];
static int64_t real(int t, int k) { return mv(t, k)->size + extra[t][k]; }
static int64_t total(void) { int64_t s = 0; for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) if (mv(t, k)->live) s += real(t, k); return s; }
static int there[NT][NK];
static void look(void) { // HEAD changes the order of use: only after the clean-up under test
    for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) { Resp r = simple(mc(), "HEAD", path(t, k)); MVal* e = mv(t, k); there[t][k] = r.status == 200; vx_check(is404(r) || (is200(r) && e->live && r.has_clen && r.clen == real(t, k)), "HEAD answers for the stored value or says it is gone"); if (is200(r)) M->gets++; } }
static void judge(int64_t sum) { // the order of use decides what goes
    int64_t gone = 0, last = 0; uint64_t lastuse = 0, first = ~0ull; int removed = 0, left = 0;
    for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) { MVal* e = mv(t, k); if (!e->live) continue; if (!there[t][k]) { removed++; gone += real(t, k); if (e->used > lastuse || (!e->used && !lastuse && real(t, k) > last)) { lastuse = e->used; last = real(t, k); } } else { left++; if (e->used < first) first = e->used; } }
    vx_check(removed == 0 || left == 0 || lastuse < first || (!lastuse && !first), "what is evicted was used less recently than everything kept");
    int over = maxsz > 0 && (uint64_t)sum > maxsz;
    if (!over) vx_check(removed == 0, "nothing is evicted below the limit");
    else { int64_t need = sum - (int64_t)maxsz + (int64_t)(maxsz * CNUM[clr] / 100); vx_check(sum - gone <= (int64_t)maxsz, "after the clean-up the stored size is within the limit"); vx_check(left == 0 || gone >= need - 1 - (int64_t)(maxsz >> 24), "the clean-up frees the configured share"); vx_check(removed == 0 || gone - last < need + 1 + (int64_t)(maxsz >> 24), "no more is evicted than needed"); vx_reach("evicted"); if (left) vx_reach("some evicted"); }
    for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) if (!there[t][k]) mv(t, k)->live = 0; }
static void script(void) {
    MC = -1; settle(); int n = (int)vx_param("keys", 3), nt = (int)vx_param("tables", 1), touches = (int)vx_param("touches", 2), every = (int)vx_param("every", 0);
    if (!M->step) for (int i = 0; i < n; i++) o_put(i % nt, i, SZ[vx_choose(NS, "size")]);
    if (vx_param("restart", 0) && !M->step) { M->step = 1; if (vx_param("before", 0) && vx_choose(2, "something goes first")) o_del(0, 0); if (MC >= 0) { cl_close(MC); settle(); } return; }
    if (M->step) for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) mv(t, k)->used = 0; // the order of use is not kept over a restart
    for (int i = 0; i < touches; i++) { int w = vx_choose(1 + 5 * n + nt, "touch"); if (!w) break; if (w > 5 * n) { o_deltable(w - 1 - 5 * n); continue; } int k = (w - 1) / 5, t = k % nt, what = (w - 1) % 5; if (every && (what == 2 || what == 4)) break; switch (what) { case 4: o_abort(t, k, SZ[vx_choose(NS, "size")]); break; case 0: o_get(t, k); break; case 1: o_head(t, k); break; case 2: o_put(t, k, SZ[vx_choose(NS, "size")]); break; case 3: o_del(t, k); break; } }
#ifdef UNIT_HUGE
    for (cache_entry* e = db.lru_head; e; e = e->lru_next) if (e->data_length > 4096) for (int t = 0; t < nt; t++) for (int k = 0; k < n; k++) if (mv(t, k)->live && e->key_length == 2 && !memcmp(e->key, KN[k], 2)) { extra[t][k] = 2147483000ll - 4097; e->data_length += (uint32_t)extra[t][k]; db.db_size_bytes += extra[t][k]; }
#endif
    int64_t sum = total();
    if (every) { // the clean-up comes with the next upload, before that one is stored
        uint8_t z[3]; vx_sym(z, 3, "z"); Resp r = put(mc(), "/b/zz", z, 3); vx_check(is200(r), "PUT answers 200"); look(); r = get(mc(), "/b/zz"); vx_check(got(r, z, 3), "the new value is kept"); judge(sum); vx_reach("end"); if (MC >= 0) { cl_close(MC); settle(); } return; }
    Resp r = simple(mc(), "ADMIN", "/gc"); vx_check(r.ok == 1, "ADMIN is answered"); look(); judge(sum);
#ifndef UNIT_HUGE
    m_check_stats(0); m_check_values(); m_check_lists();
    if (vx_param("again", 0)) { o_put(0, 0, 5); for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) if (mv(t, k)->live) mv(t, k)->used = ++M->clock; int64_t s2 = total(); /* o_get in m_check_values used them in this order; then the new value */ mv(0, 0)->used = ++M->clock; Resp r = simple(mc(), "ADMIN", "/gc"); vx_check(r.ok == 1, "ADMIN is answered"); look(); judge(s2); m_check_stats(0); vx_reach("second clean-up"); }
#endif
    if (MC >= 0) { cl_close(MC); settle(); } vx_reach("end"); }
static void proc(void*) { w_init_proc(); if (vx_param("restart", 0) && !M->step) { ServerCfg c = {"/db/", 0, 20}; server_with(script, c); vx_proc_exit(40); } maxsz = vx_range(0, vx_param("maxmb", 0) ? (uint64_t)vx_param("maxmb", 0) << 20 : 20000, "size limit"); clr = vx_choose(4, "clear share"); if (vx_param("maxmb", 0) && clr == 1) maxsz = 700000001ull * (1 + vx_choose(12, "size limit step")); ServerCfg c = {"/db/", maxsz, CNUM[clr]}; server_with(script, c); vx_check(W.bad_close == 0, "no descriptor is closed twice"); }
extern "C" void vx_main(void) { w_init_fs(); m_init(); if (vx_proc_run(proc, nullptr) == 40) { M->gets = M->inserts = M->deletes = M->slack = M->islack = 0; vx_reach("restarted"); vx_proc_run(proc, nullptr); } vx_reach("done"); }
