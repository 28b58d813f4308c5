// Histories in which the process is killed before an arbitrary file operation, or an arbitrary disk operation fails or is cut short,
// followed by restarts on the same files: a key answers with exactly a value completely stored for it, or not at all.
#include "hx.h"
#ifndef TABLES
#define TABLES {"a"}
#endif
#ifndef KEYS
#define KEYS {"x", "y"}
#endif
#ifndef SIZES
#define SIZES {3, 4097}
#endif
static const char* const TN[] = TABLES; static const char* const KN[] = KEYS; static const int SZ[] = SIZES; enum { NT = sizeof TN / sizeof *TN, NK = sizeof KN / sizeof *KN, NS = sizeof SZ / sizeof *SZ, MAXVER = 30 };
struct Ver { uint8_t* v; int size, t, k, whole; };       // whole: every byte of it has been handed to the server
struct Sh { Ver ver[MAXVER]; int nver; int cur[NT][NK]; /* version expected, 0 none, -1 any whole one or none */ int step, limit, life, last, seen_last; };
static Sh* S; static int opmask, faulty, crashing; static int CC = -1, UC = -1, UV, UPOS; static char pth[2000];
enum { PUT_ = 1, GET_ = 2, DEL_ = 4, DELT_ = 8, GC_ = 16, STOP_ = 32, UP_ = 64, BULK_ = 128, TTL_ = 256, LIST_ = 512 };
static const char* path(int t, int k) { strcpy(pth, "/"); strcat(pth, TN[t]); if (k >= 0) { strcat(pth, "/"); strcat(pth, KN[k]); } return pth; }
static int cc(void) { if (CC >= 0 && (!cl_open(CC) || unread(CC))) { if (cl_open(CC)) cl_close(CC); CC = -1; settle(); } if (CC < 0) { CC = cl_connect(PORT_CACHE); settle(); } return CC; }
static int vnew(int t, int k, int n) { if (S->nver >= MAXVER - 1) { vx_unsupported("too many versions"); vx_kill(); } int i = ++S->nver; Ver* r = &S->ver[i]; r->v = (uint8_t*)vx_shared_alloc(n); r->size = n; r->t = t; r->k = k; r->whole = 0; memset(r->v, i * 59, n); for (int j = 0; j < n; j += 61) r->v[j] = (uint8_t)(j * 7 + (j >> 8) * 31 + i); if (n > 1) vx_sym(r->v + n - 1, 1, "last byte"); if (n > 4100) vx_sym(r->v + 4095, 2, "byte at block boundary"); r->v[0] = (uint8_t)i; return i; }
static int fnow(void) { return FS->faults_done; }
// what a key answers with: one of its whole versions, or nothing; then that is what it is
static void look(int t, int k) {
    int *cur = &S->cur[t][k]; Resp r = get(cc(), path(t, k)); vx_check(r.ok == 1, "GET is answered completely"); if (r.ok != 1) return;
    if (is404(r)) { vx_check(*cur <= 0, "a stored value is there"); *cur = 0; vx_reach("none"); return; }
    vx_check(r.status == 200 && r.clen >= 1, "GET answers 200 or 404"); if (r.status != 200 || r.body_len < 1) return; int i = (int)vx_concretize(r.body[0]); if (i < 1 || i > S->nver) { vx_fail("GET returns a value that was never stored"); return; } Ver* v = &S->ver[i];
    vx_check(v->t == t && v->k == k, "GET returns a value of this key"); vx_check(v->whole, "GET returns a value that was completely received"); vx_check(*cur == -1 || *cur == i, "GET returns the value expected"); vx_check(got(r, v->v, v->size), "GET returns exactly the bytes stored"); *cur = i; vx_reach("hit"); }
static int64_t stat_of(const Resp& r, const char* name) { int l = (int)strlen(name); for (int i = 0; i + l < r.body_len; i++) if (r.body[i] == (uint8_t)name[0] && eqn(r.body + i, name, l)) { int64_t v = 0; for (int j = i + l; j < r.body_len && r.body[j] >= '0' && r.body[j] <= '9'; j++) v = v * 10 + r.body[j] - '0'; return v; } return -1; }
static void totals(void) { // what the statistics say is what the keys answer
    int64_t keys = 0, size = 0; for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) if (S->cur[t][k] > 0) { keys++; size += S->ver[S->cur[t][k]].size; }
    Resp r = get(cc(), "/"); vx_check(is200(r), "the statistics page answers"); vx_check(stat_of(r, "DB Keys: ") == keys, "the reported number of keys is the number stored"); vx_check(stat_of(r, "DB Size Bytes: ") == size, "the reported size is the sum of the stored sizes"); }
static void look_all(void) { for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) look(t, k); if (UC < 0) totals(); }
static void done_put(int i, const Resp& r, int f) { Ver* v = &S->ver[i]; int* cur = &S->cur[v->t][v->k]; if (is200(r)) *cur = i; else { vx_check(f != fnow(), "without a disk error a PUT answers 200"); *cur = -1; vx_reach("request failed"); } }
static void o_put(int t, int k) { int i = vnew(t, k, SZ[vx_choose(NS, "size")]), f = fnow(); if (S->cur[t][k] > 0) S->cur[t][k] = -1; S->ver[i].whole = 1; Resp r = put(cc(), path(t, k), S->ver[i].v, S->ver[i].size, 0); done_put(i, r, f); vx_reach("put"); }
static void o_get(int t, int k) { int f = fnow(), *cur = &S->cur[t][k]; Resp r = get(cc(), path(t, k)); if (f == fnow()) { if (*cur > 0) vx_check(got(r, S->ver[*cur].v, S->ver[*cur].size), "GET returns exactly the bytes stored"); else if (*cur == 0) vx_check(is404(r), "GET of a missing key answers 404"); }
    else { if (is200(r)) { vx_check(*cur > 0 && got(r, S->ver[*cur].v, S->ver[*cur].size), "a GET that is answered completely returns exactly the bytes stored"); } else vx_check(r.ok == 1 || !cl_open(CC), "a failed GET is answered or its connection closed"); vx_reach("request failed"); } }
static void o_del(int t, int k) { int f = fnow(), *cur = &S->cur[t][k], was = *cur; if (was > 0) *cur = -1; Resp r = simple(cc(), "DELETE", path(t, k)); if (r.ok == 1 && (r.status == 200 || r.status == 404)) { if (was > 0) vx_check(f != fnow() || r.status == 200, "DELETE of a stored key answers 200"); *cur = 0; } else { vx_check(f != fnow(), "without a disk error a DELETE is answered"); } vx_reach("delete"); }
static void o_delt(int t) { int f = fnow(); for (int k = 0; k < NK; k++) if (S->cur[t][k] > 0) S->cur[t][k] = -1; Resp r = simple(cc(), "DELETE", path(t, -1)); if (r.ok == 1 && (r.status == 200 || r.status == 404)) for (int k = 0; k < NK; k++) S->cur[t][k] = 0; else vx_check(f != fnow(), "without a disk error a DELETE is answered"); if (UC >= 0) UV = -1; vx_reach("delete table"); }
static void o_gc(void) { int f = fnow(); Resp r = simple(cc(), "ADMIN", "/gc"); vx_check(r.ok == 1 || f != fnow(), "ADMIN is answered"); vx_reach("save"); }
static void o_list(int t) { int any = 0; for (int k = 0; k < NK; k++) any |= S->cur[t][k] > 0; int f = fnow(), c = cc(); Txt* x = &hx_t; t0(x); ta(x, "GET "); ta(x, path(t, -1)); ta(x, " HTTP/1.1\r\n\r\n"); cl_send(c, x->b, x->n); settle(); const uint8_t* p = W.s[c].out + W.s[c].out_pos; int n = unread(c); vx_check(hx_pre(p, n, "HTTP/1.1 200") || (!any && hx_pre(p, n, "HTTP/1.1 404")) || f != fnow(), "the listing answers"); W.s[c].out_pos = W.s[c].out_len; }
// an upload that stays incomplete for some steps
static void o_up(void) {
    if (UC < 0) { int t = vx_choose(NT, "table"), k = vx_choose(NK, "key"), n = SZ[vx_choose(NS, "size")]; int f = fnow(), i = vnew(t, k, n); if (S->cur[t][k] > 0) S->cur[t][k] = -1; UC = cl_connect(PORT_CACHE); settle(); Txt* x = &hx_t; t0(x); ta(x, "PUT "); ta(x, path(t, k)); ta(x, " HTTP/1.1\r\nContent-Length: "); tn(x, n); ta(x, "\r\n\r\n"); UPOS = vx_choose(2, "part") ? n - 1 : 1; if (UPOS >= n) UPOS = 0; tb(x, S->ver[i].v, UPOS); cl_send(UC, x->b, x->n); settle(); UV = i; S->cur[t][k] = 0; if (!cl_open(UC) || unread(UC)) { vx_check(f != fnow(), "without a disk error an upload goes on"); S->cur[t][k] = -1; cl_close(UC); settle(); UC = -1; } vx_reach("upload begins"); return; }
    if (vx_choose(2, "upload")) { cl_reset(UC); settle(); UC = -1; vx_reach("upload aborted"); return; }
    int f = fnow(); Ver* v = UV > 0 ? &S->ver[UV] : nullptr; if (!v) { cl_close(UC); settle(); UC = -1; return; } if (cl_open(UC)) { v->whole = 1; cl_send(UC, v->v + UPOS, v->size - UPOS); settle(); Resp r = take(UC); if (S->cur[v->t][v->k] == 0 || S->cur[v->t][v->k] == -1) done_put(UV, r, f); } cl_close(UC); settle(); UC = -1; vx_reach("upload ends"); }
static int stopping, f0;
static void step(void) {
    int ops[12], n = 0; for (int i = 0; i < 10; i++) if (opmask >> i & 1) ops[n++] = 1 << i; int op = ops[vx_choose(n, "operation")], t = 0, k = 0; if (op == PUT_ || op == GET_ || op == DEL_ || op == DELT_ || op == LIST_) t = vx_choose(NT, "table"); if (op == PUT_ || op == GET_ || op == DEL_) k = vx_choose(NK, "key");
    // one upload per key at a time: the server answers the second without storing it
    if (UC >= 0 && UV > 0 && (op == PUT_ || op == DEL_) && S->ver[UV].t == t && S->ver[UV].k == k) return;
    switch (op) { case PUT_: o_put(t, k); break; case GET_: o_get(t, k); break; case DEL_: o_del(t, k); break; case DELT_: o_delt(t); break; case GC_: o_gc(); break; case STOP_: stopping = 1; break; case UP_: o_up(); break; case LIST_: o_list(t); break; } }
static void arm(int on) { W.crash_arm = on && crashing && S->life >= vx_param("crash_from", 0); W.fault_arm = on && faulty; }
static void forget(void) { for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) S->cur[t][k] = -1; }
static void script(void) {
    arm(0); settle(); W.exit_ok = 0; CC = UC = -1; stopping = 0; if (f0 != fnow()) forget(); if (S->life++) { vx_reach("restarted"); look_all(); } if (S->last) { vx_reach("end"); return; }
    while (S->step < S->limit && !stopping) { S->step++; arm(1); step(); arm(0); if (!stopping && vx_param("each", 1)) look_all(); }
    if (UC >= 0 && vx_choose(2, "upload left open") == 0) { cl_close(UC); settle(); UC = -1; }
    if (!stopping) { S->last = 1; // whatever happened, the server stores and serves
        for (int k = 0; k < NK; k++) { if (UC >= 0 && UV > 0 && S->ver[UV].t == 0 && S->ver[UV].k == k) continue; int i = vnew(0, k, SZ[k % NS]); S->ver[i].whole = 1; vx_check(is200(put(cc(), path(0, k), S->ver[i].v, S->ver[i].size)), "the server accepts new values"); S->cur[0][k] = i; } look_all(); }
    if (CC >= 0 && cl_open(CC)) { cl_close(CC); settle(); } arm(1); if (!vx_param("faults_stop", 0)) W.fault_arm = 0; }
static void proc(void*) {
    w_init_proc(); W.fork_mode = (int)vx_param("fork_mode", 0); W.fault_mask = faulty; arm(1); if (!vx_param("faults_start", 0)) W.fault_arm = 0; W.exit_ok = W.fault_arm;
    f0 = fnow(); ServerCfg c = {"/db/", 0, 20}; server_with(script, c); vx_check(W.bad_close == 0 && W.bad_fd == 0, "no closed descriptor is used"); vx_proc_exit(stopping ? 40 : 41); }
extern "C" void vx_main(void) {
    w_init_fs(); S = (Sh*)vx_shared_alloc(sizeof *S); opmask = (int)vx_param("ops", PUT_ | DEL_ | GC_); S->limit = (int)vx_param("steps", 3); faulty = (int)vx_param("faults", 0); crashing = (int)vx_param("crashes", 0) > 0; FS->crash_budget = (int)vx_param("crashes", 0); FS->fault_budget = faulty ? (int)vx_param("budget", 1) : 0;
    for (int i = 0; i < 8; i++) {
        int f = FS->faults_done, rc = vx_proc_run(proc, nullptr);
        if (rc == 137) { vx_reach("killed"); S->limit = S->step + (S->last ? 0 : (int)vx_param("after", 1)); } else if (rc == 40 || rc == 41) vx_reach("stopped"); else { vx_check(f != FS->faults_done, "the server starts"); vx_reach("start refused"); }
        if (rc == 137 || f != FS->faults_done) forget(); if (rc == 41 && S->seen_last) break; if (S->last && rc == 41) S->seen_last = 1; }
    vx_reach("done"); }
