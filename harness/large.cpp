// Totals and positions beyond 2 and 4 GB.
//  mode 0: the block file already holds a large number of used blocks (set in the server's own record of it); values are then stored,
//          read, replaced and deleted in the blocks that follow, and survive a save and restart when the number allows loading it.
//  mode 1: uploads that announce values of up to 2 GB each, in progress together; the reported size counts them and forgets the aborted.
#include "model.h"
#include "db.h"
static int mode, C1; static uint8_t va[4096], vb[5], vc[4097];
static uint64_t n0; static int restarted;
static int64_t bl(int which) { Resp r = get(C1, "/"); vx_check(is200(r), "statistics"); int l = 16; for (int i = 0; i + l < r.body_len; i++) if (eqn(r.body + i, "DB Blocks Free: ", l)) { int j = i + l; int64_t v[2] = {0, 0}; for (int w = 0; w < 2; w++, j++) for (; r.body[j] >= '0' && r.body[j] <= '9'; j++) v[w] = v[w] * 10 + r.body[j] - '0'; return v[which]; } return -1; }
static int64_t stat1(const char* nm) { Resp r = get(C1, "/"); vx_check(is200(r), "statistics"); return stat_of(r, nm); }
static void same(const char* p, const uint8_t* v, int n) { Resp r = get(C1, p); vx_check(got(r, v, n), "GET returns exactly the stored value"); }
static void many(void) {
    if (!restarted) { simple(C1, "GET", "/none"); db_details* d = db_get_details(); d->blocks_exist = (uint32_t)n0; FS->ino[w_inode_of("/db/blockfile.db")].size = (int64_t)n0 * 4096;
        int64_t f0 = (int64_t)n0; vx_check(bl(1) == f0 && bl(0) == 0, "blocks are reported");
        vx_check(is200(put(C1, "/t/a", va, 4096)), "PUT"); vx_check(is200(put(C1, "/t/b", vb, 5)), "PUT"); vx_check(is200(put(C1, "/t/c", vc, 4097)), "PUT"); same("/t/a", va, 4096); same("/t/b", vb, 5); same("/t/c", vc, 4097);
        int nb = n0 + 2 <= 2147483647ull ? 2 : (int)(2147483647ull - n0); if (nb < 0) nb = 0; vx_check(bl(1) == f0 + nb && bl(0) == 0, "the new blocks follow"); vx_check(w_size("/db/blockfile.db") == (f0 + nb) * 4096, "the block file holds every block"); 
        int k = (int)vx_choose(3, "then"); if (k == 0) { vx_check(is200(simple(C1, "DELETE", "/t/a")), "DELETE"); same("/t/b", vb, 5); vx_check(is404(get(C1, "/t/a")), "gone"); if (nb) vx_check(bl(0) == 1, "its block is free"); vx_check(is200(put(C1, "/t/d", va, 4096)), "PUT"); same("/t/d", va, 4096); same("/t/b", vb, 5); if (n0 == 2147483645) vx_check(is200(simple(C1, "DELETE", "/t/d")), "DELETE"); vx_check(is200(put(C1, "/t/a", va, 4096)), "PUT"); if (n0 != 2147483645) vx_check(is200(simple(C1, "DELETE", "/t/d")), "DELETE"); }
        else if (k == 1) { vx_check(is200(put(C1, "/t/b", va, 4096)), "PUT replaces"); vx_check(is200(put(C1, "/t/a", vb, 5)), "PUT replaces"); same("/t/b", va, 4096); same("/t/a", vb, 5); vx_check(is200(put(C1, "/t/a", va, 4096)), "PUT replaces"); vx_check(is200(put(C1, "/t/b", vb, 5)), "PUT replaces"); }
        else { int c = cl_connect(PORT_CACHE); W.s[c].wmode = 7; W.s[c].quota = 300; cl_puts(c, "GET /t/a HTTP/1.1\r\n\r\n"); settle(); Resp q = put(C1, "/t/a", vb, 5); if (n0 == 2147483645) { vx_check(q.ok == 1 && q.status >= 500, "without a free block number PUT is refused"); if (!cl_open(C1)) { C1 = cl_connect(PORT_CACHE); settle(); } vx_check(is404(get(C1, "/t/a")), "and stores nothing"); vx_reach("no block"); } else { vx_check(is200(q), "PUT replaces"); same("/t/a", vb, 5); } W.s[c].wmode = 0; settle(); Resp r = take(c); vx_check(got(r, va, 4096), "a download completes with its version"); cl_close(c); settle(); vx_check(is200(put(C1, "/t/a", va, 4096)), "PUT replaces"); vx_reach("download"); } }
    same("/t/a", va, 4096); same("/t/b", vb, 5); same("/t/c", vc, 4097); vx_reach(restarted ? "after the restart" : "stored"); }
static void uploads(void) {
    static const int64_t S[] = {2147483647, 2147483646, 1073741824, 70000}; enum { NU = 4 }; int c[NU]; int64_t sz[NU], sum = 0; vx_check(is200(put(C1, "/t/b", vb, 5)), "PUT"); sum = 5;
    for (int i = 0; i < NU; i++) { sz[i] = S[vx_choose(4, "size")]; c[i] = cl_connect(PORT_CACHE); Txt* x = &hx_t; t0(x); ta(x, "PUT /t/u"); x->b[x->n++] = (char)('0' + i); ta(x, " HTTP/1.1\r\nContent-Length: "); tn(x, sz[i]); ta(x, "\r\n\r\nabc"); cl_send(c[i], x->b, x->n); settle(); sum += sz[i]; vx_check(unread(c[i]) == 0 && cl_open(c[i]), "the upload goes on"); vx_check(stat1("DB Size Bytes: ") == sum, "the size counts what is being stored"); }
    int who = (int)vx_choose(NU, "aborted first"); for (int j = 0; j < NU; j++) { int i = (who + j) % NU; if (j & 1) cl_reset(c[i]); else cl_close(c[i]); settle(); sum -= sz[i]; vx_check(stat1("DB Size Bytes: ") == sum, "an aborted upload is no longer counted"); } vx_check(sum == 5 && stat1("DB Keys: ") == 1, "only the stored value is left"); same("/t/b", vb, 5); vx_check(w_value_files() == 0, "no file is left"); vx_reach("aborted"); }
static void script(void) { settle(); C1 = cl_connect(PORT_CACHE); settle(); if (mode) uploads(); else many(); cl_close(C1); settle(); vx_reach("end"); }
static void proc(void*) { w_init_proc(); ServerCfg c = {"/db/", 0, 20}; server_with(script, c); }
extern "C" void vx_main(void) { w_init_fs(); mode = (int)vx_param("mode", 0); for (int i = 0; i < 4096; i++) va[i] = (uint8_t)(i * 7); for (int i = 0; i < 4097; i++) vc[i] = (uint8_t)(i * 11 + 3); vx_sym(va, 2, "a start"); vx_sym(va + 4094, 2, "a end"); vx_sym(vb, 5, "b"); vx_sym(vc + 4095, 2, "c end");
    static const uint64_t N[] = {524286, 524287, 1048574, 1048575, 2147483644, 2147483645}; if (!mode) n0 = N[vx_choose((uint32_t)vx_param("numbers", 6), "blocks in use")];
    vx_proc_run(proc, nullptr); if (!mode && n0 < 600000 && vx_param("restart", 0)) { restarted = 1; vx_proc_run(proc, nullptr); } vx_reach("done"); }
