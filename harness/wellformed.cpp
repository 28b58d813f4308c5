// Every answer is one well-formed message with a truthful length, and the connection then serves the next request or closes.
#include "conv.h"
#ifdef UNIT_COUNTERS
#include "db.h"
extern db_details db;
#endif
static int which;
static int listing_ok(int c) { WSock* s = &W.s[c]; const uint8_t* p = s->out + s->out_pos; int n = unread(c), pos = 0, st = 0, lines = 0; int64_t entries = -1; while (pos < n) { int e = hx_line(p + pos, n - pos); if (e < 0) return 0; if (!st) { if (!hx_pre(p + pos, e, "HTTP/1.1 200")) return 0; st = 1; } else if (st == 1) { if (!e) st = 2; else { int col = 0; for (int i = 0; i < e; i++) col |= p[pos + i] == ':'; if (!col) return 0; if (hx_pre(p + pos, e, "Content-Length")) return 0; if (hx_pre(p + pos, e, "X-Entries: ")) entries = hx_num(p + pos + 11, e - 11); } } else lines++; pos += e + 2; } s->out_pos += n; return st == 2 && entries >= lines; }
static void script(void) {
    settle(); conv_store(); int c = cl_connect(PORT_CACHE); settle();
#ifdef UNIT_COUNTERS
    uint64_t v = 1; int d = (int)vx_choose(20, "digits"); for (int i = 0; i < d; i++) v *= 10; int odd = vx_choose(2, "less one"); v -= odd; db.db_stats_gets = v; db.db_stats_inserts = v; db.db_stats_deletes = v; db.db_stats_operations = v; db.db_size_bytes = v;
#endif
    W.s[c].wmode = (int)vx_param("wmode", 0); if (vx_param("bytewise", 0)) for (int i = 0; i < cv.n; i++) { cl_send(c, cv.b + i, 1); settle(); } else cl_send(c, cv.b, cv.n);
    settle(); int closed = 0; for (const char* k = CONV[which].kinds; *k; k++) {
        if (*k == 'L') { vx_check(listing_ok(c), "a listing is headers and complete lines without a length"); closed = 1; continue; }
        int head = *k == 'H'; if (*k == 'C' && cv.b[0] == 'H') head = 1; // a refused HEAD request
        Resp r = take(c, head); vx_check(r.ok == 1, "each request is answered by one complete well-formed message"); vx_check(r.has_clen, "the answer announces its length"); vx_check(*k != 'C' || r.status >= 400, "a refused request is answered by an error"); vx_check(r.close == (*k == 'C'), "an answer announces Close exactly when the connection is closed"); if (*k == 'C') closed = 1;
        if (!head) vx_check(r.clen < 3 || r.status == 200 || (r.body[r.body_len - 2] == '\r' && r.body[r.body_len - 1] == '\n'), "the text of an error answer is complete"); vx_reach(head ? "head" : closed ? "refused" : "message"); }
    vx_check(unread(c) == 0, "nothing follows the answers"); vx_check(cl_open(c) == !closed, "the connection stays open exactly when announced");
    if (!closed) { Resp r = get(c, "/o/k"); vx_check(got(r, "other", 5), "the connection serves the next request"); r = simple(c, "HEAD", "/o/k"); vx_check(is200(r) && r.clen == 5 && unread(c) == 0, "HEAD has no body"); r = get(c, "/"); vx_check(is200(r) && r.has_clen && r.clen == r.body_len && unread(c) == 0, "the statistics page has the length announced"); vx_reach("next request"); }
    cl_close(c); settle(); }
static void proc(void*) { w_init_proc(); server_with(script, DEFCFG); vx_check(W.bad_close == 0, "no descriptor is closed twice"); }
extern "C" void vx_main(void) { w_init_fs(); conv_values(); int lo = (int)vx_param("from", 0), hi = (int)vx_param("to", NCONV); which = lo + (int)vx_choose(hi - lo, "conversation"); conv_make(which); vx_proc_run(proc, nullptr); vx_reach("done"); }
