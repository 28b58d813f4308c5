// Reference model of the store (a map from table and key name to the stored bytes) and operations that drive the real server
// over HTTP and compare its answers and its visible state with the model.
#pragma once
#include "hx.h"
#ifndef TABLES
#define TABLES {"a", "b"}
#endif
#ifndef COLLIDE            // do two keys of a table share their hash?
#define COLLIDE(k, j) 0
#endif
#ifndef KEYS
#define KEYS {"x", "y"}
#endif
static const char* const TN[] = TABLES; static const char* const KN[] = KEYS;
enum { NT = sizeof TN / sizeof *TN, NK = sizeof KN / sizeof *KN, MAXV = VX_BIG, MAXP = VX_BIG > 17000 ? 8 : 24 };
struct MVal { int live; int maybe; int size; int64_t expires; uint64_t used; uint8_t* v; };
struct Model { MVal e[NT][NK]; int ver; uint64_t clock; int step; int gets, inserts, deletes, slack, islack; uint8_t pool[MAXP][MAXV]; int npool; };
static Model* M;                                            // survives a server restart
static void m_init(void) { M = (Model*)vx_shared_alloc(sizeof(Model)); }
static MVal* mv(int t, int k) { return &M->e[t][k]; }
static int m_live(MVal* e) { return e->live && !e->maybe && (e->expires == 0 || e->expires > FS->now_sec); }      // must be served
static int m_edge(MVal* e) { return e->live && ((e->expires != 0 && e->expires == FS->now_sec) || (e->maybe && (e->expires == 0 || e->expires >= FS->now_sec))); } // the very second of the deadline, or a value that may have been displaced: either answer is right
static int m_lapsed(MVal* e) { return e->live && (e->maybe || (e->expires != 0 && e->expires <= FS->now_sec)); }      // no longer promised, may not have been collected yet
static char m_path[20000];
static const char* path(int t, int k) { strcpy(m_path, "/"); strcat(m_path, TN[t]); if (k >= 0) { strcat(m_path, "/"); strcat(m_path, KN[k]); } return m_path; }
// a new value: arbitrary bytes at both ends, in the middle and around the block boundary, a recognisable pattern elsewhere
static uint8_t* m_value(int n) {
    if (M->npool >= MAXP) { vx_unsupported("too many values"); vx_kill(); } uint8_t* v = M->pool[M->npool++]; int ver = ++M->ver; for (int i = 0; i < n; i++) v[i] = (uint8_t)(i * 7 + (i >> 8) * 31 + ver * 59);
    if (n <= 8) vx_sym(v, n, "value"); else { vx_sym(v, 2, "value start"); vx_sym(v + n / 2, 2, "value middle"); vx_sym(v + n - 2, 2, "value end"); if (n > 4100) vx_sym(v + 4095, 2, "value at block boundary"); }
    return v; }
static void m_set(int t, int k, uint8_t* v, int n, int64_t ttl) { MVal* e = mv(t, k); e->live = 1; e->size = n; e->v = v; e->expires = ttl ? FS->now_sec + ttl : 0; e->used = ++M->clock; e->maybe = 0; for (int j = 0; j < NK; j++) if (j != k && COLLIDE(k, j)) mv(t, j)->maybe = 1; }
static void m_del(int t, int k) { mv(t, k)->live = 0; }
static int m_table_live(int t) { for (int k = 0; k < NK; k++) if (mv(t, k)->live) return 1; return 0; }
static int m_table_sure(int t) { for (int k = 0; k < NK; k++) if (m_live(mv(t, k))) return 1; return 0; }
static int m_count(int t) { int n = 0; for (int k = 0; k < NK; k++) n += mv(t, k)->live; return n; }
static int MC = -1;                                          // the connection used
static int mc(void) { vx_check(MC < 0 || unread(MC) == 0, "nothing follows an answer"); if (MC < 0 || !cl_open(MC)) { MC = cl_connect(PORT_CACHE); settle(); } return MC; }
static void o_put(int t, int k, int n, int64_t ttl = 0) { uint8_t* v = m_value(n); Resp r = put(mc(), path(t, k), v, n, ttl); vx_check(is200(r), "PUT answers 200"); m_set(t, k, v, n, ttl); M->inserts++; vx_reach("put"); }
static void o_get(int t, int k, int stats = 1) { Resp r = get(mc(), path(t, k)); MVal* e = mv(t, k); if (m_live(e) || (m_edge(e) && r.status == 200)) { vx_check(got(r, e->v, e->size), "GET returns exactly the stored value"); if (e->expires) vx_check(r.has_ttl && r.ttl <= e->expires - FS->now_sec && r.ttl >= 0, "GET reports the remaining time to live"); else vx_check(!r.has_ttl || r.ttl <= 0, "no X-Ttl for a value that does not expire"); e->used = ++M->clock; M->gets++; vx_reach("get hit"); } else { vx_check(is404(r), "GET of a missing key answers 404"); if (e->live) { e->live = 0; vx_reach("get expired"); } else vx_reach("get miss"); } }
static void o_head(int t, int k) { Resp r = simple(mc(), "HEAD", path(t, k)); MVal* e = mv(t, k); if (m_live(e) || (m_edge(e) && r.status == 200)) { vx_check(r.ok == 1 && r.status == 200 && r.has_clen && r.clen == e->size && r.body_len == 0, "HEAD reports the stored value"); e->used = ++M->clock; M->gets++; } else { vx_check(is404(r), "HEAD of a missing key answers 404"); e->live = 0; } vx_check(unread(MC) == 0, "HEAD sends no body"); }
static void o_del(int t, int k) { Resp r = simple(mc(), "DELETE", path(t, k)); MVal* e = mv(t, k); if (e->live) { if (m_live(e)) { vx_check(is200(r), "DELETE of a stored key answers 200"); M->deletes++; } else M->deletes += is200(r); vx_reach("delete"); } else vx_check(is404(r), "DELETE of a missing key answers 404"); e->live = 0; }
static void o_deltable(int t) { Resp r = simple(mc(), "DELETE", path(t, -1)); if (m_table_live(t) && !m_table_sure(t)) vx_check(is200(r) || is404(r), "DELETE of a table of expired values is answered"); else if (m_table_live(t)) { vx_check(is200(r), "DELETE of a table answers 200"); vx_reach("delete table"); } else vx_check(is404(r), "DELETE of a missing table answers 404"); for (int k = 0; k < NK; k++) m_del(t, k); }
// BULK delete of the keys in the mask, plus a key that never exists
static void o_bulk(int t, int mask) { static char h[40000]; h[0] = 0; for (int k = 0; k < NK; k++) if (mask >> k & 1) { strcat(h, "X-Delete: "); strcat(h, KN[k]); strcat(h, "\r\n"); } strcat(h, "X-Delete: zz\r\n"); Resp r = simple(mc(), "BULK", path(t, -1), h); vx_check(r.ok == 1, "BULK is answered"); for (int k = 0; k < NK; k++) if (mask >> k & 1) { if (m_live(mv(t, k))) M->deletes++; else if (mv(t, k)->live) M->slack++; m_del(t, k); } vx_reach("bulk"); }
struct Lst { int n; int total; int seen[NK]; int unknown; int entries; };
// the listing: headers, then one line per key, until the server closes the connection
static int lst_read(int c, Lst* l) {
    memset(l, 0, sizeof *l); WSock* s = &W.s[c]; const uint8_t* p = s->out + s->out_pos; int n = s->out_len - s->out_pos, pos = 0, st = 0; l->entries = -1;
    while (pos < n) { int e = hx_line(p + pos, n - pos); if (e < 0) { vx_check(0, "listing ends with a complete line"); return -1; }
        if (st == 0) { if (!hx_pre(p + pos, e, "HTTP/1.1 200")) return 0; st = 1; } else if (st == 1) { if (e == 0) st = 2; else if (hx_pre(p + pos, e, "X-Entries: ")) l->entries = (int)hx_num(p + pos + 11, e - 11); }
        else { int f = 0; for (int k = 0; k < NK; k++) if ((int)strlen(KN[k]) == e && eqn(p + pos, KN[k], e)) { l->seen[k]++; f = 1; } if (!f) l->unknown++; l->n++; }
        pos += e + 2; }
    s->out_pos += n; return st == 2 ? 1 : -1; }
static Lst l_last;
static void o_list(int t, const char* hdr = "", int start = 0, int limit = 10000) {
    int c = mc(); Txt* x = &hx_t; t0(x); ta(x, "GET "); ta(x, path(t, -1)); ta(x, " HTTP/1.1\r\n"); ta(x, hdr); ta(x, "\r\n"); cl_send(c, x->b, x->n); settle();
    if (!m_table_live(t)) { Resp r = take(c); vx_check(is404(r), "listing of a missing table answers 404"); return; }
    if (!m_table_sure(t) && hx_pre(W.s[c].out + W.s[c].out_pos, unread(c), "HTTP/1.1 404")) { Resp r = take(c); vx_check(is404(r), "listing of an expired table answers"); return; }
    int lapsed = 0; for (int k = 0; k < NK; k++) lapsed += m_lapsed(mv(t, k)) != 0;
    Lst l; int ok = lst_read(c, &l); vx_check(ok == 1, "listing answers 200 with headers and lines"); vx_check(!cl_open(c), "listing ends by closing the connection"); int cnt = m_count(t);
    int want = cnt - start; if (want < 0) want = 0; if (want > limit) want = limit; int least = cnt - lapsed - start; if (least < 0) least = 0; if (least > limit) least = limit;
    vx_check(l.unknown == 0, "listing invents no key"); vx_check(l.n <= want && l.n >= least, "listing has the number of keys asked for"); vx_check(l.entries <= cnt && l.entries >= cnt - lapsed, "X-Entries is the number of keys");
    for (int k = 0; k < NK; k++) { vx_check(l.seen[k] <= (mv(t, k)->live != 0), "listing names only stored keys, once"); if (start == 0 && limit >= cnt && !m_lapsed(mv(t, k))) vx_check(l.seen[k] == (mv(t, k)->live != 0), "listing names every stored key"); }
    l_last = l; vx_reach("list"); }
static int64_t stat_of(const Resp& r, const char* name) { int l = (int)strlen(name); for (int i = 0; i + l < r.body_len; i++) if (r.body[i] == (uint8_t)name[0] && eqn(r.body + i, name, l)) { int64_t v = 0; int j = i + l, any = 0; while (j < r.body_len && r.body[j] >= '0' && r.body[j] <= '9') { v = v * 10 + r.body[j++] - '0'; any = 1; } return any ? v : -1; } return -1; }
struct Stats { int64_t keys, tables, size, bfree, btot, dels, gets, ins; };
static Stats o_stats(void) {
    Resp r = get(mc(), "/"); vx_check(is200(r) && r.has_clen && r.clen == r.body_len, "the statistics page answers"); Stats s; s.keys = stat_of(r, "DB Keys: "); s.tables = stat_of(r, "DB Tables: "); s.size = stat_of(r, "DB Size Bytes: "); s.bfree = stat_of(r, "DB Blocks Free: "); s.dels = stat_of(r, "DB Stats Deletes: "); s.gets = stat_of(r, "DB Stats Gets: "); s.ins = stat_of(r, "DB Stats Inserts: "); s.btot = -1;
    int l = 16; for (int i = 0; i + l < r.body_len; i++) if (eqn(r.body + i, "DB Blocks Free: ", l)) { int j = i + l; while (j < r.body_len && r.body[j] != '/') j++; int64_t v = 0; for (j++; j < r.body_len && r.body[j] >= '0' && r.body[j] <= '9'; j++) v = v * 10 + r.body[j] - '0'; s.btot = v; }
    return s; }
// the visible totals agree with the model (no request in progress)
static void m_check_stats(int counters = 1) {
    Stats s = o_stats(); int64_t keys = 0, size = 0, blocks = 0, files = 0, tables = 0, xkeys = 0, xsize = 0, xblocks = 0, xfiles = 0, xtables = 0; // x: expired values that may not have been collected
    for (int t = 0; t < NT; t++) { int any = 0, xany = 0; for (int k = 0; k < NK; k++) { MVal* e = mv(t, k); int b = e->size <= 4096; if (m_lapsed(e)) { xany = 1; xkeys++; xsize += e->size; xblocks += b; xfiles += !b; } else if (e->live) { any = 1; keys++; size += e->size; blocks += b; files += !b; } } tables += any; xtables += xany && !any; }
    vx_check(s.keys >= keys && s.keys <= keys + xkeys, "the reported number of keys is the number stored"); vx_check(s.size >= size && s.size <= size + xsize, "the reported size is the sum of the stored sizes"); vx_check(s.tables >= tables && s.tables <= tables + xtables, "the reported number of tables is the number of tables with keys");
    vx_check(s.btot - s.bfree >= blocks && s.btot - s.bfree <= blocks + xblocks, "blocks in use are those of the stored values"); vx_check(w_size("/db/blockfile.db") >= s.btot * 4096, "the block file holds every block"); vx_check(w_value_files() >= files && w_value_files() <= files + xfiles, "one value file per large value and no other");
    if (counters) { vx_check(s.gets == M->gets, "the get counter counts the gets"); vx_check(s.ins >= M->inserts && s.ins <= M->inserts + M->islack, "the insert counter counts the inserts"); vx_check(s.dels >= M->deletes && s.dels <= M->deletes + M->slack, "the delete counter counts the deletes"); }
    vx_reach("stats"); }
static void m_check_values(void) { for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) o_get(t, k); }
static void m_check_lists(void) { for (int t = 0; t < NT; t++) o_list(t); }
// an upload whose client goes away: after some headers, after all of them, or after part of the body
static void o_abort(int t, int k, int n) { // an upload that goes away: after the headers, or after part of the body
    int c = cl_connect(PORT_CACHE); Txt* x = &hx_t; t0(x); ta(x, "PUT "); ta(x, path(t, k)); ta(x, " HTTP/1.1\r\n"); int where = (int)vx_param("abort_min", 0) + vx_choose(3 - (int)vx_param("abort_min", 0), "upload stops"); if (where) { ta(x, "Content-Length: "); tn(x, n); ta(x, "\r\n\r\n"); } if (where == 2) { uint8_t junk[64]; memset(junk, 0xEE, 64); tb(x, junk, n > 64 ? 64 : n - 1); }
    cl_send(c, x->b, x->n); settle(); m_del(t, k); M->islack++; if (vx_choose(2, "reset")) cl_reset(c); else cl_close(c); settle(); vx_check(!cl_open(c), "the server closes the connection of a client that went away"); vx_reach("aborted upload"); }

