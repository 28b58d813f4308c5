// Many keys of all kinds (in blocks and in files, with and without X-Ttl, short and long names) in several tables.
//  mode 2: the server starts over a block file of some length that no index belongs to;  mode 0: they survive restarts, before and after changes to many of them;  mode 1: eviction of some of them, with any size limit.
#include "hx.h"
enum { NB = 80, NM = 9, BIGV = 5000 }; static int N, M_, mode, C1; static uint8_t sb; static uint64_t maxsz; static int clr;
struct St { int ver[NB], live[NB], sz[NB]; int64_t ex[NB], used[NB]; int64_t clock; int phase, next; }; static St* S;
static char pb[200]; static const char* kn(int i, char* o) { int n = sprintf(o, "k%d", i); if (i % 5 == 0) { for (; n < 60 + i; n++) o[n] = (char)('a' + (n + i) % 26); o[n] = 0; } return o; }
static const char* kp(int i) { static char k[160]; kn(i, k); sprintf(pb, "/t%d/%s", i % M_, k); return pb; }
static int conn(void) { if (C1 < 0 || !cl_open(C1)) { if (C1 >= 0) W.s[C1].used = 0; C1 = cl_connect(PORT_CACHE); settle(); } if (W.s[C1].out_pos > 8000) W.s[C1].out_pos = W.s[C1].out_len = 0; return C1; }
static uint8_t vb[BIGV]; static const uint8_t* val(int i) { int n = S->sz[i]; for (int j = 0; j < n; j++) vb[j] = (uint8_t)(i * 31 + S->ver[i] * 17 + j * 7 + (j >> 8)); vb[0] ^= sb; vb[n - 1] ^= (uint8_t)(sb * 2); return vb; }
static void o_put(int i) { static const int SZ[] = {3, 4096, 4097, 1, 4095, 5000, 30}; S->ver[i]++; S->sz[i] = SZ[(i + S->ver[i]) % 7]; int64_t ttl = mode ? 0 : i % 4 == 1 ? 100 : i % 4 == 3 ? 5000 : 0; S->ex[i] = ttl ? FS->now_sec + ttl : 0; S->live[i] = 1; S->used[i] = ++S->clock; vx_check(is200(put(conn(), kp(i), val(i), S->sz[i], ttl)), "PUT answers 200"); }
static void o_del(int i) { Resp r = simple(conn(), "DELETE", kp(i)); vx_check(S->live[i] ? is200(r) : r.ok == 1, "DELETE is answered"); S->live[i] = 0; }
static void o_delt(int t) { static char p[16]; sprintf(p, "/t%d", t); simple(conn(), "DELETE", p); for (int i = t; i < N; i += M_) S->live[i] = 0; }
static void lapse(void) { for (int i = 0; i < N; i++) if (S->ex[i] && S->ex[i] < FS->now_sec) S->live[i] = 0; }
static void list(int t) {
    static char p[40]; static uint8_t seen[NB]; sprintf(p, "GET /t%d HTTP/1.1\r\n\r\n", t); memset(seen, 0, sizeof seen); int want = 0; for (int i = t; i < N; i += M_) want += S->live[i]; int c = conn(); cl_puts(c, p); settle(); 
    if (!want) { Resp r = take(c); vx_check(is404(r), "a table without keys answers 404"); return; }
    vx_check(!cl_open(c), "a listing ends by closing the connection"); const uint8_t* q = W.s[c].out + W.s[c].out_pos; int len = W.s[c].out_len - W.s[c].out_pos, pos = 0, body = 0, n = 0;
    for (;;) { int e = hx_line(q + pos, len - pos); if (e < 0) break; if (body) { int i = -1; for (int j = t; j < N && i < 0; j += M_) { static char k[160]; int l = (int)strlen(kn(j, k)); if (l == e && eqn(q + pos, k, l)) i = j; } if (i < 0 || !S->live[i] || seen[i]) { vx_check(0, "the listing names stored keys, once"); return; } seen[i] = 1; n++; } else if (e == 0) body = 1; pos += e + 2; }
    vx_check(pos == len && body && n == want, "the listing names every key"); }
static int64_t num(const Resp& r, const char* nm, int second = 0) { int l = (int)strlen(nm); for (int i = 0; i + l < r.body_len; i++) if (eqn(r.body + i, nm, l)) { int j = i + l; if (second) { while (r.body[j] != '/') j++; j++; } int64_t v = 0; for (; j < r.body_len && r.body[j] >= '0' && r.body[j] <= '9'; j++) v = v * 10 + r.body[j] - '0'; return v; } return -1; }
static int64_t total(void) { int64_t s = 0; for (int i = 0; i < N; i++) if (S->live[i]) s += S->sz[i]; return s; }
static void totals(void) { int n = 0, f = 0, b = 0; for (int i = 0; i < N; i++) if (S->live[i]) { n++; if (S->sz[i] > 4096) f++; else b++; }
    Resp r = get(conn(), "/"); vx_check(is200(r), "statistics"); vx_check(num(r, "DB Keys: ") == n, "the number of keys is that of the stored keys"); vx_check(num(r, "DB Size Bytes: ") == total(), "the size is that of the stored values"); vx_check(num(r, "DB Blocks Free: ", 1) - num(r, "DB Blocks Free: ") == b, "blocks in use are those of the stored values"); vx_check(mode == 2 || w_value_files() == f, "value files are those of the stored values"); vx_check(w_size("/db/blockfile.db") >= num(r, "DB Blocks Free: ", 1) * 4096, "the block file is long enough"); }
static void check(void) {
    for (int i = 0; i < N; i++) { Resp r = get(conn(), kp(i)); if (S->live[i]) { vx_check(got(r, val(i), S->sz[i]), "GET returns exactly the stored value"); vx_check(S->ex[i] ? r.has_ttl && r.ttl >= 0 && r.ttl <= S->ex[i] - FS->now_sec && r.ttl >= S->ex[i] - FS->now_sec - 1 : !r.has_ttl || r.ttl == 0, "with the remaining time of its expiry"); } else vx_check(is404(r), "a key that is not stored answers 404"); }
    for (int t = 0; t < M_; t++) list(t); totals(); }
static void remove_some(int p) { if (p == 1) for (int i = 0; i < N; i += 3) o_del(i); if (p == 2) for (int i = 0; i < N / 2; i++) o_del(i); if (p == 3) { o_delt(0); o_delt(M_ - 2); } if (p == 4) for (int i = N - 1; i >= 2; i--) o_del(i); }
static void restarts(void) {
    S->next = 0;
    if (S->phase == 0) { for (int i = 0; i < N; i++) o_put(i); remove_some((int)vx_choose(5, "removed before")); }
    else { check(); vx_reach("restarted"); if (S->phase == 2) { for (int t = 0; t < M_; t++) o_delt(t); totals(); if (vx_choose(2, "stored anew")) { for (int i = N - 1; i >= 0; i--) o_put(i); check(); } vx_reach("end"); return; }
        int c = (int)vx_choose(4, "then"); if (c == 1) { for (int i = 0; i < N; i += 4) o_put(i); for (int i = 0; i < N; i++) if (!S->live[i]) o_put(i); } if (c == 2) { o_delt(1); for (int i = 1 + M_; i < N; i += 2 * M_) o_put(i); } if (c == 3) { for (int i = 1; i < N; i += 2) o_del(i); for (int i = 0; i < N; i += 6) o_put(i); } }
    int how = (int)vx_choose(3, "stop"); if (how == 1) { vx_check(simple(conn(), "ADMIN", "/gc").ok == 1, "ADMIN is answered"); vx_reach("index saved"); } if (how == 2) { w_advance(150); lapse(); vx_reach("expired"); }
    if (S->phase && !how) check(); S->next = 1; }
static void evict(void) {
    for (int i = 0; i < N; i++) o_put(i); int what = (int)vx_choose(5, "touch"), st = 7, cnt = vx_choose(2, "how many") ? N : N / 3; for (int j = 0; j < cnt && what; j++) { int i = (j * st + 2) % N; if (!S->live[i]) continue; Resp r; switch (what) { case 1: r = get(conn(), kp(i)); vx_check(got(r, val(i), S->sz[i]), "GET returns exactly the stored value"); S->used[i] = ++S->clock; break; case 2: r = simple(conn(), "HEAD", kp(i)); S->used[i] = ++S->clock; break; case 3: o_put(i); break; case 4: if (i % 3 == 0) o_del(i); else { r = get(conn(), kp(i)); S->used[i] = ++S->clock; } break; } }
    int64_t sum = total(); vx_check(simple(conn(), "ADMIN", "/gc").ok == 1, "ADMIN is answered"); static int there[NB]; int64_t gone = 0, last = 0, lu = 0, first = 1ll << 40; int removed = 0, left = 0;
    for (int i = 0; i < N; i++) { Resp r = simple(conn(), "HEAD", kp(i)); there[i] = r.status == 200; vx_check(is404(r) || (is200(r) && S->live[i] && r.clen == S->sz[i]), "HEAD answers for the stored value or says it is gone"); if (!S->live[i]) continue; if (!there[i]) { removed++; gone += S->sz[i]; if (S->used[i] > lu) { lu = S->used[i]; last = S->sz[i]; } } else { left++; if (S->used[i] < first) first = S->used[i]; } }
    vx_check(!removed || !left || lu < first, "what is evicted was used less recently than everything kept"); static const int CN[] = {0, 20, 50, 100};
    if ((uint64_t)sum <= maxsz) vx_check(removed == 0, "nothing is evicted below the limit"); else { int64_t need = sum - (int64_t)maxsz + (int64_t)(maxsz * CN[clr] / 100); vx_check(sum - gone <= (int64_t)maxsz, "after the clean-up the stored size is within the limit"); vx_check(left == 0 || gone >= need - 1, "the clean-up frees the configured share"); vx_check(removed == 0 || gone - last < need + 1, "no more is evicted than needed"); vx_reach("evicted"); }
    for (int i = 0; i < N; i++) if (!there[i]) S->live[i] = 0; check(); for (int t = 0; t < M_; t++) o_delt(t); totals(); vx_reach("end"); }
static int64_t left_over;
static void leftover(void) {
    if (S->phase == 0) { for (int i = 0; i < N; i++) o_put(i); vx_proc_exit(40); }
    for (int i = 0; i < N; i++) S->live[i] = 0; totals(); Resp r = get(conn(), "/"); int64_t f = num(r, "DB Blocks Free: "), t = num(r, "DB Blocks Free: ", 1); vx_check(f == t && t <= left_over / 4096, "every block is free"); vx_check(w_size("/db/blockfile.db") % 4096 == 0, "the block file consists of blocks");
    int all = (int)vx_choose(2, "removed"); for (int i = 0; i < N; i++) o_put(i); check(); if (all) { for (int i = 0; i < N; i++) o_del(i); } else for (int i = 0; i < N; i += 2) o_del(i); totals(); for (int i = N - 1; i >= 0; i--) o_put(i); check(); for (int t = 0; t < M_; t++) o_delt(t); totals(); vx_reach("end"); }
static void script(void) { C1 = -1; settle(); if (mode == 2) leftover(); else if (mode) evict(); else restarts(); if (C1 >= 0 && cl_open(C1)) cl_close(C1); settle(); }
static void proc(void*) { w_init_proc(); W.maxout = 60000; ServerCfg c = {"/db/", 0, 20}; if (mode == 1) { static const int CN[] = {0, 20, 50, 100}; c.max_size = maxsz = vx_range(1, 250000, "size limit"); clr = (int)vx_choose(4, "clear share"); c.clear_percent = CN[clr]; } server_with(script, c); vx_check(W.bad_close == 0 && W.bad_fd == 0, "no closed descriptor is used"); vx_check(w_open_kind(WF_SOCK) + w_open_kind(WF_LISTEN) + w_open_kind(WF_EPOLL) + w_open_kind(WF_EVENT) == 0, "stopping closes every socket"); if (S->next) vx_proc_exit(40); }
extern "C" void vx_main(void) { w_init_fs(); S = (St*)vx_shared_alloc(sizeof(St)); memset(S, 0, sizeof *S); N = (int)vx_param("keys", 60); M_ = (int)vx_param("tables", 7); mode = (int)vx_param("mode", 0); vx_sym(&sb, 1, "byte"); while (vx_proc_run(proc, nullptr) == 40) { S->phase++; if (mode == 2) { static const int64_t L[] = {0, 1, 4095, 4096, 4097, 12305, 40 * 4096, 8191 * 4096, 8192 * 4096 - 1, 8192 * 4096, 8192 * 4096 + 1, 8193 * 4096, 20000 * 4096}; left_over = FS->ino[w_inode_of("/db/blockfile.db")].size = L[vx_choose(13, "length")]; } } vx_reach("done"); }
