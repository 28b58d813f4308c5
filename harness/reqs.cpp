// One request with arbitrary bytes in its method, path or X-Delete headers, on a store of three keys: judged against an independent
// reading of the request.
#define TABLES {"a", "b"}
#define KEYS {"x", "y"}
#include "model.h"
static int names(const uint8_t* p, int n, const char* s) { return (int)strlen(s) == n && eqn(p, s, n); }
static int upto(const uint8_t* p, int n, int at, int c) { while (at < n && p[at] != c) at++; return at; }
enum { BAD, NONE, G, HD, P, D, DT, B, GT };
struct Want { int kind; int head; int known; const uint8_t *t, *k; int tn, kn; };
static const char* const METH[] = {"GET", "HEAD", "PUT", "DELETE", "BULK", "PURGE", "ADMIN"};
static int starts(const uint8_t* p, const char* s) { return eqn(p, s, (int)strlen(s)); }
static int req_line;
static Want interpret(const uint8_t* p, int n) { // the request line
    Want w = {}; w.kind = BAD; int a = 0; while (a < n && (p[a] == '\r' || p[a] == '\n')) a++; int e = upto(p, n, a, ' '), m = -1; for (int i = 0; i < 7; i++) if (names(p + a, e - a, METH[i])) m = i; if (m < 0) return w; w.head = m == 1; w.known = 1;
    int u = e + 1, q = upto(p, n, u, ' '), nl = upto(p, n, u, '\n'); if (nl < q || q >= n || p[u] != '/') { if (p[u] == '/') { w.t = p + u + 1; w.tn = upto(p, nl, u + 1, '/') - u - 1; } return w; }
    for (int i = q; i < req_line; i++) vx_assume(p[i] != '\n'); // the rest of the line is the version
    int s = upto(p, q, u + 1, '/'); w.t = p + u + 1; w.tn = s - u - 1;
    if (s < q) { w.k = p + s + 1; w.kn = q - s - 1; w.kind = m == 0 ? G : m == 1 ? HD : m == 2 ? P : m == 3 ? D : BAD; if (w.kind == BAD) w.kind = m >= 4 ? NONE : BAD; }
    else w.kind = w.tn == 0 ? NONE : m == 0 ? GT : m == 3 ? DT : m == 4 || m == 5 ? B : NONE;
    return w; }
static uint8_t* v0[3]; static int N0; static Txt T;
static int tkof(const Want& w, int* t, int* k) { *t = *k = -1; for (int i = 0; i < NT; i++) if (names(w.t, w.tn, TN[i])) *t = i; if (w.k) for (int i = 0; i < NK; i++) if (names(w.k, w.kn, KN[i])) *k = i; return *t >= 0 && *k >= 0; }
static void script(void) {
    settle(); o_put(0, 0, 2); o_put(0, 1, 3); o_put(1, 0, 4); 
    int mode = (int)vx_param("mode", 0), len = (int)vx_param("len", 4), min = (int)vx_param("min", 1); uint8_t body[3]; vx_sym(body, 3, "body"); t0(&T); int n = min + (int)vx_choose(len - min + 1, "length"); static uint8_t wild[40]; vx_sym(wild, n, "wild"); for (int i = 0; i < n && vx_param("no_nul", 0); i++) vx_assume(wild[i] != 0);
    if (mode == 0) { static const char* const paths[] = {"/a/x", "/a", "/b/y"}; tb(&T, wild, n); ta(&T, " "); ta(&T, paths[vx_choose(3, "path")]); }
    else { ta(&T, METH[vx_param("admin", 0) ? 6 : vx_choose(7, "method")]); ta(&T, " "); if (mode == 2) ta(&T, "/"); if (mode == 3) ta(&T, "/a/"); if (mode == 4) ta(&T, "/a"); tb(&T, wild, n); if (mode == 5) ta(&T, "/x"); }
    ta(&T, " HTTP/1.1\r\n"); req_line = T.n - 2; ta(&T, "Content-Length: 3\r\n\r\n"); Want w = interpret((uint8_t*)T.b, T.n); if (w.kind == P) tb(&T, body, 3);
    // names that are not in the store: one byte free, the others fixed (a hash of several free bytes is out of the solver's reach)
    if (w.known && w.t && !(vx_param("admin", 0) && !w.k)) { int t, k, q = 0; tkof(w, &t, &k); if (t < 0) for (int i = 0; i < w.tn; i++) if (vx_is_sym(w.t[i]) && q++) vx_assume(w.t[i] == 'q'); if (w.k && k < 0) for (int i = 0; i < w.kn; i++) if (vx_is_sym(w.k[i]) && q++) vx_assume(w.k[i] == 'q'); if (w.kind == P && !(t >= 0 && k >= 0) && n > 2) for (int i = 0; i < n; i++) if (vx_is_sym(wild[i])) { uint8_t b = wild[i]; vx_assume((b == 0) | (b == '/') | (b == ' ') | (b == 'q') | (b == 0xff) | (b == 'P') | (b == 'U') | (b == 'T') | (b == '\r') | (b == '\n') | (b == 'x') | (b == 'a') | (b == 'b') | (b == 'y')); } if (w.kind == P && !(t >= 0 && k >= 0)) for (int i = 0; i < T.n - 3; i++) T.b[i] = (char)vx_concretize((uint8_t)T.b[i]); }
    int c = cl_connect(PORT_CACHE); cl_send(c, T.b, T.n); settle();
    int t, k; tkof(w, &t, &k); Resp r; int more = 0; if (w.kind == GT && t >= 0) { vx_check(hx_pre(W.s[c].out, unread(c), "HTTP/1.1 200 OK\r\n"), "listing of a stored table answers 200"); vx_reach("listing"); } else { r = take(c, w.head); vx_check(r.ok == 1 || (w.kind == BAD && r.ok == 0 && unread(c) == 0), "every request is answered by one complete message"); }
    switch (w.kind) {
    case BAD: vx_check(r.ok == 0 || r.status >= 400, "other methods and malformed requests are refused"); vx_reach("refused"); break;
    case NONE: if (!w.k && names(w.t, w.tn, "gc") && req_line > 5 && starts((uint8_t*)T.b, "ADMIN ")) { for (int i = 0; i < NT; i++) for (int j = 0; j < NK; j++) if (vx_param("limit", 0)) m_del(i, j); M->slack += 3; vx_reach("clean-up"); } vx_reach("no effect"); break;
    case G: if (t >= 0 && k >= 0 && !(t == 1 && k == 1)) { vx_check(got(r, mv(t, k)->v, mv(t, k)->size), "GET answers the value it names"); M->gets++; vx_reach("get"); } else { vx_check(is404(r), "GET of an unknown name answers 404"); vx_reach("get nothing"); } break;
    case HD: if (t >= 0 && k >= 0 && !(t == 1 && k == 1)) { vx_check(is200(r) && r.clen == mv(t, k)->size, "HEAD answers for the value it names"); M->gets++; } else vx_check(is404(r), "HEAD of an unknown name answers 404"); break;
    case P: vx_check(is200(r), "PUT answers 200"); if (t >= 0 && k >= 0) { MVal* e = mv(t, k); e->live = 1; e->size = 3; e->v = body; vx_reach("put"); } else { more = 3; vx_reach("put other name"); } M->inserts++; break;
    case D: if (t >= 0 && k >= 0 && !(t == 1 && k == 1)) { vx_check(is200(r), "DELETE answers 200"); m_del(t, k); M->deletes++; vx_reach("delete"); } else vx_check(is404(r), "DELETE of an unknown name answers 404"); break;
    case DT: if (t >= 0) { vx_check(is200(r), "DELETE of a table answers 200"); m_del(t, 0); m_del(t, 1); vx_reach("delete table"); } else vx_check(is404(r), "DELETE of an unknown table answers 404"); break;
    case B: vx_check(is200(r), "BULK without X-Delete answers 200"); vx_reach("bulk"); break;
    case GT: if (t < 0) vx_check(is404(r), "listing of an unknown table answers 404"); break; }
    cl_close(c); settle();
    if (more) { // the new name can be read back, and the other contents are as before
        Txt x; t0(&x); ta(&x, "GET /"); tb(&x, w.t, w.tn); ta(&x, "/"); tb(&x, w.k, w.kn); ta(&x, " HTTP/1.1\r\n\r\n"); int c2 = cl_connect(PORT_CACHE); cl_send(c2, x.b, x.n); settle(); Resp g = take(c2); vx_check(got(g, body, 3), "the value can be fetched by the name it was stored under"); M->gets++; cl_close(c2); settle();
        Stats s = o_stats(); vx_check(s.keys == 4 && s.size == 12, "exactly one key was added"); }
    for (int t = 0; t < NT; t++) for (int k = 0; k < NK; k++) if (!more || mv(t, k)->live) o_get(t, k);
    if (!more) m_check_stats(1);
    if (MC >= 0) { cl_close(MC); settle(); } vx_reach("end"); }
static void proc(void*) { w_init_proc(); ServerCfg cfg = {"/db/", (uint64_t)vx_param("limit", 0), 100}; server_with(script, cfg); vx_check(W.bad_close == 0, "no descriptor is closed twice"); }
extern "C" void vx_main(void) { w_init_fs(); m_init(); vx_proc_run(proc, nullptr); vx_reach("done"); }
