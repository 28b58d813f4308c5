// The server's main() started with option texts that contain arbitrary bytes; what it binds, where it stores, what it keeps.
#include "hx.h"
#include <stdlib.h>
#include <fcntl.h>
#include <arpa/inet.h>
extern "C" { int w_open(const char*, int, ...); ssize_t w_write(int, const void*, size_t); int w_close(int); }
struct Ent { int af; uint8_t addr[16]; const char* path; int plen; unsigned port; int transp; };
static Ent X[2][8]; static int nx[2]; struct Shd { int served, ended, changed; }; static Shd* SH;
// the documented syntax, entry by entry: addr:port[t], [addr6]:port[t], :port[t], u:path, separated by commas
static int parse(const char* s, Ent* e, int* n) {
    static char b[200]; *n = 0; int p = 0;
    for (;;) {
        Ent* x = &e[*n]; memset(x, 0, sizeof *x); int q = p;
        if (s[p] == '[') { while (s[q] && s[q] != ',' && s[q] != ']') q++; if (s[q] != ']' || s[q + 1] != ':') return 0; memcpy(b, s + p + 1, q - p - 1); b[q - p - 1] = 0; x->af = 10; if (inet_pton(AF_INET6, b, x->addr) != 1) return 0; q++; }
        else if (s[p] == 'u' && s[p + 1] == ':') { q = p + 2; while (s[q] && s[q] != ',') q++; x->af = 1; x->path = s + p + 2; x->plen = q - p - 2; if (x->plen < 1 || x->plen > 107) return 0; }
        else { while (s[q] && s[q] != ',' && s[q] != ':') q++; if (s[q] != ':') return 0; x->af = 2; if (q > p) { memcpy(b, s + p, q - p); b[q - p] = 0; if (inet_pton(AF_INET, b, x->addr) != 1) return 0; } }
        if (x->af != 1) { q++; int d = 0; unsigned v = 0; while (s[q] >= '0' && s[q] <= '9') { v = v * 10 + (unsigned)(s[q] - '0'); if (v > 65535) return 0; d++; q++; } if (!d) return 0; x->port = v; if (s[q] == 't') { x->transp = 1; q++; } }
        (*n)++; if (!s[q]) return 1; if (s[q] != ',') return 0; p = q + 1; } }
static void same(const Ent* x, const WBind* b) {
    int fam = b->sa[0] | b->sa[1] << 8; vx_check(b->af == x->af && fam == x->af, "the socket has the family that was written"); vx_check(b->listening, "the socket listens"); 
    if (x->af == 1) { vx_check(b->len >= 2 + x->plen + (x->plen < 108) && eqn(b->sa + 2, x->path, x->plen) && b->sa[2 + x->plen] == 0, "the unix socket has the path that was written"); return; }
    vx_check((b->sa[2] << 8 | b->sa[3]) == (int)x->port, "the port is the one written"); vx_check(!!b->transparent == x->transp, "the transparent flag is the one written");
    if (x->af == 2) vx_check(b->len == 16 && eqn(b->sa + 4, x->addr, 4), "the IPv4 address is the one written"); else { uint8_t z[4] = {0}; vx_check(b->len == 28 && eqn(b->sa + 8, x->addr, 16) && eqn(b->sa + 4, z, 4) && eqn(b->sa + 24, z, 4), "the IPv6 address is the one written"); } vx_reach(x->af == 2 ? "ipv4" : "ipv6"); }
static const char* dbpath; static const char* pidtext; static int keeppid; static int64_t limit = -1;
static void shares(void); static int share = -1;
static void script(void) {
    settle(); SH->served = 1; vx_reach("serving");
    vx_check(W.nb == nx[0] + nx[1], "one socket per address written"); for (int w = 0; w < 2; w++) for (int i = 0; i < nx[w] && i + w * nx[0] < W.nb; i++) { same(&X[w][i], &W.b[i + w * nx[0]]); if (X[w][i].af == 1) vx_reach("unix"); if (X[w][i].transp) vx_reach("transparent"); }
    if (share >= 0) { shares(); vx_reach("end"); return; }
    if (nx[0]) { int c = cl_connect(vx_param("last", 0) ? nx[0] : 1); settle(); uint8_t v[3] = {1, 2, 3}; vx_check(is200(put(c, "/a/x", v, 3)), "the cache address takes a PUT"); vx_check(got(get(c, "/a/x"), v, 3), "and serves it"); 
        if (dbpath) { char f[80]; sprintf(f, "%sblockfile.db", dbpath); vx_check(w_exists(f), "the data is stored below the configured path"); }
        if (limit >= 0) { uint8_t z[100] = {0}; for (int i = 0; i < 3; i++) { char p[8]; sprintf(p, "/a/k%d", i); vx_check(is200(put(c, p, z, 50 + 20 * i)), "PUT"); } vx_check(simple(c, "ADMIN", "/gc").ok == 1, "ADMIN is answered"); int64_t total = 3 + 50 + 70 + 90; int gone = is404(get(c, "/a/x")); vx_check(gone == (limit > 0 && total > limit), "the size limit is the number written"); vx_reach(gone ? "limited" : "not limited"); }
        cl_close(c); settle(); }
    if (pidtext) { char t[16]; int n = w_peek(pidtext, 0, t, 16); vx_check(n == 5 && eqn(t, "4242\n", 5), "the pid file names the process"); vx_reach("pid file"); }
    if (nx[1]) { int c = cl_connect(nx[0] + nx[1]); settle(); Resp r = req(c, "HEAD / HTTP/1.1\r\n\r\n"); vx_check(is200(r), "the monitoring address answers"); cl_close(c); settle(); } vx_reach("end"); }
static const int SN[] = {0, 0, 5, 12, 33, 50, 99, 100}; static const char* SHARE[] = {"0", "0.4", "5", "12.5", "33", "50", "99", "100"};
static void shares(void) { // 10 keys of 100 bytes, limit 990: how many go
    int c = cl_connect(PORT_CACHE - 79); settle(); uint8_t z[100] = {0}; for (int i = 0; i < 10; i++) { char p[8]; sprintf(p, "/a/k%d", i); vx_check(is200(put(c, p, z, 100)), "PUT"); } vx_check(simple(c, "ADMIN", "/gc").ok == 1, "ADMIN is answered"); int need = 10 + 990 * SN[share] / 100 + (share == 3 ? 5 : 0), gone = 0; for (int i = 0; i < 10; i++) { char p[8]; sprintf(p, "/a/k%d", i); gone += is404(get(c, p)); } vx_check(gone == (need + 99) / 100, "the share freed is the number written"); vx_reach("share"); cl_close(c); settle(); }
static const char* A[14]; static int na;
// ---- the PID file: a server in the foreground or the background, an old or foreign file, failing writes, a second server
static int pidv; static int dmode, pidn, oldn, other, noisy; static const int PIDS[] = {1, 42, 4242, 99999, 4194303}; static uint8_t old[24];
static int pid_is(int pid) { char t[32], want[16]; int n = w_peek(pidtext, 0, t, 32); sprintf(want, "%d", pid); int l = (int)strlen(want); return n >= l && eqn(t, want, l) && (n == l || (n == l + 1 && t[l] == '\n')); }
static void pid_script(void) {
    W.fault_arm = 0; settle(); SH->served = 1; vx_reach("serving"); vx_check(other == 0, "a second server with the PID file of a running one does not start"); vx_check(w_exists(pidtext) && pid_is(pidv), "the PID file names the serving process"); if (other != 1) vx_check(w_locked(pidtext) == 2, "the PID file is locked against other servers while the server runs");
    int c = cl_connect(1); settle(); uint8_t v[3] = {1, 2, 3}; vx_check(is200(put(c, "/a/x", v, 3)), "the server takes a PUT"); simple(c, "ADMIN", "/gc"); vx_check(got(get(c, "/a/x"), v, 3), "and serves it"); cl_close(c); settle(); vx_check(w_exists(pidtext) && pid_is(pidv) && w_locked(pidtext) == 2, "the PID file stays while the server runs"); vx_reach(dmode ? "background" : "foreground"); }
static void pid_proc(void*) {
    w_init_proc(); if (oldn >= 0) { int f = w_open(pidtext, O_CREAT | O_WRONLY | O_TRUNC, 0600); w_write(f, old, oldn); w_close(f); } if (other) w_foreign_lock(pidtext, 2);
    W.exit_ok = 1; W.port_ids = 1; W.tty = vx_choose(2, "terminal"); hx_fn = pid_script; hx_done = 0; W.nt = 2; hx_tid = vx_thread_create(hx_body, nullptr); if (dmode) { W.pid = 77; W.daemon_pid = pidv; } else W.pid = pidv;
    W.fault_mask = WOP_OPEN | WOP_WRITE | WOP_TRUNC | WOP_SHORT | WOP_FORK; if (vx_param("faults", 0)) { FS->fault_budget = 1; W.fault_arm = 1; }
    server_main(na, A); SH->ended = 1; vx_proc_exit(40); }
static void proc(void*) { w_init_proc(); W.exit_ok = 1; W.port_ids = 1; hx_fn = script; hx_done = 0; W.nt = 2; hx_tid = vx_thread_create(hx_body, nullptr); server_main(na, A); vx_proc_exit(40); }
static char text[140]; static int pos;
static void opt(char which, const char* name, const char* val) { static int f = -1; if (f < 0) f = vx_param("forms", 0) ? vx_choose(4, "form") : 0; char* b = (char*)vx_shared_alloc(strlen(name) + strlen(val) + 8); if (f == 0) { sprintf(b, "-%c", which); A[na++] = b; A[na++] = val; } else if (f == 1) { sprintf(b, "-%c%s", which, val); A[na++] = b; } else if (f == 2) { sprintf(b, "--%s", name); A[na++] = b; A[na++] = val; } else { sprintf(b, "--%s=%s", name, val); A[na++] = b; } }
static const char* TM[] = {"1.2.3.4:80", "10.0.255.1:8080t", "[::1]:443", "[fe80::12:0:3]:65535t", "u:/tmp/a.sock", ":1,:2", "127.0.0.1:80,[::]:81,u:/x", ":00080", ":65536", "[1:2:3:4:5:6:7:8]:1,1.1.1.1:2t", "[::ffff:1.2.3.4]:7", "u:a,u:b,:3", "1.2.3.4:5t,6.7.8.9:10", ":99999999999999999999"};
static void opt(char which, const char* name, const char* val);
static void pid_main(void) {
    pidtext = vx_choose(2, "long path") ? "/run/a/longer/name.of-a.file" : "/run/p"; dmode = vx_choose(2, "background"); pidn = vx_param("anypid", 0) ? 0 : vx_choose(5, "process number"); pidv = vx_param("anypid", 0) ? (int)vx_range(1, 4194304, "process number") : PIDS[pidn]; static const int ON[] = {-1, 0, 1, 8, 24}; oldn = ON[vx_choose(5, "old file")]; if (oldn > 0) vx_sym(old, oldn, "old contents"); other = oldn >= 0 ? vx_choose(2, "another server runs") : 0; keeppid = vx_choose(2, "leave");
    opt('b', "bind", "0.0.0.0:80"); opt('B', "monitor", "0.0.0.0:81"); opt('m', "make-pid", pidtext); opt('r', "database-file-path", "/db/"); if (keeppid) A[na++] = "--leave-pid"; if (dmode) A[na++] = vx_choose(2, "keep output") ? "-do" : "-d";
    int rc = vx_proc_run(pid_proc, nullptr); if (dmode) vx_check(rc == 0 || FS->faults_done || !SH->ended, "the starting process ends without error");
    if (other) { uint8_t t[32]; int n = w_peek(pidtext, 0, t, 32); vx_check(!SH->served && n == oldn && eqn(t, old, oldn), "a second server leaves the PID file of the running one as it is"); vx_check(!w_exists("/db/blockfile.db"), "and does not touch the stored data"); vx_reach("second server refused"); }
    else if (!SH->served) { vx_check(FS->faults_done, "the server starts"); vx_reach("start refused"); }
    else { vx_check(SH->ended, "the server stops in order"); vx_check(w_exists(pidtext) == keeppid, "the PID file is removed unless it is to be left"); vx_reach(keeppid ? "left" : "removed"); }
    vx_reach("end"); }
extern "C" void vx_main(void) {
    w_init_fs(); SH = (Shd*)vx_shared_alloc(sizeof *SH); A[na++] = "scache"; if (vx_param("mode", 0) == 8) { pid_main(); return; } int mode = (int)vx_param("mode", 0), ok = 1, lo = (int)vx_param("min", 0), hi = (int)vx_param("len", 4); const char *cb = "0.0.0.0:80", *mb = "0.0.0.0:81";
    if (mode <= 1) { // bind text: arbitrary bytes, or a template with some
        int n; if (mode == 0) { n = lo + vx_choose(hi - lo + 1, "length"); if (n) vx_sym(text, n, "bind text"); } else { const char* t = TM[vx_choose(sizeof TM / sizeof *TM, "template")]; n = (int)strlen(t); memcpy(text, t, n); int k = (int)vx_param("free", 1), at = vx_choose(n - k + 1, "place"); int ins = vx_param("insert", 0) ? vx_choose(2, "insert") : 0; if (ins) { memmove(text + at + 1, text + at, n - at); n++; } vx_sym(text + at, k, "bytes"); }
        for (int i = 0; i < n; i++) vx_assume(text[i] != 0); if (vx_param("monitor", 0)) mb = text; else cb = text; }
    if (mode == 2) { // every order and form of the options
        dbpath = vx_choose(2, "path given") ? "/data/x/" : nullptr; int pf = vx_choose(3, "pid file"); pidtext = pf ? "/run/p" : nullptr; keeppid = pf == 2; int first = vx_choose(2, "order");
        for (int i = 0; i < 2; i++) if (i == first) opt('b', "bind", cb); else opt('B', "monitor", mb); if (dbpath) opt('r', "database-file-path", dbpath); else dbpath = "/var/lib/scache/"; if (pf) opt('m', "make-pid", pidtext); if (keeppid) A[na++] = "--leave-pid"; if (vx_choose(2, "limit given")) { opt('s', "database-max-size", "100"); limit = 100; } if (vx_choose(2, "share given")) opt('l', "database-lru-clear", "50");
    } else if (mode == 3) { int n = 1 + vx_choose((int)vx_param("len", 3), "digits"); vx_sym(text, n, "size"); limit = 0; for (int i = 0; i < n; i++) { vx_assume(text[i] >= '0' && text[i] <= '9'); limit = limit * 10 + (text[i] - '0'); } opt('s', "database-max-size", text); opt('l', "database-lru-clear", "0"); opt('b', "bind", cb); opt('B', "monitor", mb); }
    else if (mode == 4) { // options that do not exist or lack their value
        static const char* BAD[] = {"-x", "--nope", "-b", "--bind", "-q1", "--leave-pid=1", "-", "--"}; opt('b', "bind", cb); opt('B', "monitor", mb); int k = vx_choose(8, "bad option"); A[na++] = BAD[k]; ok = k >= 6; }
    else if (mode == 5) { static const int L[] = {1, 2, 50, 105, 106, 107, 108, 109, 120}; int n = L[vx_choose(9, "path length")]; int two = vx_choose(2, "two"); text[0] = 'u'; text[1] = ':'; memset(text + 2, 'p', n); int at = vx_choose(2, "place") ? n - 1 : 0; vx_sym(text + 2 + at, 1, "byte"); vx_assume(text[2 + at] != 0); if (two) strcpy(text + 2 + n, ",:9"); cb = text; opt('b', "bind", cb); opt('B', "monitor", mb); }
    else if (mode == 6) { static const char* S[] = {"4294967396", "2147483648", "9223372036854775807", "00100", "18446744073709551", "212", "213"}; static const int64_t SV[] = {1 << 30, 1 << 30, 1 << 30, 100, 1 << 30, 212, 213}; int k = vx_choose(7, "size"); limit = SV[k]; opt('s', "database-max-size", S[k]); opt('b', "bind", cb); opt('B', "monitor", mb); }
    else if (mode == 7) { share = vx_choose(8, "share"); opt('s', "database-max-size", "990"); opt('l', "database-lru-clear", SHARE[share]); opt('b', "bind", cb); opt('B', "monitor", mb); }
    else { opt('b', "bind", cb); opt('B', "monitor", mb); }
    ok &= parse(cb, X[0], &nx[0]) && parse(mb, X[1], &nx[1]);
    int rc = vx_proc_run(proc, nullptr);
    if (ok) { vx_check(SH->served == 1, "correct options start the server"); vx_check(rc == 40, "and it stops in order"); if (pidtext) vx_check(w_exists(pidtext) == keeppid, "the pid file is removed unless it is to be left"); }
    else { vx_check(SH->served == 0 && rc != 0 && rc != 40, "malformed options are refused with an error and nothing is served"); vx_reach("refused"); } }
