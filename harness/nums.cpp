// Numeric headers: the digits are arbitrary bytes, the server must act on exactly the number written or refuse.
#include "hx.h"
static int mode, len, wrap, places; static uint8_t s[32]; static int ns; static int ok; static uint64_t v; // the value written (ok) 
static void reference(void) { int i = 0; while (i < ns && s[i] == ' ') i++; ok = i < ns; v = 0; int n = 0; uint32_t w = 0; for (; i < ns; i++) { unsigned d = (unsigned)s[i] - '0'; if (d > 9) { ok = 0; break; } if (n < 9) { w = w * 10 + d; v = w; } else if (v <= 0xffffffffffffull) v = v * 10 + d; if (n || v) n++; } if (ok && v > 2147483647) ok = 0; }
static const char* const TM[] = {"7", "10", "600", "86400", "1000000", "2147483647", "2147483640", "4294967297", "4294967301", "10000000000", "18446744073709551617", "00000000000000000005", "0000000000000000000000003"};
static void gen(const char* what) {
    if (vx_param("tmpl", 0)) { const char* t = TM[vx_choose(sizeof TM / sizeof *TM, "template")]; ns = (int)strlen(t); memcpy(s, t, ns); int at = vx_choose(ns, "position"); vx_sym(s + at, 1, what); vx_assume(s[at] != '\n'); vx_assume(s[at] != '\r'); if (mode == 1 && s[at] >= '0' && s[at] <= '9') s[at] = (uint8_t)vx_concretize(s[at]); return; }
    ns = (int)vx_param("min", 1) + vx_choose(len - (int)vx_param("min", 1) + 1, "length"); vx_sym(s, ns, what); for (int i = 0; i < ns; i++) { vx_assume(s[i] != '\n'); vx_assume(s[i] != '\r'); }
    if (vx_param("digits", 0)) for (int i = 0; i < ns; i++) vx_assume(s[i] >= '0' && s[i] <= '9');
    if (vx_param("zeros", 0)) for (int i = 0; i + 2 < ns; i++) vx_assume(s[i] == '0');
    if (vx_param("top", 0)) { static const char* big = "2147483"; for (int i = 0; i < ns && i < 7; i++) vx_assume(s[i] == (uint8_t)big[i]); } }
static const char* const PL[][2] = {{"", ""}, {"Host: h\r\n", ""}, {"", "Accept: */*\r\n"}, {"X-Other: 1:2\r\n", "A: b\r\n"}};
static void request(const char* line, const char* name) { Txt* t = &hx_t; t0(t); if (wrap) { int w = vx_choose(wrap, "position"); for (int i = 0; i < w; i++) ta(t, "\n"); } const char* const* p = PL[places ? vx_choose(4, "other headers") : 0]; ta(t, line); ta(t, p[0]); ta(t, name); if (vx_choose(2, "space")) ta(t, " "); tb(t, s, ns); ta(t, "\r\n"); ta(t, p[1]); ta(t, "\r\n"); }
static void script(void) {
    settle(); int c = cl_connect(PORT_CACHE), d = cl_connect(PORT_CACHE); settle();
    if (mode == 0) { gen("Content-Length"); request("PUT /t/k HTTP/1.1\r\n", "Content-Length:"); cl_send(c, hx_t.b, hx_t.n); settle(); reference();
        if (!ok || v == 0) { Resp r = take(c); vx_check(r.ok == 1 && r.status >= 400 && r.status < 600, "a Content-Length that is not a positive number is refused"); vx_check(is404(get(d, "/t/k")), "nothing is stored"); vx_reach("refused"); }
        else { uint8_t b[6]; vx_sym(b, 6, "value"); vx_check(unread(c) == 0 && cl_open(c), "no answer before the value has arrived"); 
            if (v <= 6) { int n = (int)vx_concretize(v); if (n > 1) { cl_send(c, b, n - 1); settle(); vx_check(unread(c) == 0, "no answer before the whole value has arrived"); vx_check(is404(get(d, "/t/k")), "a partial value is not visible"); } cl_send(c, b + n - 1, 1); settle(); vx_check(is200(take(c)), "the value is stored once all of it has arrived"); vx_check(got(get(d, "/t/k"), b, n), "the stored value has the length written"); vx_reach("stored"); }
            else { cl_send(c, b, 6); settle(); vx_check(unread(c) == 0 && cl_open(c), "no answer before the whole value has arrived"); vx_check(is404(get(d, "/t/k")), "a partial value is not visible"); vx_reach("large"); } } }
    else if (mode == 1) { gen("X-Ttl"); request("PUT /t/k HTTP/1.1\r\nContent-Length: 2\r\n", "X-Ttl:"); tb(&hx_t, "ab", 2); cl_send(c, hx_t.b, hx_t.n); settle(); reference(); Resp r = take(c);
        if (!ok) { vx_check(r.ok == 1 && r.status >= 400 && r.status < 600, "an X-Ttl that is not a number is refused"); vx_check(is404(get(d, "/t/k")), "nothing is stored"); vx_reach("refused"); }
        else { vx_check(is200(r), "the value is stored"); r = get(d, "/t/k"); vx_check(got(r, "ab", 2), "the value is returned"); if (v) { vx_check(r.has_ttl && (uint64_t)r.ttl == v, "the time to live is the number written"); vx_reach("ttl"); } else { vx_check(!r.has_ttl || r.ttl <= 0, "no time to live for 0"); vx_reach("no ttl"); }
            if (v && v <= 3) { w_advance((int64_t)v + 1); vx_check(is404(get(d, "/t/k")), "expired at the time written"); } else if (v) { w_advance(3); vx_check(is200(get(d, "/t/k")), "not expired before"); } } }
    else { int lim = mode == 3; for (int i = 0; i < 3; i++) { char p[8] = "/t/0"; p[3] = (char)('0' + i); put(d, p, "q", 1); } gen(lim ? "X-Limit" : "X-Start"); request("GET /t HTTP/1.1\r\n", lim ? "X-Limit:" : "X-Start:"); cl_send(c, hx_t.b, hx_t.n); settle(); reference();
        const uint8_t* o = W.s[c].out + W.s[c].out_pos; int n = unread(c); vx_check(n > 12, "answered");
        if (!ok) { Resp r = take(c); vx_check(r.ok == 1 && r.status >= 400 && r.status < 600, "a number that can not be used is refused"); vx_reach("refused"); }
        else { vx_check(hx_pre(o, n, "HTTP/1.1 200"), "the listing is answered"); int lines = 0, body = 0, pos = 0; for (;;) { int e = hx_line(o + pos, n - pos); if (e < 0) break; if (body) lines++; else if (e == 0) body = 1; pos += e + 2; } uint64_t want = lim ? (v < 3 ? v : 3) : (v < 3 ? 3 - v : 0); vx_check((uint64_t)lines == want, "the listing has the lines asked for"); vx_reach("listing"); } }
    vx_check(is200(get(d, "/")), "other clients are served"); vx_reach("end"); }
static void proc(void*) { w_init_proc(); server_with(script, DEFCFG); }
extern "C" void vx_main(void) { w_init_fs(); mode = (int)vx_param("mode", 0); len = (int)vx_param("len", 4); wrap = (int)vx_param("wrap", 0); places = (int)vx_param("places", 0); vx_proc_run(proc, nullptr); vx_reach("done"); }
