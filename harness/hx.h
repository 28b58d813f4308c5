// Harness kit: a linear client script that runs whenever the server is idle, and a reader of what the server answered.
#pragma once
#include "world.h"
#include <string.h>
#include <stdio.h>
static void (*hx_fn)(void); static int hx_tid, hx_back, hx_done, hx_made;
static void hx_body(void*) { for (;;) { hx_fn(); hx_done = 1; vx_thread_switch(hx_back); } }
extern "C" int hx_idle(void) { if (hx_done || !hx_fn) return 0; hx_back = vx_thread_self(); vx_thread_switch(hx_tid); return !hx_done; }
static void settle(void) { vx_thread_switch(hx_back); }
// run one server process with the given script
static void server_with(void (*script)(void), const ServerCfg& c) {
    hx_fn = script; hx_done = 0; W.nt = 2; hx_tid = vx_thread_create(hx_body, nullptr); server_run(c);
}
static const ServerCfg DEFCFG = {"/db/", 0, 20};
static int eqn(const void* a, const void* b, int n) { const uint8_t *x = (const uint8_t*)a, *y = (const uint8_t*)b; uint8_t r = 0; for (int i = 0; i < n; i++) r |= x[i] ^ y[i]; return r == 0; }
struct Resp { int ok;          // 1 complete message, 0 not (yet) complete, -1 malformed
    int status; int64_t clen; int has_clen; int64_t ttl; int has_ttl; int close; const uint8_t* body; int hdr_len; int body_len; int total; };
static int hx_line(const uint8_t* p, int n) { for (int i = 0; i + 1 < n; i++) if (p[i] == '\r' && p[i + 1] == '\n') return i; return -1; }
static int hx_pre(const uint8_t* p, int n, const char* s) { int l = (int)strlen(s); return n >= l && eqn(p, s, l); }
static int64_t hx_num(const uint8_t* p, int n) { int64_t v = 0; int neg = 0, i = 0; if (n && p[0] == '-') { neg = 1; i = 1; } if (i == n) return -777; for (; i < n; i++) { unsigned d = p[i] - '0'; if (d > 9) return -777; v = v * 10 + d; } return neg ? -v : v; }
static void hx_parse(const uint8_t* p, int n, int head, Resp* r) {
    memset(r, 0, sizeof *r); r->clen = -1; r->ttl = -1; int pos = 0, first = 1;
    for (;;) {
        int l = hx_line(p + pos, n - pos); if (l < 0) { r->ok = 0; return; }
        if (first) { if (!hx_pre(p + pos, l, "HTTP/1.1 ") || l < 13) { r->ok = -1; return; } r->status = (int)hx_num(p + pos + 9, 3); if (p[pos + 12] != ' ') { r->ok = -1; return; } first = 0; }
        else if (l == 0) { pos += 2; break; }
        else { 
            if (hx_pre(p + pos, l, "Content-Length: ")) { if (r->has_clen) { r->ok = -1; return; } r->has_clen = 1; r->clen = hx_num(p + pos + 16, l - 16); }
            else if (hx_pre(p + pos, l, "X-Ttl: ")) { r->has_ttl = 1; r->ttl = hx_num(p + pos + 7, l - 7); }
            else if (hx_pre(p + pos, l, "Connection: ")) r->close = hx_pre(p + pos + 12, l - 12, "Close");
            int colon = 0; for (int i = 0; i < l; i++) if (p[pos + i] == ':') colon = 1; if (!colon) { r->ok = -1; return; } }
        pos += l + 2;
    }
    r->hdr_len = pos; r->body = p + pos; int64_t want = r->has_clen && !head ? r->clen : 0; if (want < 0 || want > 1 << 28) { r->ok = -1; return; }
    if (pos + want > n) { r->ok = 0; r->body_len = n - pos; return; } r->body_len = (int)want; r->total = pos + (int)want; r->ok = 1;
}
// next response on a connection; consumed when complete
static Resp take(int c, int head = 0) { Resp r; WSock* s = &W.s[c]; hx_parse(s->out + s->out_pos, s->out_len - s->out_pos, head, &r); if (r.ok == 1) s->out_pos += r.total; return r; }
static int unread(int c) { return W.s[c].out_len - W.s[c].out_pos; }
static Resp req(int c, const char* text) { cl_puts(c, text); settle(); return take(c, text[0] == 'H'); }
// request text builder
#ifndef VX_BIG             // the largest value used
#define VX_BIG 17000
#endif
struct Txt { char b[VX_BIG + 1000]; int n; };
static void t0(Txt* t) { t->n = 0; }
static void ta(Txt* t, const char* s) { int l = (int)strlen(s); memcpy(t->b + t->n, s, l); t->n += l; }
static void tb(Txt* t, const void* p, int n) { memcpy(t->b + t->n, p, n); t->n += n; }
static void tn(Txt* t, uint64_t v) { char d[24]; int k = 0; do { d[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) t->b[t->n++] = d[--k]; }
static Txt hx_t;
static void send_put(int c, const char* path, const void* body, int n, int64_t ttl = 0) { Txt* t = &hx_t; t0(t); ta(t, "PUT "); ta(t, path); ta(t, " HTTP/1.1\r\nContent-Length: "); tn(t, n); if (ttl) { ta(t, "\r\nX-Ttl: "); tn(t, ttl); } ta(t, "\r\n\r\n"); tb(t, body, n); cl_send(c, t->b, t->n); }
static Resp put(int c, const char* path, const void* body, int n, int64_t ttl = 0) { send_put(c, path, body, n, ttl); settle(); return take(c); }
static Resp simple(int c, const char* method, const char* path, const char* hdr = "") { Txt* t = &hx_t; t0(t); ta(t, method); ta(t, " "); ta(t, path); ta(t, " HTTP/1.1\r\n"); ta(t, hdr); ta(t, "\r\n"); cl_send(c, t->b, t->n); settle(); return take(c, method[0] == 'H'); }
static Resp get(int c, const char* path) { return simple(c, "GET", path); }
static int is200(const Resp& r) { return r.ok == 1 && r.status == 200; }
static int is404(const Resp& r) { return r.ok == 1 && r.status == 404; }
// a GET answers 200 with exactly these bytes
static int got(const Resp& r, const void* v, int n) { return r.ok == 1 && r.status == 200 && r.has_clen && r.clen == n && r.body_len == n && eqn(r.body, v, n); }
