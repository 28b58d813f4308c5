// Conversations: every kind of request, alone and pipelined; '\1' stands for an arbitrary body byte.
#pragma once
#include "hx.h"
struct Conv { const char* text; const char* kinds; };   // one letter per request: G message, H answer without body, L listing, C answered and closed
static const Conv CONV[] = {
    {"GET /t/k HTTP/1.1\r\nHost: h\r\n\r\n", "G"},
    {"GET /t/nope HTTP/1.1\r\nX-Ttl: 4\r\n\r\n", "G"},
    {"HEAD /t/k HTTP/1.1\r\n\r\n", "H"},
    {"HEAD /t/nope HTTP/1.1\r\n\r\n", "H"},
    {"GET /t/big HTTP/1.0\n\n", "G"},
    {"PUT /t/n HTTP/1.1\r\nX-Ttl: 77\r\nContent-Length: 5\r\n\r\n\1\1\1\1\1", "G"},
    {"PUT /t/k HTTP/1.1\r\nHost: x:1\r\nContent-Length: 2\r\n\r\n\1\1", "G"},
    {"PUT /n/k HTTP/1.1\nContent-Length: 1\n\n\1", "G"},
    {"PUT /t/n HTTP/1.1\r\nHost: x\r\n\r\n", "C"},
    {"PUT /t/n HTTP/1.1\r\nContent-Length: 1x\r\n\r\n", "C"},
    {"PUT /t/n HTTP/1.1\r\nContent-Length: 2\r\nContent-Length: 3\r\n\r\n\1\1", "C"},
    {"PUT /t HTTP/1.1\r\nContent-Length: 2\r\n\r\n", "C"},
    {"DELETE /t/k HTTP/1.1\r\n\r\n", "G"},
    {"DELETE /t/nope HTTP/1.1\r\n\r\n", "G"},
    {"DELETE /t HTTP/1.1\r\n\r\n", "G"},
    {"DELETE /nope HTTP/1.1\r\n\r\n", "G"},
    {"BULK /t HTTP/1.1\r\nX-Delete: k\r\nHost: k2\r\nx-delete:k2\r\n\r\n", "G"},
    {"PURGE /nope HTTP/1.1\r\nX-Delete: k\r\n\r\n", "G"},
    {"GET /t HTTP/1.1\r\n\r\n", "L"},
    {"GET /t HTTP/1.1\r\nX-Start: 1\r\nx-limit: 1\r\n\r\n", "L"},
    {"GET /nope HTTP/1.1\r\n\r\n", "G"},
    {"GET / HTTP/1.1\r\n\r\n", "G"},
    {"ADMIN /gc HTTP/1.1\r\n\r\n", "G"},
    {"FOO /t/k HTTP/1.1\r\n\r\n", "C"},
    {"TOOLONGMETHOD /t/k HTTP/1.1\r\n\r\n", "C"},
    {"GET t/k HTTP/1.1\r\n\r\n", "C"},
    {"GET /t/k\r\n\r\n", "C"},
    {"HEAD /t HTTP/1.1\r\n\r\n", "C"},
    {"GET /t HTTP/1.1\r\nX-Start: z\r\n\r\n", "C"},
    // pipelined
    {"PUT /t/n HTTP/1.1\r\nContent-Length: 3\r\n\r\n\1\1\1GET /t/n HTTP/1.1\r\n\r\nDELETE /t/n HTTP/1.1\r\n\r\nGET /t/n HTTP/1.1\r\n\r\n", "GGGG"},
    {"GET /t/k HTTP/1.1\r\n\r\n\r\nGET /t/big HTTP/1.1\r\n\r\nHEAD /t/k HTTP/1.1\r\n\r\nGET /t/k2 HTTP/1.1\r\n\r\n", "GGHG"},
    {"GET /t/nope HTTP/1.1\r\n\r\nGET / HTTP/1.1\r\n\r\nBULK /t HTTP/1.1\r\nX-Delete: k\r\n\r\nGET /t/k HTTP/1.1\r\n\r\n", "GGGG"},
    {"PUT /t/k HTTP/1.1\r\nContent-Length: 3\r\n\r\n\1\1\1PUT /t/k2 HTTP/1.1\r\nContent-Length: 2\r\n\r\n\1\1GET /t HTTP/1.1\r\n\r\n", "GGL"},
    {"GET /nope/k HTTP/1.1\r\n\r\nHEAD /nope/k HTTP/1.1\r\n\r\nFOO / HTTP/1.1\r\n\r\nGET /t/k HTTP/1.1\r\n\r\n", "GHC"},
    {"DELETE /t HTTP/1.1\r\n\r\nPUT /t/k HTTP/1.1\r\nContent-Length: 1\r\n\r\n\1GET /t HTTP/1.1\r\n\r\n", "GGL"},
    {"ADMIN /gc HTTP/1.1\r\n\r\nADMIN /nope HTTP/1.1\r\n\r\n", "GC"},
    {"BULK /t HTTP/1.1\r\n:\r\nX-Delete: \r\n: :\r\n\r\nGET /t/k HTTP/1.1\r\n\r\n", "GG"},
    {"GET /nope/k HTTP/1.1\r\nHost: h\r\nA: b\r\n\r\nGET /t/k HTTP/1.1\r\nHost: h\r\n\r\nGET / HTTP/1.1\r\nHost: h\r\nA: b\r\n\r\nGET /t/k2 HTTP/1.1\r\n\r\n", "GGGG"},
    {"HEAD /nope/k HTTP/1.1\nHost: h\nA: b\n\nHEAD /t/k HTTP/1.1\r\nHost: h\r\nA: b\r\n\r\nDELETE /nope/k HTTP/1.1\r\nHost: h\r\nA: b\r\n\r\nGET /t/k HTTP/1.1\r\n\r\n", "HHGG"},
    {"DELETE /t/k HTTP/1.1\r\nHost: h\r\nA: b\r\n\r\nADMIN /gc HTTP/1.1\r\nHost: h\r\nA: b\r\n\r\nBULK /nope HTTP/1.1\r\nHost: h\r\nA: b\r\n\r\nPUT /n/k HTTP/1.1\r\nHost: h\r\nContent-Length: 1\r\nA: b\r\n\r\n\1", "GGGG"},
};
enum { NCONV = sizeof CONV / sizeof *CONV, CONV_PIPE = 29 };
static uint8_t cv_body[64], cv_k[3], cv_big[4200]; static Txt cv; static int cv_at[20], cv_n;
static void conv_make(int i, const char* extra = "") { // the byte stream
    t0(&cv); int b = 0; for (const char* p = CONV[i].text; *p; p++) { uint8_t c = (uint8_t)*p; if (c == 1) c = cv_body[b++]; tb(&cv, &c, 1); } ta(&cv, extra); }
static void conv_values(void) { vx_sym(cv_body, 16, "body"); vx_sym(cv_k, 3, "value"); for (int i = 0; i < 4100; i++) cv_big[i] = (uint8_t)(i * 11 + 3); vx_sym(cv_big + 4094, 4, "big value"); }
static void conv_store(void) { int c = cl_connect(PORT_CACHE); settle(); vx_check(is200(put(c, "/t/k", cv_k, 3)) && is200(put(c, "/t/k2", "second", 6)) && is200(put(c, "/t/big", cv_big, 4100)) && is200(put(c, "/o/k", "other", 5)), "the store is filled"); cl_close(c); settle(); }
struct Seen { int n; int closed; int after_n; uint8_t b[16000]; uint8_t after[16000]; };
static void conv_observe(Seen* s) { // the store as another client sees it
    static const char* const n[] = {"/t/k", "/t/k2", "/t/n", "/t/big", "/n/k", "/o/k", "/t", "/n", "/"}; s->after_n = 0;
    for (int i = 0; i < 9; i++) { int c = cl_connect(PORT_CACHE); Txt* t = &hx_t; t0(t); ta(t, "GET "); ta(t, n[i]); ta(t, " HTTP/1.1\r\n\r\n"); cl_send(c, t->b, t->n); settle(); int k = unread(c); memcpy(s->after + s->after_n, W.s[c].out + W.s[c].out_pos, k); s->after_n += k; cl_close(c); settle(); W.s[c].used = 0; } }
