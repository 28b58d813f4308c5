// C04: the ring buffer from every valid state (arbitrary positions and contents), one operation at a time: an inductive step.
#include "world.h"
#include <string.h>
#include "connection.h"
#include "http_parse.h"
extern "C" int hx_idle(void) { return 0; }
void skip_over_newlines(struct read_buffer* rb);
static read_buffer rb; static uint8_t q[BUFFER_SIZE]; static int len, off;
static int num_cnt;
static void any_state(int number) {
    uint64_t o;
    if (number) { static const int back[] = {BUFFER_SIZE, 1, 2, 4, 6, 8, 10, 12}; num_cnt = 1 + (int)vx_choose(13, "n"); int w = vx_choose(8, "offset"); o = BUFFER_SIZE - back[w]; len = w != 1 && w != 3 ? num_cnt : vx_choose(2, "more follows") ? BUFFER_SIZE : num_cnt; }
    else { len = (int)vx_concretize(vx_range(0, BUFFER_SIZE, "unread")); o = vx_concretize(vx_range(0, BUFFER_SIZE - 1, "offset")); }
    uint64_t wrap = vx_range(0, 65536 / BUFFER_SIZE - 1, "wraps");
    rbuf_init(&rb); vx_sym(rb.buffer, BUFFER_SIZE, "contents"); off = (int)o;
    rb.read_position = (uint16_t)(o + wrap * BUFFER_SIZE); rb.write_position = (uint16_t)(rb.read_position + len);
    for (int i = 0; i < len; i++) q[i] = rb.buffer[(off + i) & (BUFFER_SIZE - 1)];
}
static int eq(const void* a, const void* b, int n) { uint8_t r = 0; for (int i = 0; i < n; i++) r |= ((const uint8_t*)a)[i] ^ ((const uint8_t*)b)[i]; return r == 0; }
static void same_content(const char* m) { uint8_t r = 0; for (int i = 0; i < len; i++) r |= q[i] ^ (uint8_t)rb.buffer[(off + i) & (BUFFER_SIZE - 1)]; vx_check(r == 0, m); }
static void op_lengths(void) {
    vx_check(rbuf_read_remaining(&rb) == len, "unread length is exact"); vx_check(rbuf_write_remaining(&rb) == BUFFER_SIZE - len, "free length is exact");
    int w = rbuf_write_to_end(&rb); int woff = (off + len) & (BUFFER_SIZE - 1); int want = len == BUFFER_SIZE ? 0 : (off <= woff ? BUFFER_SIZE - woff : off - woff);
    vx_check(w <= BUFFER_SIZE - len && woff + w <= BUFFER_SIZE, "contiguous free space is really free and inside the buffer"); vx_check(w == want, "contiguous free space is not under-reported");
    int r = rbuf_read_to_end(&rb); vx_check(r >= 0 && r <= len, "contiguous unread length never exceeds what is unread"); if (len && len < BUFFER_SIZE) vx_check(r >= 1 && off + r <= BUFFER_SIZE, "contiguous unread length stays inside the buffer");
    vx_reach("lengths");
}
static void op_copy(void) {
    int n = (int)vx_concretize(vx_range(0, BUFFER_SIZE, "n")); uint8_t* d = (uint8_t*)vx_malloc(n ? n : 1); int r = rbuf_copyn(&rb, (char*)d, n); int want = n < len ? n : len;
    vx_check(r == want, "copy returns the number of bytes copied"); if (r == want) vx_check(eq(d, q, want), "copy delivers the next unread bytes"); vx_check(rbuf_read_remaining(&rb) == len, "copy does not consume"); same_content("copy leaves the buffer unchanged"); if (off + want > BUFFER_SIZE) vx_reach("copy wraps");
}
static void op_cmp(void) {
    int n = (int)vx_concretize(vx_range(0, BUFFER_SIZE < 12 ? BUFFER_SIZE : 12, "n")); char* w = (char*)vx_malloc(n + 1); vx_sym(w, n, "with"); w[n] = 0; for (int i = 0; i < n; i++) vx_assume(w[i] != 0);
    int r = rbuf_cmpn(&rb, w, n); int same = n == 0 || (n <= len && eq(w, q, n)); vx_check((r == 0) == (same != 0), "compare is zero exactly when the next n unread bytes equal"); if (off + n > BUFFER_SIZE) vx_reach("compare wraps");
}
static void op_number(void) { // up to 5 arbitrary bytes; longer: the digits of the largest int after zeros, with 4 arbitrary bytes at either end
    int cnt = num_cnt, all = cnt == len;
    if (cnt > 5) { static const char pat[] = "0002147483647"; int win = vx_choose(2, "arbitrary at the end") ? cnt - 4 : 0; for (int i = 0; i < cnt; i++) if (i < win || i >= win + 4) { int at = (off + i) & (BUFFER_SIZE - 1); rb.buffer[at] = pat[13 - cnt + i]; q[i] = rb.buffer[at]; } }
    uint64_t v = 0; int dig = 1; for (int i = 0; i < cnt; i++) { uint8_t c = q[i]; dig &= (c >= '0') & (c <= '9'); v = v * 10 + (uint8_t)(c - '0'); }
    int out = -5; bool ok = rbuf_strntol(&rb, &out, all ? -1 : cnt);
    if (ok) { vx_check(dig, "a number is only read from digits"); vx_check(!dig | (out >= 0 && (uint64_t)out == v), "the number read is the decimal value"); }
    else vx_check(!dig | (v > 2147483647u), "a decimal number that fits is accepted");
    if (off + cnt > BUFFER_SIZE) vx_reach("number wraps");
}
static void op_skip(void) {
    int k = 0; while (k < len && (q[k] == '\r' || q[k] == '\n')) k++;
    skip_over_newlines(&rb); vx_check(rbuf_read_remaining(&rb) == len - k, "skipping newlines consumes exactly the leading newlines"); if (off + k > BUFFER_SIZE && k < len) vx_reach("skip wraps");
}
static void op_write(void) { // what the connection does on every read from its socket
    int w = rbuf_write_to_end(&rb); if (w <= 0) { vx_check(len == BUFFER_SIZE, "only a full buffer refuses input"); return; } int k = 1 + (int)vx_concretize(vx_range(0, w - 1, "arrived")); uint8_t nb[BUFFER_SIZE]; vx_sym(nb, k, "new bytes");
    memcpy(RBUF_WRITE(rb), nb, k); RBUF_WRITEMOVE(rb, (uint16_t)k); vx_check(rbuf_read_remaining(&rb) == len + k, "written bytes become readable"); if (len + k > BUFFER_SIZE) return;
    uint8_t r = 0; for (int i = 0; i < len; i++) r |= q[i] ^ (uint8_t)rb.buffer[(off + i) & (BUFFER_SIZE - 1)]; for (int i = 0; i < k; i++) r |= nb[i] ^ (uint8_t)rb.buffer[(off + len + i) & (BUFFER_SIZE - 1)]; vx_check(r == 0, "a write appends and keeps what is unread"); vx_reach("write");
}
static void op_read(void) { int k = (int)vx_concretize(vx_range(0, len, "consume")); RBUF_READMOVE(rb, k); vx_check(rbuf_read_remaining(&rb) == len - k, "consuming moves past exactly those bytes"); uint8_t r = 0; uint8_t d[BUFFER_SIZE + 1]; int c = rbuf_copyn(&rb, (char*)d, len - k); vx_check(c == len - k && eq(d, q + k, len - k), "the remaining bytes follow in order"); }
static int it_n; static uint8_t it_got[BUFFER_SIZE + 1];
static state_action it_one(const char* b) { if (it_n < BUFFER_SIZE) it_got[it_n] = *b; it_n++; return continue_processing; }
static void op_iterate(void) {
    char* buffer; int end, n; state_action ret = continue_processing; it_n = 0;
    RBUF_ITERATE(rb, n, buffer, end, ret, it_one(buffer)); vx_check(it_n == len && n == len, "iteration visits every unread byte once"); vx_check(eq(it_got, q, len < it_n ? len : it_n), "iteration visits the unread bytes in order");
}
extern "C" void vx_main(void) {
    w_init_fs(); w_init_proc(); static void (*const ops[])(void) = {op_lengths, op_copy, op_cmp, op_number, op_skip, op_write, op_read, op_iterate};
    int only = (int)vx_param("op", -1); int k = only >= 0 ? only : (int)vx_choose(8, "operation"); any_state(k == 3); ops[k](); vx_reach("done");
}
