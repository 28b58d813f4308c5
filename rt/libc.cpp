// Engine-only: plain definitions of the pure C library functions the code under test may call (the native replay uses the real ones).
#include "vx.h"
#include <stdarg.h>
extern "C" {
void* stderr; void* stdout; void* stdin; char* optarg; int optind = 1, opterr = 1, optopt;
void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t);
size_t vx_strlen_fast(const char* s); // length of a text without symbolic bytes, -1 for others
size_t strlen(const char* s) { size_t n = vx_strlen_fast(s); if (n != (size_t)-1) return n; n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { uint8_t x = *a, y = *b; if (x != y) return (int)x - y; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { uint8_t x = *a, y = *b; if (x != y) return (int)x - y; if (!x) return 0; } return 0; }
int memcmp(const void* p, const void* q, size_t n) { const uint8_t *a = (const uint8_t*)p, *b = (const uint8_t*)q; for (; n; n--, a++, b++) if (*a != *b) return (int)*a - *b; return 0; }
int bcmp(const void* p, const void* q, size_t n) { return memcmp(p, q, n); }
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int tolower(int c) { return lower(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int isxdigit(int c) { return isdigit(c) || ((c | 32) >= 'a' && (c | 32) <= 'f'); }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = lower((uint8_t)*a), y = lower((uint8_t)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int x = lower((uint8_t)*a), y = lower((uint8_t)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strchrnul(const char* s, int c) { for (;; s++) if (*s == (char)c || !*s) return (char*)s; }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, size_t n) { const uint8_t* s = (const uint8_t*)p; for (; n; n--, s++) if (*s == (uint8_t)c) return (void*)s; return nullptr; }
void* memrchr(const void* p, int c, size_t n) { const uint8_t* s = (const uint8_t*)p; while (n--) if (s[n] == (uint8_t)c) return (void*)(s + n); return nullptr; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return nullptr; } }
void* memmem(const void* h, size_t hl, const void* n, size_t nl) { const uint8_t* p = (const uint8_t*)h; for (size_t i = 0; i + nl <= hl; i++) if (!memcmp(p + i, n, nl)) return (void*)(p + i); return nullptr; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : nullptr; }
char* strtok_r(char* s, const char* d, char** sp) { if (!s) s = *sp; s += strspn(s, d); if (!*s) { *sp = s; return nullptr; } char* e = s + strcspn(s, d); if (*e) *e++ = 0; *sp = e; return s; }
static char* tok; char* strtok(char* s, const char* d) { return strtok_r(s, d, &tok); }
char* strsep(char** sp, const char* d) { char* s = *sp; if (!s) return nullptr; char* e = s + strcspn(s, d); if (*e) { *e++ = 0; *sp = e; } else *sp = nullptr; return s; }
int* w_errno_loc(void);
unsigned long long vx_num_value; // the number a text starting with byte 1 stands for (a symbolic option value)
static unsigned long long ston(const char* s, char** e, int base, int sg) {
    if (*s == 1) { if (e) *e = (char*)s + 1; return vx_num_value; } const char* p = s; while (isspace((uint8_t)*p)) p++; int neg = 0; if (*p == '+' || *p == '-') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x') { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; int any = 0, ov = 0; unsigned long long lim = sg ? (neg ? 1ull << 63 : (1ull << 63) - 1) : ~0ull;
    for (;; p++) { int c = (uint8_t)*p, d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= base) break; any = 1; if (v > (lim - d) / base) ov = 1; else v = v * base + d; }
    if (e) *e = (char*)(any ? p : s); if (ov) { *w_errno_loc() = 34; return neg && sg ? 1ull << 63 : lim; } return neg ? -v : v;
}
long strtol(const char* s, char** e, int b) { return (long)ston(s, e, b, 1); }
long long strtoll(const char* s, char** e, int b) { return (long long)ston(s, e, b, 1); }
unsigned long strtoul(const char* s, char** e, int b) { return ston(s, e, b, 0); }
unsigned long long strtoull(const char* s, char** e, int b) { return ston(s, e, b, 0); }
long __isoc23_strtol(const char* s, char** e, int b) { return (long)ston(s, e, b, 1); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return (long long)ston(s, e, b, 1); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return ston(s, e, b, 0); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return ston(s, e, b, 0); }
int atoi(const char* s) { return (int)ston(s, nullptr, 10, 1); }
long atol(const char* s) { return (long)ston(s, nullptr, 10, 1); }
long long atoll(const char* s) { return (long long)ston(s, nullptr, 10, 1); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
double strtod(const char* s, char** e) { const char* p = s; while (isspace((uint8_t)*p)) p++; int neg = 0; if (*p == '+' || *p == '-') neg = *p++ == '-'; double v = 0; int any = 0; while (isdigit((uint8_t)*p)) { v = v * 10 + (*p++ - '0'); any = 1; } if (*p == '.') { double f = 1; p++; while (isdigit((uint8_t)*p)) { f *= 10; v = v + (*p++ - '0') / f; any = 1; } } if (e) *e = (char*)(any ? p : s); return neg ? -v : v; }
double atof(const char* s) { return strtod(s, nullptr); }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void bzero(void* p, size_t n) { memset(p, 0, n); }
uint16_t htons(uint16_t x) { return (uint16_t)(x << 8 | x >> 8); }
uint16_t ntohs(uint16_t x) { return htons(x); }
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }
// ---- formatted output
struct Out { char* p; size_t n, cap; };
static void oc(Out* o, char c) { if (o->n + 1 < o->cap) o->p[o->n] = c; o->n++; }
static void onum(Out* o, unsigned long long v, int neg, unsigned base, int up, int width, int prec, int left, int zero, int plus) {
    char t[24]; int k = 0; do { unsigned d = (unsigned)(v % base); t[k++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= base; } while (v);
    int nd = k > prec ? k : prec; int tot = nd + (neg || plus); if (!left && (!zero || prec >= 0)) for (int i = tot; i < width; i++) oc(o, ' ');
    if (neg) oc(o, '-'); else if (plus) oc(o, '+'); if (!left && zero && prec < 0) for (int i = tot; i < width; i++) oc(o, '0'); for (int i = k; i < nd; i++) oc(o, '0'); while (k) oc(o, t[--k]); if (left) for (int i = tot; i < width; i++) oc(o, ' ');
}
int vsnprintf(char* buf, size_t cap, const char* f, va_list ap) {
    Out o = {buf, 0, cap};
    for (; *f; f++) {
        if (*f != '%') { oc(&o, *f); continue; } f++; int left = 0, zero = 0, plus = 0, alt = 0;
        for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f != ' ') break; }
        int width = 0, prec = -1; if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit((uint8_t)*f)) width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((uint8_t)*f)) prec = prec * 10 + (*f++ - '0'); }
        int l = 0; for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') l = 8; else if (*f == 'h') l = l == 2 ? 1 : 2; else break; }
        switch (*f) {
        case 'd': case 'i': { long long v = l == 8 ? va_arg(ap, long long) : va_arg(ap, int); if (l == 2) v = (short)v; if (l == 1) v = (signed char)v; int neg = v < 0; onum(&o, neg ? -(unsigned long long)v : v, neg, 10, 0, width, prec, left, zero, plus); break; }
        case 'u': case 'x': case 'X': case 'o': { unsigned long long v; if (l == 8) v = va_arg(ap, unsigned long long); else { unsigned x = va_arg(ap, unsigned); if (l == 2) x = (unsigned short)x; if (l == 1) x = (unsigned char)x; 
              if (*f == 'u' && !width) { char t[12]; int k = 0; do { t[k++] = (char)('0' + x % 10); x /= 10; } while (x); while (k) oc(&o, t[--k]); break; } v = x; }
            if (alt && *f != 'u') { oc(&o, '0'); oc(&o, *f); } onum(&o, v, 0, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', width, prec, left, zero, 0); break; }
        case 'p': oc(&o, '0'); oc(&o, 'x'); onum(&o, (unsigned long long)va_arg(ap, void*), 0, 16, 0, 0, -1, 0, 0, 0); break;
        case 'c': { int c = va_arg(ap, int); if (!left) for (int i = 1; i < width; i++) oc(&o, ' '); oc(&o, (char)c); if (left) for (int i = 1; i < width; i++) oc(&o, ' '); break; }
        case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; int n = prec < 0 ? (int)strlen(s) : (int)strnlen(s, prec); if (!left) for (int i = n; i < width; i++) oc(&o, ' '); if (o.n + n < o.cap) { memcpy(o.p + o.n, s, n); o.n += n; } else for (int i = 0; i < n; i++) oc(&o, s[i]); if (left) for (int i = n; i < width; i++) oc(&o, ' '); break; }
        case 'f': case 'g': { double d = va_arg(ap, double); if (prec < 0) prec = 6; int neg = d < 0; if (neg) { d = -d; oc(&o, '-'); } double r = 0.5; for (int i = 0; i < prec; i++) r /= 10; d += r; unsigned long long ip = (unsigned long long)d; onum(&o, ip, 0, 10, 0, 0, -1, 0, 0, 0); d -= ip; if (prec) { oc(&o, '.'); for (int i = 0; i < prec; i++) { d *= 10; int g = (int)d; oc(&o, (char)('0' + g)); d -= g; } } break; }
        case '%': oc(&o, '%'); break;
        default: vx_unsupported("printf conversion"); vx_kill();
        }
    }
    if (cap) buf[o.n < cap ? o.n : cap - 1] = 0; return (int)o.n;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1 << 30, f, ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 30, f, ap); va_end(ap); return r; }
int __snprintf_chk(char* b, size_t n, int, size_t, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int __sprintf_chk(char* b, int, size_t, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 30, f, ap); va_end(ap); return r; }
// ---- formatted input
int vsscanf(const char* s0, const char* f, va_list ap) {
    const char* s = s0; int got = 0;
    for (; *f; f++) {
        if (isspace((uint8_t)*f)) { while (isspace((uint8_t)*s)) s++; continue; }
        if (*f != '%') { if (!*s) return got ? got : -1; if (*s != *f) return got; s++; continue; }
        f++; if (*f == '%') { while (isspace((uint8_t)*s)) s++; if (*s != '%') return got; s++; continue; }
        int sup = 0, w = 0, l = 4; if (*f == '*') { sup = 1; f++; } while (isdigit((uint8_t)*f)) w = w * 10 + (*f++ - '0');
        for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') l = 8; else if (*f == 'h') l = l == 2 ? 1 : 2; else break; }
        int maxw = w ? w : 1 << 30;
        if (*f == 'n') { if (l == 8) *va_arg(ap, long*) = s - s0; else *va_arg(ap, int*) = (int)(s - s0); continue; }
        if (*f != 'c' && *f != '[') { while (isspace((uint8_t)*s)) s++; if (!*s) return got ? got : -1; }
        switch (*f) {
        case 'd': case 'u': case 'i': case 'x': {
            const char* p = s; int neg = 0, n = 0; unsigned base = *f == 'x' ? 16 : 10; if (*p == '+' || *p == '-') { neg = *p++ == '-'; n++; }
            unsigned long long v = 0; int any = 0, ov = 0; for (; n < maxw; p++, n++) { int c = (uint8_t)*p, d; if (isdigit(c)) d = c - '0'; else if (base == 16 && isxdigit(c)) d = (c | 32) - 'a' + 10; else break; any = 1; if (v > (~0ull - d) / base) ov = 1; v = v * base + d; }
            if (!any) return got; s = p; if (*f == 'd' || *f == 'i') { if (ov || v > (1ull << 63) - 1 + neg) v = neg ? 1ull << 63 : (1ull << 63) - 1; else if (neg) v = -v; } else { if (ov) v = ~0ull; else if (neg) v = -v; }
            if (!sup) { void* o = va_arg(ap, void*); if (l == 8) *(uint64_t*)o = v; else if (l == 4) *(uint32_t*)o = (uint32_t)v; else if (l == 2) *(uint16_t*)o = (uint16_t)v; else *(uint8_t*)o = (uint8_t)v; got++; } break; }
        case 's': { char* o = sup ? nullptr : va_arg(ap, char*); int n = 0; while (n < maxw && *s && !isspace((uint8_t)*s)) { if (o) o[n] = *s; n++; s++; } if (o) { o[n] = 0; got++; } break; }
        case 'c': { if (!w) maxw = 1; char* o = sup ? nullptr : va_arg(ap, char*); int n = 0; while (n < maxw) { if (!*s) return got ? got : -1; if (o) o[n] = *s; n++; s++; } if (o) got++; break; }
        case '[': { f++; int inv = 0; if (*f == '^') { inv = 1; f++; } const char* st = f; if (*f == ']') f++; while (*f && *f != ']') f++; char* o = sup ? nullptr : va_arg(ap, char*); int n = 0;
            if (!*s) return got ? got : -1; while (n < maxw && *s) { int in = 0; for (const char* q = st; q < f; q++) { if (q + 2 < f && q[1] == '-') { if ((uint8_t)*s >= (uint8_t)q[0] && (uint8_t)*s <= (uint8_t)q[2]) in = 1; q += 2; } else if (*q == *s) in = 1; } if (in == inv) break; if (o) o[n] = *s; n++; s++; }
            if (!n) return got; if (o) { o[n] = 0; got++; } break; }
        default: vx_unsupported("scanf conversion"); vx_kill();
        }
    }
    return got;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
// ---- options and addresses
struct option { const char* name; int has_arg; int* flag; int val; };
static int optpos;
int getopt_long(int argc, char* const* argv, const char* so, const struct option* lo, int* li) {
    optarg = nullptr;
    if (!optpos) { if (optind >= argc || argv[optind][0] != '-' || !argv[optind][1]) return -1; if (argv[optind][1] == '-') { char* a = argv[optind++] + 2; if (!*a) return -1; char* eq = strchrnul(a, '='); size_t n = eq - a;
            for (int i = 0; lo && lo[i].name; i++) if (strlen(lo[i].name) == n && !strncmp(lo[i].name, a, n)) { if (li) *li = i; if (lo[i].has_arg == 1) { if (*eq) optarg = eq + 1; else { if (optind >= argc) return '?'; optarg = argv[optind++]; } } else if (*eq) return '?'; if (lo[i].flag) { *lo[i].flag = lo[i].val; return 0; } return lo[i].val; } return '?'; }
        optpos = 1; }
    int c = argv[optind][optpos++]; const char* q = c == ':' ? nullptr : strchr(so, c); int last = !argv[optind][optpos];
    if (!q || !c) { if (last) { optind++; optpos = 0; } return '?'; }
    if (q[1] == ':') { if (!last) optarg = argv[optind] + optpos; else { optind++; if (optind >= argc) { optpos = 0; return '?'; } optarg = argv[optind]; } optind++; optpos = 0; }
    else if (last) { optind++; optpos = 0; }
    return c;
}
static int pton4(const char* s, uint8_t* o) { uint8_t t[4]; for (int k = 0; k < 4; k++) { int n = 0; unsigned v = 0; while (isdigit((uint8_t)*s)) { if (n && !v) return 0; v = v * 10 + (*s++ - '0'); if (v > 255) return 0; n++; } if (!n) return 0; t[k] = (uint8_t)v; if (k < 3) { if (*s++ != '.') return 0; } } if (*s) return 0; memcpy(o, t, 4); return 1; }
static int pton6(const char* s, uint8_t* o) {
    uint8_t t[16]; int n = 0, dc = -1; if (*s == ':') { s++; if (*s != ':') return 0; }
    const char* cur = s; unsigned v = 0; int dig = 0;
    for (; *s; s++) { int c = (uint8_t)*s; if (isxdigit(c)) { v = v << 4 | (unsigned)(isdigit(c) ? c - '0' : (c | 32) - 'a' + 10); if (++dig > 4) return 0; continue; }
        if (c == ':') { cur = s + 1; if (!dig) { if (dc >= 0) return 0; dc = n; continue; } if (!s[1]) return 0; if (n + 2 > 16) return 0; t[n++] = (uint8_t)(v >> 8); t[n++] = (uint8_t)v; dig = 0; v = 0; continue; }
        if (c == '.' && n + 4 <= 16 && pton4(cur, t + n)) { n += 4; dig = 0; s = ""; break; } return 0; }
    if (dig) { if (n + 2 > 16) return 0; t[n++] = (uint8_t)(v >> 8); t[n++] = (uint8_t)v; }
    if (dc >= 0) { if (n == 16) return 0; int k = n - dc; for (int i = 1; i <= k; i++) { t[16 - i] = t[n - i]; if (16 - i != n - i) t[n - i] = 0; } for (int i = dc; i < 16 - k; i++) t[i] = 0; n = 16; }
    if (n != 16) return 0; memcpy(o, t, 16); return 1;
}
int inet_pton(int af, const char* s, void* d) { if (af == 2) return pton4(s, (uint8_t*)d); if (af == 10) return pton6(s, (uint8_t*)d); *w_errno_loc() = 97; return -1; }
// ctype table (the headers' macros)
static unsigned short ctab[384]; static const unsigned short* ctabp; static int ltab[384], utab[384]; static const int *ltabp, *utabp;
static void cinit(void) { if (ctabp) return; for (int c = 0; c < 256; c++) { unsigned short m = 0; 
    if (isupper(c)) m |= 1 << 8; if (islower(c)) m |= 1 << 9; if (c < 128 && isalpha(c)) m |= 1 << 10; if (isdigit(c)) m |= 1 << 11; if (c < 128 && isxdigit(c)) m |= 1 << 12; if (isspace(c)) m |= 1 << 13; if (isprint(c)) m |= 1 << 14; if (c > 32 && c < 127) m |= 1 << 15; if (c == ' ' || c == 9) m |= 1; if (c < 32 || c == 127) m |= 2; if (c > 32 && c < 127 && !isalnum(c)) m |= 4; if (c < 128 && isalnum(c)) m |= 8; ctab[128 + c] = m; ltab[128 + c] = lower(c); utab[128 + c] = toupper(c); } ctabp = ctab + 128; ltabp = ltab + 128; utabp = utab + 128; }
const unsigned short** __ctype_b_loc(void) { cinit(); return &ctabp; }
const int** __ctype_tolower_loc(void) { cinit(); return &ltabp; }
const int** __ctype_toupper_loc(void) { cinit(); return &utabp; }
void qsort(void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) { char* p = (char*)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = p[j * w + k]; p[j * w + k] = p[(j - 1) * w + k]; p[(j - 1) * w + k] = t; } }
}
// ---- red-black tree support of std::set/std::map (an unbalanced search tree has the same observable behaviour)
namespace std {
enum _Rb_tree_color { _S_red = false, _S_black = true };
struct _Rb_tree_node_base { _Rb_tree_color c; _Rb_tree_node_base *p, *l, *r; };
typedef _Rb_tree_node_base N;
static N* inc(N* x) { if (x->r) { x = x->r; while (x->l) x = x->l; return x; } N* y = x->p; while (x == y->r) { x = y; y = y->p; } if (x->r != y) x = y; return x; }
static N* dec(N* x) { if (x->c == _S_red && x->p && x->p->p == x) return x->r; if (x->l) { N* y = x->l; while (y->r) y = y->r; return y; } N* y = x->p; while (x == y->l) { x = y; y = y->p; } return y; }
N* _Rb_tree_increment(N* x) { return inc(x); }
const N* _Rb_tree_increment(const N* x) { return inc((N*)x); }
N* _Rb_tree_decrement(N* x) { return dec(x); }
const N* _Rb_tree_decrement(const N* x) { return dec((N*)x); }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
    x->p = p; x->l = x->r = nullptr; x->c = _S_black; 
    if (left) { p->l = x; if (p == &h) { h.p = x; h.r = x; } else if (p == h.l) h.l = x; } else { p->r = x; if (p == h.r) h.r = x; }
    if (p == &h && !left) { h.p = x; h.l = h.r = x; } h.c = _S_red;
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
    N* lm = nullptr; N* rm = nullptr; if (h.l == z) lm = inc(z); if (h.r == z) rm = (z == h.l) ? &h : dec(z);
    N* y; if (!z->l) y = z->r; else if (!z->r) y = z->l; else { y = z->r; if (y->l) { while (y->l) y = y->l; N* yp = y->p; yp->l = y->r; if (y->r) y->r->p = yp; y->r = z->r; z->r->p = y; } y->l = z->l; z->l->p = y; }
    if (y) y->p = z->p; if (h.p == z) h.p = y; else if (z->p->l == z) z->p->l = y; else z->p->r = y;
    if (!h.p) { h.l = h.r = &h; } else { if (lm) h.l = lm; if (rm) h.r = rm; } return z;
}
void __throw_bad_alloc() { vx_fail("std::bad_alloc"); vx_stop(); }
void __throw_bad_array_new_length() { vx_fail("std::bad_array_new_length"); vx_stop(); }
void __throw_length_error(const char*) { vx_fail("std::length_error"); vx_stop(); }
void __throw_out_of_range(const char*) { vx_fail("std::out_of_range"); vx_stop(); }
void __throw_out_of_range_fmt(const char*, ...) { vx_fail("std::out_of_range"); vx_stop(); }
void __throw_logic_error(const char*) { vx_fail("std::logic_error"); vx_stop(); }
}
