// Hash-consed bit-vector expressions with a canonicalising simplifier.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <unordered_set>
#include <string>
#include <z3.h>
#include <math.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t { K_CONST, K_SYM, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_FBIN, K_FCMP, K_FCONV };
// floating point: values are carried as IEEE bit patterns; aux is the operation
enum { FO_ADD, FO_SUB, FO_MUL, FO_DIV, FC_SI2F, FC_UI2F, FC_F2SI, FC_F2UI, FC_F2F };

typedef std::vector<uint32_t> SymVec; // sorted, interned

struct Expr {
    Kind k; uint16_t w; uint32_t id; uint32_t aux; // aux: extract lo, symbol number
    Expr *a, *b, *c;
    u128 v;
    const SymVec* syms;
    Z3_ast z;
    uint64_t lo, hi;         // unsigned range (w<=64)
    uint64_t ev; uint32_t ee; // eval memo
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { return w >= 128 ? (i128)v : (i128)(v << (128 - w)) >> (128 - w); }
static inline bool isC(const Expr* e) { return e->k == K_CONST; }
static inline bool isCv(const Expr* e, u128 v) { return e->k == K_CONST && e->v == v; }

struct SymVecHash { size_t operator()(const SymVec& s) const { uint64_t h = 1469598103934665603ull; for (auto x : s) { h ^= x; h *= 1099511628211ull; } return h; } };

struct ExprHash { size_t operator()(const Expr* e) const {
    uint64_t h = e->k * 0x9E3779B97F4A7C15ull + e->w; h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull;
    h ^= (uint64_t)e->aux * 0x94D049BB133111EBull;
    auto mix = [&](uint64_t x) { h ^= x; h *= 0x9FB21C651E98DF25ull; h ^= h >> 32; };
    mix(e->a ? e->a->id + 1 : 0); mix(e->b ? e->b->id + 1 : 0); mix(e->c ? e->c->id + 1 : 0);
    mix((uint64_t)e->v); mix((uint64_t)(e->v >> 64)); return h; } };
struct ExprEq { bool operator()(const Expr* x, const Expr* y) const {
    return x->k == y->k && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v; } };

static inline double fpD(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static inline uint64_t fpB(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t c; memcpy(&c, &d, 8); return c; }
static inline uint64_t fpBin(unsigned op, unsigned w, uint64_t a, uint64_t b) { double x = fpD(a, w), y = fpD(b, w); 
    if (w == 32) { float fx = (float)x, fy = (float)y; float r = op == FO_ADD ? fx + fy : op == FO_SUB ? fx - fy : op == FO_MUL ? fx * fy : fx / fy; return fpB(r, 32); }
    return fpB(op == FO_ADD ? x + y : op == FO_SUB ? x - y : op == FO_MUL ? x * y : x / y, w); }
static inline bool fpCmp(unsigned pred, unsigned w, uint64_t a, uint64_t b) { double x = fpD(a, w), y = fpD(b, w); bool un = x != x || y != y; // LLVM predicate bits: 1 equal, 2 greater, 4 less, 8 unordered
    return un ? (pred & 8) != 0 : x == y ? (pred & 1) != 0 : x > y ? (pred & 2) != 0 : (pred & 4) != 0; }
static inline uint64_t fpConv(unsigned op, unsigned w, unsigned w2, uint64_t a) { // to width w from width w2
    switch (op) {
    case FC_SI2F: return fpB((double)(int64_t)(w2 >= 64 ? (int64_t)a : (int64_t)(a << (64 - w2)) >> (64 - w2)), w);
    case FC_UI2F: return fpB((double)a, w);
    case FC_F2SI: { double x = fpD(a, w2); uint64_t r = x >= 9223372036854775808.0 || x < -9223372036854775808.0 || x != x ? 1ull << (w - 1) : (uint64_t)(int64_t)x; if (w < 64 && r != 1ull << (w - 1) && !(x < (double)(1ull << (w - 1)) && x > -(double)(1ull << (w - 1)) - 1)) r = 1ull << (w - 1); return w >= 64 ? r : r & ((1ull << w) - 1); }
    case FC_F2UI: { double x = fpD(a, w2); uint64_t r = x < 9.2e18 ? (uint64_t)(int64_t)x : (uint64_t)x; return w >= 64 ? r : r & ((1ull << w) - 1); }
    default: return fpB(fpD(a, w2), w); } }

struct ExprPool {
    std::unordered_set<Expr*, ExprHash, ExprEq> tab;
    std::unordered_set<SymVec, SymVecHash> symsets;
    std::vector<Expr*> all;
    const SymVec* emptySyms;
    uint32_t evalEpoch = 0;
    size_t bytes = 0;
    ExprPool() { emptySyms = &*symsets.insert(SymVec()).first; tab.reserve(1 << 16); }

    const SymVec* mergeSyms(const SymVec* x, const SymVec* y) {
        if (x == y || y->empty()) return x;
        if (x->empty()) return y;
        SymVec r; r.reserve(x->size() + y->size());
        std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
        if (r.size() == x->size()) return x;
        if (r.size() == y->size()) return y;
        return &*symsets.insert(std::move(r)).first;
    }
    Expr* intern(Expr& t) {
        auto it = tab.find(&t);
        if (it != tab.end()) return *it;
        Expr* e = new Expr(t);
        e->id = all.size(); all.push_back(e); e->z = nullptr; e->ee = 0;
        if (e->k == K_CONST) e->syms = emptySyms;
        else if (e->k == K_SYM) { SymVec s(1, e->aux); e->syms = &*symsets.insert(std::move(s)).first; }
        else {
            const SymVec* s = e->a->syms;
            if (e->b) s = mergeSyms(s, e->b->syms);
            if (e->c) s = mergeSyms(s, e->c->syms);
            e->syms = s;
        }
        range(e);
        tab.insert(e); bytes += sizeof(Expr) + 48;
        return e;
    }
    void range(Expr* e) {
        if (e->w > 64) { e->lo = 0; e->hi = ~0ull; return; }
        uint64_t m = (uint64_t)maskw(e->w); e->lo = 0; e->hi = m;
        Expr *a = e->a, *b = e->b;
        switch (e->k) {
        case K_CONST: e->lo = e->hi = (uint64_t)e->v; break;
        case K_ZEXT: if (a->w <= 64) { e->lo = a->lo; e->hi = a->hi; } break;
        case K_CONCAT: if (a->w <= 64 && b->w < 64) { e->lo = (a->lo << b->w) | 0; e->hi = (a->hi << b->w) | (uint64_t)maskw(b->w); if (a->lo == a->hi) { e->lo |= b->lo; e->hi = (a->hi << b->w) | b->hi; } } break;
        case K_EXTRACT: if (e->aux == 0 && a->w <= 64 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } else if (a->w <= 64) { uint64_t h = a->hi >> e->aux; if (h <= m) { e->lo = a->lo >> e->aux; e->hi = h; } } break;
        case K_ADD: { u128 h = (u128)a->hi + b->hi; if (h <= m) { e->lo = a->lo + b->lo; e->hi = (uint64_t)h; }
            else if (b->k == K_CONST || a->k == K_CONST) { Expr* c = a->k == K_CONST ? a : b; Expr* x = a->k == K_CONST ? b : a; uint64_t k = (uint64_t)c->v; // wraps for all values
                if ((u128)x->lo + k > m) { e->lo = (x->lo + k) & m; e->hi = (x->hi + k) & m; } }
            break; }
        case K_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
        case K_MUL: { u128 h = (u128)a->hi * b->hi; if (h <= m) { e->lo = a->lo * b->lo; e->hi = (uint64_t)h; } break; }
        case K_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
        case K_UREM: if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); if (a->hi < b->lo) { e->lo = a->lo; e->hi = a->hi; } } break;
        case K_AND: e->hi = std::min(a->hi, b->hi); break;
        case K_OR: e->lo = std::max(a->lo, b->lo); { uint64_t x = a->hi | b->hi; int bits = x ? 64 - __builtin_clzll(x) : 0; e->hi = std::min<uint64_t>(m, bits >= 64 ? ~(uint64_t)0 : (((uint64_t)1 << bits) - 1)); } break;
        case K_XOR: { uint64_t x = a->hi | b->hi; int bits = x ? 64 - __builtin_clzll(x) : 0; e->hi = std::min<uint64_t>(m, bits >= 64 ? ~(uint64_t)0 : (((uint64_t)1 << bits) - 1)); } break;
        case K_LSHR: e->hi = a->hi >> (b->lo > 63 ? 63 : b->lo); if (b->lo > 63) e->hi = a->hi; break;
        case K_ITE: e->lo = std::min(b->lo, e->c->lo); e->hi = std::max(b->hi, e->c->hi); break;
        default: break;
        }
    }
    Expr* raw(Kind k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, uint32_t aux = 0, u128 v = 0) {
        Expr t; memset(&t, 0, sizeof t); t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.aux = aux; t.v = v;
        return intern(t);
    }
    Expr* con(u128 v, unsigned w) { return raw(K_CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
    Expr* sym(uint32_t n, unsigned w) { return raw(K_SYM, w, nullptr, nullptr, nullptr, n); }
    Expr* fbin(unsigned op, Expr* a, Expr* b) { if (isC(a) && isC(b)) return con(fpBin(op, a->w, (uint64_t)a->v, (uint64_t)b->v), a->w); return raw(K_FBIN, a->w, a, b, nullptr, op); }
    Expr* fcmp(unsigned pred, Expr* a, Expr* b) { if (isC(a) && isC(b)) return con(fpCmp(pred, a->w, (uint64_t)a->v, (uint64_t)b->v), 1); return raw(K_FCMP, 1, a, b, nullptr, pred); }
    // a floating value that is exactly n * m * 2^ex (an integer expression times constants, no rounding anywhere)
    bool exactForm(Expr* e, Expr*& n, uint64_t& m, int& ex) {
        unsigned prec = e->w == 32 ? 24 : 53;
        if (e->k == K_FCONV && (e->aux == FC_UI2F || e->aux == FC_SI2F) && e->a->w <= 64) { if (e->aux == FC_SI2F && e->a->hi >> (e->a->w - 1)) return false; if (e->a->hi >> prec) return false; n = e->a; m = 1; ex = 0; return true; }
        if (e->k == K_FCONV && e->aux == FC_F2F && e->w > e->a->w) return exactForm(e->a, n, m, ex);
        if (e->k == K_FBIN && e->aux == FO_MUL && (isC(e->a) || isC(e->b))) {
            Expr* k = isC(e->a) ? e->a : e->b; if (!exactForm(k == e->a ? e->b : e->a, n, m, ex)) return false;
            double d = fpD((uint64_t)k->v, e->w); if (!(d >= 0) || d > 1e15) return false; if (d == 0) { m = 0; return true; } int x; double f = frexp(d, &x); uint64_t mc = (uint64_t)ldexp(f, 53); x -= 53; while (!(mc & 1)) { mc >>= 1; x++; }
            if ((u128)mc * m >> 53) return false; if ((u128)mc * m * n->hi >> prec) return false; m *= mc; ex += x; return ex > -200 && ex < 60; }
        return false; }
    Expr* fconv(unsigned op, Expr* a, unsigned w) { if (isC(a)) return con(fpConv(op, w, a->w, (uint64_t)a->v), w); if (op == FC_F2SI || op == FC_F2UI) { Expr* n; uint64_t m; int ex; if (exactForm(a, n, m, ex)) { if (!m) return con(0, w); Expr* x = bin(K_MUL, zext(n, 64), con(m, 64)); u128 h = (u128)n->hi * m; if (ex < 0) { x = -ex >= 64 ? con(0, 64) : bin(K_LSHR, x, con(-ex, 64)); h = -ex >= 64 ? 0 : h >> -ex; } else { h = ex > 60 ? ~(u128)0 : h << ex; x = bin(K_SHL, x, con(ex, 64)); } if (!(h >> (w - 1)) && !(h >> 63)) return w == 64 ? x : extract(x, w - 1, 0); } } return raw(K_FCONV, w, a, nullptr, nullptr, op); }
    Expr* tru() { return con(1, 1); }
    Expr* fals() { return con(0, 1); }

    Expr* extract(Expr* e, unsigned hi, unsigned lo) {
        unsigned w = hi - lo + 1;
        if (w == e->w) return e;
        switch (e->k) {
        case K_CONST: return con(e->v >> lo, w);
        case K_EXTRACT: return extract(e->a, hi + e->aux, lo + e->aux);
        case K_CONCAT: {
            unsigned lw = e->b->w;
            if (hi < lw) return extract(e->b, hi, lo);
            if (lo >= lw) return extract(e->a, hi - lw, lo - lw);
            return concat(extract(e->a, hi - lw, 0), extract(e->b, lw - 1, lo)); }
        case K_ZEXT: {
            unsigned iw = e->a->w;
            if (hi < iw) return extract(e->a, hi, lo);
            if (lo >= iw) return con(0, w);
            return zext(extract(e->a, iw - 1, lo), w); }
        case K_SEXT: {
            unsigned iw = e->a->w;
            if (hi < iw) return extract(e->a, hi, lo);
            if (lo < iw) return sext(extract(e->a, iw - 1, lo), w);
            return sext(extract(e->a, iw - 1, iw - 1), w); }
        case K_AND: case K_OR: case K_XOR:
            return bin(e->k, extract(e->a, hi, lo), extract(e->b, hi, lo));
        case K_ITE:
            if (isC(e->b) || isC(e->c)) return ite(e->a, extract(e->b, hi, lo), extract(e->c, hi, lo));
            break;
        case K_ADD: case K_SUB: case K_MUL:
            if (lo == 0 && (e->k != K_MUL || w == 8 || w == 16 || w == 32)) return bin(e->k, extract(e->a, hi, 0), extract(e->b, hi, 0));
            break;
        default: break;
        }
        if (e->w <= 64 && lo > 0 && lo < 64 && (e->hi >> lo) == 0) return con(0, w);
        return raw(K_EXTRACT, w, e, nullptr, nullptr, lo);
    }
    void show(Expr* e) { std::vector<Expr*> st{e}; std::unordered_set<Expr*> seen; std::vector<Expr*> all; while (st.size()) { Expr* x = st.back(); st.pop_back(); if (!x || !seen.insert(x).second) continue; all.push_back(x); st.push_back(x->a); st.push_back(x->b); st.push_back(x->c); }
        static const char* nm[] = {"const","sym","concat","extract","zext","sext","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","fbin","fcmp","fconv"};
        std::sort(all.begin(), all.end(), [](Expr* a, Expr* b) { return a->id < b->id; }); for (Expr* x : all) fprintf(stderr, "%u = %s:%u aux%u %lx  %d %d %d\n", x->id, nm[x->k], x->w, x->aux, (unsigned long)x->v, x->a ? (int)x->a->id : -1, x->b ? (int)x->b->id : -1, x->c ? (int)x->c->id : -1); fprintf(stderr, "----\n"); }
    static bool arith(const Expr* e) { return e->k == K_ADD || e->k == K_SUB || e->k == K_MUL || e->k == K_XOR || e->k == K_AND || e->k == K_OR; }
    // a byte of a value as kept in memory: not pushed into arithmetic, so that reading the whole value gives the value back
    Expr* byteOf(Expr* e, unsigned k) { if (e->w > 8 && e->w <= 64 && arith(e) && !(e->hi >> (8 * k) == 0)) return raw(K_EXTRACT, 8, e, nullptr, nullptr, 8 * k); return extract(e, 8 * k + 7, 8 * k); }
    Expr* simpleByte(Expr* e) { return e->k == K_EXTRACT && arith(e->a) ? extract(e->a, e->aux + e->w - 1, e->aux) : e; }
    Expr* concat(Expr* h, Expr* l) {
        unsigned w = h->w + l->w;
        if (isC(h) && isC(l) && w <= 128) return con((h->v << l->w) | l->v, w);
        if (isCv(h, 0)) return zext(l, w);
        if (h->k == K_EXTRACT && l->k == K_EXTRACT && h->a == l->a && h->aux == l->aux + l->w)
            return extract(h->a, h->aux + h->w - 1, l->aux);
        if (h->k == K_EXTRACT && h->a == l && h->aux == l->w) return extract(h->a, h->aux + h->w - 1, 0);
        if (l->k == K_CONCAT) {
            Expr* x = l->a;
            if (h->k == K_EXTRACT && x->k == K_EXTRACT && h->a == x->a && h->aux == x->aux + x->w) return concat(concat(h, x), l->b);
            if (isC(h) && isC(x)) return concat(concat(h, x), l->b);
        }
        if (l->k == K_ZEXT && isC(h)) return concat(con(h->v << (l->w - l->a->w), h->w + l->w - l->a->w), l->a);
        if (h->k == K_CONCAT) return concat(h->a, concat(h->b, l)); // right-assoc
        if (h->k == K_ZEXT) return zext(concat(h->a, l), w);
        if (h->k == K_ITE && l->k == K_ITE && h->a == l->a && isC(h->b) && isC(l->b)) return ite(h->a, concat(h->b, l->b), concat(h->c, l->c));
        return raw(K_CONCAT, w, h, l);
    }
    Expr* zext(Expr* e, unsigned w) {
        if (w == e->w) return e;
        if (isC(e)) return con(e->v, w);
        if (e->k == K_ZEXT) return zext(e->a, w);
        if (e->k == K_ITE && isC(e->b) && isC(e->c)) return ite(e->a, zext(e->b, w), zext(e->c, w));
        return raw(K_ZEXT, w, e);
    }
    Expr* sext(Expr* e, unsigned w) {
        if (w == e->w) return e;
        if (isC(e)) return con((u128)sx(e->v, e->w), w);
        if (e->k == K_SEXT) return sext(e->a, w);
        if (e->k == K_ZEXT) return zext(e->a, w);
        if (e->w <= 64 && !((e->hi >> (e->w - 1)) & 1)) return zext(e, w);
        if (e->k == K_ITE && isC(e->b) && isC(e->c)) return ite(e->a, sext(e->b, w), sext(e->c, w));
        return raw(K_SEXT, w, e);
    }
    Expr* lnot(Expr* e) { // width 1
        if (isC(e)) return con(!e->v, 1);
        if (e->k == K_XOR && isCv(e->a, 1)) return e->b;
        switch (e->k) {
        case K_ULT: return cmp(K_ULE, e->b, e->a);
        case K_ULE: return cmp(K_ULT, e->b, e->a);
        case K_SLT: return cmp(K_SLE, e->b, e->a);
        case K_SLE: return cmp(K_SLT, e->b, e->a);
        default: break;
        }
        return raw(K_XOR, 1, tru(), e);
    }
    bool isNotOf(Expr* x, Expr* y) { return (x->k == K_XOR && x->w == 1 && isCv(x->a, 1) && x->b == y) || (y->k == K_XOR && y->w == 1 && isCv(y->a, 1) && y->b == x); }
    Expr* land(Expr* a, Expr* b) { return bin(K_AND, a, b); }
    Expr* lor(Expr* a, Expr* b) { return bin(K_OR, a, b); }
    Expr* ite(Expr* c, Expr* a, Expr* b) {
        if (isC(c)) return c->v ? a : b;
        if (a == b) return a;
        if (c->k == K_XOR && isCv(c->a, 1)) return ite(c->b, b, a);
        if (a->w == 1) {
            if (isC(a) && isC(b)) return a->v ? c : lnot(c);
            if (isC(a)) return a->v ? lor(c, b) : land(lnot(c), b);
            if (isC(b)) return b->v ? lor(lnot(c), a) : land(c, a);
        }
        if (a->k == K_ITE && a->a == c) a = a->b;
        if (b->k == K_ITE && b->a == c) b = b->c;
        if (a == b) return a;
        return raw(K_ITE, a->w, c, a, b);
    }
    static bool shortIte(Expr* e) { return e->k == K_ITE && isC(e->b) && isC(e->c); }
    // division whose operands are known to be small is done at the smaller width
    Expr* narrowDiv(Kind k, Expr* a, Expr* b) {
        unsigned w = a->w; if (w > 64 || w <= 8 || !isC(b) || b->v == 0) return nullptr;
        unsigned n = 8; while (n < w && ((a->hi >> n) || ((uint64_t)b->v >> n))) n += 4;
        if (n >= w) return nullptr;
        return zext(bin(k, extract(a, n - 1, 0), extract(b, n - 1, 0)), w);
    }
    // operands that share no set bit: or, xor and add are all the concatenation
    Expr* disjoint(unsigned w, Expr* a, Expr* b) {
        if (w > 1) {
                // concat(x, 0_k) | zext(y, <=k bits)  ->  concat(x, y')
                for (int s = 0; s < 2; s++) {
                Expr* p = s ? b : a; Expr* q = s ? a : b;
                if (p->k == K_CONCAT) {
                    Expr* t = p; // find trailing zero constant
                    while (t->k == K_CONCAT) t = t->b;
                    if (isCv(t, 0) && q->w <= 128) {
                        unsigned k0 = t->w; bool fits = (q->k == K_ZEXT && q->a->w <= k0) || (q->w <= 64 && k0 < 64 && (q->hi >> k0) == 0);
                        if (fits) return concat(extract(p, w - 1, k0), extract(q, k0 - 1, 0));
                    }
                } else if (p->k == K_ZEXT && p->a->k == K_CONCAT) {
                    Expr* t = p->a; while (t->k == K_CONCAT) t = t->b;
                    if (isCv(t, 0)) {
                        unsigned k0 = t->w; bool fits = (q->k == K_ZEXT && q->a->w <= k0) || (q->w <= 64 && k0 < 64 && (q->hi >> k0) == 0);
                        if (fits) return concat(extract(p, w - 1, k0), extract(q, k0 - 1, 0));
                    }
                }
                }
            }
        return nullptr;
    }
    Expr* bin(Kind k, Expr* a, Expr* b) {
        unsigned w = a->w;
        if (isC(a) && isC(b)) {
            u128 x = a->v, y = b->v;
            switch (k) {
            case K_ADD: return con(x + y, w);
            case K_SUB: return con(x - y, w);
            case K_MUL: return con(x * y, w);
            case K_UDIV: if (y) return con(x / y, w); break;
            case K_UREM: if (y) return con(x % y, w); break;
            case K_SDIV: if (y) return con((u128)(sx(x, w) / sx(y, w)), w); break;
            case K_SREM: if (y) return con((u128)(sx(x, w) % sx(y, w)), w); break;
            case K_AND: return con(x & y, w);
            case K_OR: return con(x | y, w);
            case K_XOR: return con(x ^ y, w);
            case K_SHL: return con(y >= w ? 0 : x << (unsigned)y, w);
            case K_LSHR: return con(y >= w ? 0 : x >> (unsigned)y, w);
            case K_ASHR: return con((u128)(sx(x, w) >> (y >= w ? w - 1 : (unsigned)y)), w);
            default: break;
            }
        }
        bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
        if (comm) { if (isC(b) || (!isC(a) && a->id > b->id)) std::swap(a, b); if (isC(b)) std::swap(a, b); }
        // push through ite of constants
        if (w > 1 && isC(a) && shortIte(b)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
        if (w > 1 && isC(b) && shortIte(a) && !(isCv(b, 0) && (k == K_UDIV || k == K_UREM || k == K_SDIV || k == K_SREM))) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
        switch (k) {
        case K_ADD:
            if (w == 1) return bin(K_XOR, a, b);
            if (isCv(a, 0)) return b;
            if (isC(a)) {
                if (b->k == K_ADD && isC(b->a)) return bin(K_ADD, con(a->v + b->a->v, w), b->b);
                if (b->k == K_SUB && isC(b->a)) return bin(K_SUB, con(a->v + b->a->v, w), b->b);
            } else {
                if (a->k == K_ADD && isC(a->a)) return bin(K_ADD, a->a, bin(K_ADD, a->b, b));
                if (b->k == K_ADD && isC(b->a)) return bin(K_ADD, b->a, bin(K_ADD, a, b->b));
                if (a->k == K_SUB && a->b == b) return a->a;
                if (b->k == K_SUB && b->b == a) return b->a;
            }
            if (Expr* r = disjoint(w, a, b)) return r;
            break;
        case K_SUB:
            if (w == 1) return bin(K_XOR, a, b);
            if (isCv(b, 0)) return a;
            if (a == b) return con(0, w);
            if (isC(b)) return bin(K_ADD, con(-b->v, w), a);
            if (a->k == K_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; if (isC(a->a)) return bin(K_ADD, a->a, bin(K_SUB, a->b, b)); }
            if (b->k == K_ADD && isC(b->a)) return bin(K_ADD, con(-b->a->v, w), bin(K_SUB, a, b->b));
            if (b->k == K_ADD) { if (b->a == a) return bin(K_SUB, con(0, w), b->b); if (b->b == a) return bin(K_SUB, con(0, w), b->a); }
            break;
        case K_MUL:
            if (w == 1) return bin(K_AND, a, b);
            if (isCv(a, 0)) return a;
            if (isCv(a, 1)) return b;
            if (isC(a)) { for (unsigned i = 1; i < w; i++) if (a->v == ((u128)1 << i)) return bin(K_SHL, b, con(i, w));
                if (b->k == K_MUL && isC(b->a)) return bin(K_MUL, con(a->v * b->a->v, w), b->b);
            }
            break;
        case K_UDIV:
            if (isCv(b, 1)) return a;
            if (isC(b)) for (unsigned i = 1; i < w; i++) if (b->v == ((u128)1 << i)) return bin(K_LSHR, a, con(i, w));
            if (w <= 64 && isC(b) && a->hi < b->v) return con(0, w);
            if (Expr* r = narrowDiv(k, a, b)) return r;
            break;
        case K_UREM:
            if (isCv(b, 1)) return con(0, w);
            if (isC(b)) for (unsigned i = 1; i < w; i++) if (b->v == ((u128)1 << i)) return zext(extract(a, i - 1, 0), w);
            if (w <= 64 && isC(b) && a->hi < b->v) return a;
            if (Expr* r = narrowDiv(k, a, b)) return r;
            break;
        case K_SDIV: case K_SREM:
            if (w <= 64 && isC(b) && !((b->v >> (w - 1)) & 1) && b->v && !((a->hi >> (w - 1)) & 1)) return bin(k == K_SDIV ? K_UDIV : K_UREM, a, b);
            break;
        case K_AND:
            if (isCv(a, 0)) return a;
            if (isCv(a, maskw(w))) return b;
            if (a == b) return a;
            if (w == 1 && isNotOf(a, b)) return con(0, 1);
            if (isC(a)) {
                if (b->k == K_AND && isC(b->a)) return bin(K_AND, con(a->v & b->a->v, w), b->b);
                for (unsigned i = 1; i < w; i++) if (a->v == maskw(i)) return zext(extract(b, i - 1, 0), w);
                if (b->k == K_ZEXT) return zext(bin(K_AND, con(a->v, b->a->w), b->a), w);
                if (b->k == K_CONCAT) return concat(bin(K_AND, con(a->v >> b->b->w, b->a->w), b->a), bin(K_AND, con(a->v, b->b->w), b->b));
                // high mask: clear the low i bits
                for (unsigned i = 1; i < w; i++) if (a->v == (maskw(w) & ~maskw(i))) return concat(extract(b, w - 1, i), con(0, i));
            }
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return zext(bin(K_AND, a->a, b->a), w);
            if (w == 1) { if (b->k == K_AND && (b->a == a || b->b == a)) return b; if (a->k == K_AND && (a->a == b || a->b == b)) return a; }
            break;
        case K_OR:
            if (isCv(a, 0)) return b;
            if (isCv(a, maskw(w))) return a;
            if (a == b) return a;
            if (w == 1 && isNotOf(a, b)) return con(1, 1);
            if (isC(a) && b->k == K_OR && isC(b->a)) return bin(K_OR, con(a->v | b->a->v, w), b->b);
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return zext(bin(K_OR, a->a, b->a), w);
            if (Expr* r = disjoint(w, a, b)) return r;
            break;
        case K_XOR:
            if (isCv(a, 0)) return b;
            if (a == b) return con(0, w);
            if (w == 1 && isCv(a, 1)) return lnot(b);
            if (isC(a) && b->k == K_XOR && isC(b->a)) return bin(K_XOR, con(a->v ^ b->a->v, w), b->b);
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return zext(bin(K_XOR, a->a, b->a), w);
            if (Expr* r = disjoint(w, a, b)) return r;
            if (!isC(a) && a->k == K_XOR && isC(a->a)) return bin(K_XOR, a->a, bin(K_XOR, a->b, b));
            if (!isC(a) && b->k == K_XOR && isC(b->a)) return bin(K_XOR, b->a, bin(K_XOR, a, b->b));
            break;
        case K_SHL:
            if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return con(0, w); unsigned s = (unsigned)b->v; return concat(extract(a, w - 1 - s, 0), con(0, s)); }
            break;
        case K_LSHR:
            if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return con(0, w); unsigned s = (unsigned)b->v; return zext(extract(a, w - 1, s), w); }
            break;
        case K_ASHR:
            if (isC(b)) { if (b->v == 0) return a; unsigned s = b->v >= w ? w - 1 : (unsigned)b->v; return sext(extract(a, w - 1, s), w); }
            break;
        default: break;
        }
        return raw(k, w, a, b);
    }
    Expr* eq(Expr* a, Expr* b) {
        if (a == b) return tru();
        if (isC(a) && isC(b)) return con(a->v == b->v, 1);
        unsigned w = a->w;
        if (isC(b) || (!isC(a) && a->id > b->id)) std::swap(a, b);
        if (isC(b)) std::swap(a, b);
        if (w == 1) { if (isC(a)) return a->v ? b : lnot(b); if (isNotOf(a, b)) return fals(); }
        if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return fals();
        if (isC(a)) {
            switch (b->k) {
            case K_ZEXT: if (a->v >> b->a->w) return fals(); return eq(con(a->v, b->a->w), b->a);
            case K_SEXT: { u128 l = a->v & maskw(b->a->w); if (((u128)sx(l, b->a->w) & maskw(w)) != a->v) return fals(); return eq(con(l, b->a->w), b->a); }
            case K_CONCAT: return land(eq(con(a->v >> b->b->w, b->a->w), b->a), eq(con(a->v, b->b->w), b->b));
            case K_ADD: if (isC(b->a)) return eq(con(a->v - b->a->v, w), b->b); break;
            case K_SUB: if (isC(b->a)) return eq(con(b->a->v - a->v, w), b->b); if (a->v == 0) return eq(b->a, b->b); break;
            case K_XOR: if (isC(b->a)) return eq(con(a->v ^ b->a->v, w), b->b); if (a->v == 0) return eq(b->a, b->b); break;
            case K_ITE:
                if (isC(b->b) || isC(b->c)) return ite(b->a, eq(a, b->b), eq(a, b->c));
                break;
            default: break;
            }
        } else {
            if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned m = std::max<unsigned>(a->a->w, b->a->w); return eq(zext(a->a, m), zext(b->a, m)); }
            if (a->k == K_ADD && b->k == K_ADD && isC(a->a) && a->a == b->a) return eq(a->b, b->b);
            if (a->k == K_ADD && isC(a->a) && a->b == b) return eq(a->a, con(0, w));
            if (b->k == K_ADD && isC(b->a) && b->b == a) return eq(b->a, con(0, w));
        }
        return raw(K_EQ, 1, a, b);
    }
    Expr* cmp(Kind k, Expr* a, Expr* b) {
        unsigned w = a->w;
        if (isC(a) && isC(b)) {
            bool r = false;
            switch (k) { case K_ULT: r = a->v < b->v; break; case K_ULE: r = a->v <= b->v; break;
            case K_SLT: r = sx(a->v, w) < sx(b->v, w); break; case K_SLE: r = sx(a->v, w) <= sx(b->v, w); break; default: abort(); }
            return con(r, 1);
        }
        if (a == b) return con(k == K_ULE || k == K_SLE, 1);
        if (w == 1) {
            if (k == K_ULT || k == K_SLE) return k == K_ULT ? land(lnot(a), b) : lor(a, lnot(b));
            return k == K_ULE ? lor(lnot(a), b) : land(a, lnot(b));
        }
        if (w <= 64) {
            bool an = (a->hi >> (w - 1)) & 1, bn = (b->hi >> (w - 1)) & 1;
            bool an0 = (a->lo >> (w - 1)) & 1, bn0 = (b->lo >> (w - 1)) & 1;
            if (k == K_SLT || k == K_SLE) {
                if (!an && !bn) k = k == K_SLT ? K_ULT : K_ULE;
                else if (an0 && bn0) k = k == K_SLT ? K_ULT : K_ULE;
                else if (an0 && !bn) return tru();
                else if (!an && bn0) return fals();
            }
            if (k == K_ULT) { if (a->hi < b->lo) return tru(); if (a->lo >= b->hi) return fals(); }
            if (k == K_ULE) { if (a->hi <= b->lo) return tru(); if (a->lo > b->hi) return fals(); }
        }
        if (k == K_ULT && isCv(b, 1)) return eq(con(0, w), a);
        if (k == K_ULE && isCv(a, 1)) return lnot(eq(con(0, w), b));
        if (k == K_ULT && isCv(a, 0)) return lnot(eq(con(0, w), b));
        if (k == K_ULE && isCv(b, 0)) return eq(con(0, w), a);
        if (k == K_ULT || k == K_ULE) {
            auto narrow = [&](Expr* x) -> unsigned { return x->k == K_ZEXT ? x->a->w : x->w; };
            if ((a->k == K_ZEXT || isC(a)) && (b->k == K_ZEXT || isC(b))) {
                unsigned m = 1; if (a->k == K_ZEXT) m = std::max<unsigned>(m, narrow(a)); if (b->k == K_ZEXT) m = std::max<unsigned>(m, narrow(b));
                bool ok = m < w; if (isC(a) && (a->v >> m)) ok = false; if (isC(b) && (b->v >> m)) ok = false;
                if (ok) return cmp(k, extract(a, m - 1, 0), extract(b, m - 1, 0));
            }
        }
        if ((k == K_SLT || k == K_SLE) && a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return cmp(k, a->a, b->a);
        if ((k == K_SLT || k == K_SLE) && w <= 64) {
            // sext(x) vs constant representable in x's width
            for (int s = 0; s < 2; s++) { Expr* x = s ? b : a; Expr* c = s ? a : b;
                if (x->k == K_SEXT && isC(c)) { unsigned iw = x->a->w; i128 cv = sx(c->v, w);
                    if (cv >= -((i128)1 << (iw - 1)) && cv < ((i128)1 << (iw - 1))) return s ? cmp(k, con((u128)cv, iw), x->a) : cmp(k, x->a, con((u128)cv, iw)); } }
        }
        if (isC(a) && shortIte(b)) return ite(b->a, cmp(k, a, b->b), cmp(k, a, b->c));
        if (isC(b) && shortIte(a)) return ite(a->a, cmp(k, a->b, b), cmp(k, a->c, b));
        return raw(k, 1, a, b);
    }
    Expr* rebuild(Expr* e, Expr* a, Expr* b, Expr* c) {
        switch (e->k) {
        case K_CONST: case K_SYM: return e;
        case K_CONCAT: return concat(a, b);
        case K_EXTRACT: return extract(a, e->aux + e->w - 1, e->aux);
        case K_ZEXT: return zext(a, e->w);
        case K_SEXT: return sext(a, e->w);
        case K_EQ: return eq(a, b);
        case K_ULT: case K_ULE: case K_SLT: case K_SLE: return cmp(e->k, a, b);
        case K_ITE: return ite(a, b, c);
        case K_FBIN: return fbin(e->aux, a, b); case K_FCMP: return fcmp(e->aux, a, b); case K_FCONV: return fconv(e->aux, a, e->w);
        default: return bin(e->k, a, b);
        }
    }
    // evaluation under an assignment of symbols (w<=64 only)
    void newEval() { evalEpoch++; }
    u128 eval128(Expr* e, const std::vector<uint64_t>& m) {
        if (e->w <= 64) return eval(e, m);
        switch (e->k) {
        case K_CONST: return e->v;
        case K_CONCAT: return (eval128(e->a, m) << e->b->w) | eval128(e->b, m);
        case K_ZEXT: return eval128(e->a, m);
        case K_SEXT: return (u128)sx(eval128(e->a, m), e->a->w) & maskw(e->w);
        case K_EXTRACT: return (eval128(e->a, m) >> e->aux) & maskw(e->w);
        case K_ITE: return eval(e->a, m) ? eval128(e->b, m) : eval128(e->c, m);
        default: { u128 x = eval128(e->a, m), y = eval128(e->b, m); Expr* r = bin(e->k, con(x, e->w), con(y, e->w)); return isC(r) ? r->v : 0; }
        }
    }
    uint64_t eval(Expr* e, const std::vector<uint64_t>& m) {
        if (e->k == K_CONST) return (uint64_t)e->v;
        if (e->k == K_SYM) return e->aux < m.size() ? m[e->aux] & (uint64_t)maskw(e->w) : 0;
        if (e->ee == evalEpoch) return e->ev;
        uint64_t r = 0, x, y; unsigned w = e->w; uint64_t mk = (uint64_t)maskw(w);
        switch (e->k) {
        case K_CONCAT: r = (eval(e->a, m) << e->b->w) | eval(e->b, m); break;
        case K_EXTRACT: if (e->a->w > 64) r = (uint64_t)(eval128(e->a, m) >> e->aux); else r = eval(e->a, m) >> e->aux; break;
        case K_ZEXT: r = eval(e->a, m); break;
        case K_SEXT: r = (uint64_t)sx(eval(e->a, m), e->a->w); break;
        case K_ITE: r = eval(e->a, m) ? eval(e->b, m) : eval(e->c, m); break;
        case K_FBIN: r = fpBin(e->aux, w, eval(e->a, m), eval(e->b, m)); break; case K_FCMP: r = fpCmp(e->aux, e->a->w, eval(e->a, m), eval(e->b, m)); break; case K_FCONV: r = fpConv(e->aux, w, e->a->w, eval(e->a, m)); break;
        case K_EQ: if (e->a->w > 64) r = eval128(e->a, m) == eval128(e->b, m); else r = eval(e->a, m) == eval(e->b, m); break;
        case K_ULT: if (e->a->w > 64) r = eval128(e->a, m) < eval128(e->b, m); else r = eval(e->a, m) < eval(e->b, m); break;
        case K_ULE: if (e->a->w > 64) r = eval128(e->a, m) <= eval128(e->b, m); else r = eval(e->a, m) <= eval(e->b, m); break;
        case K_SLT: r = sx(eval128(e->a, m), e->a->w) < sx(eval128(e->b, m), e->a->w); break;
        case K_SLE: r = sx(eval128(e->a, m), e->a->w) <= sx(eval128(e->b, m), e->a->w); break;
        default:
            x = eval(e->a, m); y = eval(e->b, m);
            switch (e->k) {
            case K_ADD: r = x + y; break;
            case K_SUB: r = x - y; break;
            case K_MUL: r = x * y; break;
            case K_UDIV: r = y ? x / y : mk; break;
            case K_UREM: r = y ? x % y : x; break;
            case K_SDIV: { i128 p = sx(x, w), q = sx(y, w); r = q ? (uint64_t)(p / q) : (p < 0 ? 1 : mk); break; }
            case K_SREM: { i128 p = sx(x, w), q = sx(y, w); r = q ? (uint64_t)(p % q) : x; break; }
            case K_AND: r = x & y; break;
            case K_OR: r = x | y; break;
            case K_XOR: r = x ^ y; break;
            case K_SHL: r = y >= w ? 0 : x << y; break;
            case K_LSHR: r = y >= w ? 0 : x >> y; break;
            case K_ASHR: r = (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)); break;
            default: abort();
            }
        }
        r &= mk;
        e->ee = evalEpoch; e->ev = r;
        return r;
    }
};

struct Z3T {
    Z3_context c; Z3_sort bools;
    void init() {
        Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); c = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
        Z3_set_ast_print_mode(c, Z3_PRINT_SMTLIB2_COMPLIANT);
    }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(c, a); return a; }
    Z3_sort sorts[257] = {}; Z3_ast one1 = nullptr, zero1 = nullptr; // in a reference counted context an unreferenced result lives only until the next call
    Z3_sort bv(unsigned w) { if (w > 256) abort(); if (!sorts[w]) { sorts[w] = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, Z3_sort_to_ast(c, sorts[w])); } return sorts[w]; }
    Z3_ast b2v(Z3_ast b) { if (!one1) { one1 = keep(Z3_mk_unsigned_int(c, 1, bv(1))); zero1 = keep(Z3_mk_unsigned_int(c, 0, bv(1))); } return keep(Z3_mk_ite(c, b, one1, zero1)); }
    // width-1 expressions are Z3 Bools
    Z3_ast asBv(Expr* e) { Z3_ast z = tr(e); return e->w == 1 ? b2v(z) : z; }
    Z3_ast asBool(Expr* e, Z3_ast z) { return z; }
    Z3_ast v2b(Z3_ast v) { if (!one1) { one1 = keep(Z3_mk_unsigned_int(c, 1, bv(1))); zero1 = keep(Z3_mk_unsigned_int(c, 0, bv(1))); } return keep(Z3_mk_eq(c, v, one1)); }
    Z3_ast symAst(uint32_t n, unsigned w) { char nm[32]; snprintf(nm, sizeof nm, "s%u_%u", n, w); return Z3_mk_const(c, Z3_mk_string_symbol(c, nm), w == 1 ? Z3_mk_bool_sort(c) : bv(w)); }
    Z3_ast tr(Expr* root) {
        if (root->z) return root->z;
        // iterative post-order to survive deep DAGs
        std::vector<Expr*> st{root};
        while (!st.empty()) {
            Expr* e = st.back();
            if (e->z) { st.pop_back(); continue; }
            bool ready = true;
            for (Expr* ch : {e->a, e->b, e->c}) if (ch && !ch->z) { st.push_back(ch); ready = false; }
            if (!ready) continue;
            st.pop_back();
            e->z = keep(one(e));
        }
        return root->z;
    }
    Z3_sort f64 = nullptr, f32 = nullptr; Z3_ast rneA = nullptr;
    Z3_sort fs(unsigned w) { Z3_sort& s = w == 32 ? f32 : f64; if (!s) { s = w == 32 ? Z3_mk_fpa_sort_single(c) : Z3_mk_fpa_sort_double(c); Z3_inc_ref(c, Z3_sort_to_ast(c, s)); } return s; }
    Z3_ast rne() { if (!rneA) rneA = keep(Z3_mk_fpa_rne(c)); return rneA; }
    Z3_ast toF(Expr* e) { return keep(Z3_mk_fpa_to_fp_bv(c, asBv(e), fs(e->w))); }
    Z3_ast one(Expr* e) {
        switch (e->k) {
        case K_CONST:
            if (e->w == 1) return e->v ? Z3_mk_true(c) : Z3_mk_false(c);
            if (e->w <= 64) return Z3_mk_unsigned_int64(c, (uint64_t)e->v, bv(e->w));
            return Z3_mk_concat(c, keep(Z3_mk_unsigned_int64(c, (uint64_t)(e->v >> 64), bv(e->w - 64))), keep(Z3_mk_unsigned_int64(c, (uint64_t)e->v, bv(64))));
        case K_SYM: return symAst(e->aux, e->w);
        case K_CONCAT: return Z3_mk_concat(c, asBv(e->a), asBv(e->b));
        case K_EXTRACT: { Z3_ast z = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, asBv(e->a)); return e->w == 1 ? v2b(keep(z)) : z; }
        case K_ZEXT: return Z3_mk_zero_ext(c, e->w - e->a->w, asBv(e->a));
        case K_SEXT: return Z3_mk_sign_ext(c, e->w - e->a->w, asBv(e->a));
        case K_ITE: return Z3_mk_ite(c, e->a->z, e->b->z, e->c->z);
        case K_EQ: return Z3_mk_eq(c, e->a->z, e->b->z);
        case K_ULT: return Z3_mk_bvult(c, asBv(e->a), asBv(e->b));
        case K_ULE: return Z3_mk_bvule(c, asBv(e->a), asBv(e->b));
        case K_SLT: return Z3_mk_bvslt(c, asBv(e->a), asBv(e->b));
        case K_SLE: return Z3_mk_bvsle(c, asBv(e->a), asBv(e->b));
        case K_FBIN: { Z3_ast x = toF(e->a), y = toF(e->b), m = rne(); return keep(Z3_mk_fpa_to_ieee_bv(c, keep(e->aux == FO_ADD ? Z3_mk_fpa_add(c, m, x, y) : e->aux == FO_SUB ? Z3_mk_fpa_sub(c, m, x, y) : e->aux == FO_MUL ? Z3_mk_fpa_mul(c, m, x, y) : Z3_mk_fpa_div(c, m, x, y)))); }
        case K_FCMP: { Z3_ast x = toF(e->a), y = toF(e->b); std::vector<Z3_ast> v; if (e->aux & 1) v.push_back(keep(Z3_mk_fpa_eq(c, x, y))); if (e->aux & 2) v.push_back(keep(Z3_mk_fpa_gt(c, x, y))); if (e->aux & 4) v.push_back(keep(Z3_mk_fpa_lt(c, x, y))); if (e->aux & 8) { v.push_back(keep(Z3_mk_fpa_is_nan(c, x))); v.push_back(keep(Z3_mk_fpa_is_nan(c, y))); } if (v.empty()) return Z3_mk_false(c); return Z3_mk_or(c, (unsigned)v.size(), v.data()); }
        case K_FCONV: switch (e->aux) {
            case FC_SI2F: return keep(Z3_mk_fpa_to_ieee_bv(c, keep(Z3_mk_fpa_to_fp_signed(c, rne(), asBv(e->a), fs(e->w)))));
            case FC_UI2F: return keep(Z3_mk_fpa_to_ieee_bv(c, keep(Z3_mk_fpa_to_fp_unsigned(c, rne(), asBv(e->a), fs(e->w)))));
            case FC_F2SI: case FC_F2UI: { // out of range gives what the processor gives
                Z3_ast x = toF(e->a), rtz = keep(Z3_mk_fpa_rtz(c)); bool sg = e->aux == FC_F2SI; double lim = sg ? std::ldexp(1.0, e->w - 1) : std::ldexp(1.0, e->w);
                Z3_ast in[2] = {keep(Z3_mk_fpa_lt(c, x, keep(Z3_mk_fpa_numeral_double(c, lim, fs(e->a->w))))), keep(Z3_mk_fpa_gt(c, x, keep(Z3_mk_fpa_numeral_double(c, sg ? -lim - (e->w < 53 ? 1 : 0) : -1.0, fs(e->a->w)))))};
                Z3_ast both = keep(Z3_mk_and(c, 2, in)); Z3_ast cv = keep(sg ? Z3_mk_fpa_to_sbv(c, rtz, x, e->w) : Z3_mk_fpa_to_ubv(c, rtz, x, e->w)); Z3_ast mn = keep(Z3_mk_unsigned_int64(c, 1ull << (e->w - 1), bv(e->w)));
                return Z3_mk_ite(c, both, cv, mn); }
            default: return keep(Z3_mk_fpa_to_ieee_bv(c, keep(Z3_mk_fpa_to_fp_float(c, rne(), toF(e->a), fs(e->w))))); }
        default: break;
        }
        if (e->w == 1) {
            Z3_ast ab[2] = {e->a->z, e->b->z};
            switch (e->k) {
            case K_AND: return Z3_mk_and(c, 2, ab);
            case K_OR: return Z3_mk_or(c, 2, ab);
            case K_XOR: return isCv(e->a, 1) ? Z3_mk_not(c, ab[1]) : Z3_mk_xor(c, ab[0], ab[1]);
            default: break;
            }
        }
        Z3_ast x = asBv(e->a), y = asBv(e->b), r;
        switch (e->k) {
        case K_ADD: r = Z3_mk_bvadd(c, x, y); break;
        case K_SUB: r = Z3_mk_bvsub(c, x, y); break;
        case K_MUL: r = Z3_mk_bvmul(c, x, y); break;
        case K_UDIV: r = Z3_mk_bvudiv(c, x, y); break;
        case K_SDIV: r = Z3_mk_bvsdiv(c, x, y); break;
        case K_UREM: r = Z3_mk_bvurem(c, x, y); break;
        case K_SREM: r = Z3_mk_bvsrem(c, x, y); break;
        case K_AND: r = Z3_mk_bvand(c, x, y); break;
        case K_OR: r = Z3_mk_bvor(c, x, y); break;
        case K_XOR: r = Z3_mk_bvxor(c, x, y); break;
        case K_SHL: r = Z3_mk_bvshl(c, x, y); break;
        case K_LSHR: r = Z3_mk_bvlshr(c, x, y); break;
        case K_ASHR: r = Z3_mk_bvashr(c, x, y); break;
        default: abort();
        }
        return e->w == 1 ? v2b(keep(r)) : r;
    }
};
