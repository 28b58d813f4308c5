// symx: a path-exploring symbolic executor for LLVM IR.  Z3 decides every branch, memory bound and assertion
// that depends on a symbolic value.  See /verif/DESIGN.md for what it models and what it trusts.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <cerrno>
#include <sys/resource.h>
#include <unistd.h>
#include <ctime>
#include <cmath>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <functional>
#include <memory>
using namespace llvm;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static ExprPool P;
static Z3T Z;
static const uint32_t FUNC_BASE = 0x60000000u;
static const uint64_t MUXMAX = 2048;
static const uint8_t JUNK = 0xBE;

// ------------------------------------------------------------------ options / shared statistics
struct Shared {
    int tokens; volatile int stop; volatile int nviol; int nworkers;
    uint64_t paths, steps, forks, queries, qsat, qunsat, qunknown, qcached, qmodel, checks, checksTrivial, checksUnsat, checksViol, killedAssume, incomplete, asserted;
    double solverTime; double maxQuery;
};
static Shared* SH;
static struct { int jobs = 1; double timeout = 1e9; uint64_t maxSteps = 20000000; uint64_t maxPaths = ~0ull; unsigned rlimit = 40000000; std::string out; std::map<std::string, int64_t> params; std::vector<std::string> known; int maxViol = 6; bool verbose = false; bool debug = false; std::string dump; int noleak = 0; uint64_t memLimit = 3ull << 30; uint64_t sleepAfter = 0; } OPT;
static double T0;
#define ATOMIC_ADD(f, v) __atomic_add_fetch(&SH->f, (v), __ATOMIC_RELAXED)

// ------------------------------------------------------------------ values
struct Val { Expr* e; uint64_t c; };
static inline Val cv(uint64_t c) { return Val{nullptr, c}; }
static inline Expr* toE(Val v, unsigned w) { return v.e ? v.e : P.con(v.c, w); }
static inline Val fromE(Expr* e) { if (e->k == K_CONST && e->w <= 64) return cv((uint64_t)e->v); return Val{e, 0}; }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

// ------------------------------------------------------------------ memory
template <class T> struct Ref { // non-atomic intrusive pointer
    T* p = nullptr;
    Ref() {} Ref(T* x) : p(x) { if (p) p->rc++; } Ref(const Ref& o) : p(o.p) { if (p) p->rc++; } Ref(Ref&& o) : p(o.p) { o.p = nullptr; }
    Ref& operator=(const Ref& o) { if (o.p) o.p->rc++; T* q = p; p = o.p; if (q && --q->rc == 0) delete q; return *this; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    T* operator->() const { return p; } explicit operator bool() const { return p; }
};
static const unsigned PG = 256;
struct Page { int rc = 0; uint8_t b[PG]; Expr** s = nullptr;
    Page() {} Page(const Page& o) { memcpy(b, o.b, PG); if (o.s) { s = (Expr**)malloc(PG * sizeof(Expr*)); memcpy(s, o.s, PG * sizeof(Expr*)); } }
    ~Page() { free(s); } };
enum { OF_CONST = 1, OF_HEAP = 2, OF_STACK = 4, OF_GLOBAL = 8, OF_SHARED = 16, OF_REPOHEAP = 32 };
struct Obj { int rc = 0; uint32_t size = 0; uint32_t flags = 0; const Instruction* site = nullptr; uint32_t seq = 0; std::vector<Ref<Page>> pg; };
static Ref<Page> junkPage, zeroPage;
static Ref<Obj> FREED_HEAP, FREED_STACK;
static const unsigned CH = 64;
struct Chunk { int rc = 0; Ref<Obj> o[CH]; };
struct Mem {
    std::vector<Ref<Chunk>> ch;
    Obj* get(uint32_t id) const { uint32_t c = id / CH; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id % CH].p; }
    Ref<Obj>& slot(uint32_t id) {
        uint32_t c = id / CH; if (c >= ch.size()) ch.resize(c + 1);
        if (!ch[c]) ch[c] = Ref<Chunk>(new Chunk()); else if (ch[c]->rc > 1) { Chunk* n = new Chunk(); for (unsigned i = 0; i < CH; i++) n->o[i] = ch[c]->o[i]; ch[c] = Ref<Chunk>(n); }
        return ch[c]->o[id % CH];
    }
    Obj* wr(uint32_t id) { Ref<Obj>& s = slot(id); if (s->rc > 1) { Obj* n = new Obj(*s.p); n->rc = 0; s = Ref<Obj>(n); } return s.p; }
    static Page* wpage(Obj* o, uint32_t i) { Ref<Page>& p = o->pg[i]; if (p->rc > 1) { Page* n = new Page(*p.p); n->rc = 0; p = Ref<Page>(n); } return p.p; }
};
static inline Expr* rdByte(const Obj* o, uint32_t off) { const Page* p = o->pg[off / PG].p; unsigned i = off % PG; if (p->s && p->s[i]) return p->s[i]; return P.con(p->b[i], 8); }
static inline bool rdSym(const Obj* o, uint32_t off) { const Page* p = o->pg[off / PG].p; return p->s && p->s[off % PG]; }
static void wrByte(Obj* o, uint32_t off, Expr* e) {
    Page* p = Mem::wpage(o, off / PG); unsigned i = off % PG;
    if (isC(e)) { p->b[i] = (uint8_t)e->v; if (p->s) p->s[i] = nullptr; }
    else { if (!p->s) p->s = (Expr**)calloc(PG, sizeof(Expr*)); p->s[i] = e; }
}
static Val rdVal(const Obj* o, uint32_t off, unsigned w) { // w bits
    unsigned n = (w + 7) / 8; bool sym = false; uint64_t c = 0;
    if (n <= 8) {
        const Page* p = o->pg[off / PG].p; unsigned i = off % PG;
        if (i + n <= PG && !p->s) { memcpy(&c, p->b + i, n); return cv(c & m64(w)); }
        for (unsigned k = 0; k < n && !sym; k++) { const Page* q = o->pg[(off + k) / PG].p; unsigned j = (off + k) % PG; if (q->s && q->s[j]) sym = true; else c |= (uint64_t)q->b[j] << (8 * k); }
        if (!sym) return cv(c & m64(w));
    }
    Expr* r = rdByte(o, off); bool run = r->k == K_EXTRACT; for (unsigned k = 1; run && k < n; k++) { Expr* x = rdByte(o, off + k); run = x->k == K_EXTRACT && x->a == r->a && x->aux == r->aux + 8 * k; }
    if (run) r = P.extract(r->a, r->aux + 8 * n - 1, r->aux); else for (unsigned k = 1; k < n; k++) r = P.concat(rdByte(o, off + k), r);
    if (r->w != w) r = P.extract(r, w - 1, 0);
    return fromE(r);
}
static void wrVal(Obj* o, uint32_t off, Val v, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!v.e) { for (unsigned k = 0; k < n;) { Page* p = Mem::wpage(o, (off + k) / PG); unsigned i = (off + k) % PG; unsigned m = std::min(n - k, PG - i); for (unsigned j = 0; j < m; j++) p->b[i + j] = (uint8_t)(k + j < 8 ? v.c >> (8 * (k + j)) : 0); if (p->s) memset(p->s + i, 0, m * sizeof(Expr*)); k += m; } return; }
    Expr* e = v.e; if (e->w != n * 8) e = P.zext(e, n * 8);
    for (unsigned k = 0; k < n; k++) wrByte(o, off + k, P.byteOf(e, k));
}

// ------------------------------------------------------------------ code
struct Opd { int r; Val k; const std::vector<Val>* pool; };
struct PhiMove { int dst; Opd src; int n; };
struct Edge { int target; std::vector<PhiMove> mv; };
struct Fn;
struct GepIdx { Opd o; unsigned w; int64_t scale; };
struct Slot { unsigned w; uint32_t off; };
struct Ext { std::vector<Opd> args; std::vector<int> argn; std::vector<unsigned> argw; std::vector<uint32_t> byval; std::vector<Edge> edges; std::vector<std::pair<u128, int>> cases; std::vector<GepIdx> gep; std::vector<Slot> slots; Fn* callee = nullptr; int handler = -1; std::string name; std::vector<uint8_t> argIsFixed; };
struct Inst { uint16_t op; uint16_t w, w2; uint16_t sub; int dst; Opd a, b, c; Ext* x; const Instruction* src; };
struct Fn { Function* f; std::string name; bool decoded = false, repo = false, reached = false; std::vector<Inst> code; int nslots = 0; std::vector<std::pair<int, int>> args; std::vector<unsigned> argw; bool vararg = false; uint32_t idx; uint64_t prof = 0; };
enum { I_BIN = 1, I_CMP, I_SEL, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_EXTRACTV, I_INSERTV, I_FP, I_FCMP, I_FCONV, I_RMW, I_CMPXCHG, I_UNSUP };

struct Frame { Fn* fn; int pc; std::vector<Val> R; std::vector<uint32_t> alloc; int retDst, retN; uint32_t va; };
struct Thread { std::vector<Frame> fr; bool done = false; };
struct Proc { Mem mem; std::vector<Thread> th; int cur = 0; int pid = 0; int retDst = -1; };
struct Input { uint8_t kind; uint32_t first, n; unsigned w; std::string name; int64_t bias; };
struct State {
    Proc p; std::vector<Proc> stack, deferred; std::vector<uint32_t> shared;
    std::vector<Expr*> cs; std::shared_ptr<std::vector<uint64_t>> model; uint32_t nsym = 0; std::vector<uint8_t> symw; std::vector<Input> inputs;
    uint64_t steps = 0; uint32_t nextObj = 0; int nextPid = 100; uint32_t depth = 0; std::vector<std::string> notes; uint64_t stepLimitBase = 0;
    std::unordered_map<Expr*, uint64_t>* known() { return kn.get(); } std::shared_ptr<std::unordered_map<Expr*, uint64_t>> kn;
};

static LLVMContext LC; static std::unique_ptr<Module> MOD; static const DataLayout* DL;
static std::unordered_map<const Function*, Fn*> fnMap; static std::vector<Fn*> fns;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::set<std::string> repoFns, repoGlobals; static std::map<std::string, uint64_t> reach; static std::map<std::string, uint64_t> noteCnt;
static std::vector<State*> work; static State* S; static bool alive; // alive: current state continues
static std::map<std::string, uint64_t> forkSites, querySites;
static std::string resultPath(int pid) { return OPT.out + "." + std::to_string(pid) + ".part"; }
static std::vector<std::string> partLines; // violations etc. of this worker
static std::vector<std::string> sampleInputs;

static inline uint64_t baseOf(uint32_t id) { return ((uint64_t)id + 1) << 32; }
static inline Frame& F() { return S->p.th[S->p.cur].fr.back(); }

// ------------------------------------------------------------------ solver
struct Res { int r; std::shared_ptr<std::vector<uint64_t>> m; }; // 1 sat 0 unsat -1 unknown
struct QKey { std::vector<uint32_t> v; bool operator==(const QKey& o) const { return v == o.v; } };
struct QHash { size_t operator()(const QKey& k) const { uint64_t h = 1; for (auto x : k.v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0x2545F4914F6CDD1Dull; } return h; } };
struct QVal { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<QKey, QVal, QHash> qcache;
static Z3_solver zs = nullptr; static int zsUses = 0; static uint64_t dumpN = 0;
static std::vector<uint8_t> symMark;
static Z3_solver mkSolver(bool tactic) {
    Z3_solver s;
    if (tactic) { Z3_tactic t = Z3_mk_tactic(Z.c, "qfbv"); Z3_tactic_inc_ref(Z.c, t); s = Z3_mk_solver_from_tactic(Z.c, t); Z3_tactic_dec_ref(Z.c, t); }
    else s = Z3_mk_simple_solver(Z.c);
    Z3_solver_inc_ref(Z.c, s); return s;
}
static Z3_lbool zcheck(Z3_solver s, const std::vector<Expr*>& q, unsigned rl, QVal& out, const std::vector<uint32_t>& syms, uint32_t fixed = 0, unsigned fw = 0, uint64_t fv = 0) {
    Z3_params ps = Z3_mk_params(Z.c); Z3_params_inc_ref(Z.c, ps); Z3_params_set_uint(Z.c, ps, Z3_mk_string_symbol(Z.c, "rlimit"), rl); Z3_solver_set_params(Z.c, s, ps); Z3_params_dec_ref(Z.c, ps);
    Z3_solver_push(Z.c, s);
    for (Expr* e : q) Z3_solver_assert(Z.c, s, Z.tr(e));
    if (fw) { Z3_ast sy = Z.symAst(fixed, fw); Z3_solver_assert(Z.c, s, fw == 1 ? (fv ? sy : Z3_mk_not(Z.c, sy)) : Z3_mk_eq(Z.c, sy, Z3_mk_unsigned_int64(Z.c, fv, Z3_get_sort(Z.c, sy)))); }
    Z3_lbool r = Z3_solver_check(Z.c, s);
    if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(Z.c, s); Z3_model_inc_ref(Z.c, m);
        for (uint32_t id : syms) {
            // find width from pool: symbol ASTs are named with the width; syms carry index only
            unsigned w = S->symw[id];
            Z3_ast sy = Z.symAst(id, w), v = nullptr; uint64_t val = 0;
            if (Z3_model_eval(Z.c, m, sy, true, &v)) { if (w == 1) val = Z3_get_bool_value(Z.c, v) == Z3_L_TRUE; else { uint64_t u; if (Z3_get_numeral_uint64(Z.c, v, &u)) val = u; } }
            out.m.push_back({id, val});
        }
        Z3_model_dec_ref(Z.c, m);
    }
    Z3_solver_pop(Z.c, s, 1);
    return r;
}
// symW: width of symbol n (deterministic per path prefix; re-checked on creation)

static void slice(const std::vector<Expr*>& cs, Expr* q, std::vector<Expr*>& out, std::vector<uint32_t>& syms) {
    symMark.assign(S->nsym + 1, 0);
    auto mark = [&](Expr* e) { for (uint32_t s : *e->syms) if (!symMark[s]) { symMark[s] = 1; syms.push_back(s); } };
    if (q) mark(q);
    std::vector<Expr*> rest(cs.begin(), cs.end()); bool ch = true;
    while (ch) { ch = false; std::vector<Expr*> r2;
        for (Expr* e : rest) { bool hit = false; for (uint32_t s : *e->syms) if (symMark[s]) { hit = true; break; }
            if (hit) { out.push_back(e); mark(e); ch = true; } else r2.push_back(e); }
        rest.swap(r2); }
    if (q) out.push_back(q);
}
static Res solve(Expr* q) { // S->cs && q ?
    if (isC(q)) return Res{(int)q->v, S->model};
    std::vector<Expr*> qs; std::vector<uint32_t> syms; slice(S->cs, q, qs, syms);
    QKey key; for (Expr* e : qs) key.v.push_back(e->id); std::sort(key.v.begin(), key.v.end()); key.v.erase(std::unique(key.v.begin(), key.v.end()), key.v.end());
    auto it = qcache.find(key); QVal qv;
    if (it != qcache.end()) { ATOMIC_ADD(qcached, 1); qv = it->second; }
    else {
        double t = now();
        if (!zs || zsUses++ > 20000) { if (zs) Z3_solver_dec_ref(Z.c, zs); zs = mkSolver(false); zsUses = 0; }
        QVal o; Z3_lbool r = zcheck(zs, qs, OPT.rlimit / 10, o, syms);
        auto split = [&] { // case split on one byte: every value of it must be refuted
            uint32_t id = 0; unsigned w = 0; for (uint32_t i : syms) if (S->symw[i] <= 8 && S->symw[i] > w) { id = i; w = S->symw[i]; } if (!w || syms.size() > 4) return;
            r = Z3_L_FALSE; for (uint64_t v = 0; v < (1ull << w) && r != Z3_L_TRUE; v++) { o.m.clear(); Z3_lbool x = zcheck(zs, qs, OPT.rlimit / 40, o, syms, id, w, v); if (x == Z3_L_TRUE) r = x; else if (x == Z3_L_UNDEF) { r = x; break; } } };
        if (r == Z3_L_UNDEF && syms.size() == 1) split();
        if (r == Z3_L_UNDEF) { o.m.clear(); Z3_solver s2 = mkSolver(true); r = zcheck(s2, qs, OPT.rlimit, o, syms); Z3_solver_dec_ref(Z.c, s2); }
        if (r == Z3_L_UNDEF && syms.size() > 1) split();
        o.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; qv = o; qcache[key] = o;
        t = now() - t; { double d = SH->solverTime; SH->solverTime = d + t; if (t > SH->maxQuery) SH->maxQuery = t; }
        ATOMIC_ADD(queries, 1);
        if (o.r == 1) ATOMIC_ADD(qsat, 1); else if (o.r == 0) ATOMIC_ADD(qunsat, 1); else ATOMIC_ADD(qunknown, 1);
        if (OPT.verbose && t > 0.5) fprintf(stderr, "[slow query %.2fs r=%d constraints=%zu]\n", t, o.r, qs.size());
        if (!OPT.dump.empty() && (dumpN++ % (getenv("DUMPALL") ? 1 : 97)) == 0 && dumpN < 97 * 200) {
            Z3_solver s2 = mkSolver(false); for (Expr* e : qs) Z3_solver_assert(Z.c, s2, Z.tr(e));
            std::ofstream f(OPT.dump + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumpN) + ".smt2"); f << "; expect " << (o.r == 1 ? "sat" : o.r == 0 ? "unsat" : "unknown") << "\n(set-logic QF_BV)\n" << Z3_solver_to_string(Z.c, s2) << "(check-sat)\n"; Z3_solver_dec_ref(Z.c, s2);
        }
    }
    if (qv.r == 1) {
        auto m = std::make_shared<std::vector<uint64_t>>(*S->model); if (m->size() < S->nsym) m->resize(S->nsym, 0);
        for (auto& p : qv.m) (*m)[p.first] = p.second;
        return Res{1, m};
    }
    return Res{qv.r, nullptr};
}
// substitute symbols known to be constant
static std::unordered_map<Expr*, Expr*> substMemo;
static Expr* substRec(Expr* e) {
    if (isC(e)) return e;
    auto kn = S->known();
    auto k = kn->find(e); if (k != kn->end()) return P.con(k->second, e->w);
    if (e->k == K_SYM) return e;
    auto it = substMemo.find(e); if (it != substMemo.end()) return it->second;
    Expr* a = substRec(e->a); Expr* b = e->b ? substRec(e->b) : nullptr; Expr* c = e->c ? substRec(e->c) : nullptr;
    Expr* r = (a == e->a && b == e->b && c == e->c) ? e : P.rebuild(e, a, b, c);
    substMemo[e] = r; return r;
}
static Expr* subst(Expr* e) { if (isC(e) || !S->known() || S->known()->empty()) return e; substMemo.clear(); return substRec(e); }
static void learn(Expr* c) { // record equalities
    if (c->k == K_AND && c->w == 1) { learn(c->a); learn(c->b); return; }
    Expr* key = nullptr; uint64_t v = 0;
    if (c->k == K_EQ && isC(c->a) && c->b->w <= 64 && (c->b->k == K_SYM || c->b->syms->size() <= 4)) { key = c->b; v = (uint64_t)c->a->v; }
    else if (c->w == 1 && c->k == K_XOR && isCv(c->a, 1)) { key = c->b; v = 0; }
    else { key = c; v = 1; }
    if (isC(key)) return;
    if (!S->kn) S->kn = std::make_shared<std::unordered_map<Expr*, uint64_t>>(); else if (S->kn.use_count() > 1) S->kn = std::make_shared<std::unordered_map<Expr*, uint64_t>>(*S->kn);
    (*S->kn)[key] = v;
}
static void addC(Expr* c) { if (isCv(c, 1)) return; if (c->k == K_AND && c->w == 1) { addC(c->a); addC(c->b); return; } S->cs.push_back(c); learn(c); }
static uint64_t evalM(Expr* e) { P.newEval(); return P.eval(e, *S->model); }

// ------------------------------------------------------------------ reporting
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string locOf(const Instruction* I) { if (!I) return "?"; std::string f = I->getFunction()->getName().str(); if (auto& d = I->getDebugLoc()) { auto fn = d->getFilename(); size_t p = fn.rfind('/'); return f + " (" + (p == StringRef::npos ? fn : fn.substr(p + 1)).str() + ":" + std::to_string(d.getLine()) + ")"; } return f; }
static const Instruction* curI() { Frame& f = F(); int pc = f.pc; if (pc >= 0 && pc < (int)f.fn->code.size()) return f.fn->code[pc].src; return nullptr; }
static std::string demangleShort(const std::string& n) { if (n.size() > 2 && n[0] == '_' && n[1] == 'Z') { size_t i = 2; if (i < n.size() && n[i] == 'L') i++; if (i < n.size() && isdigit(n[i])) { int l = atoi(n.c_str() + i); while (i < n.size() && isdigit(n[i])) i++; return n.substr(i, l); } } return n; }
static std::string stackTrace() {
    std::string r; auto& fr = S->p.th[S->p.cur].fr;
    for (int i = (int)fr.size() - 1; i >= 0; i--) { int pc = fr[i].pc; const Instruction* I = pc >= 0 && pc < (int)fr[i].fn->code.size() ? fr[i].fn->code[pc].src : nullptr; r += (r.empty() ? "" : " < ") + locOf(I); }
    return r;
}
static std::string repoSite() { auto& fr = S->p.th[S->p.cur].fr; for (int i = (int)fr.size() - 1; i >= 0; i--) if (fr[i].fn->repo) return demangleShort(fr[i].fn->name); return fr.empty() ? "?" : demangleShort(fr.back().fn->name); }
static std::string nmOf(const std::string& n) { std::string r = n.empty() ? "_" : n.substr(0, 63); for (auto& c : r) if (c == ' ') c = '_'; return r; }
static std::string inputsText(const std::vector<uint64_t>& m) {
    std::ostringstream o;
    for (auto& in : S->inputs) { o << "in " << (int)in.kind << " " << nmOf(in.name) << " " << in.n << " " << in.w; for (uint32_t i = 0; i < in.n; i++) { uint64_t v = in.first + i < m.size() ? m[in.first + i] & m64(in.w) : 0; o << " " << v; } o << "\n"; }
    return o.str();
}
static std::string valTextLimited() { std::string t = inputsText(*S->model); if (t.size() > 1500) t = t.substr(0, 1500) + "..."; return t; }
static bool isKnown(const std::string& sig) { for (auto& k : OPT.known) if (sig == k || (!k.empty() && k.back() == '*' && sig.compare(0, k.size() - 1, k, 0, k.size() - 1) == 0)) return true; return false; }
static std::map<std::string, int> violSeen;
static void flushPart() { std::ofstream f(resultPath(getpid()), std::ios::app); for (auto& l : partLines) f << l << "\n"; partLines.clear(); }
static void violation(const std::string& kind, const std::string& msg, const std::vector<uint64_t>& m) {
    std::string sig = kind == "check" ? "check:" + msg : kind + ":" + repoSite();
    ATOMIC_ADD(checksViol, 1);
    bool known = isKnown(sig);
    if (violSeen[sig]++ < (known ? 1 : 2)) {
        static int n = 0; char fn[512]; snprintf(fn, sizeof fn, "%s.%d.%d.cex", OPT.out.c_str(), getpid(), n++);
        std::ofstream f(fn); f << "# " << kind << ": " << msg << "\n# at " << stackTrace() << "\n"; for (auto& nt : S->notes) f << "# note " << nt << "\n";
        for (auto& p : OPT.params) f << "param " << p.first << " " << p.second << "\n"; f << inputsText(m); f.close();
        std::string l = std::string("{\"t\":\"") + (known ? "known" : "viol") + "\",\"kind\":\"" + esc(kind) + "\",\"sig\":\"" + esc(sig) + "\",\"msg\":\"" + esc(msg) + "\",\"at\":\"" + esc(stackTrace()) + "\",\"cex\":\"" + esc(fn) + "\"}";
        partLines.push_back(l); flushPart();
        if (OPT.verbose) fprintf(stderr, "VIOL %s | %s | %s\n", sig.c_str(), msg.c_str(), stackTrace().c_str());
    }
    if (!known) { int c = __atomic_add_fetch(&SH->nviol, 1, __ATOMIC_RELAXED); if (c >= OPT.maxViol) SH->stop = 1; }
}
static void incomplete(const std::string& why) {
    ATOMIC_ADD(incomplete, 1); static std::map<std::string, int> seen;
    if (seen[why]++ < 1) { partLines.push_back("{\"t\":\"incomplete\",\"why\":\"" + esc(why) + "\",\"at\":\"" + esc(S ? stackTrace() : std::string("?")) + "\"}"); if (OPT.verbose) fprintf(stderr, "INCOMPLETE %s at %s\n", why.c_str(), S ? stackTrace().c_str() : "?"); }
    alive = false;
}
static void memErr(const std::string& kind, const std::string& msg) { violation(kind, msg, *S->model); alive = false; }

// ------------------------------------------------------------------ forking
static void pushFork(Expr* cond, std::shared_ptr<std::vector<uint64_t>> m) { // sibling restarts the current instruction with cond assumed
    State* n = new State(*S); State* me = S; n->depth++; S = n; n->model = m; addC(cond); S = me; work.push_back(n); ATOMIC_ADD(forks, 1);
    if (OPT.debug) forkSites[locOf(curI())]++;
}
// decide a width-1 condition: 0/1, or -1 if the state was dropped
static int decide(Expr* c0) {
    if (isC(c0)) return (int)c0->v;
    Expr* c = subst(c0); if (isC(c)) return (int)c->v;
    bool v = evalM(c); Expr* pos = v ? c : P.lnot(c); Expr* neg = v ? P.lnot(c) : c;
    Res r = solve(neg);
    if (OPT.debug) querySites[locOf(curI())]++;
    if (r.r < 0) { incomplete("solver gave no answer"); return -1; }
    if (r.r == 1) pushFork(neg, r.m);
    if (r.r == 1) addC(pos); else learn(pos);
    return v;
}
static bool mustBe(Expr* c0) { if (isC(c0)) return c0->v; Expr* c = subst(c0); if (isC(c)) return c->v; if (!evalM(c)) return false; Res r = solve(P.lnot(c)); if (r.r < 0) { incomplete("solver gave no answer"); return false; } if (r.r == 0) learn(c); return r.r == 0; }
// concretise by case split; the current state takes the model's value
static bool concretize(Val& v, unsigned w) {
    if (!v.e) return true;
    Expr* e = subst(v.e); if (isC(e)) { v = cv((uint64_t)e->v); return true; }
    if (w > 64) { incomplete("wide concretisation"); return false; }
    uint64_t x = evalM(e); Expr* q = P.eq(P.con(x, w), e);
    int d = decide(q); if (d < 0) return false; // model satisfies q, so d==1
    v = cv(x); return true;
}

static uint32_t newObj(uint32_t size, uint32_t flags, bool zero, const Instruction* site) {
    uint32_t id = S->nextObj++; Obj* o = new Obj(); o->size = size; o->flags = flags; o->site = site; o->seq = id;
    unsigned np = (size + PG - 1) / PG; if (!np) np = 1; o->pg.reserve(np); for (unsigned i = 0; i < np; i++) o->pg.push_back(zero ? zeroPage : junkPage);
    S->p.mem.slot(id) = Ref<Obj>(o); return id;
}

// Resolve an address; forks when it may point to several objects, reports when it may be invalid.
static bool resolve(Val& av, uint32_t n, bool write, uint32_t& id, Val& off) {
    if (av.e) { Expr* e = subst(av.e); av = fromE(e); }
    uint64_t a = av.e ? evalM(av.e) : av.c;
    uint32_t hi = (uint32_t)(a >> 32);
    Obj* o = nullptr; uint32_t lo = (uint32_t)a; bool ok = false; std::string kind, msg;
    if (hi == 0) { kind = "null-deref"; msg = "null or near-null pointer dereference"; }
    else { id = hi - 1; o = S->p.mem.get(id);
        if (hi - 1 >= FUNC_BASE || !o) { kind = "wild-pointer"; msg = "access through an invalid pointer"; }
        else if (o == FREED_HEAP.p) { kind = "use-after-free"; msg = "access to freed memory"; }
        else if (o == FREED_STACK.p) { kind = "use-after-return"; msg = "access to a dead stack object"; }
        else if ((uint64_t)lo + n > o->size) { kind = "out-of-bounds"; char b[128]; snprintf(b, sizeof b, "%s of %u bytes at offset %d of a %u-byte object", write ? "write" : "read", n, (int)lo, o->size); msg = b; if (o->site) msg += " allocated in " + locOf(o->site); }
        else if (write && (o->flags & OF_CONST)) { kind = "write-to-const"; msg = "write to constant memory"; }
        else ok = true; }
    if (!av.e) { if (!ok) { memErr(kind, msg); return false; } off = cv(lo); return true; }
    if (!ok) { memErr(kind, msg + " (symbolic address)"); return false; }
    Expr* offE = P.bin(K_SUB, av.e, P.con(baseOf(id), 64));
    Expr* in = P.cmp(K_ULE, offE, P.con(o->size - n, 64));
    int d = decide(in); if (d < 0) return false; // sibling (if any) re-executes: other object or error
    off = fromE(subst(offE)); return true;
}
static unsigned tzeros(Expr* e) { switch (e->k) { case K_CONST: { unsigned i = 0; while (i < e->w && !((e->v >> i) & 1)) i++; return i; } case K_CONCAT: { unsigned t = tzeros(e->b); return t < e->b->w ? t : t + tzeros(e->a); } case K_ZEXT: return tzeros(e->a) ; case K_SEXT: return tzeros(e->a); case K_ADD: case K_SUB: return std::min(tzeros(e->a), tzeros(e->b)); case K_MUL: return std::min<unsigned>(e->w, tzeros(e->a) + tzeros(e->b)); case K_ITE: return std::min(tzeros(e->b), tzeros(e->c)); default: return 0; } }
static bool candidates(Obj* o, Expr* off, uint32_t n, uint64_t& lo, uint64_t& hi, uint64_t& step) {
    lo = off->lo; hi = std::min<uint64_t>(off->hi, o->size - n); step = 1ull << std::min(tzeros(off), 12u); lo = (lo + step - 1) / step * step; if (hi < lo) return false; return (hi - lo) / step + 1 <= MUXMAX;
}
static bool doLoad(Val av, unsigned w, Val& out) {
    unsigned n = (w + 7) / 8; uint32_t id; Val off; if (!resolve(av, n, false, id, off)) return false;
    Obj* o = S->p.mem.get(id);
    if (!off.e) { out = rdVal(o, off.c, w); return true; }
    uint64_t lo, hi, st;
    if (!candidates(o, off.e, n, lo, hi, st)) { if (!concretize(off, 64)) return false; out = rdVal(S->p.mem.get(id), off.c, w); return true; }
    Expr* r = nullptr;
    for (uint64_t v = hi - (hi - lo) % st;; v -= st) { Expr* x = toE(rdVal(o, v, w), w); r = r ? P.ite(P.eq(P.con(v, 64), off.e), x, r) : x; if (v < lo + st) break; }
    out = fromE(r); return true;
}
static bool doStore(Val av, Val v, unsigned w) {
    unsigned n = (w + 7) / 8; uint32_t id; Val off; if (!resolve(av, n, true, id, off)) return false;
    if (!off.e) { wrVal(S->p.mem.wr(id), off.c, v, w); return true; }
    uint64_t lo, hi, st; Obj* o = S->p.mem.get(id);
    if (!candidates(o, off.e, n, lo, hi, st)) { if (!concretize(off, 64)) return false; wrVal(S->p.mem.wr(id), off.c, v, w); return true; }
    o = S->p.mem.wr(id);
    Expr* e = P.zext(toE(v, w), n * 8);
    for (uint64_t x = lo; x <= hi; x += st) { Expr* c = P.eq(P.con(x, 64), off.e); if (isCv(c, 0)) continue; for (unsigned k = 0; k < n; k++) wrByte(o, x + k, P.ite(c, P.extract(e, 8 * k + 7, 8 * k), rdByte(o, x + k))); }
    return true;
}
static void copyBytes(uint32_t did, uint32_t doff, uint32_t sid, uint32_t soff, uint32_t n) {
    if (!n) return;
    Ref<Obj> keep(S->p.mem.get(sid)); // pin the source so that an overlapping write clones
    std::vector<Ref<Page>> sp = keep->pg; Obj* d = S->p.mem.wr(did);
    uint32_t k = 0;
    while (k < n) {
        uint32_t so = soff + k, dof = doff + k; unsigned si = so % PG, di = dof % PG; uint32_t m = std::min({n - k, PG - si, PG - di});
        Page* s = sp[so / PG].p;
        if (m == PG) { d->pg[dof / PG] = sp[so / PG]; }
        else { Page* t = Mem::wpage(d, dof / PG); memcpy(t->b + di, s->b + si, m); if (s->s) { if (!t->s) t->s = (Expr**)calloc(PG, sizeof(Expr*)); memcpy(t->s + di, s->s + si, m * sizeof(Expr*)); } else if (t->s) memset(t->s + di, 0, m * sizeof(Expr*)); }
        k += m;
    }
}
static bool resolveRange(Val& a, uint32_t n, bool write, uint32_t& id, uint32_t& off) { Val o; if (!resolve(a, n, write, id, o)) return false; if (!concretize(o, 64)) return false; off = (uint32_t)o.c; return true; }
static bool readCStr(Val a, std::string& out) { // concrete strings only (messages, names)
    out.clear(); for (int i = 0; i < 4096; i++) { Val v; Val ad = a; ad.c += i; if (!doLoad(ad, 8, v)) return false; if (v.e) { out += '?'; continue; } if (!v.c) return true; out += (char)v.c; } return true;
}

// ------------------------------------------------------------------ decoding
static void flatten(Type* t, std::vector<Slot>& out, uint32_t off) {
    if (t->isIntegerTy()) out.push_back({t->getIntegerBitWidth(), off});
    else if (t->isPointerTy()) out.push_back({64, off});
    else if (t->isFloatTy()) out.push_back({32, off});
    else if (t->isDoubleTy()) out.push_back({64, off});
    else if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), out, off + sl->getElementOffset(i)); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { uint32_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), out, off + i * es); }
    else out.push_back({0, off});
}
static std::vector<Slot> flat(Type* t) { std::vector<Slot> v; if (!t->isVoidTy()) flatten(t, v, 0); return v; }
static Fn* getFn(const Function* f) {
    auto it = fnMap.find(f); if (it != fnMap.end()) return it->second;
    Fn* n = new Fn(); n->f = const_cast<Function*>(f); n->name = f->getName().str(); n->idx = fns.size(); n->repo = repoFns.count(n->name); n->vararg = f->isVarArg(); fns.push_back(n); fnMap[f] = n; return n;
}
static uint64_t fnAddr(const Function* f) { return ((uint64_t)(FUNC_BASE + getFn(f)->idx) + 1) << 32; }
static std::vector<Val> constVals(const Constant* c);
static uint64_t constScalar(const Constant* c) { auto v = constVals(c); return v.size() ? v[0].c : 0; }
static std::vector<Val> constVals(const Constant* c) {
    std::vector<Val> r; Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) r.push_back(cv(ci->getZExtValue())); else { u128 v = 0; const APInt& ap = ci->getValue(); v = ap.getRawData()[0]; if (ap.getNumWords() > 1) v |= (u128)ap.getRawData()[1] << 64; r.push_back(Val{P.con(v, ci->getBitWidth()), 0}); } return r; }
    if (isa<ConstantPointerNull>(c)) { r.push_back(cv(0)); return r; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { r.push_back(cv(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return r; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (auto& s : flat(t)) r.push_back(s.w > 64 ? Val{P.con(0, s.w), 0} : cv(0)); return r; }
    if (auto* gv = dyn_cast<GlobalAlias>(c)) return constVals(gv->getAliasee());
    if (auto* f = dyn_cast<Function>(c)) { r.push_back(cv(fnAddr(f))); return r; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { r.push_back(cv(gaddr[g])); return r; }
    if (auto* cs = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < cs->getNumOperands(); i++) { auto v = constVals(cast<Constant>(cs->getOperand(i))); r.insert(r.end(), v.begin(), v.end()); } return r; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) { auto v = constVals(cd->getElementAsConstant(i)); r.insert(r.end(), v.begin(), v.end()); } return r; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        unsigned w = t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { auto* go = cast<GEPOperator>(ce); APInt off(64, 0); if (go->accumulateConstantOffset(*DL, off)) { r.push_back(cv(constScalar(cast<Constant>(go->getPointerOperand())) + off.getSExtValue())); return r; } break; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::ZExt: case Instruction::AddrSpaceCast: r.push_back(cv(constScalar(ce->getOperand(0)) & m64(w))); return r;
        case Instruction::Trunc: r.push_back(cv(constScalar(ce->getOperand(0)) & m64(w))); return r;
        case Instruction::Sub: r.push_back(cv((constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & m64(w))); return r;
        case Instruction::Add: r.push_back(cv((constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & m64(w))); return r;
        case Instruction::ICmp: { uint64_t a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); bool x = false; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: x = a == b; break; case CmpInst::ICMP_NE: x = a != b; break; case CmpInst::ICMP_ULT: x = a < b; break; case CmpInst::ICMP_UGT: x = a > b; break; default: break; } r.push_back(cv(x)); return r; }
        default: break;
        }
    }
    for (auto& s : flat(t)) { (void)s; r.push_back(cv(0)); }
    return r;
}
static void storeConst(Obj* o, uint32_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // object is pre-zeroed
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef raw = cd->getRawDataValues(); for (size_t i = 0; i < raw.size(); i++) Mem::wpage(o, (off + i) / PG)->b[(off + i) % PG] = raw[i]; return; }
    if (auto* st = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); i++) storeConst(o, off + sl->getElementOffset(i), st->getOperand(i)); return; }
    if (auto* at = dyn_cast<ConstantArray>(c)) { uint32_t es = DL->getTypeAllocSize(at->getType()->getElementType()); for (unsigned i = 0; i < at->getNumOperands(); i++) storeConst(o, off + i * es, at->getOperand(i)); return; }
    auto sl = flat(t); auto v = constVals(c); for (size_t i = 0; i < sl.size() && i < v.size(); i++) wrVal(o, off + sl[i].off, v[i], sl[i].w);
}
struct Decoder {
    Fn* fn; std::unordered_map<const Value*, std::pair<int, int>> slot; std::unordered_map<const BasicBlock*, int> bstart;
    std::vector<std::pair<int, int>> dummy;
    Opd op(const Value* v) {
        Opd o; o.r = -1; o.k = cv(0); o.pool = nullptr;
        if (auto* c = dyn_cast<Constant>(v)) { auto vals = constVals(c); if (vals.size() == 1) o.k = vals[0]; else o.pool = new std::vector<Val>(vals); return o; }
        auto it = slot.find(v); if (it != slot.end()) o.r = it->second.first; return o;
    }
    static unsigned wOf(Type* t) { auto f = flat(t); return f.empty() ? 0 : f[0].w; }
    Edge edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.target = bstart[to];
        for (auto& phi : to->phis()) { PhiMove m; m.dst = slot[&phi].first; m.n = slot[&phi].second; m.src = op(phi.getIncomingValueForBlock(from)); e.mv.push_back(m); }
        return e;
    }
    void run() {
        Function& f = *fn->f; int n = 0;
        for (auto& a : f.args()) { int k = flat(a.getType()).size(); slot[&a] = {n, k}; fn->args.push_back({n, k}); n += k; }
        int cnt = 0;
        for (auto& bb : f) { bstart[&bb] = cnt; for (auto& I : bb) { if (!I.getType()->isVoidTy()) { int k = flat(I.getType()).size(); slot[&I] = {n, k}; n += k; } if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) cnt++; } }
        fn->nslots = n; fn->code.reserve(cnt);
        for (auto& bb : f) for (auto& I : bb) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue; one(I, bb); }
        fn->decoded = true;
    }
    void one(Instruction& I, BasicBlock& bb) {
        Inst d; memset((void*)&d, 0, sizeof d); d.src = &I; d.dst = -1; d.a.r = d.b.r = d.c.r = -1; if (!I.getType()->isVoidTy()) d.dst = slot[&I].first;
        d.w = wOf(I.getType()); d.op = I_UNSUP;
        auto A = [&](unsigned i) { return op(I.getOperand(i)); };
        if (auto* b = dyn_cast<BinaryOperator>(&I)) {
            d.a = A(0); d.b = A(1);
            if (I.getType()->isFloatingPointTy()) { d.op = I_FP; d.sub = b->getOpcode(); }
            else if (I.getType()->isIntegerTy()) { d.op = I_BIN; switch (b->getOpcode()) { case Instruction::Add: d.sub = K_ADD; break; case Instruction::Sub: d.sub = K_SUB; break; case Instruction::Mul: d.sub = K_MUL; break; case Instruction::UDiv: d.sub = K_UDIV; break; case Instruction::SDiv: d.sub = K_SDIV; break; case Instruction::URem: d.sub = K_UREM; break; case Instruction::SRem: d.sub = K_SREM; break; case Instruction::And: d.sub = K_AND; break; case Instruction::Or: d.sub = K_OR; break; case Instruction::Xor: d.sub = K_XOR; break; case Instruction::Shl: d.sub = K_SHL; break; case Instruction::LShr: d.sub = K_LSHR; break; case Instruction::AShr: d.sub = K_ASHR; break; default: d.op = I_UNSUP; } }
        } else if (auto* c = dyn_cast<ICmpInst>(&I)) {
            d.op = I_CMP; d.sub = c->getPredicate(); d.a = A(0); d.b = A(1); d.w = wOf(I.getOperand(0)->getType()); if (I.getOperand(0)->getType()->isVectorTy()) d.op = I_UNSUP;
        } else if (auto* c = dyn_cast<FCmpInst>(&I)) { d.op = I_FCMP; d.sub = c->getPredicate(); d.a = A(0); d.b = A(1); d.w = wOf(I.getOperand(0)->getType());
        } else if (isa<SelectInst>(I)) { d.op = I_SEL; d.a = A(0); d.b = A(1); d.c = A(2); d.sub = I.getType()->isPointerTy(); d.w2 = slot[&I].second;
        } else if (isa<TruncInst>(I)) { d.op = I_TRUNC; d.a = A(0); d.w2 = wOf(I.getOperand(0)->getType());
        } else if (isa<ZExtInst>(I)) { d.op = I_ZEXT; d.a = A(0); d.w2 = wOf(I.getOperand(0)->getType());
        } else if (isa<SExtInst>(I)) { d.op = I_SEXT; d.a = A(0); d.w2 = wOf(I.getOperand(0)->getType());
        } else if (isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I)) { unsigned sw = wOf(I.getOperand(0)->getType()); d.a = A(0); d.w2 = sw; d.op = d.w < sw ? I_TRUNC : d.w > sw ? I_ZEXT : I_COPY; if (d.op == I_COPY) d.w2 = 1;
        } else if (isa<BitCastInst>(I) || isa<FreezeInst>(I) || isa<AddrSpaceCastInst>(I)) { d.op = I_COPY; d.a = A(0); d.w2 = slot[&I].second; if (I.getType()->isVectorTy()) d.op = I_UNSUP;
        } else if (isa<SIToFPInst>(I) || isa<UIToFPInst>(I) || isa<FPToSIInst>(I) || isa<FPToUIInst>(I) || isa<FPExtInst>(I) || isa<FPTruncInst>(I)) { d.op = I_FCONV; d.sub = I.getOpcode(); d.a = A(0); d.w2 = wOf(I.getOperand(0)->getType());
        } else if (I.getOpcode() == Instruction::FNeg) { d.op = I_FP; d.sub = Instruction::FNeg; d.a = A(0); d.b = A(0);
        } else if (isa<LoadInst>(I)) { d.op = I_LOAD; d.a = A(0); d.x = new Ext(); d.x->slots = flat(I.getType()); if (I.getType()->isVectorTy()) d.op = I_UNSUP;
        } else if (auto* s = dyn_cast<StoreInst>(&I)) { d.op = I_STORE; d.a = op(s->getPointerOperand()); d.b = op(s->getValueOperand()); d.x = new Ext(); d.x->slots = flat(s->getValueOperand()->getType()); if (s->getValueOperand()->getType()->isVectorTy()) d.op = I_UNSUP;
        } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            d.op = I_GEP; d.a = op(g->getPointerOperand()); d.x = new Ext(); uint64_t cst = 0;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value* idx = it.getOperand();
                if (StructType* st = it.getStructTypeOrNull()) cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                else { int64_t sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) cst += ci->getSExtValue() * sc; else d.x->gep.push_back({op(idx), wOf(idx->getType()), sc}); } }
            d.b.k = cv(cst);
        } else if (auto* al = dyn_cast<AllocaInst>(&I)) { d.op = I_ALLOCA; d.a = op(al->getArraySize()); d.b.k = cv(DL->getTypeAllocSize(al->getAllocatedType())); d.w2 = wOf(al->getArraySize()->getType());
        } else if (auto* b = dyn_cast<BranchInst>(&I)) { d.x = new Ext(); if (b->isConditional()) { d.op = I_CBR; d.a = op(b->getCondition()); d.x->edges.push_back(edge(&bb, b->getSuccessor(0))); d.x->edges.push_back(edge(&bb, b->getSuccessor(1))); } else { d.op = I_BR; d.x->edges.push_back(edge(&bb, b->getSuccessor(0))); }
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) { d.op = I_SWITCH; d.a = op(sw->getCondition()); d.w = wOf(sw->getCondition()->getType()); d.x = new Ext(); std::map<const BasicBlock*, int> em; auto E = [&](BasicBlock* t) { auto it = em.find(t); if (it != em.end()) return it->second; int k = d.x->edges.size(); d.x->edges.push_back(edge(&bb, t)); em[t] = k; return k; };
            E(sw->getDefaultDest()); for (auto& cs : sw->cases()) d.x->cases.push_back({cs.getCaseValue()->getZExtValue(), E(cs.getCaseSuccessor())});
        } else if (isa<ReturnInst>(I)) { d.op = I_RET; if (I.getNumOperands()) { d.a = A(0); d.w2 = flat(I.getOperand(0)->getType()).size(); }
        } else if (isa<UnreachableInst>(I)) d.op = I_UNREACH;
        else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { d.op = I_EXTRACTV; d.a = A(0); d.sub = aggIndex(ev->getAggregateOperand()->getType(), ev->getIndices()); d.w2 = slot[&I].second;
        } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { d.op = I_INSERTV; d.a = A(0); d.b = A(1); d.sub = aggIndex(iv->getAggregateOperand()->getType(), iv->getIndices()); d.w2 = slot[&I].second; d.w = flat(iv->getInsertedValueOperand()->getType()).size();
        } else if (auto* cb = dyn_cast<CallBase>(&I)) call(*cb, d, bb);
        else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { d.op = I_RMW; d.sub = rm->getOperation(); d.a = A(0); d.b = A(1);
        } else if (isa<AtomicCmpXchgInst>(I)) { d.op = I_CMPXCHG; d.a = A(0); d.b = A(1); d.c = A(2); d.w = wOf(I.getOperand(1)->getType());
        } else if (isa<FenceInst>(I)) { d.op = I_COPY; d.w2 = 0; d.dst = 0; }
        fn->code.push_back(d);
    }
    int aggIndex(Type* t, ArrayRef<unsigned> idx) { int o = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += flat(st->getElementType(k)).size(); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); o += i * flat(at->getElementType()).size(); t = at->getElementType(); } } return o; }
    void call(CallBase& cb, Inst& d, BasicBlock& bb) {
        d.op = I_CALL; d.x = new Ext(); d.w2 = cb.getType()->isVoidTy() ? 0 : slot[&cb].second;
        const Value* cal = cb.getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliasee()->stripPointerCasts();
        if (auto* f = dyn_cast<Function>(cal)) { d.x->name = f->getName().str(); d.x->callee = getFn(f); } else { d.a = op(cb.getCalledOperand()); if (isa<InlineAsm>(cal)) d.x->name = "asm"; }
        unsigned nfixed = cb.getFunctionType()->getNumParams();
        for (unsigned i = 0; i < cb.arg_size(); i++) { Value* v = cb.getArgOperand(i); if (v->getType()->isMetadataTy()) { d.x->args.push_back(Opd{-1, cv(0), nullptr}); d.x->argn.push_back(1); d.x->argw.push_back(64); d.x->byval.push_back(0); d.x->argIsFixed.push_back(1); continue; }
            auto fl = flat(v->getType()); d.x->args.push_back(op(v)); d.x->argn.push_back(fl.size()); d.x->argw.push_back(fl.empty() ? 0 : fl[0].w);
            d.x->byval.push_back(cb.isByValArgument(i) ? (uint32_t)DL->getTypeAllocSize(cb.getParamByValType(i)) : 0); d.x->argIsFixed.push_back(i < nfixed); }
        if (auto* inv = dyn_cast<InvokeInst>(&cb)) d.x->edges.push_back(edge(&bb, inv->getNormalDest()));
    }
};
static void ensure(Fn* f) { if (!f->decoded) { Decoder d; d.fn = f; d.run(); } if (!f->reached) { f->reached = true; } }

// ------------------------------------------------------------------ interpreter
static inline Val rd(Frame& f, const Opd& o) { return o.r >= 0 ? f.R[o.r] : o.k; }
static inline Val rdN(Frame& f, const Opd& o, int i) { return o.r >= 0 ? f.R[o.r + i] : o.pool ? (*o.pool)[i] : o.k; }
static void take(Frame& f, Edge& e) {
    if (!e.mv.empty()) {
        Val tmp[64]; std::vector<Val> big; size_t tot = 0; for (auto& m : e.mv) tot += m.n; Val* t = tmp; if (tot > 64) { big.resize(tot); t = big.data(); }
        size_t k = 0; for (auto& m : e.mv) for (int i = 0; i < m.n; i++) t[k++] = rdN(f, m.src, i);
        k = 0; for (auto& m : e.mv) for (int i = 0; i < m.n; i++) f.R[m.dst + i] = t[k++];
    }
    f.pc = e.target;
}
static Val binop(Kind k, Val a, Val b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
        uint64_t x = a.c, y = b.c, r = 0;
        switch (k) { case K_ADD: r = x + y; break; case K_SUB: r = x - y; break; case K_MUL: r = x * y; break; case K_AND: r = x & y; break; case K_OR: r = x | y; break; case K_XOR: r = x ^ y; break;
        case K_SHL: r = y >= w ? 0 : x << y; break; case K_LSHR: r = y >= w ? 0 : x >> y; break; case K_ASHR: r = (uint64_t)(sx64(x, w) >> (y >= w ? w - 1 : y)); break;
        case K_UDIV: r = x / y; break; case K_UREM: r = x % y; break; case K_SDIV: r = sx64(y, w) == -1 ? 0 - x : (uint64_t)(sx64(x, w) / sx64(y, w)); break; case K_SREM: r = sx64(y, w) == -1 ? 0 : (uint64_t)(sx64(x, w) % sx64(y, w)); break; default: abort(); }
        return cv(r & m64(w));
    }
    return fromE(P.bin(k, toE(a, w), toE(b, w)));
}
static Val cmpop(unsigned p, Val a, Val b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
        uint64_t x = a.c, y = b.c; int64_t sxx = sx64(x, w), sy = sx64(y, w); bool r = false;
        switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sxx > sy; break; case CmpInst::ICMP_SGE: r = sxx >= sy; break; case CmpInst::ICMP_SLT: r = sxx < sy; break; case CmpInst::ICMP_SLE: r = sxx <= sy; break; }
        return cv(r);
    }
    Expr *x = toE(a, w), *y = toE(b, w), *r = nullptr;
    switch (p) { case CmpInst::ICMP_EQ: r = P.eq(x, y); break; case CmpInst::ICMP_NE: r = P.lnot(P.eq(x, y)); break; case CmpInst::ICMP_UGT: r = P.cmp(K_ULT, y, x); break; case CmpInst::ICMP_UGE: r = P.cmp(K_ULE, y, x); break; case CmpInst::ICMP_ULT: r = P.cmp(K_ULT, x, y); break; case CmpInst::ICMP_ULE: r = P.cmp(K_ULE, x, y); break; case CmpInst::ICMP_SGT: r = P.cmp(K_SLT, y, x); break; case CmpInst::ICMP_SGE: r = P.cmp(K_SLE, y, x); break; case CmpInst::ICMP_SLT: r = P.cmp(K_SLT, x, y); break; case CmpInst::ICMP_SLE: r = P.cmp(K_SLE, x, y); break; }
    return fromE(r);
}
static double asD(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t x = c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t c; memcpy(&c, &d, 8); return c; }

static void pushCall(Fn* fn, const std::vector<Val>& args, int retDst, int retN, uint32_t va = ~0u) {
    ensure(fn); auto& fr = S->p.th[S->p.cur].fr; fr.emplace_back(); Frame& f = fr.back();
    f.fn = fn; f.pc = 0; f.R.assign(fn->nslots, cv(0)); f.retDst = retDst; f.retN = retN; f.va = va;
    for (size_t i = 0; i < args.size() && i < f.R.size(); i++) f.R[i] = args[i];
    if (fr.size() > 200) memErr("stack-overflow", "call depth above 200");
}
static void procEnd(int code); // end of the current (child) process or of the path
static void popFrame() { auto& th = S->p.th[S->p.cur]; Frame& f = th.fr.back(); for (uint32_t id : f.alloc) S->p.mem.slot(id) = FREED_STACK; th.fr.pop_back(); }
static void doRet(std::vector<Val>& vals) {
    auto& th = S->p.th[S->p.cur]; int rd_ = th.fr.back().retDst, rn = th.fr.back().retN; popFrame();
    if (th.fr.empty()) { if (S->p.cur != 0) { th.done = true; incomplete("thread returned without scheduler"); return; } procEnd(0); return; }
    Frame& f = th.fr.back(); if (rn < 0) return; // started by the engine: no call instruction to complete
    Inst& ci = f.fn->code[f.pc]; for (int i = 0; i < rn && i < (int)vals.size(); i++) f.R[rd_ + i] = vals[i];
    if (!ci.x->edges.empty()) take(f, ci.x->edges[0]); else f.pc++;
}
static void pathDone() {
    ATOMIC_ADD(paths, 1); alive = false;
    if (sampleInputs.size() < 3 && !S->inputs.empty()) { sampleInputs.push_back(valTextLimited()); char fn[512]; static int sn = 0; snprintf(fn, sizeof fn, "%s.%d.%d.smp", OPT.out.c_str(), getpid(), sn++); std::ofstream f(fn); for (auto& p : OPT.params) f << "param " << p.first << " " << p.second << "\n"; f << inputsText(*S->model); }
}
static void finishCall(Frame& f, Inst& I, Val v) { if (I.w2 >= 1) f.R[I.dst] = v; if (!I.x->edges.empty()) take(f, I.x->edges[0]); else f.pc++; }
static void procEnd(int code) {
    if (S->stack.empty()) { pathDone(); return; }
    Proc parent = std::move(S->stack.back()); S->stack.pop_back(); int fk = parent.retDst; parent.retDst = -1;
    for (uint32_t id : S->shared) { Obj* o = S->p.mem.get(id); parent.mem.slot(id) = Ref<Obj>(o); }
    S->p = std::move(parent); finishCall(F(), F().fn->code[F().pc], cv((uint32_t)(fk >= 0 ? fk : code)));
}

#include "builtins.h"

static void runState() {
    uint64_t steps = 0;
    while (alive) {
        if (++S->steps > OPT.maxSteps + S->stepLimitBase) { violation("hang", "no progress after the step limit", *S->model); alive = false; break; }
        if ((++steps & 0xfffff) == 0) { if (SH->stop) { alive = false; break; } if (now() - T0 > OPT.timeout) { incomplete("time budget exhausted"); break; } }
        Frame& f = F(); Inst& I = f.fn->code[f.pc]; if (OPT.debug) f.fn->prof++;
        switch (I.op) {
        case I_BIN: { Val a = rd(f, I.a), b = rd(f, I.b);
            if (I.sub == K_UDIV || I.sub == K_SDIV || I.sub == K_UREM || I.sub == K_SREM) {
                if (!b.e) { if (b.c == 0 && I.w <= 64) { memErr("div-by-zero", "division by zero"); break; } }
                else { int d = decide(P.lnot(P.eq(b.e, P.con(0, I.w)))); if (d < 0) break; if (!d) { memErr("div-by-zero", "division by zero"); break; } } }
            f.R[I.dst] = binop((Kind)I.sub, a, b, I.w); f.pc++; break; }
        case I_CMP: f.R[I.dst] = cmpop(I.sub, rd(f, I.a), rd(f, I.b), I.w); f.pc++; break;
        case I_SEL: { Val c = rd(f, I.a); if (c.e) { Expr* e = subst(c.e); c = fromE(e); }
            if (c.e && (I.sub || I.w2 != 1)) { int d = decide(c.e); if (d < 0) break; c = cv(d); }
            if (!c.e) { for (int i = 0; i < I.w2; i++) F().R[I.dst + i] = rdN(F(), c.c ? I.b : I.c, i); }
            else f.R[I.dst] = fromE(P.ite(c.e, toE(rd(f, I.b), I.w), toE(rd(f, I.c), I.w)));
            F().pc++; break; }
        case I_TRUNC: { Val a = rd(f, I.a); f.R[I.dst] = a.e ? fromE(P.extract(a.e, I.w - 1, 0)) : cv(a.c & m64(I.w)); f.pc++; break; }
        case I_ZEXT: { Val a = rd(f, I.a); f.R[I.dst] = a.e ? fromE(P.zext(a.e, I.w)) : I.w > 64 ? Val{P.con(a.c, I.w), 0} : a; f.pc++; break; }
        case I_SEXT: { Val a = rd(f, I.a); f.R[I.dst] = a.e ? fromE(P.sext(a.e, I.w)) : I.w > 64 ? Val{P.sext(P.con(a.c, I.w2), I.w), 0} : cv((uint64_t)sx64(a.c, I.w2) & m64(I.w)); f.pc++; break; }
        case I_COPY: for (int i = 0; i < I.w2; i++) f.R[I.dst + i] = rdN(f, I.a, i); f.pc++; break;
        case I_LOAD: { Val a = rd(f, I.a); bool ok = true; for (size_t i = 0; i < I.x->slots.size() && ok; i++) { Val ad = a; if (I.x->slots[i].off) ad = binop(K_ADD, a, cv(I.x->slots[i].off), 64); Val v; ok = doLoad(ad, I.x->slots[i].w, v); if (ok) F().R[I.dst + i] = v; } if (ok) F().pc++; break; }
        case I_STORE: { Val a = rd(f, I.a); bool ok = true; for (size_t i = 0; i < I.x->slots.size() && ok; i++) { Val ad = a; if (I.x->slots[i].off) ad = binop(K_ADD, a, cv(I.x->slots[i].off), 64); ok = doStore(ad, rdN(F(), I.b, i), I.x->slots[i].w); } if (ok) F().pc++; break; }
        case I_GEP: { Val a = rd(f, I.a); if (I.b.k.c) a = binop(K_ADD, a, cv(I.b.k.c), 64);
            for (auto& g : I.x->gep) { Val i = rd(f, g.o); if (!i.e) a = binop(K_ADD, a, cv((uint64_t)(sx64(i.c, g.w) * g.scale)), 64); else a = fromE(P.bin(K_ADD, toE(a, 64), P.bin(K_MUL, P.con((uint64_t)g.scale, 64), P.sext(i.e, 64)))); }
            f.R[I.dst] = a; f.pc++; break; }
        case I_ALLOCA: { Val n = rd(f, I.a); if (n.e && !concretize(n, I.w2)) break; uint32_t id = newObj((uint32_t)(n.c * I.b.k.c), OF_STACK, false, I.src); F().alloc.push_back(id); F().R[I.dst] = cv(baseOf(id)); F().pc++; break; }
        case I_BR: take(f, I.x->edges[0]); break;
        case I_CBR: { Val c = rd(f, I.a); int d = c.e ? decide(c.e) : (int)(c.c & 1); if (d < 0) break; take(F(), I.x->edges[d ? 0 : 1]); break; }
        case I_SWITCH: { Val v = rd(f, I.a); if (v.e) v = fromE(subst(v.e));
            if (!v.e) { int t = 0; for (auto& c : I.x->cases) if ((uint64_t)c.first == v.c) { t = c.second; break; } take(f, I.x->edges[t]); break; }
            uint64_t x = evalM(v.e); int t = 0; for (auto& c : I.x->cases) if ((uint64_t)c.first == x) { t = c.second; break; }
            Expr* cond; if (t == 0) { cond = P.tru(); for (auto& c : I.x->cases) if (c.second != 0) cond = P.land(cond, P.lnot(P.eq(v.e, P.con(c.first, I.w)))); } else { cond = P.fals(); for (auto& c : I.x->cases) if (c.second == t) cond = P.lor(cond, P.eq(v.e, P.con(c.first, I.w))); }
            if (decide(cond) < 0) break; take(F(), I.x->edges[t]); break; }
        case I_RET: { std::vector<Val> v; for (int i = 0; i < I.w2; i++) v.push_back(rdN(f, I.a, i)); doRet(v); break; }
        case I_UNREACH: memErr("unreachable", "reached code the compiler assumes unreachable"); break;
        case I_EXTRACTV: for (int i = 0; i < I.w2; i++) f.R[I.dst + i] = rdN(f, I.a, I.sub + i); f.pc++; break;
        case I_INSERTV: { std::vector<Val> t; for (int i = 0; i < I.w2; i++) t.push_back(rdN(f, I.a, i)); for (int i = 0; i < I.w; i++) t[I.sub + i] = rdN(f, I.b, i); for (int i = 0; i < I.w2; i++) f.R[I.dst + i] = t[i]; f.pc++; break; }
        case I_FP: { Val a = rd(f, I.a), b = rd(f, I.b); int op = I.sub == Instruction::FAdd ? FO_ADD : I.sub == Instruction::FSub ? FO_SUB : I.sub == Instruction::FMul ? FO_MUL : I.sub == Instruction::FDiv ? FO_DIV : -1;
            if (op >= 0) { f.R[I.dst] = a.e || b.e ? fromE(P.fbin(op, toE(a, I.w), toE(b, I.w))) : cv(fpBin(op, I.w, a.c, b.c)); f.pc++; break; }
            if (a.e && !concretize(a, I.w)) break; if (b.e && !concretize(b, I.w)) break; double x = asD(a.c, I.w), y = asD(b.c, I.w); F().R[I.dst] = cv(fromD(I.sub == Instruction::FRem ? fmod(x, y) : -x, I.w)); F().pc++; break; }
        case I_FCMP: { Val a = rd(f, I.a), b = rd(f, I.b); f.R[I.dst] = a.e || b.e ? fromE(P.fcmp(I.sub, toE(a, I.w), toE(b, I.w))) : cv(fpCmp(I.sub, I.w, a.c, b.c)); f.pc++; break; }
        case I_FCONV: { Val a = rd(f, I.a); int op = I.sub == Instruction::SIToFP ? FC_SI2F : I.sub == Instruction::UIToFP ? FC_UI2F : I.sub == Instruction::FPToSI ? FC_F2SI : I.sub == Instruction::FPToUI ? FC_F2UI : FC_F2F; f.R[I.dst] = a.e ? fromE(P.fconv(op, a.e, I.w)) : cv(fpConv(op, I.w, I.w2, a.c)); f.pc++; break; }
        case I_RMW: { Val a = rd(f, I.a), o; Val b = rd(f, I.b); if (!doLoad(a, I.w, o)) break; Val n; switch (I.sub) { case AtomicRMWInst::Xchg: n = b; break; case AtomicRMWInst::Add: n = binop(K_ADD, o, b, I.w); break; case AtomicRMWInst::Sub: n = binop(K_SUB, o, b, I.w); break; case AtomicRMWInst::And: n = binop(K_AND, o, b, I.w); break; case AtomicRMWInst::Or: n = binop(K_OR, o, b, I.w); break; case AtomicRMWInst::Xor: n = binop(K_XOR, o, b, I.w); break; default: incomplete("atomicrmw"); } if (!alive) break; if (!doStore(a, n, I.w)) break; F().R[I.dst] = o; F().pc++; break; }
        case I_CMPXCHG: { Val a = rd(f, I.a), o; if (!doLoad(a, I.w, o)) break; Val eq = cmpop(CmpInst::ICMP_EQ, o, rd(F(), I.b), I.w); int d = eq.e ? decide(eq.e) : (int)eq.c; if (d < 0) break; if (d && !doStore(a, rd(F(), I.c), I.w)) break; F().R[I.dst] = o; F().R[I.dst + 1] = cv(d); F().pc++; break; }
        case I_CALL: doCall(I); break;
        default: { std::string s; raw_string_ostream os(s); I.src->print(os); incomplete("unsupported instruction: " + s); break; }
        }
    }
}

// ------------------------------------------------------------------ driver
static bool isChild = false;
static void trySplit() {
    if (work.size() < 2 || SH->stop) return;
    int t = __atomic_load_n(&SH->tokens, __ATOMIC_RELAXED); if (t <= 0) return;
    if (__atomic_sub_fetch(&SH->tokens, 1, __ATOMIC_RELAXED) < 0) { __atomic_add_fetch(&SH->tokens, 1, __ATOMIC_RELAXED); return; }
    flushPart(); fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { __atomic_add_fetch(&SH->tokens, 1, __ATOMIC_RELAXED); return; }
    size_t half = (work.size() + 1) / 2; // oldest half goes to the child
    if (p == 0) { partLines.clear(); sampleInputs.clear(); reach.clear(); noteCnt.clear(); forkSites.clear(); querySites.clear(); for (auto* f : fns) f->reached = false; work.resize(half); __atomic_add_fetch(&SH->nworkers, 1, __ATOMIC_RELAXED); isChild = true; }
    else { work.erase(work.begin(), work.begin() + half); }
}
static void finishWorker() {
    for (auto& r : reach) partLines.push_back("{\"t\":\"reach\",\"label\":\"" + esc(r.first) + "\",\"n\":" + std::to_string(r.second) + "}");
    for (auto& r : noteCnt) partLines.push_back("{\"t\":\"count\",\"label\":\"" + esc(r.first) + "\",\"n\":" + std::to_string(r.second) + "}");
    for (auto* f : fns) if (f->repo && f->reached) partLines.push_back("{\"t\":\"fn\",\"name\":\"" + esc(demangleShort(f->name)) + "\"}");
    for (auto& s : sampleInputs) partLines.push_back("{\"t\":\"sample\",\"text\":\"" + esc(s) + "\"}");
    for (auto& r : forkSites) partLines.push_back("{\"t\":\"forksite\",\"label\":\"" + esc(r.first) + "\",\"n\":" + std::to_string(r.second) + "}");
    for (auto& r : querySites) partLines.push_back("{\"t\":\"querysite\",\"label\":\"" + esc(r.first) + "\",\"n\":" + std::to_string(r.second) + "}");
    flushPart();
    __atomic_add_fetch(&SH->tokens, 1, __ATOMIC_RELAXED); if (isChild) return;
    for (int st; ; ) { pid_t c = waitpid(-1, &st, 0); if (c < 0) { if (errno == EINTR) continue; break; } if (!WIFEXITED(st) || WEXITSTATUS(st)) { S = nullptr; incomplete("worker died"); flushPart(); } }
}
static std::unique_ptr<Module> load(const std::string& p) { SMDiagnostic e; auto m = parseIRFile(p, e, LC); if (!m) { e.print("symx", errs()); exit(3); } return m; }

int main(int argc, char** argv) {
    std::vector<std::string> repo, rt; std::string entry = "vx_main"; std::map<std::string, std::string> redir;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--repo") repo.push_back(nx()); else if (a == "--rt") rt.push_back(nx()); else if (a == "--out") OPT.out = nx(); else if (a == "--entry") entry = nx();
        else if (a == "--jobs") OPT.jobs = atoi(nx().c_str()); else if (a == "--timeout") OPT.timeout = atof(nx().c_str()); else if (a == "--max-steps") OPT.maxSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--known") OPT.known.push_back(nx()); else if (a == "--max-viol") OPT.maxViol = atoi(nx().c_str()); else if (a == "-v") OPT.verbose = true; else if (a == "--profile") OPT.debug = true; else if (a == "--dump") OPT.dump = nx();
        else if (a == "--rlimit") OPT.rlimit = strtoul(nx().c_str(), 0, 10);
        else if (a == "-P") { std::string kv = nx(); size_t p = kv.find('='); OPT.params[kv.substr(0, p)] = strtoll(kv.c_str() + p + 1, 0, 10); }
        else if (a == "--redirect") { std::ifstream f(nx()); std::string x, y; while (f >> x >> y) redir[x] = y; }
        else { fprintf(stderr, "symx: bad option %s\n", a.c_str()); return 3; } }
    T0 = now(); prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0); // finished workers leave their children to the first one
    SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->tokens = OPT.jobs - 1;
    Z.init();
    junkPage = Ref<Page>(new Page()); memset(junkPage->b, JUNK, PG); zeroPage = Ref<Page>(new Page()); memset(zeroPage->b, 0, PG);
    auto mk = []() { Obj* o = new Obj(); o->size = 0; return o; }; FREED_HEAP = Ref<Obj>(mk()); FREED_STACK = Ref<Obj>(mk());
    MOD = std::make_unique<Module>("all", LC); Linker L(*MOD); bool first = true;
    for (auto& r : repo) { auto m = load(r); if (first) { MOD->setDataLayout(m->getDataLayout()); MOD->setTargetTriple(m->getTargetTriple()); first = false; }
        for (auto& f : *m) { if (!f.isDeclaration()) { if (f.hasLocalLinkage()) { } repoFns.insert(f.getName().str()); } }
        for (auto& rd : redir) if (auto* f = m->getFunction(rd.first)) if (f->isDeclaration()) f->setName(rd.second);
        if (auto* f = m->getFunction("main")) f->setName("scache_main");
        if (!OPT.params["mon"]) if (auto* f = m->getFunction("_Z15monitoring_initv")) if (!f->isDeclaration() && f->getReturnType()->isVoidTy()) { f->deleteBody(); ReturnInst::Create(LC, BasicBlock::Create(LC, "", f)); } // pre-renders 65536 strings that only streaming monitoring clients see
        for (auto& g : m->globals()) if (!g.isDeclaration()) repoGlobals.insert(g.getName().str());
        if (L.linkInModule(std::move(m))) { fprintf(stderr, "symx: link error %s\n", r.c_str()); return 3; } }
    for (auto& r : rt) { auto m = load(r); if (first) { MOD->setDataLayout(m->getDataLayout()); MOD->setTargetTriple(m->getTargetTriple()); first = false; } if (L.linkInModule(std::move(m))) { fprintf(stderr, "symx: link error %s\n", r.c_str()); return 3; } }
    DL = &MOD->getDataLayout();
    // static functions renamed by the linker on collisions keep a common prefix "name.N"
    for (auto& f : *MOD) { std::string n = f.getName().str(); size_t p = n.rfind('.'); if (!f.isDeclaration() && p != std::string::npos && p + 1 < n.size() && isdigit(n[p + 1]) && repoFns.count(n.substr(0, p))) repoFns.insert(n); }
    State* s0 = new State(); S = s0; s0->model = std::make_shared<std::vector<uint64_t>>(); s0->p.th.resize(1); s0->nextObj = 1;
    std::vector<std::pair<GlobalVariable*, uint32_t>> gs;
    for (auto& g : MOD->globals()) { if (g.getName().startswith("llvm.")) continue; uint32_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 0; uint32_t id = newObj(sz, OF_GLOBAL | (g.isConstant() ? OF_CONST : 0), true, nullptr); gaddr[&g] = baseOf(id); gs.push_back({&g, id}); }
    for (auto& f : *MOD) getFn(&f);
    for (auto& p : gs) if (p.first->hasInitializer()) storeConst(s0->p.mem.wr(p.second), 0, p.first->getInitializer());
    initBuiltins();
    Function* mf = MOD->getFunction(entry); if (!mf || mf->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 3; }
    pushCall(getFn(mf), {}, -1, -1);
    if (auto* gc = MOD->getGlobalVariable("llvm.global_ctors")) { auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()); if (ca) { std::vector<std::pair<int, Function*>> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* cs = cast<ConstantStruct>(ca->getOperand(i)); v.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto it = v.rbegin(); it != v.rend(); ++it) if (it->second) pushCall(getFn(it->second), {}, -1, -1); } }
    work.push_back(s0); unsigned cnt = 0; rusage ru;
    while (!work.empty()) {
        if (SH->stop) break;
        if (now() - T0 > OPT.timeout) { S = work.back(); incomplete("time budget exhausted"); break; }
        if ((++cnt & 0xff) == 0) { getrusage(RUSAGE_SELF, &ru); if ((uint64_t)ru.ru_maxrss * 1024 > OPT.memLimit) { S = work.back(); incomplete("memory budget exhausted"); break; } if (OPT.verbose && (cnt & 0xfff) == 0) fprintf(stderr, "[%d] paths=%lu work=%zu q=%lu exprs=%zu t=%.1f\n", getpid(), SH->paths, work.size(), SH->queries, P.all.size(), now() - T0); }
        trySplit();
        S = work.back(); work.pop_back(); alive = true; uint64_t st0 = S->steps; runState(); ATOMIC_ADD(steps, S->steps - st0); delete S; S = nullptr;
    }
    finishWorker(); if (OPT.debug) for (auto* q : fns) if (q && q->prof > 100000) fprintf(stderr, "PROF %lu %s\n", q->prof, q->name.c_str());
    if (isChild) _exit(0);
    std::ofstream f(OPT.out + ".stats"); 
    f << "{\"paths\":" << SH->paths << ",\"instructions\":" << SH->steps << ",\"forks\":" << SH->forks << ",\"queries\":" << SH->queries << ",\"sat\":" << SH->qsat << ",\"unsat\":" << SH->qunsat << ",\"unknown\":" << SH->qunknown << ",\"cached\":" << SH->qcached << ",\"checks\":" << SH->checks << ",\"checks_constant\":" << SH->checksTrivial << ",\"checks_by_solver\":" << SH->checksUnsat << ",\"violations\":" << SH->checksViol << ",\"new_violations\":" << SH->nviol << ",\"assume_killed\":" << SH->killedAssume << ",\"incomplete\":" << SH->incomplete << ",\"solver_s\":" << SH->solverTime << ",\"max_query_s\":" << SH->maxQuery << ",\"workers\":" << SH->nworkers + 1 << ",\"stopped\":" << SH->stop << ",\"wall_s\":" << now() - T0 << "}\n";
    f.close();
    return 0;
}
