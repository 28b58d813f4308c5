// Built-in functions: memory, LLVM intrinsics, the vx_* harness interface, processes and threads.
typedef void (*Handler)(Inst& I, std::vector<Val>& a);
static std::unordered_map<std::string, int> bIdx; static std::vector<Handler> bTab;
static void done(Inst& I, Val v = cv(0)) { finishCall(F(), I, v); }
#define B(name) static void b_##name(Inst& I, std::vector<Val>& a)

static uint32_t mkSym(unsigned w) { uint32_t n = S->nsym++; S->symw.push_back(w); // sibling paths may reuse a number with another width
    auto& m = S->model; if (m.use_count() > 1) m = std::make_shared<std::vector<uint64_t>>(*m); if (m->size() <= n) m->resize(n + 1, 0); (*m)[n] = 0; return n; }

static void doMalloc(Inst& I, Val n, bool zero, uint32_t fl) { if (!concretize(n, 64)) return; if (n.c > (256u << 20)) { memErr("huge-allocation", "allocation above 256 MB"); return; } uint32_t id = newObj((uint32_t)n.c, OF_HEAP | fl, zero, I.src); done(I, cv(baseOf(id))); }
static uint32_t ownerFlag() { return F().fn->repo ? OF_REPOHEAP : 0; }
B(malloc) { doMalloc(I, a[0], false, ownerFlag()); }
B(rmalloc) { doMalloc(I, a[0], false, OF_REPOHEAP); }
B(calloc) { doMalloc(I, binop(K_MUL, a[0], a[1], 64), true, ownerFlag()); }
B(rcalloc) { doMalloc(I, binop(K_MUL, a[0], a[1], 64), true, OF_REPOHEAP); }
static bool checkFree(Val& p, uint32_t& id) {
    if (!concretize(p, 64)) return false; if (!p.c) { id = ~0u; return true; }
    id = (uint32_t)(p.c >> 32) - 1; Obj* o = S->p.mem.get(id);
    if ((p.c >> 32) == 0 || !o) { memErr("invalid-free", "free of an invalid pointer"); return false; }
    if (o == FREED_HEAP.p) { memErr("double-free", "memory freed twice"); return false; }
    if ((uint32_t)p.c || !(o->flags & OF_HEAP)) { memErr("invalid-free", "free of a pointer that is not the start of a heap block"); return false; }
    return true;
}
B(free) { uint32_t id; if (!checkFree(a[0], id)) return; if (id != ~0u) S->p.mem.slot(id) = FREED_HEAP; done(I); }
static void doRealloc(Inst& I, std::vector<Val>& a, uint32_t fl) { uint32_t id; if (!concretize(a[1], 64)) return; if (!checkFree(a[0], id)) return; uint32_t n = (uint32_t)a[1].c; uint32_t nid = newObj(n, OF_HEAP | fl, false, I.src);
    if (id != ~0u) { copyBytes(nid, 0, id, 0, std::min(n, S->p.mem.get(id)->size)); S->p.mem.slot(id) = FREED_HEAP; } done(I, cv(baseOf(nid))); }
B(realloc) { doRealloc(I, a, ownerFlag()); }
B(rrealloc) { doRealloc(I, a, OF_REPOHEAP); }
B(memcpy) { if (!concretize(a[2], 64)) return; uint32_t n = (uint32_t)a[2].c; if (a[2].c > 0xffffffffu) { memErr("out-of-bounds", "copy with a huge length"); return; }
    if (n) { uint32_t di, dof, si, sof; if (!resolveRange(a[1], n, false, si, sof) || !resolveRange(a[0], n, true, di, dof)) return; copyBytes(di, dof, si, sof, n); } done(I, a[0]); }
B(memset) { if (!concretize(a[2], 64)) return; if (a[2].c > 0xffffffffu) { memErr("out-of-bounds", "memset with a huge length"); return; } uint32_t n = (uint32_t)a[2].c;
    if (n) { uint32_t di, dof; if (!resolveRange(a[0], n, true, di, dof)) return; Obj* o = S->p.mem.wr(di); Val c = a[1];
        if (c.e) { Expr* e = P.extract(c.e, 7, 0); for (uint32_t i = 0; i < n; i++) wrByte(o, dof + i, e); }
        else for (uint32_t i = 0; i < n;) { uint32_t pi = (dof + i) / PG, in = (dof + i) % PG, m = std::min(n - i, PG - in); if (m == PG && (uint8_t)c.c == 0) o->pg[pi] = zeroPage; else { Page* p = Mem::wpage(o, pi); memset(p->b + in, (int)c.c, m); if (p->s) memset(p->s + in, 0, m * sizeof(Expr*)); } i += m; } }
    done(I, a[0]); }
B(abort) { memErr("abort", "the program called abort()"); }
B(nop) { done(I); }
B(first) { done(I, a[0]); }
B(one) { done(I, cv(1)); }
// ---- vx interface
B(vx_sym) { // (ptr, n, name)
    if (!concretize(a[1], 64)) return; uint32_t n = (uint32_t)a[1].c; std::string nm; if (!readCStr(a[2], nm)) return; uint32_t id, off = 0; if (n && !resolveRange(a[0], n, true, id, off)) return;
    Input in; in.kind = 0; in.first = S->nsym; in.n = n; in.w = 8; in.name = nm; in.bias = 0; S->inputs.push_back(in);
    if (n) { Obj* o = S->p.mem.wr(id); for (uint32_t i = 0; i < n; i++) { uint32_t s = mkSym(8); wrByte(o, off + i, P.sym(s, 8)); } } done(I); }
static unsigned bitsFor(uint64_t span) { unsigned w = 1; while (w < 64 && (span >> w)) w++; return w; }
static Expr* mkRange(uint64_t lo, uint64_t hi, const std::string& nm, unsigned& w, uint32_t& sn) {
    uint64_t span = hi - lo; w = bitsFor(span); Input in; in.kind = 1; in.first = S->nsym; in.n = 1; in.w = w; in.name = nm; in.bias = lo; S->inputs.push_back(in); sn = mkSym(w); return P.sym(sn, w);
}
B(vx_range) { // uint64_t (lo, hi, name)
    if (!concretize(a[0], 64) || !concretize(a[1], 64)) return; std::string nm; if (!readCStr(a[2], nm)) return; uint64_t lo = a[0].c, hi = a[1].c; if (hi == lo) { done(I, cv(lo)); return; }
    unsigned w; uint32_t sn; Expr* s = mkRange(lo, hi, nm, w, sn); if ((hi - lo) != m64(w)) addC(P.cmp(K_ULE, s, P.con(hi - lo, w)));
    done(I, fromE(P.bin(K_ADD, P.con(lo, 64), P.zext(s, 64)))); }
B(vx_concretize) { if (!concretize(a[0], 64)) return; done(I, a[0]); }
B(vx_strlen_fast) { // the length of a text without symbolic bytes; -1: not decided here (the caller then looks byte by byte, with every check)
    uint64_t r = ~0ull; if (!a[0].e) { uint32_t id = (uint32_t)(a[0].c >> 32) - 1, off = (uint32_t)a[0].c; Obj* o = (a[0].c >> 32) ? S->p.mem.get(id) : nullptr;
        if (o) for (uint32_t i = off; i < o->size; i++) { Page* p = o->pg[i / PG].p; if (p->s && p->s[i % PG]) break; if (!p->b[i % PG]) { r = i - off; break; } } }
    done(I, cv(r)); }
B(vx_is_sym) { done(I, cv(a[0].e != nullptr && !isC(subst(a[0].e)))); }
static Expr* boolOf(Val v, unsigned w) { if (!v.e) return P.con(v.c != 0, 1); return P.lnot(P.eq(P.con(0, w), v.e)); }
B(vx_assume) { Expr* c = subst(boolOf(a[0], I.x->argw[0])); if (isC(c)) { if (!c->v) { ATOMIC_ADD(killedAssume, 1); alive = false; return; } done(I); return; }
    if (!evalM(c)) { Res r = solve(c); if (r.r < 0) { incomplete("solver gave no answer"); return; } if (r.r == 0) { ATOMIC_ADD(killedAssume, 1); alive = false; return; } S->model = r.m; }
    addC(c); done(I); }
B(vx_check) { // (cond, msg): is the negation satisfiable?
    Expr* c = boolOf(a[0], I.x->argw[0]); std::string msg; if (!readCStr(a[1], msg)) return; ATOMIC_ADD(checks, 1);
    Expr* d = subst(c); if (isC(d) && d->v) { ATOMIC_ADD(checksTrivial, 1); done(I); return; }
    if (isC(d)) { violation("check", msg, *S->model); alive = false; return; }
    bool v = evalM(d); Res r = v ? solve(P.lnot(d)) : Res{1, S->model}; if (getenv("DUMPALL")) P.show(d); if (r.r < 0) { incomplete("solver gave no answer on an assertion"); return; }
    if (r.r == 0) { ATOMIC_ADD(checksUnsat, 1); learn(d); done(I); return; }
    violation("check", msg, *r.m);
    if (v) { addC(d); done(I); } else { Res r2 = solve(d); if (r2.r != 1) { alive = false; return; } S->model = r2.m; addC(d); done(I); } }
B(vx_fail) { std::string msg; if (!readCStr(a[0], msg)) return; ATOMIC_ADD(checks, 1); violation("check", msg, *S->model); alive = false; }
B(vx_reach) { std::string l; if (!readCStr(a[0], l)) return; reach[l]++; done(I); }
B(vx_note) { std::string l; if (!readCStr(a[0], l)) return; S->notes.push_back(l); done(I); }
B(vx_note_int) { std::string l; if (!readCStr(a[0], l)) return; Val v = a[1]; uint64_t x = v.e ? evalM(v.e) : v.c; S->notes.push_back(l + "=" + std::to_string((int64_t)x)); done(I); }
B(vx_trace) { std::string l; if (!readCStr(a[0], l)) return; if (OPT.verbose) { Val v = a[1]; fprintf(stderr, "TRACE %s %lld%s\n", l.c_str(), (long long)(v.e ? evalM(v.e) : v.c), v.e ? " (sym)" : ""); } done(I); }
B(vx_param) { std::string l; if (!readCStr(a[0], l)) return; auto it = OPT.params.find(l); done(I, it == OPT.params.end() ? a[1] : cv((uint64_t)it->second)); }
B(vx_shared_alloc) { if (!concretize(a[0], 64)) return; uint32_t id = newObj((uint32_t)a[0].c, OF_HEAP | OF_SHARED, true, I.src); S->shared.push_back(id); done(I, cv(baseOf(id))); }
B(vx_live) { uint64_t n = 0; for (uint32_t id = 0; id < S->nextObj; id++) { Obj* o = S->p.mem.get(id); if (o && (o->flags & OF_REPOHEAP)) { n++; if (OPT.verbose && OPT.debug) fprintf(stderr, "LIVE %u bytes from %s\n", o->size, locOf(o->site).c_str()); } } done(I, cv(n)); }
B(vx_stop) { alive = false; pathDone(); } // end of path (success)
B(vx_kill) { ATOMIC_ADD(killedAssume, 1); alive = false; } // path outside the stated bounds
B(vx_steps_reset) { S->stepLimitBase = S->steps; done(I); }
B(vx_engine) { done(I, cv(1)); }
B(vx_unsupported) { std::string l; if (!readCStr(a[0], l)) return; incomplete("harness: " + l); }
// ---- processes (same observable behaviour as fork + wait with the world in shared memory)
static void startFn(Val fn, std::vector<Val> args) { uint32_t ix = (uint32_t)(fn.c >> 32) - 1 - FUNC_BASE; Fn* f = fns[ix]; pushCall(f, args, -1, -1); }
B(vx_proc_run) { // int (fn, arg)
    Proc child = S->p; S->stack.push_back(S->p); S->stack.back().retDst = -1; child.pid = S->nextPid++; child.th[child.cur].fr.clear(); auto keep = child.th[child.cur]; child.th.clear(); child.th.push_back(keep); child.cur = 0; S->p = child; startFn(a[0], {a[1]}); }
B(vx_fork) { // 0 in the child; mode 0: the child runs to its end first; mode 1: it waits until resumed
    int pid = S->nextPid++;
    if (!concretize(a[0], 32)) return;
    if (a[0].c == 0) { S->stack.push_back(S->p); /* parent completes its call with the pid: remember */ S->stack.back().retDst = pid; S->p.pid = pid; done(I, cv(0)); }
    else { Proc child = S->p; child.pid = pid; Proc me = S->p; S->p = child; done(I, cv(0)); child = S->p; S->p = me; S->deferred.push_back(child); done(I, cv(pid)); } }
B(vx_proc_resume) { // int (pid)
    if (!concretize(a[0], 32)) return; for (size_t i = 0; i < S->deferred.size(); i++) if ((uint32_t)S->deferred[i].pid == (uint32_t)a[0].c) { Proc c = S->deferred[i]; S->deferred.erase(S->deferred.begin() + i); for (uint32_t id : S->shared) { Obj* o = S->p.mem.get(id); c.mem.slot(id) = Ref<Obj>(o); } S->stack.push_back(S->p); S->stack.back().retDst = -1; S->p = c; return; }
    done(I, cv((uint64_t)-1)); }
B(vx_proc_exit) { if (!concretize(a[0], 32)) return; procEnd((int)a[0].c); }
// ---- threads (cooperative; the world decides where to switch)
B(vx_thread_create) { Thread t; S->p.th.push_back(t); int me = S->p.cur; S->p.cur = (int)S->p.th.size() - 1; int id = S->p.cur; startFn(a[0], {a[1]}); S->p.cur = me; done(I, cv(id)); }
B(vx_thread_switch) { if (!concretize(a[0], 32)) return; done(I, cv(0)); if (a[0].c < S->p.th.size()) S->p.cur = (int)a[0].c; }
B(vx_thread_self) { done(I, cv(S->p.cur)); }

static void intrinsic(Inst& I, const std::string& n, std::vector<Val>& a) {
    auto is = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
    unsigned w = I.w;
    if (is("llvm.memcpy") || is("llvm.memmove")) return b_memcpy(I, a);
    if (is("llvm.memset")) return b_memset(I, a);
    if (is("llvm.lifetime") || is("llvm.dbg") || is("llvm.assume") || is("llvm.experimental.noalias") || is("llvm.va_end") || is("llvm.stackrestore") || is("llvm.prefetch") || is("llvm.invariant") || is("llvm.donothing")) return done(I);
    if (is("llvm.stacksave")) return done(I);
    if (is("llvm.expect") || is("llvm.launder") || is("llvm.strip") || is("llvm.ptr.annotation")) return done(I, a[0]);
    if (is("llvm.is.constant")) return done(I, cv(0));
    if (is("llvm.objectsize")) return done(I, cv(m64(w)));
    if (is("llvm.trap") || is("llvm.ubsantrap")) return memErr("abort", "trap");
    if (is("llvm.umax") || is("llvm.umin") || is("llvm.smax") || is("llvm.smin")) { bool mx = n[7] == 'a'; unsigned p = n[5] == 'u' ? (mx ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT) : (mx ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT); Val c = cmpop(p, a[0], a[1], w); if (!c.e) return done(I, c.c ? a[0] : a[1]); return done(I, fromE(P.ite(c.e, toE(a[0], w), toE(a[1], w)))); }
    if (is("llvm.abs.")) { Val c = cmpop(CmpInst::ICMP_SLT, a[0], cv(0), w); Val ng = binop(K_SUB, cv(0), a[0], w); if (!c.e) return done(I, c.c ? ng : a[0]); return done(I, fromE(P.ite(c.e, toE(ng, w), toE(a[0], w)))); }
    if (is("llvm.bswap")) { Expr* e = toE(a[0], w); Expr* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr* b = P.extract(e, i * 8 + 7, i * 8); r = r ? P.concat(r, b) : b; } return done(I, fromE(r)); }
    if (is("llvm.fshl") || is("llvm.fshr")) { if (!concretize(a[2], w)) return; unsigned s = a[2].c % w; bool l = n[8] == 'l'; if (!s) return done(I, l ? a[0] : a[1]); if (!l) s = w - s; Val h = binop(K_SHL, a[0], cv(s), w), lo = binop(K_LSHR, a[1], cv(w - s), w); return done(I, binop(K_OR, h, lo, w)); }
    if (is("llvm.ctpop")) { Val r = cv(0); for (unsigned i = 0; i < w; i++) r = binop(K_ADD, r, binop(K_AND, binop(K_LSHR, a[0], cv(i), w), cv(1), w), w); return done(I, r); }
    if (is("llvm.ctlz") || is("llvm.cttz")) { if (!concretize(a[0], w)) return; uint64_t x = a[0].c; unsigned r = w; if (x) r = n[7] == 'z' ? 0 : 0; if (x) r = n.compare(0, 9, "llvm.ctlz") == 0 ? __builtin_clzll(x) - (64 - w) : __builtin_ctzll(x); return done(I, cv(r)); }
    if (is("llvm.usub.sat")) { Val c = cmpop(CmpInst::ICMP_ULT, a[0], a[1], w); Val s = binop(K_SUB, a[0], a[1], w); if (!c.e) return done(I, c.c ? cv(0) : s); return done(I, fromE(P.ite(c.e, P.con(0, w), toE(s, w)))); }
    if (is("llvm.uadd.sat")) { Val s = binop(K_ADD, a[0], a[1], w); Val c = cmpop(CmpInst::ICMP_ULT, s, a[0], w); if (!c.e) return done(I, c.c ? cv(m64(w)) : s); return done(I, fromE(P.ite(c.e, P.con(m64(w), w), toE(s, w)))); }
    if (n.find(".with.overflow") != std::string::npos) {
        Kind k = is("llvm.uadd") || is("llvm.sadd") ? K_ADD : is("llvm.usub") || is("llvm.ssub") ? K_SUB : K_MUL; bool sg = n[5] == 's'; if (w > 62) { // use 128-bit
        }
        unsigned W = 2 * w; Expr* x = sg ? P.sext(toE(a[0], w), W) : P.zext(toE(a[0], w), W); Expr* y = sg ? P.sext(toE(a[1], w), W) : P.zext(toE(a[1], w), W); Expr* r = P.bin(k, x, y); Expr* lo = P.extract(r, w - 1, 0); Expr* back = sg ? P.sext(lo, W) : P.zext(lo, W); Frame& f = F(); f.R[I.dst + 1] = fromE(P.lnot(P.eq(back, r))); Val res = fromE(lo); return done(I, res); }
    if (is("llvm.va_start")) { uint32_t id, off; if (!resolveRange(a[0], 24, true, id, off)) return; Obj* o = S->p.mem.wr(id); wrVal(o, off, cv(48), 32); wrVal(o, off + 4, cv(304), 32); wrVal(o, off + 8, cv(F().va == ~0u ? 0 : baseOf(F().va)), 64); wrVal(o, off + 16, cv(0), 64); return done(I); }
    if (is("llvm.va_copy")) { uint32_t di, dof, si, sof; if (!resolveRange(a[1], 24, false, si, sof) || !resolveRange(a[0], 24, true, di, dof)) return; copyBytes(di, dof, si, sof, 24); return done(I); }
    if (is("llvm.fabs") || is("llvm.floor") || is("llvm.ceil") || is("llvm.trunc.f") || is("llvm.round")) { if (!concretize(a[0], w)) return; double x = asD(a[0].c, w); x = is("llvm.fabs") ? fabs(x) : is("llvm.floor") ? floor(x) : is("llvm.ceil") ? ceil(x) : is("llvm.round") ? round(x) : trunc(x); return done(I, cv(fromD(x, w))); }
    if (is("llvm.fmuladd") || is("llvm.fma")) { for (int i = 0; i < 3; i++) if (!concretize(a[i], w)) return; return done(I, cv(fromD(asD(a[0].c, w) * asD(a[1].c, w) + asD(a[2].c, w), w))); }
    incomplete("unsupported intrinsic " + n);
}
static void initBuiltins() {
    auto add = [&](const char* n, Handler h) { bIdx[n] = bTab.size(); bTab.push_back(h); };
    for (auto n : {"malloc", "_Znwm", "_Znam"}) add(n, b_malloc); add("calloc", b_calloc); add("realloc", b_realloc);
    for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "vx_free"}) add(n, b_free);
    add("vx_malloc", b_rmalloc); add("vx_calloc", b_rcalloc); add("vx_realloc", b_rrealloc);
    for (auto n : {"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}) add(n, b_memcpy); add("memset", b_memset);
    add("abort", b_abort); add("__cxa_atexit", b_nop); add("__cxa_guard_acquire", b_one); add("__cxa_guard_release", b_nop); add("__clang_call_terminate", b_abort); add("_ZSt9terminatev", b_abort); add("__cxa_pure_virtual", b_abort);
#define ADD(x) add(#x, b_##x)
    ADD(vx_sym); ADD(vx_range); ADD(vx_concretize); ADD(vx_is_sym); ADD(vx_strlen_fast); ADD(vx_assume); ADD(vx_check); ADD(vx_fail); ADD(vx_reach); ADD(vx_note); ADD(vx_note_int); ADD(vx_trace); ADD(vx_param); ADD(vx_shared_alloc); ADD(vx_live); ADD(vx_stop); ADD(vx_kill); ADD(vx_steps_reset); ADD(vx_engine); ADD(vx_unsupported); ADD(vx_proc_run); ADD(vx_fork); ADD(vx_proc_resume); ADD(vx_proc_exit); ADD(vx_thread_create); ADD(vx_thread_switch); ADD(vx_thread_self);
}
static void doCall(Inst& I) {
    Frame& f = F(); Ext* x = I.x; Fn* cal = x->callee;
    if (!cal) {
        if (x->name == "asm") { done(I); return; }
        Val p = rd(f, I.a); if (!concretize(p, 64)) return; uint32_t ix = (uint32_t)(p.c >> 32) - 1;
        if ((p.c >> 32) == 0) { memErr("null-call", "call through a null function pointer"); return; }
        if (ix < FUNC_BASE || ix - FUNC_BASE >= fns.size() || (uint32_t)p.c) { memErr("wild-call", "call through an invalid function pointer"); return; }
        cal = fns[ix - FUNC_BASE];
    }
    Frame& g = F();
    std::vector<Val> args; 
    if (x->handler == -1) { auto it = bIdx.find(cal->name); x->handler = it == bIdx.end() ? (cal->f->isIntrinsic() ? -3 : -2) : it->second; }
    int h = x->handler; if (!x->callee) { auto it = bIdx.find(cal->name); h = it == bIdx.end() ? -2 : it->second; x->handler = -1; }
    if (h >= 0) { for (size_t i = 0; i < x->args.size(); i++) args.push_back(rd(g, x->args[i])); bTab[h](I, args); return; }
    if (h == -3) { for (size_t i = 0; i < x->args.size(); i++) args.push_back(rd(g, x->args[i])); intrinsic(I, cal->name, args); return; }
    if (cal->f->isDeclaration()) { incomplete("call to unmodelled function " + cal->name); return; }
    ensure(cal); size_t nfix = cal->args.size(); std::vector<uint32_t> copies; std::vector<std::pair<Val, unsigned>> var;
    for (size_t i = 0; i < x->args.size(); i++) {
        if (i < nfix) {
            if (x->byval[i]) { Val p = rd(g, x->args[i]); uint32_t si, sof; if (!resolveRange(p, x->byval[i], false, si, sof)) return; uint32_t id = newObj(x->byval[i], OF_STACK, false, I.src); copyBytes(id, 0, si, sof, x->byval[i]); copies.push_back(id); args.push_back(cv(baseOf(id))); }
            else for (int k = 0; k < x->argn[i]; k++) args.push_back(rdN(g, x->args[i], k));
        } else var.push_back({rd(g, x->args[i]), x->argw[i]});
    }
    uint32_t va = ~0u; if (cal->vararg) { va = newObj(std::max<size_t>(8, 8 * var.size()), OF_STACK, true, I.src); Obj* o = S->p.mem.wr(va); for (size_t i = 0; i < var.size(); i++) wrVal(o, 8 * i, var[i].second < 64 && var[i].first.e ? fromE(P.zext(var[i].first.e, 64)) : var[i].first, 64); copies.push_back(va); }
    pushCall(cal, args, I.dst, I.w2, va); if (!alive) return; for (uint32_t id : copies) F().alloc.push_back(id);
}
