"""Build steps: /repo's sources and the harness as bitcode for the symbolic executor and, when a counterexample has to be
replayed, as a native ASan program. Everything is regenerated from /repo's working tree."""
import os, subprocess, glob, hashlib, json, sys, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
B = os.path.join(V, "build")
CLANG = ["clang++", "-std=c++11", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-w", "-fno-builtin", "-fno-exceptions", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-U_FORTIFY_SOURCE"]
# any of these gives bitcode with the same meaning: if opt cannot run the first on some source, the next is used
PASSES = ["function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)", "function(sroa,early-cse,simplifycfg)", "function(sroa)"]

class BuildError(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout

def opt(src, dst):
    for i, p in enumerate(PASSES):
        try: run(["opt-18", f"-passes={p}", src, "-o", dst]); return
        except BuildError:
            if i + 1 == len(PASSES): raise

def sources():
    s = sorted(glob.glob(f"{REPO}/src/core/*.cpp") + glob.glob(f"{REPO}/src/core/*.c")) + sorted(glob.glob(f"{REPO}/src/server/*.cpp"))
    return s

def redirects():
    return [l.split() for l in open(f"{V}/redirect.txt") if l.strip()]

def engine():
    run(["make", "-s", "-C", f"{V}/engine"])
    return f"{B}/symx"

def defs_of(cfg):
    return ["-DNDEBUG", "-DRELEASE"] + list(cfg.get("defs", []))

_memo = {}
def memo(f):
    # within one check, runs with the same build options share the compiled sources
    def g(d, cfg, *a):
        k = (f.__name__, tuple(cfg.get("defs", [])), bool(cfg.get("sched")), os.path.dirname(d), str(a))
        if k not in _memo: _memo[k] = f(d, cfg, *a)
        return _memo[k]
    return g
@memo
def repo_bc(d, cfg):
    d = f"{os.path.dirname(d)}/src_{hashlib.md5(str((cfg.get('defs', []), cfg.get('sched'))).encode()).hexdigest()[:8]}"
    os.makedirs(d, exist_ok=True); out = []
    def one(src):
        o = f"{d}/r_{os.path.basename(src)}.bc"
        run(CLANG + defs_of(cfg) + [f"-I{REPO}/src/core", "-c", "-emit-llvm", src, "-o", o + ".0"])
        opt(o + ".0", o); os.unlink(o + ".0")
        if cfg.get("sched"): run([f"{B}/vxinst", o, o])
        return o
    with cf.ThreadPoolExecutor(8) as ex: out = list(ex.map(one, sources()))
    return out

def rt_bc(d, cfg, harness):
    os.makedirs(d, exist_ok=True)
    srcs = [(f"{V}/rt/libc.cpp", []), (f"{V}/rt/world.cpp", []), (f"{V}/rt/server.cpp", [])] + [(f"{V}/harness/{h}", []) for h in harness]
    if not cfg.get("world", True): srcs = [srcs[0]] + srcs[3:]
    def one(x):
        s, extra = x; o = f"{d}/h_{os.path.basename(s)}.bc"
        run(["clang++", "-std=c++17", "-O1", "-g", "-w", "-fno-pic", "-fno-pie", "-fno-builtin", "-fno-exceptions", "-fno-rtti", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + defs_of(cfg) + list(cfg.get("hdefs", [])) + extra + [f"-I{V}/rt", f"-I{V}/harness", f"-I{d}", f"-I{REPO}/src/core", f"-I{REPO}/src/server", "-c", "-emit-llvm", s, "-o", o])
        return o
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(one, srcs))

@memo
def native_objs(d, cfg, S):
    d = f"{os.path.dirname(d)}/nat_{hashlib.md5(str((cfg.get('defs', []), cfg.get('sched'), S)).encode()).hexdigest()[:8]}"; os.makedirs(d, exist_ok=True)
    red = f"{d}/redef.txt"; seen, alias = set(), []
    with open(red, "w") as f:
        for a, b in redirects():   # objcopy wants distinct targets: aliases are resolved by the linker
            t = b if b not in seen else f"{b}__{a}"
            if t != b: alias.append(f"-Wl,--defsym={t}={b}")
            seen.add(b); f.write(f"{a} {t}\n")
        f.write("main scache_main\n")
    def r(src):
        o = f"{d}/n_{os.path.basename(src)}.o"
        if cfg.get("sched"):
            bc = f"{d}/n_{os.path.basename(src)}.bc"
            run(CLANG + S + defs_of(cfg) + [f"-I{REPO}/src/core", "-c", "-emit-llvm", src, "-o", bc + ".0"]); opt(bc + ".0", bc); run([f"{B}/vxinst", bc, bc])
            run(["clang++", "-O1", "-g", "-w", "-c", bc, "-o", o] + S)
        else:
            run(["g++", "-std=c++11", "-O1", "-g", "-w", "-U_FORTIFY_SOURCE", "-fno-builtin-printf", "-fno-builtin-fprintf"] + S + defs_of(cfg) + [f"-I{REPO}/src/core", "-c", src, "-o", o])
        run(["objcopy", f"--redefine-syms={red}", o]); return o
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(r, sources())), alias

def native(d, cfg, harness, san=True):
    """ASan build of the same sources and harness, for replay."""
    os.makedirs(d, exist_ok=True); exe = f"{d}/native"
    S = ["-fsanitize=address", "-fno-omit-frame-pointer"] if san else []
    hs = [f"{V}/rt/world.cpp", f"{V}/rt/server.cpp", f"{V}/rt/native_rt.cpp"] + [f"{V}/harness/{h}" for h in harness]
    if not cfg.get("world", True): hs = hs[2:]; 
    def h(src):
        o = f"{d}/m_{os.path.basename(src)}.o"
        run(["g++", "-std=c++17", "-O1", "-g", "-w", "-U_FORTIFY_SOURCE", "-DVX_NATIVE"] + S + defs_of(cfg) + list(cfg.get("hdefs", [])) + [f"-I{V}/rt", f"-I{V}/harness", f"-I{d}", f"-I{REPO}/src/core", f"-I{REPO}/src/server", "-c", src, "-o", o]); return o
    with cf.ThreadPoolExecutor(8) as ex:
        b = ex.map(h, hs); a, alias = native_objs(d, cfg, S); b = list(b)
    run((["clang++"] if cfg.get("sched") else ["g++"]) + S + ["-g", "-o", exe] + a + b + alias + ["-lpthread"])
    return exe

def src_hash():
    h = hashlib.sha256()
    for s in sorted(sources() + glob.glob(f"{REPO}/src/*/*.h")): h.update(open(s, "rb").read())
    return h.hexdigest()[:16]
