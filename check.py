#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current tree by bounded symbolic execution.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken (counterexample replayed on the native build);
exit 2: error of the check."""
import sys, os, json, glob, time, shutil, subprocess
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import vlib, checks
ASAN = "exitcode=4:detect_leaks=0:detect_stack_use_after_return=0:malloc_fill_byte=190:max_malloc_fill_size=1000000:redzone=512:handle_abort=1:allocator_may_return_null=1:symbolize=1"

def known(prop):
    out = []
    p = f"{V}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: "):
                head, what = l[9:].split("|", 1); f = head.split(None, 1)
                pr = f[0].split("=")[1]; sig = head.split("sig=", 1)[1].strip()
                if pr == prop: out.append((sig, what.strip()))
    return out

def replay(exe, cex, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS=ASAN)
    try: p = subprocess.run([exe, cex], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    except subprocess.TimeoutExpired as e: return 5, (e.stdout or b"").decode("latin1") + "\nreplay timed out"
    return p.returncode, p.stdout.decode("latin1")

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); strict = os.environ.get("VX_STRICT")
    spec = checks.CHECKS[prop]; t0 = time.time(); work = f"{vlib.B}/{prop}_{tier}"
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work); os.makedirs(f"{V}/evidence", exist_ok=True)
    rdir = f"{V}/evidence/replay_{prop}"; shutil.rmtree(rdir, ignore_errors=True)
    kn = known(prop); tot = {}; perrun = []; viols = []; seen_known = {}; notes = []; fns = set(); samples = []; validated = 0; mism = []; failed = None
    try: vlib.engine()
    except vlib.BuildError as e: print("engine build failed:", e); return 2
    only = os.environ.get("VX_RUN")
    limit = 780 if tier == "quick" else 1e9
    for run in spec["runs"]:
        if tier not in run.get("tiers", ("quick", "thorough")): continue
        if only and run["name"] != only: continue
        if viols and tier == "quick" and not os.environ.get("VX_ALL"): break     # reported already
        left = limit - (time.time() - t0)
        if left < 40: notes.append(f"run {run['name']}: incomplete: not started, out of time at check.py"); continue
        d = f"{work}/{run['name']}"; os.makedirs(d)
        T = lambda k, dflt=None: run.get(k + "_" + tier, run.get(k, dflt))
        cfg = {"defs": T("defs", []), "hdefs": T("hdefs", []), "sched": run.get("sched")}
        try: rb = vlib.repo_bc(d, cfg)
        except vlib.BuildError as e: print(f"build failed for run {run['name']}:\n{e}"); failed = failed or "build"; continue
        try:
            if run.get("prepare"): run["prepare"](d, cfg)
            hb = vlib.rt_bc(d, cfg, run["harness"])
        except vlib.BuildError as e:
            if run.get("unit") and not os.environ.get("VX_STRICT"): notes.append(f"run {run['name']} skipped: its harness does not build against this tree"); print(f"NOTE: {notes[-1]}"); continue
            print(f"build failed for run {run['name']}:\n{e}"); failed = failed or "build"; continue
        out = f"{d}/o"
        cmd = [f"{vlib.B}/symx"] + sum((["--repo", x] for x in rb), []) + sum((["--rt", x] for x in hb), []) + ["--out", out, "--redirect", f"{V}/redirect.txt", "--jobs", "8", "--timeout", str(min(T("timeout", 120), left - 30)), "--max-viol", "40", "--max-steps", str(T("steps", 30000000))]
        for s, _ in kn: cmd += ["--known", s]
        for k, v in {**run.get("params", {}), **run.get("params_" + tier, {})}.items(): cmd += ["-P", f"{k}={v}"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: print(f"symbolic executor failed on run {run['name']}: {p.stdout[-1500:]}"); failed = failed or "engine"; continue
        st = json.load(open(out + ".stats")); reach = {}; cand = []; inc = []
        for f in glob.glob(out + ".*.part"):
            for l in open(f):
                x = json.loads(l); t = x["t"]
                if t == "reach": reach[x["label"]] = reach.get(x["label"], 0) + x["n"]
                elif t == "viol": cand.append(x)
                elif t == "known":
                    for s, w in kn:
                        if x["sig"] == s or (s.endswith("*") and x["sig"].startswith(s[:-1])): seen_known[s] = w
                elif t == "incomplete": inc.append(x)
                elif t == "fn": fns.add(x.get("label") or x.get("name") or "")
                elif t == "sample" and len(samples) < 6: samples.append({"run": run["name"], "inputs": x["text"][:400]})
        for k, v in st.items():
            if isinstance(v, (int, float)): tot[k] = tot.get(k, 0) + v if k not in ("max_query_s", "workers") else max(tot.get(k, 0), v)
        # counterexamples and a few explored paths run on the native build of the same sources
        exe = None
        try: exe = vlib.native(d, cfg, run["harness"])
        except vlib.BuildError as e: print(f"native build failed for run {run['name']}:\n{e}"); failed = failed or "native build"
        conf = 0; uncf = []
        if exe:
            done = {}; tr = time.time()
            for c in sorted(cand, key=lambda c: (c["sig"], c["cex"])):
                if done.get(c["sig"]) or time.time() - tr > 120 or (done and time.time() - tr > 30): continue
                rc, txt = replay(exe, c["cex"])
                if rc in (3, 4, 5) or rc < 0:
                    done[c["sig"]] = True; conf += 1; os.makedirs(rdir, exist_ok=True); b = f"{rdir}/{run['name']}_{conf}"
                    shutil.copy(c["cex"], b + ".cex")
                    with open(b + ".txt", "w") as f: f.write(f"property {prop}, run {run['name']}\nsymbolic: {c['sig']}: {c['msg']}\nat {c['at']}\nre-run: python3 tools/replay.py {prop} {run['name']} {b}.cex\n\nnative replay (exit {rc}):\n{txt[:6000]}\n")
                    viols.append((c["sig"], c["msg"], b + ".txt"))
                else: uncf.append((c["sig"], c["at"][:300], rc, txt[-300:]))
            uncf = [u for u in uncf if not done.get(u[0])]
            for s in sorted(glob.glob(out + ".*.smp"))[: (6 if tier == "quick" else 40)]:
                rc, txt = replay(exe, s)
                if rc == 0 and "VX-DIVERGED" not in txt and "VX-ASSUME" not in txt: validated += 1
                else: mism.append((run["name"], s, rc, txt[-300:]))
        miss = [l for l in run.get("reach", []) if not reach.get(l)]
        if inc: notes += [f"run {run['name']}: incomplete: {i['why']} at {i['at'][:160]}" for i in inc]
        if miss and not cand and not inc and not seen_known: print(f"VACUOUS: run {run['name']} never reached {miss}"); failed = failed or "vacuous"
        for u in uncf: notes.append(f"run {run['name']}: counterexample not reproduced natively: {u}")
        perrun.append({"run": run["name"], "harness": run["harness"], "bounds": run.get("bounds", ""), "paths": st["paths"], "checks": st["checks"], "queries": st["queries"], "incomplete": len(inc), "reached": reach, "wall_s": round(st["wall_s"], 2), "solver_s": round(st["solver_s"], 2), "unconfirmed": len(uncf)})
        print(f"[{prop}/{run['name']}] paths={st['paths']} instr={st['instructions']} queries={st['queries']} checks={st['checks']} (constant {st['checks_constant']}, solver {st['checks_by_solver']}) solver={st['solver_s']:.1f}s wall={st['wall_s']:.1f}s candidates={len(cand)} confirmed={conf} incomplete={len(inc)}", flush=True)
        for f in glob.glob(f"{d}/*.bc") + glob.glob(f"{d}/*.o"): os.unlink(f)
    for x in glob.glob(f"{work}/src_*") + glob.glob(f"{work}/nat_*"): shutil.rmtree(x, ignore_errors=True)
    for s, w in kn:
        if s in seen_known: print(f"KNOWN-FINDING: property={prop} {w}")
    for n in notes: print("INCOMPLETE:" if "incomplete" in n or "reproduced" in n else "NOTE:", n)
    for m in mism: print("ENGINE-MISMATCH:", m)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viols),
          "assumptions": checks.ASSUME + spec.get("assume", []),
          "coverage": {"states": int(tot.get("paths", 0) + tot.get("forks", 0)), "transitions": int(tot.get("instructions", 0)), "traces_validated_against_impl": validated, "samples": samples or [{"note": "no symbolic input on any path"}],
                       "paths": int(tot.get("paths", 0)), "queries": int(tot.get("queries", 0)), "queries_sat": int(tot.get("sat", 0)), "queries_unsat": int(tot.get("unsat", 0)), "queries_unknown": int(tot.get("unknown", 0)), "solver_s": round(tot.get("solver_s", 0), 2), "max_query_s": round(tot.get("max_query_s", 0), 3),
                       "assertions": int(tot.get("checks", 0)), "assertions_decided_constant": int(tot.get("checks_constant", 0)), "assertions_decided_by_solver": int(tot.get("checks_by_solver", 0)), "exhaustive": not any(r["incomplete"] or r["unconfirmed"] for r in perrun) and not failed,
                       "functions_encoded": sorted(fns), "bounds": spec.get("bounds", ""), "outside_bounds": spec.get("outside", ""), "runs": perrun, "source_hash": vlib.src_hash(), "notes": notes, "known_findings_seen": sorted(seen_known)}}
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for s, m, b in viols: print(f"VIOLATION property={prop} replay={b}  ({s})")
    if viols: return 1
    if failed: print("CHECK-ERROR:", failed); return 2
    if strict and (notes or mism): return 2
    return 0
if __name__ == "__main__": sys.exit(main())
