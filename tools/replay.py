#!/usr/bin/env python3
# replay.py <property> <run> <cex>: rebuild the native program for that run and replay the counterexample
import sys, os; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import vlib, checks, check
prop, run, cex = sys.argv[1:4]; r = [r for r in checks.CHECKS[prop]["runs"] if r["name"] == run][0]
d = f"{vlib.B}/replay_{prop}_{run}"; os.makedirs(d, exist_ok=True); cfg = {"defs": r.get("defs", []), "hdefs": r.get("hdefs", []), "sched": r.get("sched")}
if cfg["sched"]: vlib.engine()
if r.get("prepare"): r["prepare"](d, cfg)
rc, txt = check.replay(vlib.native(d, cfg, r["harness"]), cex); print(txt); print("exit", rc); sys.exit(rc)
