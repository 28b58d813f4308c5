#!/usr/bin/env python3
# dev helper: dev.py harness.cpp [-DX ...] [--native cex] [symx options]
import sys, os; sys.path.insert(0, "/verif"); import vlib, subprocess, time, glob
h = sys.argv[1]; rest = sys.argv[2:]; cfg = {"defs": [a for a in rest if a.startswith("-D")]}; rest = [a for a in rest if not a.startswith("-D")]
if "--sched" in rest: cfg["sched"] = True; rest.remove("--sched")
if "--noworld" in rest: cfg["world"] = False; rest.remove("--noworld")
cfg["hdefs"] = ["-D" + a[3:] for a in rest if a.startswith("-HD")]; rest = [a for a in rest if not a.startswith("-HD")]
d = f"{vlib.B}/dev_{h.replace(chr(46) + chr(99) + chr(112) + chr(112), str())}/r"; os.makedirs(d, exist_ok=True)
vlib.engine()
if "--native" in rest:
    exe = vlib.native(d, cfg, [h]); cex = rest[rest.index("--native") + 1]
    os.environ["ASAN_OPTIONS"] = "exitcode=4:detect_leaks=0:detect_stack_use_after_return=0:malloc_fill_byte=190:max_malloc_fill_size=1000000:redzone=512:handle_abort=1"
    p = subprocess.run([exe, cex]); print("exit", p.returncode); sys.exit()
t = time.time(); a = vlib.repo_bc(d, cfg); b = vlib.rt_bc(d, cfg, [h]); print("build %.1fs" % (time.time() - t))
out = f"{d}/out"
for f in glob.glob(out + ".*"): os.unlink(f)
p = subprocess.run([f"{vlib.B}/symx"] + sum((["--repo", x] for x in a), []) + sum((["--rt", x] for x in b), []) + ["--out", out, "--redirect", f"{vlib.V}/redirect.txt"] + rest)
print("exit", p.returncode); os.system(f"cat {out}.stats; cat {out}.*.part | grep -v '\"fn\"'")
