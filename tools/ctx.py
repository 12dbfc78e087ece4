#!/usr/bin/env python3
"""ctx.py PROP MODULE FUNCTION [verus args]: verify one function in the context one property's check gives it."""
import subprocess, sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "checks"))
import check
from props import PROPS
p, mod, fn = sys.argv[1:4]
cfg = PROPS[p]
vx = os.environ.get("VX", "/tmp/vxt/debug/vextract")
d0 = "/tmp/ctx-%s-%d" % (p, os.getpid()); os.makedirs(d0); r, m = d0 + "/vx.rs", d0 + "/vx.json"
cmd = [vx, "--repo", os.environ.get("REPO", "/repo"), "--specs", os.path.join(V, "specs"), "--modules", ",".join(cfg["modules"]), "--out", r, "--map", m]
for i in range(2):
    subprocess.run(cmd, check=True)
    fns = json.load(open(m))["functions"]
    for f in fns: f["id"] = f["module"] + ":" + f["key"]
    keep = check.call_closure(fns, cfg["modules"], cfg["roots"])
    if i == 0: cmd += ["--skip", ";".join(f["id"] for f in fns if f["id"] not in keep)]
if not cfg.get("pinned"): t = open(r).read(); open(r, "w").write(t.replace("spec fn pinned() -> bool { true }", "spec fn pinned() -> bool { false }", 1))
out = subprocess.run(["verus", r, "--crate-type", "lib", *(["--verify-only-module", mod, "--verify-function", fn] if fn != "-" else []), "--time-expanded", "--output-json"] + sys.argv[4:], capture_output=True, text=True)
try:
    d = json.loads(out.stdout)
    for mm in d["times-ms"]["smt"]["smt-run-module-times"]:
        for f in mm.get("function-breakdown", []):
            if (f["rlimit"] > 8000000 or fn != "-" and f["time"]) or not f["success"]: print(p, f["function"], "ms", f["time"], "rlimit", f["rlimit"], "ok", f["success"])
except Exception as e: print("?", e)
print("\n".join(l for l in out.stderr.splitlines() if l.startswith("error"))[:2000])
os.unlink(r); os.unlink(m); os.rmdir(d0)
