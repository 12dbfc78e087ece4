#!/usr/bin/env python3
"""refac.py FILE [@idprefix..]: apply behaviour-preserving edits to /repo (run me under isolated.sh) and run the checks named:
none may report a violation"""
import sys, subprocess, re
g = {}
exec(open(sys.argv[1]).read(), g)
only = [a[1:] for a in sys.argv[2:] if a.startswith("@")]
for r in g["R"]:
    if only and not any(r["id"].startswith(o) for o in only): continue
    if not r["edits"] and not r.get("sub"): continue
    f = "/repo/" + r["file"]
    src = s = open(f).read()
    ok = True
    for a, b in r["edits"]:
        if a not in s: print(r["id"], "EDIT DOES NOT APPLY:", a[:60].strip()); ok = False; break
        s = s.replace(a, b, r.get("count", 1))
    for fn, a, b in r.get("sub", []):
        i = s.index("fn " + fn); j = s.index("\n\t}\n", i)
        s = s[:i] + re.sub(r"\b%s\b" % a, b, s[i:j]) + s[j:]
    if not ok: continue
    open(f, "w").write(s)
    try:
        if not r["file"].startswith("eval"):
            c = subprocess.run("cd /repo && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/refac_t RUSTUP_TOOLCHAIN=stable RUSTFLAGS=-Awarnings cargo check --offline 2>&1 | grep -A7 '^error' | head -30", shell=True, stdout=subprocess.PIPE, text=True).stdout
            if c.strip(): print(r["id"], "DOES NOT COMPILE", c); continue
        for p in r["checks"]:
            q = subprocess.run("cd /verif && VERIF_SEED=1 python3 check.py %s quick" % p, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in q.stdout.splitlines() if re.search("VIOLATION|failed obl|undecided|lost|replay of|demoted|dropped|not ", l)]
            print(r["id"], p, "rc=%d" % q.returncode, "" if q.returncode == 0 else "ALARM", " | ".join(x[:300] for x in v[-8:]), flush=True)
    finally:
        open(f, "w").write(src)
