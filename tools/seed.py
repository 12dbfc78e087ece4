#!/usr/bin/env python3
"""seed.py FILE...: plant bugs described in FILE (python: BUGS = [dict(id, property, file, edits=[(old,new),..], demo, needs, breaks)])
Writes /verif/seeded/<id>/, confirms in a scratch copy of /repo that the change builds, that the existing tests
pass, and that the demonstration passes without it and fails with it."""
import json, os, re, shutil, subprocess, sys
V = "/verif"
S = "/tmp/seedscratch"
DEMO = r'''#!/bin/bash
# exit 0 when the behaviour is right; the program is main.rs beside this file
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$D/Cargo.lock" "$T/Cargo.lock"
R=${IODYN_ROOT:-/repo}
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.1"
[dependencies]
iodyn = { path = "$R" }
adapton = "0.3"
rand = "0.3"
time = "0.1"
[profile.dev]
debug = 0
[workspace]
EOF
sed -i "s#\"/repo/#\"$R/#" "$T/src/main.rs"
cd "$T"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTUP_TOOLCHAIN=stable RUSTFLAGS="-Awarnings"
cargo build --offline --quiet 2>"$T/err" || { tail -30 "$T/err"; exit 3; }
ulimit -v 4000000
timeout 60 "$T/target/debug/demo"
'''
def run(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main():
    bugs = []
    only = [a[1:] for a in sys.argv[1:] if a.startswith("@")]
    for f in [a for a in sys.argv[1:] if not a.startswith("@")]:
        g = {}
        exec(open(f).read(), g)
        bugs += [b for b in g["BUGS"] if not only or any(b["id"].startswith(o) for o in only)]
    for b in bugs:
        d = "%s/seeded/%s" % (V, b["id"])
        shutil.rmtree(S, ignore_errors=True)
        run("cp -a /repo " + S)
        p = S + "/" + b["file"]
        bad = False
        for old, new in b["edits"]:
            f, o = (p, old) if not isinstance(old, tuple) else (S + "/" + old[0], old[1])
            t = open(f).read()
            if t.count(o) != 1:
                print(b["id"], "edit matches", t.count(o), "times:", o); bad = True; break
            open(f, "w").write(t.replace(o, new))
        if bad: continue
        os.makedirs(d, exist_ok=True)
        diff = run("git -C %s diff" % S).stdout
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/main.rs", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(V + "/replay/Cargo.lock", d + "/Cargo.lock")
        t = open(d + "/Cargo.lock").read().replace('name = "vreplay"', 'name = "demo"')
        open(d + "/Cargo.lock", "w").write(t)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        env = dict(os.environ)
        r0 = run("bash %s/demo.sh" % d, cwd="/repo", env=env)
        env["IODYN_ROOT"] = S
        r1 = run("bash %s/demo.sh" % d, cwd=S, env=env)
        envs = run("sed 's#/repo#%s#g' /opt/vp/env.sh > /tmp/seedenv.sh" % S)
        rt = run("cd %s && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s/target RUSTUP_TOOLCHAIN=stable cargo test --offline 2>&1 | grep -E '^test |^error|test result'" % (S, S))
        out = rt.stdout.decode()
        failed = re.findall(r"^test (\S+).*FAILED", out, re.M)
        n = len(re.findall(r"^test .* ok$", out, re.M))
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and not failed and n > 0
        print(b["id"], "OK" if ok else "BAD", "demo:", r0.returncode, r1.returncode, "tests ok:", n, "failed:", failed)
        if not ok:
            print(r0.stdout.decode()[-600:], "\n--\n", r1.stdout.decode()[-600:], out[-800:] if n == 0 else "")
    shutil.rmtree(S, ignore_errors=True)
main()
