#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Extracts the functions under contract from /repo's working tree, has Verus discharge their
obligations, and runs the differential replay of the property against the real crate.

exit 0  nothing found (the evidence file says what was discharged and what was not)
exit 1  VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, ".build")
EV = os.path.join(V, "evidence")
sys.path.insert(0, os.path.join(V, "checks"))
from props import PROPS, DEPS, ORDER  # noqa: E402

T0 = time.time()


def sh(cmd, timeout, env=None, cwd=None, mem_gb=None):
    """run a command in its own process group; (rc or None when it was killed for time, stdout, stderr)"""
    def pre():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o.decode(errors="replace"), e.decode(errors="replace")


def cargo(crate, target):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(B, target),
               RUSTUP_TOOLCHAIN="stable", RUSTFLAGS="-Awarnings")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return sh(["cargo", "build", "--offline", "--locked"], 600, env=env, cwd=os.path.join(V, crate))


def build_extractor():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o, e = cargo("tools/vextract", "vx")
    if rc != 0:
        print("cannot build the extractor:\n" + e[-3000:])
        sys.exit(2)
    return os.path.join(B, "vx", "debug", "vextract")


def build_replay():
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o, e = cargo("replay", "rp")
    return (os.path.join(B, "rp", "debug", "vreplay") if rc == 0 else None), e[-2000:]


def closure_modules(ms):
    todo, seen = list(ms), set()
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        todo += DEPS[m]
    return [m for m in ORDER if m in seen]


PINNED = True   # whether the contracts say in which cells data is stored (C22 only)


class Run:
    """one extraction and one run of the verifier on it"""

    def __init__(self, tag, vx, modules, demote=(), drop=(), probe=(), verus_args=(), timeout=600, eq=(), skip_outside=None):
        d = os.path.join(B, "run-%d-%s" % (os.getpid(), tag))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        self.rs, mp = os.path.join(d, "vx.rs"), os.path.join(d, "vx.json")
        self.dir, self.probe = d, probe
        self.ok = False           # the verifier got as far as the obligations
        self.crash = ""
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.breakdown = []
        self.diag = []
        cmd = [vx, "--repo", REPO, "--specs", os.path.join(V, "specs"), "--modules", ",".join(modules), "--out", self.rs, "--map", mp]
        if demote:
            cmd += ["--demote", ";".join(demote)]
        if drop:
            cmd += ["--drop-contract", ";".join(drop)]
        if eq:
            cmd += ["--eq", ";".join(eq)]
        if probe:
            cmd += ["--probe", ";".join(probe)]
        # extracted once to learn which functions the property depends on, and again with only those verified
        for pas in (0, 1):
            rc, o, e = sh(cmd, 120)
            if rc != 0:
                self.crash = "extraction failed: " + (e or o)[-1000:]
                return
            self.map = json.load(open(mp))
            if self.map["fatal"]:
                self.crash = "extraction failed: " + "; ".join(self.map["fatal"])
                return
            self.fns = self.map["functions"]
            for f in self.fns:
                f["id"] = f["module"] + ":" + f["key"]
            if not skip_outside:
                break
            if pas == 0:
                keep = call_closure(self.fns, *skip_outside)
                out = [f["id"] for f in self.fns if f["id"] not in keep]
                if not out:
                    break
                cmd += ["--skip", ";".join(out)]
        if not PINNED:
            txt = open(self.rs).read()
            open(self.rs, "w").write(txt.replace("spec fn pinned() -> bool { true }", "spec fn pinned() -> bool { false }", 1))
        self.cmd = ["verus", self.rs, "--crate-type", "lib", "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "8", "--multiple-errors", "4"] + list(verus_args)
        rc, o, e = sh(self.cmd, timeout, cwd=d)
        for ln in e.splitlines():
            if ln.startswith("{"):
                try:
                    j = json.loads(ln)
                except ValueError:
                    continue
                if j.get("level") == "error" or "rlimit" in j.get("message", "").lower():
                    self.diag.append(j)
        if rc is None:
            self.crash = "the verifier ran out of time"
            return
        try:
            r = json.loads(o[o.index("{"):])
        except ValueError:
            self.crash = "the verifier gave no result: " + (e or o)[-1000:]
            return
        vr = r.get("verification-results", {})
        self.verified, self.errors = vr.get("verified", 0), vr.get("errors", 0)
        try:
            self.smt_ms = r["times-ms"]["smt"]["total"]
            for m in r["times-ms"]["smt"]["smt-run-module-times"]:
                for f in m["function-breakdown"]:
                    f["module"] = m["module"]
                    self.breakdown.append(f)
        except (KeyError, TypeError):
            pass
        self.ok = not vr.get("encountered-vir-error", True) and (self.verified + self.errors) > 0

    def at(self, line):
        for f in self.fns:
            if f["start"] <= line <= f["end"]:
                return f
        return None

    def spans(self, d):
        r = [(s, s["is_primary"]) for s in d.get("spans", []) if s["file_name"] == self.rs]
        for c in d.get("children", []):
            r += [(s, False) for s in c.get("spans", []) if s["file_name"] == self.rs]
        return r

    def located(self, d):
        """the functions a diagnostic points into, the most telling first"""
        out = []
        bad = {(f["module"], f["function"].split("::")[-1]) for f in self.breakdown if not f.get("success", True)}
        for s, prim in self.spans(d):
            f = self.at(s["line_start"])
            if f and f not in out:
                out.append(f)
        out.sort(key=lambda f: (f["module"], f["name"]) not in bad)
        return out

    def failures(self):
        """failed obligations: function id -> (kind, text); id None for text outside any function"""
        res = {}
        for d in self.diag:
            msg = d["message"]
            if msg.startswith("aborting due") or msg.startswith("could not compile"):
                continue
            loc = self.located(d)
            fid = loc[0]["id"] if loc else None
            low = msg.lower()
            kind = "undecided" if ("rlimit" in low or "could not" in low or "timed out" in low or "unsupported" in low or "not supported" in low) else "failed"
            old = res.get(fid)
            txt = d.get("rendered") or msg
            if old is None:
                res[fid] = (kind, txt)
            else:
                res[fid] = ("undecided" if "undecided" in (old[0], kind) else "failed", old[1] + "\n" + txt)
        return res

    def drop_dir(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def call_closure(fns, mods, roots):
    want = []
    for r in roots:
        m, k = r.split(":", 1)
        for f in fns:
            if f["module"] == m and (k == "*" or f["key"] == k or (k.endswith("*") and f["key"].startswith(k[:-1]))
                                     or (k.endswith("::*") and f["key"].startswith(k[:-3] + " as "))):
                want.append(f)
    by = {}
    for f in fns:
        if f["module"] in mods:
            for n in {f.get("name"), f["key"].split("::")[-1].split("/")[-1]}:
                by.setdefault(n, []).append(f)
    seen, todo = {}, list(want)
    while todo:
        f = todo.pop()
        if f["id"] in seen:
            continue
        seen[f["id"]] = f
        for c in f.get("calls", []):
            todo += by.get(c, [])
    return seen


def replay_search(binary, prop, seed, ms, workers, tag):
    """differential replay: (failing case description or None, cases run)"""
    if not binary:
        return None, 0
    d = os.path.join(B, "rep-%d-%s" % (os.getpid(), tag))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ps = []
    for w in range(workers):
        s = (seed * 1000 + w + 1) & 0xFFFFFFFF
        ps.append((w, s, subprocess.Popen(
            [binary, prop, "--seed", str(s), "--budget-ms", str(ms), "--out", os.path.join(d, "out%d" % w), "--progress", os.path.join(d, "at%d" % w)],
            stdout=open(os.path.join(d, "log%d" % w), "wb"), stderr=subprocess.DEVNULL, preexec_fn=pre, cwd=d)))
    end = time.time() + ms / 1000.0 + 40
    found, cases = None, 0
    hung = []
    pending = list(ps)
    while pending:
        for t in list(pending):
            w, s, p = t
            rc = p.poll()
            if rc is None:
                if time.time() > end:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    hung.append((w, "does not end"))
                    pending.remove(t)
                continue
            pending.remove(t)
            log = open(os.path.join(d, "log%d" % w), errors="replace").read()
            m = re.search(r"^OK cases=(\d+)", log, re.M)
            if m:
                cases += int(m.group(1))
            elif rc == 1 and os.path.exists(os.path.join(d, "out%d" % w)):
                txt = open(os.path.join(d, "out%d" % w), errors="replace").read()
                case = re.search(r"^case: (\S+)", txt, re.M).group(1)
                if confirm(binary, prop, case, d):
                    found = found or (case, txt)
                    end = min(end, time.time())
            elif rc < 0 or rc not in (0, 1, 2):
                hung.append((w, "ends the process (%s)" % rc))
        time.sleep(0.05)
    if not found:
        for w, what in hung:
            try:
                case = open(os.path.join(d, "at%d" % w)).read().strip()
            except OSError:
                continue
            if case and confirm(binary, prop, case, d):
                found = (case, "property: %s\ncase: %s\nfailure: the case %s (with 6 GB and 60 s)\nreplay: cargo run --manifest-path /verif/replay/Cargo.toml -- %s --case %s\n" % (prop, case, what, prop, case))
                break
    shutil.rmtree(d, ignore_errors=True)
    return found, cases


def confirm(binary, prop, case, d):
    rc, o, e = sh([binary, prop, "--case", case], 60, mem_gb=6, cwd=d)
    return rc != 0 and not (rc == 2) and "PASS" not in o


def scan_assumptions(rs):
    t = open(rs).read()
    pre_end = t.find("pub mod ", t.find("pub mod prelude") + 10)
    body = t[pre_end:] if pre_end > 0 else t
    n = {}
    for w in ("assume(", "admit(", "assume_specification", "#[verifier::external_body]"):
        n[w] = body.count(w)
    ext = re.findall(r"assume_specification[^;\[]*\[\s*([^\]]+)\]", t[:pre_end])
    ext += re.findall(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*pub (?:broadcast )?(?:proof |uninterp )?(?:fn|struct|enum) (\w+)", t[:pre_end])
    return n, sorted(set(x.strip() for x in ext))


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EV, exist_ok=True)
    cfg = PROPS[prop]
    global PINNED
    PINNED = cfg.get("pinned", False)
    known = []
    kf = os.path.join(V, "known_findings.txt")
    if os.path.exists(kf):
        for ln in open(kf):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", ln)
            if m and m.group(1) == prop:
                known.append(m.group(2).strip())
    vx = build_extractor()
    binary, build_err = build_replay()
    quick_ms = cfg.get("quick_ms", 12000)
    first = {}
    def go():
        first["r"] = replay_search(binary, prop, seed, quick_ms if tier == "quick" else cfg.get("thorough_ms", 240000), 6 if tier == "quick" else 8, "a")
    searcher = threading.Thread(target=go)
    searcher.start()

    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"), "assumptions": [], "violations": 0}
    undecided, lost, failed, closure = [], [], {}, {}
    demote, drop, eqs = [], [], []
    run, note = None, ""
    mods = closure_modules(cfg["modules"])
    if mods:
        for rnd in range(14):
            if run:
                run.drop_dir()
            run = Run("v%d" % rnd, vx, mods, demote, drop, eq=eqs, timeout=420, skip_outside=(cfg["modules"], cfg["roots"]))
            if run.crash:
                note = run.crash
                break
            if run.ok:
                break
            # the verifier's front end refused something: find the function it is in and set it aside
            culprits = {}
            for d in run.diag:
                for f in run.located(d):
                    culprits.setdefault(f["id"], []).append(d["message"])
                    break
            new = False
            for c, msgs in culprits.items():
                if c not in eqs and any("==" in m or "!=" in m or "PartialEq" in m or "equality" in m for m in msgs):
                    eqs.append(c)
                    new = True
                elif c not in demote:
                    demote.append(c)
                    new = True
                elif c not in drop:
                    drop.append(c)
                    new = True
            if not new:
                note = "the verifier refused the extracted text: " + "; ".join(d["message"] for d in run.diag[:4])
                break
    if run is not None and not run.crash and run.ok:
        closure = call_closure(run.fns, cfg["modules"], cfg["roots"])
        baseline = {}
        bp = os.path.join(V, "specs", "baseline.json")
        if os.path.exists(bp):
            baseline = json.load(open(bp))
        fails = run.failures()
        # a proof that fails on text that did not change, or for want of resources, gets more chances
        failed_first = set(fails)
        again = [i for i, (k, t) in fails.items() if i is None or k == "undecided" or hash_of(run, i) == baseline.get(i)]
        if again:
            for extra in (["--rlimit", "60"], ["--rlimit", "40", "-V", "spinoff-all"]):
                r2 = Run("r%s" % extra[1], vx, mods, demote, drop, eq=eqs, verus_args=extra, timeout=max(30, min(300, 640 - (time.time() - T0))), skip_outside=(cfg["modules"], cfg["roots"]))
                if r2.ok:
                    f2 = r2.failures()
                    fails = {i: v for i, v in f2.items() if i in fails}
                r2.drop_dir()
                if not fails:
                    break
        retried = failed_first - set(fails)
        lost = [f for f in closure.values() if f["status"] in ("lost", "unsupported", "demoted", "dropped")]
        shape_changed = lambda f: f.get("loops", 0) != f.get("spec_loops", 0)
        dropped = {f["id"] for f in run.fns if f["status"] in ("dropped",)}
        dropped_names = {f["key"].split("::")[-1] for f in run.fns if f["status"] in ("dropped", "lost")}
        for i, (kind, txt) in fails.items():
            if i is None:
                undecided.append(("lemma", txt))
                continue
            if i not in closure:
                continue
            f = closure[i]
            if kind == "undecided" or shape_changed(f) or (set(f.get("calls", [])) & dropped_names):
                undecided.append((i, txt))
            else:
                failed[i] = txt
        if failed and PINNED:
            # an obligation that also fails when the contracts say nothing about where data is stored is about
            # something else: it leaves this property undecided, it does not break it
            PINNED = False
            r4 = Run("u", vx, mods, demote, drop, eq=eqs, timeout=max(30, min(300, 640 - (time.time() - T0))), skip_outside=(cfg["modules"], cfg["roots"]))
            PINNED = True
            if r4.ok:
                for i in r4.failures():
                    if i in failed:
                        undecided.append((i, failed.pop(i)))
            r4.drop_dir()
    searcher.join()
    found, cases = first["r"]
    # obligations failed: look harder for an input
    if failed and not found:
        found, c2 = replay_search(binary, prop, seed + 77, cfg.get("search_ms", 100000), 8, "b")
        cases += c2

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    rc = 0
    rp = os.path.join(EV, "replay_%s.txt" % prop)
    if found:
        case, txt = found
        with open(rp, "w") as f:
            f.write(txt)
            for i, t in failed.items():
                f.write("\nfailed obligation in %s\n%s\n" % (i, t))
        print("replay of %s: %s" % (prop, case))
        print(txt[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    elif failed:
        with open(rp, "w") as f:
            f.write("property: %s\nno failing input found in %d cases of the differential replay\n" % (prop, cases))
            for i, t in failed.items():
                f.write("\nfailed obligation in %s\n%s\n" % (i, t))
        for i, t in failed.items():
            print("failed obligation in %s\n%s" % (i, t[:1500]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        rc = 1

    # vacuity: with `assert(false)` at its entry, every function under contract must fail
    probe = None
    if run is not None and run.ok and closure and rc == 0 and (tier == "thorough" or cfg.get("probe_quick", False)) and time.time() - T0 < 500:
        ids = [i for i, f in closure.items() if f["status"] == "verified"]
        r3 = Run("p", vx, mods, demote, drop, eq=eqs, probe=ids, timeout=240, skip_outside=(cfg["modules"], cfg["roots"]))
        if r3.ok:
            bad = set()
            for d in r3.diag:
                for s, prim in r3.spans(d):
                    f = r3.at(s["line_start"])
                    if f:
                        bad.add(f["id"])
            vac = [i for i in ids if i not in bad]
            probe = {"functions_probed": len(ids), "reachable": len(ids) - len(vac), "vacuous": vac}
        r3.drop_dir()

    # evidence
    cov = {"obligations": 0, "discharged": 0, "checker_cmd": "", "trusted_base": []}
    if run is not None and not run.crash and run.ok:
        per = [f for f in run.breakdown if f.get("mode:", f.get("mode")) in ("exec", "proof") and f["module"] in cfg["modules"]]
        names = {(f["module"], f["name"]) for f in closure.values()}
        ob = [f for f in per if f.get("mode:", f.get("mode")) == "proof" or (f["module"], f["function"].split("::")[-1]) in names]
        cov["obligations"] = len(ob)
        later = {(i.split(":")[0], i.split("::")[-1].split(":")[-1]) for i in retried if i}
        cov["discharged"] = sum(1 for f in ob if f.get("success") or (f["module"], f["function"].split("::")[-1]) in later or (None in retried and f.get("mode:", f.get("mode")) == "proof"))
        cov["discharged_on_retry_with_more_resources"] = sorted(i or "a lemma" for i in retried)
        cov["obligation_unit"] = "one verification condition per function or lemma (all of its pre/postconditions, invariants, overflow and termination goals), as the verifier counts them"
        cov["checker_cmd"] = " ".join(run.cmd).replace(run.dir + "/", "")
        cov["back_end"] = "Verus 0.2026.09.13 with its bundled Z3"
        cov["functions_under_contract"] = sorted(i for i, f in closure.items() if f["status"] == "verified")
        cov["functions_trusted_or_lost"] = [{"function": f["id"], "why": f["status"], "detail": f.get("errors", [])} for f in closure.values() if f["status"] != "verified"]
        cov["undecided"] = [i for i, _ in undecided]
        cov["solver_ms"] = run.smt_ms
        cov["slowest"] = [{"function": f["function"], "ms": f["time"]} for f in sorted(ob, key=lambda f: -f["time"])[:5]]
        cov["whole_crate"] = {"verified": run.verified, "errors": run.errors}
        n, ext = scan_assumptions(run.rs)
        cov["trusted_base"] = ["Verus and Z3", "tools/vextract: the mechanical extraction (DESIGN.md lists its rewrites)",
                               "specs/prelude.rs: contracts assumed for adapton and std: " + ", ".join(ext)] + \
            ["%s: contract assumed, body not verified (%s)" % (f["id"], f["status"]) for f in closure.values() if f["status"] != "verified"]
        cov["assume_statements_in_specs"] = n["assume("] + n["admit("]
        cov["vacuity_probe"] = probe
    else:
        cov["explanation"] = "no proof this run: " + (note or "no module under contract for this property")
        cov["checker_cmd"] = "none"
    cov["bounded_replay"] = {"label": "bounded: random histories against a plain model, never counted as proved", "cases": cases,
                             "built": binary is not None, "build_error": "" if binary else build_err}
    ev["coverage"] = cov
    ev["assumptions"] = cfg.get("assumptions", []) + [
        "machine integers are modelled exactly; memory exhaustion and stack overflow are not",
        "adapton's Naive engine semantics for cells and memoized calls (force of a cell gives what was put; memo! computes the call)",
        "user closures passed to folds and maps are total and deterministic, as their contracts state"]
    if undecided or lost or note:
        ev["assumptions"].append("not decided by proof this run, bounded replay only: " + "; ".join([str(i) for i, _ in undecided] + [f["id"] for f in lost] + ([note] if note else [])))
    ev["violations"] = rc
    ev["wall_s"] = round(time.time() - T0, 2)
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if run is not None:
        run.drop_dir()
    print("%s: %d/%d obligations discharged, %d replay cases, %d undecided, %d lost, %.1f s" % (
        prop, cov["discharged"], cov["obligations"], cases, len(undecided), len(lost), ev["wall_s"]))
    sys.exit(rc)


def hash_of(run, i):
    for f in run.fns:
        if f["id"] == i:
            return f.get("hash")


def write_baseline():
    vx = build_extractor()
    r = Run("base", vx, ORDER)
    b = {f["id"]: f.get("hash") for f in r.fns}
    json.dump(b, open(os.path.join(V, "specs", "baseline.json"), "w"), indent=0, sort_keys=True)
    loc = {f["id"]: f["locals"] for f in r.fns if f.get("locals")}
    json.dump(loc, open(os.path.join(V, "specs", "locals.json"), "w"), indent=0, sort_keys=True)
    print(r.ok, r.verified, r.errors, r.crash)
    r.drop_dir()


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        build_extractor()
        b, e = build_replay()
        print("built" if b else e)
        sys.exit(0 if b else 1)
    if sys.argv[1] == "--baseline":
        write_baseline()
        sys.exit(0)
    main()
