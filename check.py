#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current tree.

The deciding step is bin/engine, the deductive verifier: it generates the
obligations of every function under contract from the source and discharges
them.  When an obligation fails, or the source no longer fits a contract, the
verifier's answer is replayed on the real code: oracle/<ID>_test.go looks for a
concrete failing input.  The same test runs (bounded, labelled so) when every
obligation is discharged, as a cross-check of the assumed contracts.
"""
import json, os, re, subprocess, sys, tempfile, time, shutil, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2:
    TIER = sys.argv[2]
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()

def env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off", VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    return e

def build():
    b = os.path.join(VERIF, "bin", "engine")
    src = glob.glob(os.path.join(VERIF, "engine", "*.go"))
    if not os.path.exists(b) or os.path.getmtime(b) < max(os.path.getmtime(s) for s in src):
        subprocess.run([os.path.join(VERIF, "build.sh")], check=True)
    return b

def engine(scratch):
    out = os.path.join(scratch, "result.json")
    cmd = [build(), "check", "-prop", ID, "-repo", REPO, "-specs", os.path.join(VERIF, "specs"), "-out", out,
           "-timeout", "60" if TIER == "thorough" else "20"]
    if TIER == "thorough":
        cmd += ["-double", "-budget", "3000"]
    else:
        cmd += ["-budget", "480"]
    try:
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=520 if TIER == "quick" else 7200)
        text = r.stdout
    except subprocess.TimeoutExpired as t:
        text = (t.stdout or b"").decode("utf8", "replace") + "\nthe verifier timed out"
    if not os.path.exists(out):
        # no answer is not a pass
        why = text.strip().splitlines()[-1] if text.strip() else "no output"
        return {"Failed": [{"Fn": "verifier", "Label": "the obligations can be generated and decided", "Kind": "verifier", "Pos": REPO, "Status": "no answer", "Why": why, "Out": text[-3000:]}],
                "Functions": [], "Total": 1, "Discharged": 0, "ByBackend": {}, "Confirmed": 0, "SolverMs": 0, "Covers": 0, "Lemmas": [], "Externs": [], "Trusted": [], "Axioms": []}, text, cmd
    return json.load(open(out)), text, cmd

def dictionary():
    """the string constants of the code, as a dictionary for the cross-check"""
    r = set()
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "examples", "testdata", "pkgtest", "node_modules")]
        for f in fs:
            if f.endswith(".go") and not f.endswith("_test.go"):
                t = open(os.path.join(d, f), errors="replace").read()
                for m in re.findall(r'"((?:[^"\\\n]|\\.)*)"', t):
                    try:
                        v = json.loads('"' + m + '"')
                    except ValueError:
                        continue
                    if "github.com/" not in v and len(v) < 60:
                        r.add(v)
    return sorted(r)

def oracle(scratch, long):
    """runs the concrete test of the property on the real code"""
    src = os.path.join(VERIF, "oracle", ID + "_test.go")
    if not os.path.exists(src):
        return None
    d = os.path.join(REPO, "zzverif_oracle")
    rep = {os.path.join(d, "oracle_test.go"): src,
           os.path.join(d, "helper_test.go"): os.path.join(VERIF, "oracle", "helper_test.go")}
    for h in re.findall(r"//verif:with (\S+)", open(src).read()):
        rep[os.path.join(d, h)] = os.path.join(VERIF, "oracle", h)
    ov = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    work = os.path.join(scratch, "work")
    os.makedirs(work, exist_ok=True)
    open(os.path.join(work, "go.mod"), "w").write("module verif.test/app\n\ngo 1.21\n")
    open(os.path.join(work, "app.go"), "w").write("package app\n")
    e = env()
    os.chmod(scratch, 0o755)
    own = os.path.join(scratch, "own")
    os.makedirs(os.path.join(own, "tmp"), exist_ok=True)
    case = os.path.join(own, "case.txt")
    # seconds after which the run ends with what it has found, and seconds
    # without a new case after which the case that is running counts as hanging
    soft, hang = (1200 if TIER == "thorough" else 100 if long else 60), 90
    e["VERIF_SOFT"] = str(soft)
    e.update(VERIF_SCRATCH=work, VERIF_CASE=case, VERIF_LONG="1" if long else "")
    words = os.path.join(scratch, "dict.json")
    json.dump(dictionary(), open(words, "w"))
    e["VERIF_DICT"] = words
    race = ["-race"] if "//verif:race" in open(src).read() else []
    binary = os.path.join(scratch, "oracle.test")
    b = subprocess.run(["go", "test", "-c", "-overlay", ov, "-vet=off", "-o", binary] + race + ["./zzverif_oracle"], cwd=REPO, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0 or not os.path.exists(binary):
        return {"status": "does not compile", "out": b.stdout[-4000:], "cases": 0}
    try:
        # whatever the code under test does, it does it as a user that owns
        # nothing but files of this scratch directory
        os.chmod(binary, 0o755)
        subprocess.run(["chown", "-R", "65534:65534", work, own])
        e.update(HOME=own, TMPDIR=os.path.join(own, "tmp"), GOCACHE=os.path.join(own, "cache"), GOPATH=os.path.join(own, "go"))
        r = subprocess.run([binary, "-test.run", "TestVerif", "-test.timeout", "%ds" % (soft + hang), "-test.v"], cwd=work, env=e,
                           user=65534, group=65534, extra_groups=[], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=soft + hang + 30)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as t:
        out, rc = (t.stdout or b"").decode("utf8", "replace") + "\ntimed out", 2
    res = {"status": "ok" if rc == 0 else "error", "out": out[-20000:], "cases": 0}
    m = re.findall(r"CASES: (\d+)", out)
    if m:
        res["cases"] = sum(map(int, m))
    f = re.findall(r"FAILING-INPUT: (.*)", out)
    if f:
        res["status"], res["inputs"] = "failing", f[:20]
    elif rc != 0:
        # a crash, a race or a hang: the case that was running is the input
        c = open(case).read().strip() if os.path.exists(case) else ""
        stuck = "test timed out" in out or out.endswith("\ntimed out")
        if stuck and os.path.exists(case) and time.time() - os.path.getmtime(case) < hang - 15:
            c = ""  # slow, but it was making progress
        if c and (stuck or "panic:" in out or "fatal error:" in out or "DATA RACE" in out):
            res["status"], res["inputs"] = "failing", [c + " (crash, data race or hang)"]
    m = re.findall(r"KNOWN: (.*)", out)
    res["known"] = m
    return res

def known_findings():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == ID:
                r.append((m.group(2), m.group(3)))
    return r

def main():
    scratch = tempfile.mkdtemp(prefix="verif-" + ID + "-")
    os.chmod(scratch, 0o755)
    try:
        return run(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def run(scratch):
    res, out, cmd = engine(scratch)
    failed = res["Failed"] or []
    orc = oracle(scratch, TIER == "thorough" or bool(failed))
    known = known_findings()
    inputs = (orc or {}).get("inputs") or []
    # failing inputs that are listed
    listed, fresh = [], []
    for i in inputs:
        k = next((k for k, _ in known if i.startswith("[" + k + "]")), None)
        (listed if k else fresh).append(i)
    if orc and inputs and not fresh and orc["status"] == "failing":
        orc["status"] = "ok but for listed findings"
    for k, txt in known:
        if any(i.startswith("[" + k + "]") for i in listed):
            print("KNOWN-FINDING: property=%s %s" % (ID, txt))
    status = 0
    violations = []
    if failed or fresh:
        status = 1
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, ID + ".txt")
        with open(path, "w") as f:
            f.write("property %s, tree %s\n" % (ID, REPO))
            for i in fresh:
                f.write("FAILING INPUT (found by running the real code): %s\n" % i)
            if fresh:
                f.write("replay: VERIF_SEED=%d %s %s %s\n" % (SEED, sys.executable, os.path.join(VERIF, "check.py"), ID))
                f.write("\noutput of the replay:\n%s\n" % orc["out"])
            for o in failed:
                f.write("\nFAILED OBLIGATION %s: %s [%s] at %s\n  status %s %s\n" % (o["Fn"], o["Label"], o["Kind"], o["Pos"], o["Status"], o.get("Why") or ""))
                if o.get("Path"):
                    f.write("  path: %s\n" % " ".join(o["Path"]))
                if o.get("Model"):
                    f.write("  verifier's counterexample:\n%s\n" % o["Model"][:6000])
                f.write("  solver output: %s\n" % (o.get("Out") or "")[:3000])
        for o in failed:
            print("failed obligation: %s: %s [%s] at %s (%s %s)" % (o["Fn"], o["Label"], o["Kind"], o["Pos"], o["Status"], o.get("Why") or ""))
        for i in fresh[:5]:
            print("failing input: " + i)
        if not fresh and orc:
            print("replay: %s" % orc["status"])
        print("VIOLATION property=%s replay=%s%s" % (ID, path, "" if fresh else " no-failing-input-found"))
        violations = fresh or failed
    fns = [{"function": f["Name"], "at": f["Pos"], "obligations": f["Obligations"], "failed": f["Failed"], "bodies_inlined": f["Inlined"] or []} for f in res["Functions"]]
    trusted = ["Go type checker, go/ssa translation (golang.org/x/tools v0.52.0) and the verification condition generator in /verif/engine",
               "z3 4.8.12, z3 5.3.2, cvc5 1.1.2 (an obligation counts as discharged when one of them answers unsat)"]
    trusted += ["assumed contract of " + e for e in res["Externs"] or []]
    trusted += [t for t in res["Trusted"] or [] if not t.startswith("note: ")]
    assumptions = ["axiom: " + a for a in res["Axioms"] or []] + [
        "machine integers are treated as mathematical integers",
        "loops and recursion: partial correctness, termination is not proved",
        "opaque interface and callback targets do not modify this module's private objects",
    ] + [t for t in res["Trusted"] or [] if t.startswith("note: ")]
    ev = {"property": ID, "tier": TIER, "seed": SEED, "level": "proof",
          "coverage": {
              "obligations": res["Total"], "discharged": res["Discharged"],
              "checker_cmd": " ".join(cmd), "trusted_base": trusted,
              "functions_under_contract": fns, "discharged_by": res["ByBackend"],
              "confirmed_by_a_second_solver": res["Confirmed"] if TIER == "thorough" else "thorough tier only",
              "solver_s": round(res["SolverMs"] / 1000, 2), "non_vacuity_covers": res["Covers"], "lemmas": res["Lemmas"],
              "bounded_cross_check": {"what": "oracle/%s_test.go on the real code; bounded, not counted as proved" % ID,
                                      "status": orc["status"] if orc else "none", "cases": orc["cases"] if orc else 0},
              "known_findings_seen": len(listed),
          },
          "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ID + ".json"), "w"), indent=1)
    print("%s: %d functions under contract, %d/%d obligations discharged, %d covers; cross-check %s (%d cases); %.1fs" % (
        ID, len(fns), res["Discharged"], res["Total"], res["Covers"], orc["status"] if orc else "none", orc["cases"] if orc else 0, time.time() - T0))
    return status

if __name__ == "__main__":
    sys.exit(main())
