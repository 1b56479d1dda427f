#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property for /repo's working tree.

1. gover (built from /verif/gover) discharges every obligation generated from /repo's SSA for the
   contracts the property lists, transitively.
2. A generated-input harness compiled against the real code (through a build overlay) validates the
   trusted models, replays failed obligations, and stands in (bounded) for functions outside the
   verifier's reach.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = V + "/.build"
GOROOT = "/opt/veriftools/go1.27.3"
ENV = dict(os.environ, PATH=GOROOT + "/bin:/opt/veriftools/bin:" + os.environ.get("PATH", ""), GOROOT=GOROOT, HOME=os.environ.get("HOME", "/root"),
           GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off")
ENV.setdefault("GOCACHE", "/root/.cache/go-build")

def sh(cmd, cwd=None, env=None, timeout=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")

def sources(d):
    return sorted(d + "/" + f for f in os.listdir(d) if f.endswith(".go") or f.startswith("go."))

def build_gover():
    os.makedirs(BUILD, exist_ok=True)
    out = BUILD + "/gover"
    import hashlib
    h = hashlib.sha256()
    for f in sources(V + "/gover"):
        h.update(open(f, "rb").read())
    st = BUILD + "/gover.stamp"
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == h.hexdigest():
        return out
    tmp = out + ".%d" % os.getpid()
    r = sh(["go", "build", "-o", tmp, "."], cwd=V + "/gover", env=dict(ENV, GOFLAGS="-mod=mod"))
    if r.returncode != 0:
        print(r.stdout)
        print("ERROR: cannot build the verifier")
        sys.exit(2)
    os.replace(tmp, out)
    open(st, "w").write(h.hexdigest())
    return out

def build_harness(scratch):
    rep = {}
    for pkg in ("vh", "main"):
        for f in sources(V + "/harness/" + pkg):
            rep[REPO + "/zzverif/" + pkg + "/" + os.path.basename(f)] = f
    ov = scratch + "/overlay.json"
    json.dump({"Replace": rep}, open(ov, "w"))
    out = scratch + "/harness"
    r = sh(["go", "build", "-overlay", ov, "-o", out, "./zzverif/main"], cwd=REPO, env=dict(ENV, GOFLAGS="-mod=vendor"))
    return (out, None) if r.returncode == 0 else (None, r.stdout)

def known_keys(pid):
    keys, fixed = {}, []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3).strip()
    return keys

def run_harness(h, pid, seed, secs, scratch, known, extra=()):
    out, st = scratch + "/rep.json", scratch + "/status"
    for f in (out, st):
        if os.path.exists(f):
            os.remove(f)
    tmp = scratch + "/data"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    cmd = [h, "-prop", pid, "-seed", str(seed), "-time", str(secs), "-out", out, "-status", st, "-tmp", tmp, "-known", ",".join(known)] + list(extra)
    kw = {}
    if os.getuid() == 0:  # keep the real code away from anything but the scratch directory
        os.chmod(scratch, 0o777)
        os.chmod(tmp, 0o777)
        kw = dict(user=65534, group=65534, extra_groups=[])
    try:
        r = subprocess.run(cmd, cwd=tmp, env=dict(ENV, HOME=tmp, GOMEMLIMIT="4GiB"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 120, text=True, errors="replace", **kw)
        log, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        log, rc = "harness timed out", -1
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except Exception:
            rep = None
    if rep is None:
        case = -1
        if os.path.exists(st):
            t = open(st).read().strip()
            case = int(t) if t else -1
        if rc == 3:
            return None
        key = "crash"
        if "stack overflow" in log or "exceeds" in log:
            key = "stack-overflow"
        rep = {"property": pid, "evaluations": max(case, 0), "distinct_nontrivial": 0, "rule": "", "samples": [], "known": [], "wall_s": 0,
               "failure": None if case < 0 else {"key": key, "detail": "the process died: " + log[:1500], "case": case, "input": []}, "log": log[-3000:]}
        if case < 0:
            rep["error"] = log[-3000:]
        elif key in known:
            rep["known"], rep["failure"] = [rep["failure"]], None
    return rep

def main():
    t0 = time.time()
    if sys.argv[1:] == ["--setup"]:
        build_gover()
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = json.load(open(V + "/checks.json"))[pid]
    gover = build_gover()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.chmod(scratch, 0o755)
    try:
        return decide(pid, tier, seed, P, gover, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def decide(pid, tier, seed, P, gover, scratch, t0):
    ev_dir = V + "/evidence"
    os.makedirs(ev_dir, exist_ok=True)
    known = known_keys(pid)
    # ---- deductive part
    gj = scratch + "/gover.json"
    deadline = 470 if tier == "quick" else 3000
    cmd = [gover, "-repo", REPO, "-specs", V + "/contracts", "-prop", pid, "-json", gj, "-deadline", str(deadline)]
    if tier == "thorough":
        cmd += ["-budget", "60000", "-hbudget", "6000"]
    if P.get("proof", True):
        try:
            r = sh(cmd, timeout=deadline + 120)
            glog, grc = r.stdout, r.returncode
        except subprocess.TimeoutExpired:
            glog, grc = "verifier timed out", -1
    else:
        glog, grc = "", 0
    g = json.load(open(gj)) if os.path.exists(gj) else None
    print(glog.strip())
    if grc == 3:
        print("ERROR: /repo cannot be loaded")
        return 2
    failed, unsup, nobl, ndis = [], [], 0, 0
    behs = (g or {}).get("behaviors") or []
    lems = (g or {}).get("lemmas") or []
    if P.get("proof", True) and g is None:
        unsup.append("the verifier gave no result: " + glog[-300:])
    for b in behs:
        name = b["Key"] + " [" + b["Behavior"] + "]"
        for o in b["Obls"] or []:
            nobl += 1
            if o["Status"] == "discharged":
                ndis += 1
        if b["Status"] == "failed":
            bad = [o for o in b["Obls"] or [] if o["Status"] != "discharged"]
            if not bad:
                failed.append({"function": name, "obligation": b["Why"], "pos": "", "status": b["Why"]})
            for o in bad:
                failed.append({"function": name, "obligation": o["Kind"] + ": " + o["Name"], "pos": o["Pos"], "status": o["Status"], "query": (o.get("Query") or "")[:20000]})
        elif b["Status"] != "proved":
            unsup.append(name + ": " + b["Status"] + " " + b["Why"])
    for l in lems:
        nobl += 1
        if l["Status"] == "proved":
            ndis += 1
        elif l["Status"] == "failed":
            failed.append({"function": "lemma " + l["Name"], "obligation": "lemma", "pos": "", "status": l["Why"]})
        else:
            unsup.append("lemma " + l["Name"] + ": " + l["Why"])
    # ---- the real code on generated inputs
    hbin, herr = build_harness(scratch)
    if hbin is None:
        print(herr)
        print("ERROR: the harness does not build against /repo")
        return 2
    base = P.get("harness_s", 8)
    if tier == "thorough":
        secs = max(base * 20, 300)
    elif failed or unsup:
        secs = max(4 * base, 60)
    else:
        secs = base
    rep = run_harness(hbin, pid, seed, secs, scratch, known)
    if rep and rep.get("error"):
        print("ERROR: harness:", rep["error"])
        return 2
    # ---- evidence
    trusted = []
    for b in behs:
        for a in (b.get("Assumptions") or []):
            if a not in trusted:
                trusted.append(a)
    models = sorted({m for b in behs for m in (b.get("Models") or [])})
    assumptions = list(P.get("assumptions", [])) + trusted
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"],
          "coverage": {
              "obligations": nobl, "discharged": ndis,
              "checker_cmd": "gover -repo %s -specs contracts -prop %s (backends z3-new, z3, cvc5)" % (REPO, pid),
              "trusted_base": ["gover (SSA symbolic execution, /verif/gover)", "golang.org/x/tools/go/ssa", "z3 4.8.12 / z3-new / cvc5 1.1.2"] + ["model: " + m for m in models] + ["axiom " + a for a in ((g or {}).get("axioms") or [])],
              "functions_under_contract": ["%s [%s]: %s, %d obligations, %d ms" % (b["Key"], b["Behavior"], b["Status"], len(b["Obls"] or []), b["Ms"]) for b in behs],
              "inlined_functions": sorted({m for b in behs for m in (b.get("Inlined") or [])}),
              "abstracted_calls": sorted({m for b in behs for m in (b.get("Havocked") or [])}),
              "lemmas": ["%s: %s (%s, %d ms)" % (l["Name"], l["Status"], l["Solver"], l["Ms"]) for l in lems],
              "solver_ms": (g or {}).get("solver_ms"), "solver_queries": (g or {}).get("solver_n"),
              "not_proved": unsup, "bounded_standins": P.get("bounded", []),
              "explanation": P.get("explanation", ""),
          },
          "assumptions": assumptions, "wall_s": 0, "violations": 0}
    if rep:
        ev["coverage"].update({"evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct_nontrivial"], "rule": rep["rule"], "samples": rep["samples"] or ["(none)"], "harness_wall_s": rep["wall_s"]})
    rc = 0
    for k in (rep or {}).get("known", []):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known.get(k["key"], ""), k["key"]))
    replay = ev_dir + "/replay-%s.json" % pid
    if os.path.exists(replay):
        os.remove(replay)
    if rep and rep["failure"]:
        rc = 1
        f = rep["failure"]
        json.dump({"property": pid, "failing_case": f, "failed_obligations": failed, "replay_cmd": "python3 %s/check.py --replay %s %d %d" % (V, pid, seed, f["case"])}, open(replay, "w"), indent=1)
        print("failing input (case %d, seed %d): %s" % (f["case"], seed, f["detail"][:1500]))
        for l in f["input"][:20]:
            print("   ", l[:400])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    elif failed:
        rc = 1
        json.dump({"property": pid, "failed_obligations": failed, "verifier_output": glog[-20000:]}, open(replay, "w"), indent=1)
        for f in failed[:10]:
            print("failed obligation: %s %s @ %s: %s" % (f["function"], f["obligation"], f["pos"], f["status"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
    if unsup:
        for u in unsup[:10]:
            print("not proved (bounded stand-in used):", u)
    ev["violations"] = 1 if rc else 0
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(ev_dir + "/%s.json" % pid, "w"), indent=1)
    print("%s: %d/%d obligations, %s cases, %.1f s" % (pid, ndis, nobl, rep["evaluations"] if rep else 0, time.time() - t0))
    return rc

def replay():
    pid, seed, case = sys.argv[2], int(sys.argv[3]), sys.argv[4]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        h, err = build_harness(scratch)
        if h is None:
            print(err)
            return 2
        rep = run_harness(h, pid, seed, 60, scratch, known_keys(pid), ["-case", case])
        print(json.dumps(rep, indent=1))
        return 1 if rep["failure"] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(replay() if sys.argv[1:2] == ["--replay"] else main())
