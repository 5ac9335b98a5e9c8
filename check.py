#!/usr/bin/env python3
"""One check: prove the contracts of one property on /repo's current source, then look for
a concrete failing input with the bounded harness.

exit 0   every obligation discharged and no failing input found
exit 1   VIOLATION line printed
exit 2   the check could not be run
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="0",
           GOMODCACHE=os.environ.get("GOMODCACHE", "/root/go/pkg/mod"))
ENV.setdefault("GOCACHE", "/root/.cache/go-build")


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout, **kw)


def digest(d):
    h = hashlib.sha256()
    for root, _, names in sorted(os.walk(d)):
        for n in sorted(names):
            if n.endswith(".go") or n in ("go.mod", "go.sum"):
                p = os.path.join(root, n)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def tool(name, src):
    """builds a tool of /verif, reusing it while its source is the same"""
    os.makedirs(BUILD, exist_ok=True)
    out, mark = os.path.join(BUILD, name), os.path.join(BUILD, name + ".sum")
    with open(os.path.join(BUILD, name + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = digest(src)
        if os.path.exists(out) and os.path.exists(mark) and open(mark).read() == want:
            return out
        r = run(["go", "build", "-o", out, "."], cwd=src, env=ENV)
        if r.returncode != 0:
            sys.stderr.write(r.stdout)
            raise SystemExit(2)
        with open(mark, "w") as f:
            f.write(want)
    return out


def main():
    if sys.argv[1:] == ["--setup"]:
        tool("govc", os.path.join(VERIF, "govc"))
        tool("replay", os.path.join(VERIF, "replay"))
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    govc = tool("govc", os.path.join(VERIF, "govc"))
    replay = tool("replay", os.path.join(VERIF, "replay"))
    scratch = tempfile.mkdtemp(prefix="gledgercheck")
    try:
        return check(prop, tier, seed, t0, govc, replay, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, t0, govc, replay, scratch):
    thorough = tier == "thorough"
    # 1. the program itself
    binary = os.path.join(scratch, "gledger")
    r = run(["go", "build", "-o", binary, "."], cwd=REPO, env=ENV)
    if r.returncode != 0:
        print("the program does not build:\n" + r.stdout)
        return 2
    # 2. the proof
    report = os.path.join(scratch, "report.json")
    cmd = [govc, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-prop", prop, "-out", report, "-v"]
    shown = "govc -repo /repo -contracts /verif/contracts -prop " + prop
    try:
        pr = run(cmd, timeout=480 if not thorough else 3000, env=ENV)
        log, code = pr.stdout, pr.returncode
    except subprocess.TimeoutExpired as e:
        log, code = "govc did not end in time\n" + str(e.stdout or ""), 1
    proof = json.load(open(report)) if os.path.exists(report) else {"failed": [{"function": "", "kind": "run", "obligation": "the verifier did not finish", "position": ""}], "error": log[-2000:]}
    failed = proof.get("failed") or []
    if proof.get("error") and not failed:
        failed = [{"function": "", "kind": "run", "obligation": proof["error"], "position": ""}]
    if code != 0 and not failed:
        failed = [{"function": "", "kind": "run", "obligation": "the verifier ended with code %d" % code, "position": ""}]
    # 3. the bounded search on the real program
    overlay = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": {os.path.join(REPO, "zz_verif_driver/driver.go"): os.path.join(VERIF, "replay/driver/driver.go")}}, open(overlay, "w"))
    driver = os.path.join(scratch, "driver")
    r = run(["go", "build", "-overlay", overlay, "-o", driver, "./zz_verif_driver"], cwd=REPO, env=ENV)
    note = ""
    if r.returncode != 0:
        driver = ""
        note = "the exported API changed, so only the command line was exercised"
    n, limit = (1500, 25)
    if thorough:
        n, limit = (60000, 300)
    if failed:
        n, limit = max(n, 20000), max(limit, 150)
    res = os.path.join(scratch, "replay.json")
    bounded = {}
    try:
        run([replay, "-bin", binary, "-driver", driver, "-prop", prop, "-seed", str(seed), "-n", str(n), "-max", "%ds" % limit, "-out", res], timeout=limit + 120, env=ENV)
        bounded = json.load(open(res))
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        note = "bounded search did not finish: %s" % e
    bad = bounded.get("fail")
    # 4. the verdict
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other" if prop == "C17" else "proof",
        "coverage": {
            "obligations": proof.get("obligations", 0),
            "discharged": proof.get("discharged", 0),
            "checker_cmd": shown,
            "trusted_base": trusted(proof),
            "functions_under_contract": [f for f in proof.get("functions") or []],
            "lemmas": [f for f in proof.get("lemmas") or []],
            "obligations_by_kind": proof.get("by_kind"),
            "discharged_by_back_end": proof.get("backends"),
            "solver_calls": proof.get("solver_calls"),
            "solver_seconds": proof.get("solver_s"),
            "failed_obligations": failed,
            "skipped_contracts": proof.get("skipped"),
            "samples": proof.get("samples"),
            "bounded_stand_in": {
                "label": "bounded: generated inputs on the compiled program; never counted as proved",
                "evaluations": bounded.get("cases", 0),
                "calls": bounded.get("calls", 0),
                "distinct_nontrivial": bounded.get("distinct_calls", 0),
                "rule": "cases generated from the seed by /verif/replay for this property; distinct calls are counted by their input files, command and request",
                "bound": "%d cases or %d s" % (n, limit),
                "samples": bounded.get("samples"),
                "note": note,
            },
        },
        "assumptions": (proof.get("assumptions") or []) + ["axiom " + a for a in proof.get("axioms") or []],
        "wall_s": 0.0,
        "violations": 1 if failed or bad else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %s/%s obligations discharged, bounded stand-in %s cases (%s calls), %.1f s" % (
        prop, proof.get("discharged", 0), proof.get("obligations", 0), bounded.get("cases", 0), bounded.get("calls", 0), time.time() - t0))
    if not failed and not bad:
        if not bounded:
            print("the bounded stand-in gave no answer: " + note)
            return 2
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, prop + ".json")
    with open(path, "w") as f:
        json.dump({"property": prop, "failed_obligations": failed, "failing_input": bad, "verifier_output": log[-20000:]}, f, indent=1)
        f.write("\n")
    for o in failed[:20]:
        print("failed obligation: %s [%s] %s at %s" % (o.get("function"), o.get("kind"), o.get("obligation"), o.get("position")))
    if bad:
        print("failing input: " + bad["violated"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    return 1


def trusted(proof):
    base = ["govc (/verif/govc): translation of go/ssa to verification conditions",
            "golang.org/x/tools/go/ssa and the Go compiler agree on the meaning of the source",
            "z3 4.8.12, z3 5.3.2, cvc5 1.1.2 (an obligation counts when one of them answers unsat)"]
    base += ["trusted contract: " + f["function"] for f in proof.get("functions") or [] if f.get("trusted")]
    base += ["axiom: " + a for a in proof.get("axioms") or []]
    return base


if __name__ == "__main__":
    sys.exit(main())
