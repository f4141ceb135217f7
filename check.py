#!/usr/bin/env python3
"""check.py PID: decide one property on the current /repo tree.
 1. every proof case of contracts/p_PID.py: the verifier re-reads the source, generates and discharges the obligations
 2. the concrete cases of harness/h_PID.py on the real code (conformance of the contracts, search for failing inputs)
Exit 0: all obligations discharged (or undecided ones covered by the bounded search, reported as such) and no failing
input; 1: VIOLATION; 2: the check itself failed."""
import argparse, importlib, json, multiprocessing as mp, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("NAPPY_REPO", "/repo")
PY = "/opt/venv/bin/python"
EVID = os.path.join(HERE, "evidence")

def known_findings(pid):
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:") and "property=%s " % pid in line:
                key = line.split(" key=", 1)[1].split(" ", 1)
                out[key[0]] = key[1].strip() if len(key) > 1 else ""
    return out

def worker(pid, k, q):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    from pyvc import session
    m = importlib.import_module("contracts.p_" + pid)
    c, f = m.PROOFS[k]
    q.put((k, session.run_case(pid, c, f)))

def run_proofs(pid, proofs, timeout, jobs, total=1e9):
    """every case in its own process; a case over its time is undecided, and so are those left when the total is used up"""
    end = time.time() + total
    ctx = mp.get_context("fork")
    results = [None] * len(proofs)
    todo = list(range(len(proofs)))
    running = {}
    while todo or running:
        while todo and len(running) < jobs:
            k = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=worker, args=(pid, k, q), daemon=True)
            p.start()
            running[k] = (p, q, time.time())
        for k, (p, q, t0) in list(running.items()):
            r = None
            try:
                r = q.get(timeout=0.02)
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=1)
                    except Exception:
                        r = (k, undecided(pid, proofs[k][0], "the verifier process ended with code %s" % p.exitcode, t0))
                elif time.time() - t0 > timeout or time.time() > end:
                    p.terminate()
                    r = (k, undecided(pid, proofs[k][0], "time limit of %d s" % timeout, t0))
            if r is not None:
                results[k] = r[1]
                p.join(2)
                if p.is_alive():
                    p.kill()
                del running[k]
    return results

def undecided(pid, case, why, t0):
    return {"obligations": [{"name": "%s/%s/engine" % (pid, case), "status": "undecided", "reason": why}], "functions": [], "queries": 0,
            "unknowns": 0, "solver_s": 0, "notes": [], "case": case, "wall_s": round(time.time() - t0, 2)}

def harness(pid, seed, budget, iters):
    """start the concrete cases; returns a function giving the result"""
    if not os.path.exists(os.path.join(HERE, "harness", "h_%s.py" % pid)):
        return lambda: None
    os.makedirs(EVID, exist_ok=True)
    out = os.path.join(EVID, ".harness-%s-%s.json" % (pid, seed))
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HOME=os.environ.get("HOME", "/root"),
               LANG="C.UTF-8", NAPPY_REPO=REPO, PYTHONPYCACHEPREFIX="/nonexistent-pycache")
    p = subprocess.Popen([PY, "-B", os.path.join(HERE, "harness", "run.py"), pid, "--seed", str(seed), "--budget", str(budget),
                          "--iters", str(iters), "--out", out], env=env, cwd="/tmp", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    def result():
        try:
            log = p.communicate(timeout=budget + 120)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            log = p.communicate()[0]
            return {"error": "concrete cases did not stop: " + log.decode(errors="replace")[-1500:], "hang": True}
        if not os.path.exists(out):
            return {"error": log.decode(errors="replace")[-3000:]}
        r = json.load(open(out))
        os.remove(out)
        return r
    return result

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    pid = a.pid
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    quick = tier == "quick"
    t0 = time.time()
    known = known_findings(pid)
    budget, iters = (45, 200) if quick else (400, 6000)
    h = harness(pid, seed, budget, iters) if not a.no_harness else (lambda: None)
    mod = importlib.import_module("contracts.p_" + pid)
    proofs = mod.PROOFS
    thorough_extra = getattr(mod, "THOROUGH", [])
    results = [] if a.no_proof else run_proofs(pid, proofs, 120 if quick else 600, 8, 420 if quick else 1e9)
    hr = h()
    obls = [o for r in results for o in r["obligations"]]
    failed = [o for o in obls if o["status"] == "failed" and o["name"] not in known]
    und = [o for o in obls if o["status"] == "undecided"]
    kf = [(o["name"], known[o["name"]]) for o in obls if o["status"] != "discharged" and o["name"] in known]
    und = [o for o in und if o["name"] not in known]
    hfail = []
    searched = []
    if hr is not None:
        if "error" in hr and not hr.get("hang"):
            print("harness error:", hr["error"])
            if not failed:
                # the real code cannot even be exercised
                return finish(pid, tier, seed, t0, results, hr, [], failed, und, kf, mod, 2, searched)
        for f in hr.get("failures", []):
            if f["key"] in known:
                kf.append((f["key"], known[f["key"]]))
            else:
                hfail.append(f)
        if not hfail and (failed or und) and not hr.get("error"):
            # an obligation is open: look longer for a failing input
            for s in range(3 if quick else 6):
                h2 = harness(pid, "%d-x%d" % (seed, s), 60 if quick else 240, 3000)
                r2 = h2() or {}
                searched.append({"seed": "%d-x%d" % (seed, s), "evaluations": r2.get("evaluations"), "failures": len(r2.get("failures", []))})
                hfail = [f for f in r2.get("failures", []) if f["key"] not in known]
                if hfail:
                    break
    return finish(pid, tier, seed, t0, results, hr, hfail, failed, und, kf, mod, None, searched)

def finish(pid, tier, seed, t0, results, hr, hfail, failed, und, kf, mod, code, searched):
    obls = [o for r in results for o in r["obligations"]]
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    lines = []
    for key, what in sorted(set(kf)):
        lines.append("KNOWN-FINDING: property=%s %s %s" % (pid, key, what))
    if code is None:
        code = 0
        if results and (not obls or any(not r["obligations"] for r in results)):
            print("no obligations generated")
            code = 2
        if hfail:
            code = 1
            f = hfail[0]
            path = os.path.join(EVID, "replays", "%s.json" % pid)
            json.dump({"property": pid, "what": f["what"], "key": f["key"], "failing_input": f.get("input"),
                       "failed_obligations": failed[:20], "undecided_obligations": und[:20], "other_failing_inputs": hfail[1:],
                       "replay_command": "PYTHONPATH=/repo %s -B %s/harness/run.py %s --seed %s --replay %s %d" % (
                           PY, HERE, pid, f["seed"], f["case"], f["index"])}, open(path, "w"), indent=1)
            print("failing input: %s: %s" % (f["key"], f["what"][:600]))
            for o in failed[:5]:
                print("failed obligation %s: %s" % (o["name"], o["reason"][:300]))
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        elif failed:
            code = 1
            path = os.path.join(EVID, "replays", "%s.json" % pid)
            json.dump({"property": pid, "failed_obligations": failed, "undecided_obligations": und[:20], "failing_input": None,
                       "note": "the verifier refuted these obligations; no failing input was found by the bounded search", "searched": searched,
                       "replay_command": "cd %s && python3-vt check.py %s" % (HERE, pid)}, open(path, "w"), indent=1)
            for o in failed[:5]:
                print("failed obligation %s: %s" % (o["name"], o["reason"][:400]))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    disch = sum(1 for o in obls if o["status"] == "discharged")
    cov = {
        "obligations": len(obls), "discharged": disch,
        "failed": [o["name"] for o in obls if o["status"] == "failed"],
        "undischarged_bounded_only": und,
        "checker_cmd": "python3-vt check.py %s" % pid,
        "back_end": "z3 %s (python bindings), pyvc verification-condition generator" % _z3v(),
        "functions_verified": sorted({f for r in results for f in r["functions"]}),
        "solver_queries": sum(r["queries"] for r in results), "solver_unknown_answers": sum(r["unknowns"] for r in results),
        "solver_seconds": round(sum(r["solver_s"] for r in results), 2),
        "cases": [{"case": r["case"], "obligations": len(r["obligations"]), "discharged": sum(1 for o in r["obligations"] if o["status"] == "discharged"),
                   "wall_s": r["wall_s"], "solver_s": r["solver_s"], "notes": r.get("notes", [])} for r in results],
        "trusted_base": list(TRUST) + list(getattr(mod, "TRUST", [])),
        "evaluations": (hr or {}).get("evaluations", 0), "distinct_nontrivial": (hr or {}).get("distinct", 0),
        "rule": (hr or {}).get("rule", "no concrete cases"), "samples": (hr or {}).get("samples", []),
        "bounded": getattr(mod, "BOUNDED", []),
        "extended_search": searched,
        "explanation": "Deductive part: every listed obligation is generated from the source in the working tree and discharged for all inputs "
                       "satisfying the stated preconditions. Concrete part (evaluations): the same postconditions run on the real code; "
                       "bounded, never counted as proved." + (" NOT ALL obligations were discharged on this tree: those listed in "
                       "undischarged_bounded_only are covered by the bounded concrete search only." if und else ""),
    }
    level = getattr(mod, "LEVEL", "proof")
    if und and level == "proof":
        level = "other"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(ASSUMPTIONS) + list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2),
          "violations": len(hfail) + (len(failed) if not hfail else 0)}
    tmp = os.path.join(EVID, ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1, default=repr)
    os.replace(tmp, os.path.join(EVID, "%s.json" % pid))
    print("%s: %d obligations, %d discharged, %d failed, %d undecided; %d concrete evaluations; %.1f s" % (
        pid, len(obls), disch, len(failed), len(und), (hr or {}).get("evaluations", 0), time.time() - t0))
    for o in und[:6]:
        print("undecided (bounded search only): %s: %s" % (o["name"], o["reason"][:200].replace("\n", " ")))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return code

def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"

TRUST = [
    "pyvc: symbolic semantics of the Python subset (statements, lists, dicts, strings, files, str.split/strip/join/%-format) in /verif/pyvc",
    "loop summaries are guessed from one symbolic iteration and then checked inductively; the checker code is trusted",
    "z3",
    "CPython executes the same source text that the verifier parses (the working tree of /repo)",
    "configuration values are those the real parse_config module returns on this tree",
]
ASSUMPTIONS = [
    "Python ints are unbounded (as in CPython); floats are represented by real numbers and no arithmetic on them is reasoned about beyond equality, unless stated",
    "a number formatted with the chosen float format yields one token without blanks that float() reads as some fixed function of the number",
    "a header number written with '%s' is read back by float()/int() as itself (shortest round-trip repr)",
    "no other process changes the files between writing and reading; no I/O errors",
]
if __name__ == "__main__":
    sys.exit(main())
