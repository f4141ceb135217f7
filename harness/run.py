"""python run.py PID --seed S --budget SECONDS --iters N --out FILE [--replay CASE INDEX]
Runs the concrete cases of one property against the real code on sys.path."""
import argparse, importlib, json, os, random, sys, time, traceback, warnings
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

def jsonable(x):
    try:
        return json.loads(json.dumps(x))
    except Exception:
        return repr(x)[:4000]

def run_case(fn, seed, k, sp):
    """-> (key of a non-trivial case, sample), raises Fail"""
    rng = random.Random("%s/%s/%d" % (seed, fn.__name__, k))
    try:
        return fn(rng, sp)
    except common.Fail:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        site = [f for f in tb if "/nappy/" in f.filename]
        where = "%s:%s" % (os.path.basename(site[-1].filename), site[-1].name) if site else "harness"
        raise common.Fail("exception/%s/%s/%s" % (fn.__name__, type(e).__name__, where),
                          "unexpected %s: %s (at %s)" % (type(e).__name__, e, where), traceback.format_exc()[-1500:])

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--iters", type=int, default=150)
    ap.add_argument("--out")
    ap.add_argument("--replay", nargs=2)
    a = ap.parse_args()
    mod = importlib.import_module("h_" + a.pid)
    if a.replay:
        fn = [f for f in mod.CASES if f.__name__ == a.replay[0]][0]
        with common.Scratch() as sp:
            try:
                r = run_case(fn, a.seed, int(a.replay[1]), sp)
                print("no violation: %r" % (r,))
                return 0
            except common.Fail as e:
                print("VIOLATED %s\n%s\ninput: %s" % (e.key, e.what, e.inp))
                return 1
    t0 = time.time()
    n, distinct, samples, fails = 0, set(), [], {}
    k = 0
    live = list(mod.CASES)
    with common.Scratch() as sp0:
        while live and k < a.iters and time.time() - t0 < a.budget and len(fails) < 5:
            for fn in list(live):
                limit = getattr(fn, "iters", None)
                if limit is not None and k >= limit:
                    live.remove(fn)
                    continue
                if time.time() - t0 >= a.budget:
                    break
                with common.Scratch() as sp:
                    try:
                        r = run_case(fn, a.seed, k, sp)
                        n += 1
                        if r is not None:
                            key, sample = r if isinstance(r, tuple) else (r, None)
                            distinct.add((fn.__name__, str(key)))
                            if sample is not None and sum(1 for s in samples if s["case"] == fn.__name__) < 1:
                                samples.append({"case": fn.__name__, "index": k, "sample": jsonable(sample)})
                    except common.Fail as e:
                        n += 1
                        if e.key not in fails:
                            fails[e.key] = {"key": e.key, "what": e.what[:1500], "case": fn.__name__, "index": k, "seed": a.seed,
                                            "input": jsonable(e.inp)}
            k += 1
    out = {"evaluations": n, "distinct": len(distinct), "samples": samples[:6], "failures": list(fails.values()),
           "rule": getattr(mod, "RULE", ""), "cases": [f.__name__ for f in mod.CASES], "wall_s": round(time.time() - t0, 2)}
    s = json.dumps(out, indent=1)
    if a.out:
        open(a.out, "w").write(s)
    else:
        print(s)
    return 1 if fails else 0
sys.exit(main())
