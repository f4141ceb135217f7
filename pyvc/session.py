"""Obligations of one proof case and how they were decided."""
import time
import traceback
import z3
from .core import *
from . import env

PROVED, FAILED, UNDECIDED = "discharged", "failed", "undecided"

class Session:
    """One case: symbolic executions of functions of the current source and obligations about every path."""
    def __init__(self, prop, case):
        self.prop, self.case = prop, case
        self.obls = []
        self.interps = []
        self.notes = []

    def name(self, s):
        return "%s/%s/%s" % (self.prop, self.case, s)

    def interp(self, contracts=None, **kw):
        I = env.make(contracts, **kw)
        self.interps.append(I)
        return I

    def add(self, name, status, reason=""):
        self.obls.append({"name": self.name(name), "status": status, "reason": str(reason)[:1500]})

    # ---------------------------------------------------------------- running code
    def paths(self, I, fn, max_paths=200):
        """[(kind, value, index)] one per feasible path, with the state of that path in force during iteration"""
        res = I.explore(fn, max_paths)
        out = []
        s0 = I.snap()
        npc = len(I.pc)
        for k, (kind, v, s, p) in enumerate(res):
            I.restore(s)
            del I.pc[npc:]
            I.pc.extend(p)
            try:
                yield kind, v, k
            finally:
                del I.pc[npc:]
                I.restore(s0)

    def returns(self, I, name, fn, max_paths=200):
        """as paths, for code that must return normally: any feasible path that raises fails an obligation"""
        n = 0
        bad = []
        sure = False
        for kind, v, k in self.paths(I, fn, max_paths):
            if kind == "raise":
                # a path the solver cannot exclude is not yet a counterexample
                sure = I.check() == "sat" or sure
                bad.append("raises %s %s when %s" % (v.etype, _short(v.value), _short(I.pc[-6:])))
                continue
            n += 1
            yield v
        self.add(name + "/no-exception", (FAILED if sure else UNDECIDED) if bad else PROVED, "; ".join(bad))
        # vacuity: the precondition is satisfiable and some path returns
        self.add(name + "/reachable", PROVED if n else FAILED, "" if n else "no path returns")

    def cover(self, I, name):
        """the precondition in force is not contradictory"""
        r = I.check()
        self.add(name + "/precondition-satisfiable", FAILED if r == "unsat" else PROVED, r)

    # ---------------------------------------------------------------- obligations
    def eq(self, I, name, got, want):
        I.why = ""
        try:
            ok = I.eq_val(got, want)
        except Unsupported as e:
            self.add(name, UNDECIDED, e)
            return False
        self.add(name, PROVED if ok else UNDECIDED if "undecided" in I.why else FAILED, "" if ok else "%s; got %s; expected %s" % (I.why, show(I, got), show(I, want)))
        return ok

    def holds(self, I, name, cond, why=""):
        """cond is a python bool or a z3 formula that the path condition must entail"""
        if isinstance(cond, Sc):
            cond = cond.t
        if isinstance(cond, bool):
            self.add(name, PROVED if cond else FAILED, why if not cond else "")
            return cond
        if I.entails(cond):
            self.add(name, PROVED)
            return True
        r = I.check(z3.Not(cond))
        if r == "sat":
            I._sync()
            I.solver.push()
            I.solver.add(z3.Not(cond))
            m = ""
            if I.solver.check() == z3.sat:
                m = str(I.solver.model())
            I.solver.pop()
            self.add(name, FAILED, "%s: counter-model %s" % (why or cond, m[:800]))
        else:
            self.add(name, UNDECIDED, "%s: solver says %s" % (why or cond, r))
        return False

    def raises(self, I, name, fn, etypes=None, after=None):
        """every feasible path of fn raises; after(I) is checked in the state at the raise"""
        bad = []
        n = 0
        for kind, v, k in self.paths(I, fn):
            if kind != "raise":
                bad.append("returns %s when %s" % (show(I, v), _short(I.pc[-6:])))
                continue
            if etypes and v.etype not in etypes:
                bad.append("raises %s" % v.etype)
                continue
            n += 1
            if after:
                after(I)
        self.add(name + "/refused", FAILED if bad or not n else PROVED, "; ".join(bad))

    def summary(self):
        seen = set()
        q = u = 0
        t = 0.0
        for I in self.interps:
            seen |= set(I.functions_seen)
            q += I.queries
            u += I.unknowns
            t += I.solver_time
        return {"obligations": self.obls, "functions": sorted(seen), "queries": q, "unknowns": u, "solver_s": round(t, 3), "notes": self.notes}

def _short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."

def show(I, v):
    try:
        if isinstance(v, Ref):
            o = I.obj(v)
            if hasattr(o, "seq"):
                return _short(list(o.seq))
            if hasattr(o, "items"):
                return _short(o.items)
    except Exception:
        pass
    return _short(v)

def run_case(prop, case, fn):
    S = Session(prop, case)
    t = time.time()
    try:
        fn(S)
    except Unsupported as e:
        S.add("engine", UNDECIDED, "outside the verifier's reach: %s" % e)
    except RecursionError as e:
        S.add("engine", UNDECIDED, "recursion limit")
    except PyRaise as e:
        S.add("engine", FAILED, "raises %s %s" % (e.etype, _short(e.value)))
    except Exception as e:
        S.add("engine", UNDECIDED, "verifier error: " + traceback.format_exc()[-900:])
    r = S.summary()
    r["case"] = case
    r["wall_s"] = round(time.time() - t, 2)
    return r
