"""C13: abbreviated axes expand to the axis they stand for."""
import z3
from pyvc.core import *
from pyvc import env
from pyvc.interp import DictO, InstO, Opq, PyRaise
from . import na, roundtrip, building
from .building import LEN, VAL, AX, every, even, real, numbers, fl, Defined, axis_handlers, CONTRACTS
from .building import XU
from .record import calls, stub, given, val

XU = "nappy.nc_interface.xarray_utils"
CC = "nappy.nc_interface.na_content_collector.NAContentCollector"
Z, R = z3.IntSort(), z3.RealSort()
F = lambda n, *s: z3.Function(n, *s)
# ---------------------------------------------------------------- expansion
def expand(ffi, which):
    """which axes are abbreviated, one boolean per bounded axis"""
    def fn(S):
        I = S.interp({})
        I.partial_loops = True
        niv = na.NIVS[ffi]
        o = roundtrip.cls(I, ffi)
        nx, nd, dx, xs = [], [], [z3.Real("DX0")], [Unit(I.new_list(numbers(z3.Int("M"), F("X0", Z, R))))]
        I.assume(z3.Int("M") >= 0)
        for k, ab in enumerate(which):
            n, d = z3.Int("NX%d" % k), z3.Int("NXDEF%d" % k)
            I.assume(d >= 1)
            I.assume(d < n if ab else d == n)
            nx.append(n); nd.append(d); dx.append(z3.Real("DX%d" % (k + 1)))
            xs.append(Unit(I.new_list(numbers(d, F("AX%d" % (k + 1), Z, R)))))
        S.cover(I, "axes")
        L = lambda q: I.new_list(q)
        inst = I.alloc(InstO(o, {"NIV": niv, "NX": L([Unit(mk_int(n)) for n in nx]), "NXDEF": L([Unit(mk_int(n)) for n in nd]),
                                 "DX": L([Unit(fl(d)) for d in dx]), "X": L(xs), "_normalized_X": False}))
        def run():
            I.call(I.getattr_(inst, "_normalizeIndVars"), [])
            return inst
        for v in S.returns(I, "expand", run):
            at = I.obj(v).attrs
            S.holds(I, "expanded", at["_normalized_X"] is True, "not marked as expanded")
            X = at["X"]
            S.holds(I, "axes", len(I.seq_of(X)) == niv)
            S.eq(I, "first-axis", I.getitem(X, 0), LV(numbers(z3.Int("M"), F("X0", Z, R))))
            for k, ab in enumerate(which):
                ax = F("AX%d" % (k + 1), Z, R)
                want = numbers(nx[k], (lambda i: ax(0) + z3.ToReal(i) * dx[k + 1]) if ab else ax)
                S.eq(I, "axis-%d" % (k + 1), I.getitem(X, k + 1), LV(want))
            for k in ("NX", "NXDEF", "DX"):
                S.holds(I, k + "-kept", k in at)
    return fn

def expand_1020(S):
    I = S.interp({})
    M, N, dx = z3.Int("M"), z3.Int("NVPM"), z3.Real("DX")
    I.assume(z3.And(M >= 0, N >= 1))
    x = F("X", Z, R)
    S.cover(I, "axis")
    inst = I.alloc(InstO(roundtrip.cls(I, 1020), {"NIV": 1, "NVPM": mk_int(N), "DX": I.new_list([Unit(fl(dx))]), "X": I.new_list(numbers(M, x)), "_normalized_X": False}))
    def run():
        I.call(I.getattr_(inst, "_normalizeIndVars"), [])
        a = LV(I.seq_of(I.obj(inst).attrs["X"]))
        I.call(I.getattr_(inst, "_normalizeIndVars"), [])
        return a, LV(I.seq_of(I.obj(inst).attrs["X"]))
    for a, b in S.returns(I, "expand", run):
        want = LV(na.gen(M, lambda m: na.gen(N, lambda i: fl(x(m) + z3.ToReal(i) * dx), "p")))
        S.eq(I, "expanded", a, want)
        S.eq(I, "expanded-once", b, want)

PROOFS = []
for ffi, ks in ((2010, ((0,), (1,))), (3010, ((0, 1), (1, 0), (1, 1))), (4010, ((1, 0, 1), (0, 1, 0), (1, 1, 1)))):
    for w in ks:
        PROOFS.append(("expand/%d/%s" % (ffi, "".join("fa"[b] for b in w)), expand(ffi, tuple(bool(b) for b in w))))
PROOFS.append(("expand/1020", expand_1020))

# ---------------------------------------------------------------- abbreviation
def restores(S, I, name, a, n, dx):
    """induction over the points: first value plus i increments is the i-th value"""
    i = z3.Int("i")
    v = lambda j: VAL(a, j)
    S.holds(I, name + "-first", v(0) == v(0) + 0 * dx)
    S.holds(I, name + "-next", z3.Implies(z3.And(n, i >= 0, i + 1 < LEN(a), v(i) == v(0) + z3.ToReal(i) * dx), v(i + 1) == v(0) + z3.ToReal(i + 1) * dx))

def append_axis(S):
    I = S.interp(CONTRACTS)
    axis_handlers(I)
    a = z3.Int("AXIS")
    I.assume(LEN(a) >= 0)
    S.cover(I, "axis")
    old = lambda: I.new_list([Unit(fl(z3.Real("OLD")))])
    o = env.func(I, CC)
    def run():
        d = I.alloc(DictO({"NX": I.new_list(()), "XNAME": old(), "DX": old(), "NXDEF": I.new_list(()), "X": I.new_list([Unit(I.new_list([Unit(fl(z3.Real("OLDX")))]))])}))
        inst = I.alloc(InstO(o, {"na_dict": d}))
        I.call(I.getattr_(inst, "_appendAxisDefinition"), [Opq("axis", (a,))])
        return d
    short = []
    for d in S.returns(I, "append", run):
        it = I.obj(d).items
        S.eq(I, "length", it["NX"], LV([Unit(mk_int(LEN(a)))]))
        S.holds(I, "name", len(I.seq_of(it["XNAME"])) == 2)
        for k, n in (("DX", 2), ("X", 2), ("NXDEF", 1)):
            S.holds(I, "one-entry-" + k, len(I.seq_of(it[k])) == n)
        nd, dx = as_term(I.getitem(it["NXDEF"], 0)), real(I.getitem(it["DX"], 1))
        S.holds(I, "points-given", z3.And(nd <= LEN(a), z3.Implies(LEN(a) >= 1, nd >= 1)))
        S.eq(I, "first-values", I.getitem(it["X"], 1), LV(numbers(nd, lambda i: VAL(a, i))))
        S.holds(I, "only-if-even", z3.Implies(nd < LEN(a), even(a, dx)))
        S.holds(I, "increment", z3.Implies(dx != 0, even(a, dx)))
        S.holds(I, "no-increment-if-uneven", z3.Implies(z3.Not(even(a, VAL(a, 1) - VAL(a, 0))), z3.And(dx == 0, nd == LEN(a))))
        restores(S, I, "restores", a, nd < LEN(a), dx)
        if not I.entails(nd == LEN(a)):
            short.append(1)
    S.add("some-abbreviated", "discharged" if short else "failed", "no axis is ever abbreviated")
PROOFS.append(("append", append_axis))

# ---------------------------------------------------------------- the first axis, and all of them together
def define(ffi):
    def fn(S):
        D = Defined(S, ffi)
        I, a = D.I, D.ax
        S.cover(I, "variables")
        n = 0
        for kind, v, k in S.paths(I, D.run):
            if kind == "raise":
                # FFI 1020 has no way to give points that are not a (non-zero) increment apart
                gap = VAL(a[0], 1) - VAL(a[0], 0)
                S.holds(I, "only-uneven-refused", z3.And(D.NVPM > 1, z3.Or(gap == 0, z3.Not(even(a[0], gap)))) if ffi == 1020 else False, "raises %s %r" % (v.etype, v.value))
                continue
            inst, d = v
            n += 1
            it = I.obj(d).items
            dx = real(I.getitem(it["DX"], 0))
            x0 = building.values(a[0])
            if ffi != 2310:
                S.holds(I, "increments", len(I.seq_of(it["DX"])) == D.rank)
                S.holds(I, "increment", z3.Implies(dx != 0, even(a[0], dx)))
                S.holds(I, "no-increment-if-uneven", z3.Implies(z3.Not(even(a[0], VAL(a[0], 1) - VAL(a[0], 0))), dx == 0))
            if ffi in (1001, 1010):
                S.eq(I, "axis", it["X"], LV(x0))
            if ffi == 1020:
                S.eq(I, "axis", it["X"], LV(numbers(D.M, lambda m: VAL(a[0], m * D.NVPM))))
                S.holds(I, "only-if-even", z3.Implies(D.NVPM > 1, even(a[0], dx)))
                restores(S, I, "restores", a[0], z3.And(D.NVPM > 1, even(a[0], dx)), dx)
            if ffi in (2010, 3010, 4010):
                for k in range(1, D.rank):
                    nx, nd, dk = as_term(I.getitem(it["NX"], k - 1)), as_term(I.getitem(it["NXDEF"], k - 1)), real(I.getitem(it["DX"], k))
                    S.holds(I, "length-%d" % k, z3.And(nx == LEN(a[k]), nd >= 1, nd <= nx))
                    S.eq(I, "first-values-%d" % k, I.getitem(it["X"], k), LV(numbers(nd, lambda i: VAL(a[k], i))))
                    S.holds(I, "only-if-even-%d" % k, z3.Implies(z3.Or(nd < nx, dk != 0), even(a[k], dk)))
                S.eq(I, "axis", I.getitem(it["X"], 0), LV(x0))
            if ffi in (2110, 2310):
                rows = building.values(a[0])
                n2 = building.values(a[1])
                S.eq(I, "axis", it["X"], LV(na.gen(LEN(a[0]), lambda m: LV((Unit(fl(VAL(a[0], m))), Unit(LV(n2)))))))
                S.eq(I, "lengths", it["NX"], LV(na.gen(LEN(a[0]), lambda m: mk_int(LEN(a[1])))))
                A = it["A"]
                S.eq(I, "lengths-written", I.getitem(A, 0), it["NX"])
                if ffi == 2310:
                    S.holds(I, "auxiliary", len(I.seq_of(A)) == 3)
                    S.eq(I, "first-values-written", I.getitem(A, 1), LV(na.gen(LEN(a[0]), lambda m: fl(VAL(a[1], 0)))))
                    S.eq(I, "increments-written", I.getitem(A, 2), it["DX"])
                    m = z3.Int("m")
                    I.assume(z3.And(m >= 0, m < LEN(a[0])))
                    S.holds(I, "increment", z3.Implies(LEN(a[1]) > 1, real(I.getitem(it["DX"], mk_int(m))) == VAL(a[1], 1) - VAL(a[1], 0)))
        S.add("some-defined", "discharged" if n else "failed", "no path returns")
    return fn
for ffi in (1001, 1010, 1020, 2010, 2110, 2310, 3010, 4010):
    PROOFS.append(("define/%d" % ffi, define(ffi)))

# ---------------------------------------------------------------- FFI 2310 is offered only for an evenly spaced axis
def uniform(S):
    I = S.interp({XU + ".is_time": lambda I, fn, a, k: I.decide(z3.Bool("IS_TIME")),
                  XU + ".datetimes_to_nums": lambda I, fn, a, k: Opq("nums", a[0].args)})
    XUm = building.XU
    axis_handlers(I)
    H = I.ext_handlers
    a = z3.Int("AXIS")
    I.assume(LEN(a) >= 1)
    RAW = building.RAW
    held = lambda i: z3.If(z3.Bool("IS_TIME"), VAL(a, i), RAW(a, i))
    H["len:nums"] = lambda I, v: mk_int(LEN(v.args[0]))
    H["isnone:nums"] = lambda I, v: False
    H["iter:nums"] = lambda I, v: numbers(LEN(v.args[0]), lambda i: VAL(v.args[0], i))
    def item(I, v, i):
        i = as_term(i)
        i = i if not (isinstance(nint(i), int) and nint(i) < 0) else LEN(v.args[0]) + i
        return fl(VAL(v.args[0], i) if v.fn == "nums" else RAW(v.args[0], i))
    H["getitem:nums"] = H["getitem:axis"] = item
    def np_(I, name, args, kw):
        n = name.split(".")[-1]
        if n in ("array", "asarray") and not kw and isinstance(args[0], Opq):
            return args[0]
        if n == "linspace":
            return Opq("linspace", tuple(x.t if isinstance(x, Sc) else as_term(x) for x in args))
        raise Unsupported("numpy.%s" % n)
    H["extern:numpy"] = np_
    def spaced(v, i):
        s, e, n = v.args
        return z3.If(n == 1, s, s + z3.ToReal(i) * (e - s) / z3.ToReal(n - 1))
    def eq(I, x, y):
        if isinstance(x, Opq) and isinstance(y, Opq) and "linspace" in (x.fn, y.fn):
            if y.fn == "linspace":
                x, y = y, x
            I.obligation_same = (x.args[2], LEN(y.args[0]))
            return Opq("compared", (x.args[0], x.args[1], x.args[2], y.args[0], z3.BoolVal(y.fn == "nums")))
        return NotImplemented
    H["eq"] = eq
    STEP = z3.Real("STEP")
    def compared(I, v):
        s, e, n, b, nums = v.args
        i = fresh_int("i")
        val = VAL(b, i) if z3.is_true(nums) else RAW(b, i)
        # the quotient (e - s) / (n - 1) is named so that products stay linear in the index
        I.assume(z3.Implies(n > 1, STEP * z3.ToReal(n - 1) == e - s))
        return (Gen(n, i, (Unit(Sc("bool", z3.If(n == 1, val == s, val == s + z3.ToReal(i) * STEP))),)),)
    H["iter:compared"] = compared
    S.cover(I, "axis")
    yes = 0
    for v in S.returns(I, "uniform", lambda: I.truth(I.call(env.func(I, XUm + ".isUniformlySpaced"), [Opq("axis", (a,))]))):
        if v:
            yes += 1
            i = z3.Int("i")
            hv = (lambda t: VAL(a, t)) if I.entails(z3.Bool("IS_TIME")) else (lambda t: RAW(a, t))
            I.assume(z3.And(i >= 1, i < LEN(a)))
            S.holds(I, "evenly-spaced", hv(i) - hv(i - 1) == STEP)
            S.holds(I, "whole-axis", I.entails(I.obligation_same[0] == I.obligation_same[1]))
    S.add("some-uniform", "discharged" if yes else "failed", "no axis is evenly spaced")
PROOFS.append(("uniform", uniform))
