"""C12: variables written to one file are defined on identical axes."""
import z3
from pyvc.core import *
from pyvc import env
from pyvc.interp import DictO, InstO, Opq, PyRaise
from . import grouping as G
from .record import calls, stub, given

XU = "nappy.nc_interface.xarray_utils"
Z, BO = z3.IntSort(), z3.BoolSort()
F = lambda n, *s: z3.Function(n, *s)
# An axis is known by a number; names, units and values by numbers that are equal exactly when they are
NAME, UNITS, HASUNITS, LEN = F("axis_name", Z, Z), F("axis_units", Z, Z), F("axis_has_units", Z, BO), F("axis_len", Z, Z)
MOD = F("remainder", Z, Z, Z)
VAL = F("axis_value", Z, Z, Z)
CF, CFAX = F("axis_has_cf", Z, Z, BO), F("axis_cf", Z, Z, Z)
KIND = {"time": 1, "level": 2, "latitude": 3, "longitude": 4}

def kind(t):
    if t not in KIND:
        KIND[t] = len(KIND) + 1
    return z3.IntVal(KIND[t])

class Axes:
    """handlers that give axes (one-dimensional coordinate arrays) their attributes"""
    def __init__(self, I):
        H = I.ext_handlers
        H["getattr:axis"] = self.attr
        H["hasattr:axis"] = lambda I, v, n: I.decide(HASUNITS(v.args[0])) if n == "units" else self.no("hasattr", n)
        H["contains:axis.cf"] = lambda I, c, x: mk_bool(CF(c.args[0], kind(x)))
        H["getitem:axis.cf"] = lambda I, c, x: Opq("axis", (CFAX(c.args[0], kind(x)),))
        H["len:axis"] = H["len:axis.data"] = lambda I, v: mk_int(LEN(v.args[0]))
        H["getitem:axis"] = H["getitem:axis.data"] = self.item
        H["not:axis.compared"] = lambda I, r: Opq("axis.compared", r.args[:2] + (not r.args[2],))
        H["iter:axis.compared"] = self.compared
        H["iter:axis.data"] = H["iter:axis"] = self.points
        H["eq"] = self.eq
        H["call:axis.tolist"] = lambda I, f, a, k: I.new_list(self.points(I, f))
        for n in ("axis.name", "axis.units", "axis.point", "axis.data", "axis"):
            H["isnone:" + n] = lambda I, v: False
        I.mod_fun = lambda x, y: MOD(x, y)
        I.div_fun = lambda x, y: self.quotient(I, x, y)
        self.I = I
    def quotient(self, I, x, y):
        """an exact quotient: where the remainder is nought there is a number of times"""
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL) and z3.is_app_of(y, z3.Z3_OP_TO_REAL) and I.entails(MOD(x.arg(0), y.arg(0)) == 0):
            q = fresh_int("q")
            I.assume(z3.And(q * y.arg(0) == x.arg(0), q >= 0))
            return z3.ToReal(q)
        return x / y
    def no(self, *w):
        raise Unsupported("axis: %r" % (w,))
    def attr(self, I, v, n):
        x = v.args[0]
        if n == "name":
            return Opq("axis.name", (NAME(x),))
        if n == "units":
            if not I.decide(HASUNITS(x)):
                raise PyRaise("AttributeError", "units")
            return Opq("axis.units", (UNITS(x),))
        if n in ("data", "values"):
            I.assume(LEN(x) >= 1)
            return Opq("axis.data", (x,))
        if n == "cf":
            return Opq("axis.cf", (x,))
        if n == "size":
            return mk_int(LEN(x))
        if n == "shape":
            return (mk_int(LEN(x)),)
        self.no(n)
    def item(self, I, v, i):
        return Opq("axis.point", (VAL(v.args[0], simp(as_term(i))),))
    def points(self, I, v):
        i = fresh_int("i")
        return (Gen(LEN(v.args[0]), i, (Unit(Opq("axis.point", (VAL(v.args[0], i),))),)),)
    def eq(self, I, a, b):
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.fn == b.fn == "axis.data":
                return Opq("axis.compared", (a.args[0], b.args[0], True))
            if a.fn == b.fn and a.fn in ("axis.name", "axis.units", "axis.point"):
                return mk_bool(a.args[0] == b.args[0])
        return NotImplemented
    def compared(self, I, v):
        a, b, e = v.args
        i = fresh_int("i")
        t = VAL(a, i) == VAL(b, i)
        return (Gen(LEN(a), i, (Unit(Sc("bool", t if e else z3.Not(t))),)),)

def agree(a, b, name=True):
    """the same name and units"""
    return z3.And(NAME(a) == NAME(b) if name else z3.BoolVal(True), HASUNITS(a) == HASUNITS(b), z3.Implies(HASUNITS(a), UNITS(a) == UNITS(b)))

def every(n, f):
    i = fresh_int("i")
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), f(i)))

def identical(entry, kw, subset, name):
    def fn(S):
        I = S.interp({})
        Axes(I)
        a, b = z3.Int("AXIS1"), z3.Int("AXIS2")
        I.assume(z3.And(LEN(a) >= 1, LEN(b) >= 1))
        S.cover(I, "axes")
        accepted = 0
        def run():
            return I.call(env.func(I, XU + "." + entry), [Opq("axis", (a,)), Opq("axis", (b,))], dict(kw))
        for v in S.returns(I, "compare", run, max_paths=4000):
            if not I.truth(v):
                continue
            accepted += 1
            S.holds(I, "name-and-units", agree(a, b, name))
            if subset:
                n = as_term(v)
                S.holds(I, "number", n * LEN(a) == LEN(b))
                S.holds(I, "every-value", every(LEN(a), lambda i: VAL(a, i) == VAL(b, n * i)))
            else:
                S.holds(I, "length", LEN(a) == LEN(b))
                S.holds(I, "every-value", every(LEN(a), lambda i: VAL(a, i) == VAL(b, i)))
        S.add("some-accepted", "discharged" if accepted else "failed", "no axes are ever accepted")
    return fn

PROOFS = [("identical/default", identical("areAxesIdentical", {}, False, True)), ("identical/any-name", identical("areAxesIdentical", {"check_id": False}, False, False)),
          ("identical/subset-same-name", identical("areAxesIdentical", {"is_subset": True}, True, True)),
          ("identical/subset", identical("isAxisRegularlySpacedSubsetOf", {}, True, False))]
PROOFS += [("pass/%s" % n, G.one_pass(f, False, True)) for n, f in G.REQUESTS]
