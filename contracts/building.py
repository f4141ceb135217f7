"""Building the dictionary from variables (C13, C14): a variable is known by its position in the list given."""
import z3
from pyvc.core import *
from pyvc import env
from pyvc.interp import DictO, InstO, Opq, PyRaise
from . import na
from .record import calls, stub, given, val

XU = "nappy.nc_interface.xarray_utils"
CC = "nappy.nc_interface.na_content_collector.NAContentCollector"
Z, R, BO = z3.IntSort(), z3.RealSort(), z3.BoolSort()
F = lambda n, *s: z3.Function(n, *s)
LEN, VAL, RAW = F("axis_len", Z, Z), F("axis_value", Z, Z, R), F("axis_raw", Z, Z, R)
AX = F("var_axis", Z, Z, Z)                  # (variable, dimension)
MISS = F("var_missing", Z, R)
EVEN = F("axis_even", Z, BO)
fl = na.fl

def numbers(n, f):
    return na.gen(n, lambda i: fl(f(i)))

def values(a):
    return numbers(LEN(a), lambda i: VAL(a, i))

def nope(n):
    raise Unsupported("axis.%s" % n)

def axis_handlers(I):
    """axes known by a number: VAL are the values as they are written (times as numbers), RAW those held"""
    H = I.ext_handlers
    H["len:axis"] = H["len:axis.data"] = lambda I, v: mk_int(LEN(v.args[0]))
    H["getattr:axis"] = lambda I, v, n: Opq("axis.data", v.args) if n in ("data", "values") else mk_int(LEN(v.args[0])) if n == "size" else (mk_int(LEN(v.args[0])),) if n == "shape" else nope(n)
    H["getitem:axis"] = H["getitem:axis.data"] = lambda I, v, i: fl(RAW(v.args[0], as_term(i)))
    H["getslice:axis"] = H["getslice:axis.data"] = lambda I, v, *a: I.new_list(numbers(LEN(v.args[0]), lambda i: RAW(v.args[0], i))) if all(x is None for x in a) else nope("slice")
    H["iter:axis"] = H["iter:axis.data"] = lambda I, v: numbers(LEN(v.args[0]), lambda i: RAW(v.args[0], i))
    H["call:axis.data.tolist"] = lambda I, f, a, k: I.new_list(numbers(LEN(f.args[0]), lambda i: RAW(f.args[0], i)))
    H["isnone:axis"] = lambda I, v: False

class Variables:
    """handlers for variables of one rank"""
    def __init__(self, I, rank):
        self.I, self.rank = I, rank
        axis_handlers(I)
        H = I.ext_handlers
        H["getattr:da"] = self.attr
        H["isnone:da"] = lambda I, v: False
        H["getitem:da.coords"] = self.coord
        H["len:da"] = lambda I, v: mk_int(LEN(AX(v.args[0], z3.IntVal(0))))
    def attr(self, I, v, n):
        x = v.args[0]
        if n == "dims":
            return tuple(Opq("dim", (x, z3.IntVal(k))) for k in range(self.rank))
        if n == "shape":
            return tuple(mk_int(LEN(AX(x, z3.IntVal(k)))) for k in range(self.rank))
        if n == "ndim":
            return self.rank
        if n == "coords":
            return Opq("da.coords", (x,))
        if n == "name":
            return Opq("da.name", (x,))
        raise Unsupported("variable.%s" % n)
    def coord(self, I, c, d):
        if isinstance(d, Opq) and d.fn == "dim":
            return Opq("axis", (AX(c.args[0], d.args[1]),))
        raise Unsupported("coords[%r]" % (d,))

def as_list(I, fn, args, kw):
    """getArrayAsList: axes give their values as they are written, variables their data with gaps filled; a new list each time"""
    e = I.bind(fn, args, kw)
    v = e["da"]
    if isinstance(v, Opq) and v.fn == "axis":
        return I.new_list(values(v.args[0]))
    if isinstance(v, Opq) and v.fn == "da":
        m = e["missing_value"]
        if not (isinstance(m, Sc) and m.kind == "float"):
            raise Unsupported("missing value %r" % (m,))
        return Opq("data", (v.args[0], m.t))
    return NotImplemented

def name_text(fn, *args):
    return mk_text((Atom("name_" + fn, tuple(args), frozenset({"nonempty", "nonl", "nobrace", "stripped"})),))

def name_of(I, fn, args, kw):
    v = list(I.bind(fn, args, kw).values())[0]
    return name_text(v.fn, *v.args)

def missing_of(I, fn, args, kw):
    v = list(I.bind(fn, args, kw).values())[0]
    return Opq("missing", v.args)

def resolved(I, fn, args, kw):
    v = list(I.bind(fn, args, kw).values())[-1]
    if isinstance(v, Opq) and v.fn == "missing":
        return fl(MISS(v.args[0]))
    return NotImplemented

CONTRACTS = {XU + ".getArrayAsList": as_list, XU + ".getBestName": name_of, XU + ".getMissingValue": missing_of, CC + "._resolve_float": resolved}

def da(i):
    return Opq("da", (as_term(i),))

def given_vars(I, name, n):
    """a list of n variables numbered from 0"""
    return I.new_list(na.gen(n, lambda i: da(i)))

def every(lo, hi, f):
    i = fresh_int("i")
    return z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), f(i)))

def even(a, dx):
    return every(1, LEN(a), lambda i: VAL(a, i) - VAL(a, i - 1) == dx)

def real(v):
    return z3.RealVal(v) if isinstance(v, int) else v.t if isinstance(v, Sc) and v.kind == "float" else z3.ToReal(as_term(v))

RANK = {1001: 1, 1010: 1, 1020: 1, 2010: 2, 2110: 2, 2310: 2, 3010: 3, 4010: 4}

class Defined:
    """_defineNAVars run on NV variables of FFI ffi"""
    def __init__(self, S, ffi, more=None):
        self.S, self.ffi, self.rank = S, ffi, RANK[ffi]
        I = self.I = S.interp({**CONTRACTS, **(more or {})})
        Variables(I, self.rank)
        self.NV, self.NVPM = z3.Int("NV"), z3.Int("NVPM")
        I.assume(self.NV >= 1)
        self.ax = [AX(z3.IntVal(0), z3.IntVal(k)) for k in range(self.rank)]
        for a in self.ax:
            I.assume(LEN(a) >= 1)
        if ffi == 1020:
            # C12: an auxiliary variable is defined on every NVPM-th point
            self.M = z3.Int("M")
            I.ghost_ints = [self.M]
            I.assume(z3.And(self.NVPM >= 1, self.M >= 1, LEN(self.ax[0]) == self.M * self.NVPM))
    def run(self):
        I = self.I
        items = {"FFI": self.ffi, "NIV": self.rank, "NLHEAD": -999}
        if self.ffi == 1020:
            items["NVPM"] = mk_int(self.NVPM)
        d = I.alloc(DictO(items))
        inst = I.alloc(InstO(env.func(I, CC), {"na_dict": d, "output_message": I.new_list(())}))
        first = I.new_list((Unit(da(0)),) + na.gen(self.NV - 1, lambda i: da(i + 1)))
        I.call(I.getattr_(inst, "_defineNAVars"), [first])
        return inst, d
