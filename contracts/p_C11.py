"""C11: no variable is lost or duplicated when variables are converted."""
import z3
from pyvc.core import *
from pyvc import env
from pyvc.interp import DictO, InstO, Opq, PyRaise, FuncV
from . import grouping as G
from .grouping import Z, F, MOD, XU
from .record import calls, stub, given

X2N = "nappy.nc_interface.xarray_to_na.XarrayToNA"
LEFT = F("variables_left", Z, Z)

def log(I, *e):
    I.call_method(I.fs["<log>"], "append", [tuple(e)], {})

# ------------------------------------------------------------------ passes until nothing is left over
def convert(found):
    """the variables left by pass k are what pass k + 1 gets, until none are left; every pass gives one dictionary, in order.
    A pass leaves fewer variables than it gets, all of them with dimensions (the pass cases), so some pass P + 1 leaves none."""
    def fn(S):
        P = z3.Int("PASSES")
        attributes, request = Opq("given", (z3.IntVal(1),)), Opq("given", (z3.IntVal(2),))
        def built(I, cls, args, kw):
            init = I.class_attr(cls, "__init__")
            e = I.bind(init, [None] + args, kw)
            v = e["variables"]
            if not isinstance(v, Opq) or v.fn != "left":
                raise Unsupported("collector of %r" % (v,))
            ok = same(e["global_attributes"], attributes) and same(e["requested_ffi"], request)
            return Opq("collector" if ok else "collector of something else", (simp(v.args[0] + 1),))
        def same(a, b):
            return isinstance(a, Opq) and a.fn == b.fn and all(x.eq(y) for x, y in zip(a.args, b.args))
        def step(name, res):
            def f(I, e):
                v = [x for k, x in e.items() if k != "self"][0]
                if not isinstance(v, Opq) or v.fn != name:
                    raise Unsupported("%r given %r" % (res, v))
                return Opq(res, (z3.IntVal(0),))
            return stub(res, f)
        I = S.interp({MOD + ".NAContentCollector": built, X2N + "._convertSingletonVars": step("handed", "checked"), X2N + "._reorderVars": step("checked", "left")})
        H = I.ext_handlers
        def attr(I, v, n):
            k = v.args[0]
            if n == "collectNAContent":
                return Opq("collector.collect", (k,))
            if n == "found_na":
                return found if z3.is_int_value(k) and k.as_long() == 1 else True
            if n == "unused_vars":
                return Opq("left", (k,))
            if n == "output_message":
                return I.new_list((Unit(Opq("message", (k,))),))
            if n in ("na_dict", "var_ids"):
                return Opq("collector." + n, (k,))
            raise Unsupported("collector.%s" % n)
        H["getattr:collector"] = attr
        H["call:collector.collect"] = lambda I, f, a, k: log(I, mk_int(f.args[0]))
        H["len:left"] = lambda I, v: mk_int(LEFT(v.args[0]))
        H["truth:left"] = lambda I, v: mk_bool(LEFT(v.args[0]) > 0)
        H["isnone:given"] = lambda I, v: False
        H["truth:given"] = lambda I, v: True
        for o in ("collector", "left", "collector.na_dict", "collector.var_ids", "handed"):
            H["isnone:" + o] = lambda I, v: False
        H["str"] = lambda I, v: mk_text((Atom("str_" + v.fn, tuple(v.args), frozenset()),)) if isinstance(v, Opq) else NotImplemented
        q = fresh_int("q")
        I.assume(P >= 0)
        I.schema(LEFT, lambda t: z3.And(z3.Implies(z3.And(t.arg(0) >= 1, t.arg(0) <= P), t > 0), z3.Implies(t.arg(0) == P + 1, t == 0), t >= 0))
        I.ghost_ints = [P]
        S.cover(I, "converter")
        I.fs["<log>"] = I.new_list(())
        obj = I.alloc(InstO(env.func(I, X2N)))
        def run():
            I.call(I.getattr_(obj, "__init__"), [Opq("handed", (z3.IntVal(0),))], {"global_attributes": attributes, "requested_ffi": request})
            return I.call(I.getattr_(obj, "convert"), [], {})
        i = fresh_int("i")
        pair = lambda k: (Opq("collector.na_dict", (k,)), Opq("collector.var_ids", (k,)))
        want = (Gen(P + 1, i, (Unit(pair(i + 1)),)),)
        for v in S.returns(I, "convert", run):
            done = I.list_seq(I.fs["<log>"])
            if not found:
                S.eq(I, "nothing-written", v, None)
                S.eq(I, "one-pass", LV(done), LV((Unit((z3c(1),)),)))
                continue
            S.eq(I, "every-pass-in-order", LV(I.list_seq(v)), LV(want))
            S.eq(I, "kept", LV(I.list_seq(I.getattr_(obj, "na_dict_list"))), LV(want))
            S.eq(I, "each-collected-once", LV(done), LV((Gen(P + 1, i, (Unit((mk_int(i + 1),)),)),)))
    return fn

def z3c(n):
    return mk_int(simp(z3.IntVal(n)))

# ------------------------------------------------------------------ before the first pass
def prepared(S):
    """every variable handed over reaches the first pass once and in order (numbers without dimensions wrapped as variables)"""
    I = S.interp({XU + ".getBestName": stub("best", lambda I, e: Opq("bestname", e["var"].args)),
                  XU + ".get_dim_names_for_variables": stub("dims", lambda I, e: Opq("dimnames", (z3.IntVal(0),))),
                  "nappy.utils.common_utils.get_rank_zero_array_value": stub("value", lambda I, e: Opq("single", (z3.IntVal(0),)))})
    G.Vars(I)
    H = I.ext_handlers
    H["setitem:da.attrs"] = lambda I, o, k, v: None
    H["hasattr:da.attrs"] = lambda I, o, n: False          # a plain dictionary
    H["contains:dimnames"] = lambda I, c, x: False          # data variables are not named as dimensions
    H["getattr:da.array"] = H["getattr:da"]
    H["call:numpy.array"] = lambda I, a, k: Opq("array", a[0].args)
    def wrapped(I, a, k):
        x = a[0]
        nm, at = k.get("name"), k.get("attrs")
        if not (isinstance(x, Opq) and x.fn == "array" and isinstance(nm, Opq) and nm.fn == "bestname" and isinstance(at, Opq) and at.fn == "da.attrs"):
            raise Unsupported("DataArray of %r" % (x,))
        if not all(o.args[0].eq(x.args[0]) for o in (nm, at)):
            return Opq("mixture", (x.args[0],))
        return Opq("da", x.args)
    H["call:xarray.DataArray"] = wrapped
    base = H["getattr:da"]
    H["getattr:da"] = lambda I, v, n: Opq("da.values", v.args) if n == "values" else base(I, v, n)
    n = z3.Int("NVARS")
    I.assume(z3.And(n >= 0, n <= 5000))
    S.cover(I, "variables")
    i = fresh_int("i")
    lst = I.new_list((Gen(n, i, (Unit(Opq("da", (i,))),)),))
    obj = I.alloc(InstO(env.func(I, X2N)))
    def run():
        I.call(I.getattr_(obj, "__init__"), [lst], {})
        v = I.call(I.getattr_(obj, "_convertSingletonVars"), [lst], {})
        return I.call(I.getattr_(obj, "_reorderVars"), [v], {})
    for v in S.returns(I, "prepare", run):
        p = fresh_int("p")
        mark = len(I.pc)
        c, w = G.occurrences(I, I.list_seq(v), p)
        I.assume(z3.And(p >= 0, p < n))
        G.instantiate(I, [p] + w)
        S.holds(I, "handed-on-once", c == 1)
        del I.pc[mark:]

PROOFS = [("pass/%s" % n, G.one_pass(f, True, False)) for n, f in G.REQUESTS]
PROOFS += [("reorder", G.reorder), ("prepare", prepared), ("convert/some", convert(True)), ("convert/none", convert(False))]
