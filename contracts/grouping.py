"""Variables as seen by the code that sorts them into files (C11, C12): each is known by its position in the list given."""
import z3
from pyvc.core import *
from pyvc import env
from pyvc.interp import DictO, InstO, Opq, PyRaise
from .record import calls, stub, given

MOD = "nappy.nc_interface.na_content_collector"
XU = "nappy.nc_interface.xarray_utils"
Z, BO = z3.IntSort(), z3.BoolSort()
F = lambda n, *s: z3.Function(n, *s)
RANK, SIZE, SHAPE = F("var_rank", Z, Z), F("var_size", Z, Z), F("var_shape", Z, Z)
SIZES = F("var_dim_size", Z, Z, Z)
NUMBERED, AUXNUMBERED = F("var_numbered", Z, BO), F("var_aux_numbered", Z, BO)
ACCEPT = F("axes_accepted", Z, Z, Z, Z, BO)        # (variable, dimension, variable, dimension)
# axes that agree in name, units, length and every value have the same number (C12 proves that only such axes are accepted)
CLASS = F("axis_class", Z, Z, Z)
IDENT = lambda a, i, b, k: z3.And(ACCEPT(a, i, b, k), CLASS(a, i) == CLASS(b, k))
SUB = F("axis_times", Z, Z, Z, Z, Z)               # 0: not a regularly spaced subset
UNIFORM = F("axis_uniform", Z, Z, BO)

def axis(v):
    if not isinstance(v, Opq) or v.fn != "axis":
        raise Unsupported("axis %r" % (v,))
    return v.args

class Vars:
    def __init__(self, I):
        H = I.ext_handlers
        self.I = I
        H["getattr:da"] = self.attr
        H["hasattr:da"] = self.has
        H["isnone:da"] = lambda I, v: False
        H["eq"] = self.eq
        H["len:da.shape"] = H["len:da.dims"] = lambda I, v: mk_int(RANK(v.args[0]))
        H["iter:da.dims"] = self.dims
        H["getitem:da.dims"] = self.dim
        H["getitem:da.coords"] = self.coord
        H["str"] = lambda I, v: mk_text((Atom("str_" + v.fn, tuple(v.args), frozenset()),)) if isinstance(v, Opq) and all(z3.is_expr(a) for a in v.args) else NotImplemented
        H["sort"] = lambda I, s, kw: s        # in some order; nothing here depends on which
        H["setattr:da"] = self.no_assignment
    def no_assignment(self, I, v, n, x):
        raise PyRaise("AttributeError", n)
    def attr(self, I, v, n):
        x = v.args[0]
        if n == "shape":
            I.assume(RANK(x) >= 0)
            return Opq("da.shape", (x,))
        if n in ("dims", "coords", "name"):
            I.assume(RANK(x) >= 0)
            return Opq("da." + n, (x,))
        if n == "ndim":
            return mk_int(RANK(x))
        if n == "size":
            return mk_int(SIZE(x))
        if n == "attrs":
            return Opq("da.attrs", (x,))
        if n == "nasa_ames_var_number":
            if not I.decide(NUMBERED(x)):
                raise PyRaise("AttributeError", n)
            return Opq("da.number", (x,))
        if n == "nasa_ames_aux_var_number":
            if not I.decide(AUXNUMBERED(x)):
                raise PyRaise("AttributeError", n)
            return Opq("da.auxnumber", (x,))
        raise Unsupported("variable.%s" % n)
    def has(self, I, v, n):
        x = v.args[0]
        if n == "nasa_ames_var_number":
            return I.decide(NUMBERED(x))
        if n == "nasa_ames_aux_var_number":
            return I.decide(AUXNUMBERED(x))
        if n in ("shape", "dims", "coords", "name", "rank", "attrs", "size"):
            return True
        raise Unsupported("hasattr variable.%s" % n)
    def eq(self, I, a, b):
        if isinstance(a, Opq) and isinstance(b, Opq) and a.fn == b.fn:
            if a.fn == "da.shape":
                x, y = a.args[0], b.args[0]
                I.assume(z3.Implies(SHAPE(x) == SHAPE(y), RANK(x) == RANK(y)))
                return mk_bool(SHAPE(x) == SHAPE(y))
            if a.fn in ("axis", "dim"):
                return mk_bool(z3.And(*[p == q for p, q in zip(a.args, b.args)]))
        return NotImplemented
    def dims(self, I, v):
        i = fresh_int("i")
        return (Gen(RANK(v.args[0]), i, (Unit(Opq("dim", (v.args[0], i))),)),)
    def dim(self, I, v, i):
        t = as_term(i)
        if not I.decide(z3.And(t >= 0, t < RANK(v.args[0]))):
            raise PyRaise("IndexError", "dims")
        return Opq("dim", (v.args[0], simp(t)))
    def coord(self, I, v, k):
        if not isinstance(k, Opq) or k.fn != "dim" or not k.args[0].eq(v.args[0]):
            raise Unsupported("coords[%r]" % (k,))
        return Opq("axis", k.args)

def identical(I, e):
    a, b = axis(e["ax1"]), axis(e["ax2"])
    if e["is_subset"] is not False or e["check_id"] is not True:
        raise Unsupported("areAxesIdentical with options")
    return mk_bool(IDENT(*a, *b))

def subset(I, e):
    t = SUB(*axis(e["ax1"]), *axis(e["ax2"]))
    if I.decide(t >= 1):
        return mk_int(t)
    return False

def uniform(I, e):
    (v,) = [x for x in e.values()]
    return mk_bool(UNIFORM(*axis(v)))

def reordered(I, e):
    """the members of the two lists in some order (proved of the code in reorder below): nothing here depends on which"""
    return tuple(I.new_list(I.list_seq(e[k])) for k in ("vars_for_na", "aux_vars_for_na"))

def chosen(I, e):
    """a file format index, or a refusal"""
    if I.decide(z3.Bool(fresh_name("refused"))):
        raise PyRaise("Exception", "cannot write")
    return mk_int(fresh_int("FFI"))

COLL = MOD + ".NAContentCollector."
CONTRACTS = {COLL + "_reorderVarsIfPreviouslyNA": stub("reorder", reordered), COLL + "_decideFileFormatIndex": stub("decide", chosen),
             XU + ".areAxesIdentical": stub("identical", identical), XU + ".isAxisRegularlySpacedSubsetOf": stub("subset", subset),
             XU + ".isUniformlySpaced": stub("uniform", uniform)}

# ------------------------------------------------------------------ what a list holds
def members(seq, var=None, conds=()):
    """[(number, condition, bound variable or None)] of the variables in a list"""
    out = []
    for p in seq:
        if isinstance(p, Unit):
            v = p.v
            if not isinstance(v, Opq) or v.fn != "da":
                raise Unsupported("list member %r" % (v,))
            out.append((v.args[0], z3.And(*conds) if conds else z3.BoolVal(True), var))
        elif isinstance(p, Gen):
            n = as_term(p.n)
            if var is not None and not any(occurs(p.var, t) for q in p.body for t in iter_terms(q)):
                # present or not
                out += members(p.body, var, tuple(conds) + (n >= 1,))
                COUNTS.append((n, conds, var))
            elif var is None:
                out += members(p.body, p.var, tuple(conds) + (p.var >= 0, p.var < n))
            else:
                raise Unsupported("nested list members")
        else:
            raise Unsupported("list part %r" % (p,))
    return out
COUNTS = []

def occurrences(I, seq, p):
    """how often p occurs in a list, and the positions it could be at"""
    total, where = [], []
    del COUNTS[:]
    for t, c, v in members(seq):
        if v is None:
            total.append(z3.If(z3.And(c, t == p), 1, 0))
            continue
        off = simp(t - v)
        if occurs(v, off):
            raise Unsupported("list member %s" % t)
        at = simp(p - off)
        where.append(at)
        total.append(z3.If(z3.substitute(c, (v, at)), 1, 0))
    for n, conds, v in COUNTS:
        if z3.is_app_of(n, z3.Z3_OP_ITE) and {str(n.arg(1)), str(n.arg(2))} == {"0", "1"}:
            continue
        mark = len(I.pc)
        for c in conds:
            I.assume(c)
        ok = I.entails(z3.Or(n == 0, n == 1))
        del I.pc[mark:]
        if not ok:
            raise Unsupported("a member present %s times" % n)
    return (z3.Sum(*total) if total else z3.IntVal(0)), where

def instantiate(I, ts):
    """what the facts that hold for every position say at these"""
    for f in list(I.pc):
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1:
            for t in ts:
                I.assume(simp(z3.substitute_vars(f.body(), as_term(t))))

REQUESTS = [("any", None), ("1020", 1020), ("other", "other")]

def collector(I, req):
    n = z3.Int("NVARS")
    I.assume(n >= 0)
    i = fresh_int("i")
    lst = I.new_list((Gen(n, i, (Unit(Opq("da", (i,))),)),))
    if req == "other":
        t = z3.Int("REQUESTED")
        I.assume(z3.And(t != 0, t != 1020))
        req = mk_int(t)
    c = env.func(I, MOD + ".NAContentCollector")
    return n, I.call(c, [lst], {"requested_ffi": req})

DEFINE = ("_defineNAVars", "_defineNAAuxVars", "_defineNAGlobals", "_defineNAComments", "_defineGeneralHeader")

def one_pass(req, count, axes):
    """collectNAContent on a new collector; the functions that fill the dictionary have contracts of their own (C14)"""
    def fn(S):
        I = S.interp(dict(CONTRACTS, **{COLL + n: stub(n) for n in DEFINE}))
        Vars(I)
        q = fresh_int("q")
        I.assume(z3.ForAll([q], RANK(q) >= 0))
        S.cover(I, "variables")
        found = [0, 0]
        def run():
            I.set_lazy(True)
            n, c = collector(I, req)
            I.call(I.getattr_(c, "collectNAContent"), [], {})
            return n, c
        for kind, v, k in S.paths(I, run, max_paths=3000):
            I.set_lazy(False)
            if kind == "raise":
                # refusing to write is allowed, nothing else
                if v.etype != "Exception":
                    S.holds(I, "raises-%s" % v.etype, z3.BoolVal(False))
                continue
            n, c = v
            defined = [[[x for k, x in e.items() if k != "self"][0] for e in calls(I, name)] for name in DEFINE[:2]]
            written = I.truth(I.getattr_(c, "found_na"))
            zero, unused = I.list_seq(I.getattr_(c, "rank_zero_vars")), I.list_seq(I.getattr_(c, "unused_vars"))
            if not written:
                if count:
                    nothing(S, I, n, defined, zero, unused)
                continue
            if any(len(d) != 1 for d in defined):
                S.holds(I, "one-dictionary", z3.BoolVal(False))
                continue
            main, aux = [I.list_seq(d[0]) for d in defined]
            found[0] += 1
            if count:
                check(S, I, n, c, main, aux, zero, unused)
            if axes:
                check_axes(S, I, c, main, aux)
        S.add("some-grouped", "discharged" if found[0] else "failed", "no variables are ever written")
    return fn

def within(S, I, name, goal, *lists):
    """goal(t) for every member t of the lists"""
    for l in lists:
        for t, cond, v in members(l):
            mark = len(I.pc)
            I.assume(cond)
            instantiate(I, [v] if v is not None else [])
            S.holds(I, name, goal(t))
            del I.pc[mark:]

def nothing(S, I, n, defined, zero, unused):
    """nothing is written only if no variable has dimensions"""
    S.holds(I, "no-dictionary", z3.BoolVal(not any(defined)))
    p = fresh_int("p")
    mark = len(I.pc)
    I.assume(z3.And(p >= 0, p < n))
    c, where = occurrences(I, zero, p)
    instantiate(I, [p] + where)
    S.holds(I, "nothing-to-write", RANK(p) == 0)
    S.holds(I, "kept-as-single", c == 1)
    del I.pc[mark:]

def named(seq):
    return tuple(Unit(Opq("da.name", p.v.args)) if isinstance(p, Unit) else Gen(p.n, p.var, named(p.body)) for p in seq)

def check(S, I, n, c, main, aux, zero, unused):
    within(S, I, "only-those-given", lambda t: z3.And(t >= 0, t < n), main, aux, zero, unused)
    within(S, I, "singletons", lambda t: RANK(t) == 0, zero)
    within(S, I, "left-over-can-be-written", lambda t: RANK(t) >= 1, unused)
    p = fresh_int("p")
    mark = len(I.pc)
    I.assume(z3.And(p >= 0, p < n))
    tot, where = [], [p]
    for l in (main, aux, zero, unused):
        k, w = occurrences(I, l, p)
        tot.append(k)
        where += w
    instantiate(I, where)
    S.holds(I, "exactly-once", z3.Sum(*tot) == 1)
    del I.pc[mark:]
    ms = members(main)
    S.holds(I, "at-least-one", z3.BoolVal(any(z3.is_true(simp(c)) for t, c, v in ms)))
    ids = [p.v for p in I.list_seq(I.getattr_(c, "var_ids"))]
    for nm, l, got in zip(("main", "auxiliary", "single"), (main, aux, zero), ids):
        S.eq(I, "names-of-" + nm, LV(I.list_seq(got)), LV(named(l)))

def check_axes(S, I, c, main, aux):
    """main variables share shape and axes with one of them, auxiliary variables its first axis (or every n-th point of it)"""
    best = [t for t, cond, v in members(main) if v is None and z3.is_true(simp(cond))]
    if not best:
        raise Unsupported("no variable is certainly written")
    b = best[0]
    k = fresh_int("k")
    I.assume(k >= 0)
    within(S, I, "same-shape", lambda t: SHAPE(t) == SHAPE(b), main)
    within(S, I, "same-axes", lambda t: z3.Implies(k < RANK(b), CLASS(t, k) == CLASS(b, k)), main)
    within(S, I, "auxiliary-rank", lambda t: RANK(t) == 1, aux)
    nvpm = I.obj(I.getattr_(c, "na_dict")).known.get("NVPM")
    if nvpm is None:
        within(S, I, "auxiliary-axis", lambda t: CLASS(t, 0) == CLASS(b, 0), aux)
    else:
        within(S, I, "auxiliary-points", lambda t: z3.And(SUB(t, 0, b, 0) >= 1, SUB(t, 0, b, 0) == as_term(nvpm), RANK(b) == 1), aux)

def reorder(S):
    """every member of each list given comes back in the same list, once"""
    I = S.interp({})
    Vars(I)
    S.cover(I, "lists")
    ns = z3.Int("NMAIN"), z3.Int("NAUX")
    def run():
        c = collector(I, None)[1]
        ls = []
        for k, n in enumerate(ns):
            I.assume(n >= 0)
            i = fresh_int("i")
            ls.append(I.new_list((Gen(n, i, (Unit(Opq("da", (i,))),)),)))
        return I.call(I.getattr_(c, "_reorderVarsIfPreviouslyNA"), ls, {})
    for v in S.returns(I, "reorder", run):
        out = v if isinstance(v, tuple) else [p.v for p in I.list_seq(v)]
        for nm, n, l in zip(("main", "auxiliary"), ns, out):
            p = fresh_int("p")
            mark = len(I.pc)
            c, w = occurrences(I, I.list_seq(l), p)
            I.assume(z3.And(p >= 0, p < n))
            instantiate(I, [p] + w)
            S.holds(I, nm + "-kept", c == 1)
            del I.pc[mark:]
