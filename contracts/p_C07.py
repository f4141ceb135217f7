"""C07: the format index fits the dimensionality; requests are delivered or refused."""
import z3
from pyvc.core import *
from pyvc import env, lib
from pyvc.interp import DictO, InstO, Opq
from . import na, roundtrip, record, p_C04
from .record import calls, stub, given, val
from .roundtrip import Setup

UT = "nappy.utils.common_utils."
NCI = "nappy.nc_interface."
NIV = {1001: 1, 1010: 1, 1020: 1, 2010: 2, 2110: 2, 2160: 2, 2310: 2, 3010: 3, 4010: 4}

def drop(I, d, *keys):
    o = I.obj(d)
    for k in keys:
        o.items.pop(k, None)
    return d

def dictionary(S, ffi, con=None):
    R = Setup(S, ffi, contracts=con)
    I = R.I
    drop(I, R.d, "FFI")
    if ffi == 1001:
        drop(I, R.d, "NAUXV")
    if ffi == 2110:
        # some record has more or fewer than one point (all of them having one is written as 2310 as well)
        m = z3.Int("WIDE")
        I.assume(z3.And(m >= 0, m < R.B.M, R.B.NXf(m) != 1))
    return R

# ---------------------------------------------------------------- choosing
def choose(ffi, nauxv):
    def fn(S):
        R = dictionary(S, ffi)
        I = R.I
        if nauxv == "zero":
            I.obj(R.d).items["NAUXV"] = 0
        before = I.obj(R.d).clone()
        for v in S.returns(I, "choose", lambda: I.call(env.func(I, UT + "chooseFFI"), [R.d])):
            S.eq(I, "index", v, ffi)
            S.holds(I, "dictionary-kept", I.obj(R.d).items == before.items, "the dictionary is changed")
    return fn

def refused(cond, name):
    def fn(S):
        I = S.interp()
        n = z3.Int("NIV_given")
        I.assume(cond(n))
        S.cover(I, "count")
        d = I.alloc(DictO({"NIV": mk_int(n), "NAUXV": 0, "X": val("X")}))
        S.raises(I, "refuse", lambda: I.call(env.func(I, UT + "chooseFFI"), [d]))
        S.raises(I, "open", lambda: I.call(env.func(I, "nappy.nappy_api.openNAFile"), ["out.na", "w", d]), after=lambda I: S.holds(I, "no-file", not I.filelog, "a file is opened"))
    return fn

# ---------------------------------------------------------------- opening
def klass(ffi):
    def fn(S):
        I = S.interp()
        for v in S.returns(I, "class", lambda: I.call(env.func(I, UT + "getNAFileClass"), [ffi])):
            S.holds(I, "class", v is roundtrip.cls(I, ffi), "class %r" % (v,))
    return fn

def first_line(ann, skipped):
    """the index is the last item of the first line behind the lines to ignore"""
    def fn(S):
        I = S.interp({})
        I.partial_loops = True
        item = z3.Function("ITEM", z3.IntSort(), z3.IntSort())
        K = z3.Int("IGNORED")
        I.assume(K >= 0)
        I.ghost_ints = [K]
        gap, end, lead = (Atom(n, (), {f, "nonl"}) for n, f in (("GAP", "ws1"), ("END", "ws"), ("LEAD", "ws")))
        v, w = z3.Int("k!"), z3.Int("r!")
        before = (Gen(mk_int(K), v, (Unit(mk_text((Atom("IGN", (v,), {"nonl"}), "\n"))),)),) if skipped else ()
        line = (lead, p_C04.item("int", z3.IntVal(0)), gap, p_C04.item("int", z3.IntVal(1)), end)
        if ann:
            line = line + ("{", Atom("NOTE", (), {"nonl", "nobraces"}), "}")
        M = z3.Int("REST")
        I.assume(M >= 0)
        rest = (Gen(mk_int(M), w, (Unit(mk_text((Atom("REST", (w,), {"nonl"}), "\n"))),)),)
        I.fs["in.na"] = LV(before + (Unit(mk_text(line + ("\n",))),) + rest)
        B = item(1)
        for r in S.returns(I, "read", lambda: I.call(env.func(I, UT + "readFFI"), ["in.na", mk_int(K) if skipped else 0])):
            S.eq(I, "index", r, mk_int(B))
    return fn

def reopen(ffi, given_ffi, delim, ignore):
    """written through openNAFile and opened again: the same class"""
    def fn(S):
        R = dictionary(S, ffi)
        I = R.I
        R2 = I.obj(R.d)
        if given_ffi:
            R2.items["FFI"] = ffi
        opn = env.func(I, "nappy.nappy_api.openNAFile")
        def run():
            o = I.call(opn, ["out.na", "w", R.d])
            I.call(I.getattr_(o, "write"), [], {"float_format": roundtrip.FMT, "delimiter": delim})
            I.call(I.getattr_(o, "close"), [])
            r = I.call(opn, ["out.na"])
            return o, r
        for o, r in S.returns(I, "reopen", run):
            S.holds(I, "written-by", I.obj(o).cls is roundtrip.cls(I, ffi), "class %s" % I.obj(o).cls.qual)
            S.eq(I, "dictionary-index", I.getitem(R.d, "FFI"), ffi)
            S.holds(I, "read-by", I.obj(r).cls is roundtrip.cls(I, ffi), "class %s" % I.obj(r).cls.qual)
            S.eq(I, "index-read", I.getattr_(r, "FFI"), ffi)
            S.eq(I, "independent-variables", I.getattr_(r, "NIV"), NIV[ffi])
    return fn

# ---------------------------------------------------------------- deciding from variables
LIMITS = {"none": False, "2d": (2010, 2110), "2d-uniform": (2010, 2110, 2310), "1020": (1020,)}
def decide(limit, aux, req):
    """every number of axes, every request"""
    def fn(S):
        I = S.interp()
        N, Q = z3.Int("AXES"), z3.Int("REQUESTED")
        I.assume(N >= 1)
        if limit.startswith("2d"):
            I.assume(N == 2)
        elif limit == "1020":
            I.assume(z3.And(N == 1, Q == 1020))
        else:
            I.assume(N != 2)
        I.assume(Q != 0)
        naux = z3.Int("NAUX")
        I.assume(naux >= 1)
        cls = env.func(I, NCI + "na_content_collector.NAContentCollector")
        v = z3.Int("a!")
        lim = LIMITS[limit]
        def run():
            c = I.call(cls, [I.new_list(())], {"requested_ffi": mk_int(Q) if req else None})
            if limit == "1020":
                I.obj(I.getattr_(c, "na_dict")).items["NVPM"] = mk_int(z3.Int("NVPM"))
            auxs = I.new_list((Gen(naux, v, (Unit(Opq("value", ("aux", v))),)),) if aux else ())
            return I.call(I.getattr_(c, "_decideFileFormatIndex"), [mk_int(N), auxs, I.new_list([Unit(x) for x in lim]) if lim else False])
        # the formats that hold the data: of its number of axes and of the structure found
        def fits(f):
            one = 1020 if limit == "1020" else 1010 if aux else 1001
            two = lim if limit.startswith("2d") else ()
            return z3.Or(z3.And(N == 1, f == one), z3.And(N == 2, z3.Or(*[f == x for x in two])) if two else z3.BoolVal(False), z3.And(N == 3, f == 3010), z3.And(N == 4, f == 4010))
        n = 0
        for kind, r, k in S.paths(I, run):
            n += 1
            if kind == "raise":
                S.holds(I, "refused-only-if-impossible%d" % k, z3.Or(N > 4, z3.Not(fits(Q))) if req else N > 4, "an index that fits is refused (%s)" % (r.value,))
                S.holds(I, "refusal%d" % k, r.etype == "Exception", "raises %s" % r.etype)
            else:
                t = as_term(r)
                S.holds(I, "fits%d" % k, z3.And(N <= 4, fits(t)), "index %s" % t)
                if req:
                    S.holds(I, "as-requested%d" % k, t == Q, "index %s" % t)
        S.holds(I, "paths", n > 0)
    return fn

# ---------------------------------------------------------------- the request reaches every pass of the conversion
def passes(n, entry, req):
    def fn(S):
        Q = z3.Int("REQUESTED")
        def collect(I, f, args, kw):
            o = I.obj(args[0])
            k = len(calls(I, "collect"))
            record.record(I, "collect", o.attrs["requested_ffi"])
            o.attrs["found_na"] = True
            o.attrs["na_dict"] = I.alloc(DictO({"PASS": k}))
            o.attrs["var_ids"] = I.new_list(())
            o.attrs["unused_vars"] = I.new_list([Unit(val("left%d" % k))] if k + 1 < n else [])
        con = {NCI + "nc_to_na.NCToNA._readXarrayFile": stub("read", lambda I, e: (I.new_list([Unit(val("variable"))]), I.alloc(DictO({})))),
               NCI + "xarray_to_na.XarrayToNA._convertSingletonVars": stub("single", lambda I, e: e["variables"]),
               NCI + "xarray_to_na.XarrayToNA._reorderVars": stub("order", lambda I, e: e["variables"]),
               NCI + "xarray_to_na.XarrayToNA.constructNAFileNames": stub("names"),
               NCI + "xarray_to_na.XarrayToNA.writeNAFiles": stub("write", lambda I, e: I.obj(e["self"]).attrs.update(output_files_written=val("files"))),
               NCI + "na_content_collector.NAContentCollector.collectNAContent": collect}
        I = S.interp(con)
        env.func(I, NCI + "na_content_collector.NAContentCollector")
        env.func(I, NCI + "xarray_to_na.XarrayToNA")
        kw = {"requested_ffi": mk_int(Q)} if req else {}
        def run():
            if entry == "convertNCToNA" or entry == "convertNCToCSV":
                args = ["in.nc", "out.na"]
            else:
                args = [I.new_list([Unit(val("variable"))]), I.alloc(DictO({})), "out.na"]
            return I.call(env.func(I, "nappy.nappy_api." + entry), args, kw)
        for v in S.returns(I, "convert", run):
            c = calls(I, "collect")
            S.holds(I, "passes", len(c) == n, "%d passes" % len(c))
            for k, q in enumerate(c):
                S.eq(I, "request%d" % k, q, kw.get("requested_ffi"))
            w = calls(I, "write")
            S.holds(I, "written", len(w) == 1, "%d writes" % len(w))
            for e in w:
                ds = [I.getitem(I.getitem(p.v, 0), "PASS") for p in I.list_seq(I.getattr_(e["self"], "na_dict_list"))]
                S.holds(I, "dictionaries", ds == list(range(n)), "dictionaries %s" % ds)
    return fn

PROOFS = []
for f in na.FFIS:
    PROOFS.append(("choose/ffi%d" % f, choose(f, "any")))
PROOFS += [("choose/ffi1010-no-aux", choose(1010, "zero")), ("choose/too-many", refused(lambda n: n > 4, "too many")), ("choose/none", refused(lambda n: n < 1, "none"))]
for f in na.FFIS:
    PROOFS.append(("class/ffi%d" % f, klass(f)))
    PROOFS += [("reopen/ffi%d-%s" % (f, n), reopen(f, g, d, 0)) for n, g, d in (("chosen", False, "    "), ("given", True, "\t"))]
PROOFS += [("first-line/%s%s" % ("annotated" if a else "plain", "-behind-others" if s else ""), first_line(a, s)) for a in (False, True) for s in (False, True)]
for l in LIMITS:
    for a in (False, True):
        for r in (False, True):
            if (l == "1020" and not (a and r)):
                continue
            PROOFS.append(("decide/%s%s%s" % (l, "-aux" if a else "", "-requested" if r else ""), decide(l, a, r)))
for e in ("convertNCToNA", "convertNCToCSV", "convertXarrayObjectsToNA", "convertXarrayObjectsToCSV"):
    for n in (1, 2, 3):
        PROOFS.append(("request/%s-%d%s" % (e, n, ""), passes(n, e, True)))
    PROOFS.append(("request/%s-none" % e, passes(1, e, False)))
