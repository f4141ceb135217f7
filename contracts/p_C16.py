"""C16: accessors return the item at the position asked for and leave the object as it is; names are split without loss."""
import z3
from pyvc.core import *
from pyvc import env, lib
from pyvc.interp import DictO, InstO, Opq
from . import na, roundtrip

CORE = "nappy.na_file.na_core.NACore"
Z = z3.IntSort()
SIMPLE = {"getNumHeaderLines": "NLHEAD", "getFFI": "FFI", "getOriginator": "ONAME", "getOrganisation": "ORG", "getOrg": "ORG", "getSource": "SNAME",
          "getMission": "MNAME", "getNormalComments": "NCOM", "getSpecialComments": "SCOM"}
PAIRS = {"getVolumes": ("IVOL", "NVOL"), "getFileDates": ("DATE", "RDATE")}

def core(I, attrs=None):
    o = I.call(env.func(I, CORE), [])
    I.obj(o).attrs.update(attrs or {})
    return o

def header(I, ffi):
    B = na.Dict(I, ffi)
    d = B.header(na.fl)
    d.update(B.data(na.intdata, na.fl))
    d["NLHEAD"] = na.it(z3.Int("NLHEAD_given"))
    # names of the form  text (units)
    def name(k):
        return lambda i: mk_text((Atom(k + "_T", (i,), {"stripped", "nonempty", "nonl"}), Atom(k + "_GAP", (i,), {"ws", "nonl"}), "(", Atom(k + "_U", (i,), UNITS), ")"))
    d["VNAME"] = LV(na.gen(B.NV, name("VNAME")))
    d["XNAME"] = LV([Unit(name("XNAME")(z3.IntVal(k))) for k in range(B.niv)])
    if B.hasaux:
        d["ANAME"] = LV(na.gen(B.NAUXV, name("ANAME")))
    return B, {k: na.heap_value(I, v) for k, v in d.items()}

UNITS = {"nonempty", "nonl", "no:()"}
def split_of(k, i):
    return mk_text((Atom(k + "_T", (i,), {"stripped", "nonempty", "nonl"}),)), mk_text((Atom(k + "_U", (i,), UNITS),))

def snapshot(I, o):
    r = {}
    for k, v in I.obj(o).attrs.items():
        r[k] = I.obj(v).clone() if isinstance(v, Ref) else v
    return r

def unchanged(S, I, o, before, tag, allow=()):
    now = I.obj(o).attrs
    S.holds(I, tag + "-attributes", set(now) == set(before), "attributes %s" % (set(now) ^ set(before)))
    for k, v in before.items():
        if k in allow or k not in now:
            continue
        w = now[k]
        if isinstance(w, Ref) and hasattr(v, "seq"):
            S.eq(I, "%s-%s" % (tag, k), LV(I.list_seq(w)), LV(v.seq))
        elif isinstance(w, Ref):
            continue
        elif not isinstance(v, Opq):
            S.eq(I, "%s-%s" % (tag, k), w, v)

# ---------------------------------------------------------------- one name
def names(kind):
    T = Atom("T", (), {"stripped", "nonempty", "nonl"})
    U = Atom("U", (), UNITS)
    lead, gap, end = (Atom(n, (), {"ws", "nonl"}) for n in ("LEAD", "GAP", "END"))
    if kind == "text-units":
        return (lead, T, gap, "(", U, ")", end), (T,), (U,)
    if kind == "units-only":
        return (lead, "(", U, ")", end), (), (U,)
    if kind == "text-units-more":
        R = Atom("R", (), {"stripped", "nonempty", "nonl", "no:("})
        return (lead, T, gap, "(", U, ")", R, end), (T, gap, " ", R), (U,)
    if kind == "two-groups":
        V = Atom("V", (), {"nonl", "nonempty", "no:()"})
        return (T, " (", V, ") (", U, ")"), (T, " (", V, ")"), (U,)
    if kind == "no-opening":
        P = Atom("P", (), {"stripped", "nonempty", "nonl", "no:("})
        return (lead, P, end), (P,), None
    if kind == "no-closing":
        P = Atom("P", (), {"stripped", "nonempty", "nonl", "no:)"})
        return (lead, P, end), (P,), None
    if kind == "blank":
        return (lead,), (), None
    raise KeyError(kind)
KINDS = ["text-units", "units-only", "text-units-more", "two-groups", "no-opening", "no-closing", "blank"]

def split_case(kind):
    def fn(S):
        I = S.interp({})
        line, t, u = names(kind)
        for v in S.returns(I, "split", lambda: I.call(I.getattr_(core(I), "_attemptVarAndUnitsMatch"), [mk_text(line)])):
            a, b = I.unpack(v, 2)
            S.eq(I, "text", a, mk_text(t))
            S.eq(I, "units", b, None if u is None else mk_text(u))
    return fn

class Given:
    """a function handed over by the user, of which only the arguments and the result are known"""
    _pyvc = True
    def __init__(self, f):
        self.f = f
    def __call__(self, I, args, kw):
        return self.f(args)

def callback(S):
    """a function given by the user decides instead"""
    I = S.interp({})
    nm = mk_text((Atom("NAME", (), {"nonl"}),))
    out = (mk_text((Atom("CB_T", (), {"stripped", "nonempty"}),)), mk_text((Atom("CB_U", (), {"nonempty"}),)))
    seen = []
    def run():
        o = core(I)
        I.obj(o).attrs["var_and_units_callback"] = Given(lambda a: (seen.append(list(a)), out)[1])
        return I.call(I.getattr_(o, "_attemptVarAndUnitsMatch"), [nm])
    for v in S.returns(I, "split", run):
        a, b = I.unpack(v, 2)
        S.eq(I, "text", a, out[0])
        S.eq(I, "units", b, out[1])
        S.holds(I, "asked-for-the-name", len(seen) == 1 and seen[0] == [nm], "callback arguments %r" % (seen,))

# ---------------------------------------------------------------- accessors
def simple(ffi):
    def fn(S):
        I = S.interp({})
        B, attrs = header(I, ffi)
        S.cover(I, "header")
        o = core(I, attrs)
        for m, k in list(SIMPLE.items()) + list(PAIRS.items()):
            before = snapshot(I, o)
            for v in S.returns(I, m, lambda: I.call(I.getattr_(o, m), [])):
                ks = (k,) if isinstance(k, str) else k
                vs = (v,) if isinstance(k, str) else I.unpack(v, 2)
                for kk, vv in zip(ks, vs):
                    S.eq(I, "%s-%s" % (m, kk), vv, attrs[kk])
                unchanged(S, I, o, before, m + "-unchanged")
    return fn

def miss(B, k, i):
    return na.fl(na.F(k, Z, z3.RealSort())(i))

def indexed(ffi, what):
    """the accessor of one index, for every index"""
    def fn(S):
        I = S.interp({})
        B, attrs = header(I, ffi)
        i = z3.Int("INDEX")
        I.assume(i >= 0)
        n = {"V": B.NV, "X": z3.IntVal(B.niv), "A": B.NAUXV}[what]
        I.assume(i < n)
        S.cover(I, "header")
        o = core(I, attrs)
        before = snapshot(I, o)
        nm = {"V": "VNAME", "X": "XNAME", "A": "ANAME"}[what]
        m = {"V": "getVariable", "X": "getIndependentVariable", "A": "getAuxVariable"}[what]
        if what == "X":
            for k in range(B.niv):
                for v in S.returns(I, "%s%d" % (m, k), lambda: I.call(I.getattr_(o, m), [k])):
                    a, b = I.unpack(v, 2)
                    t, u = split_of(nm, z3.IntVal(k))
                    S.eq(I, "name%d" % k, a, t)
                    S.eq(I, "units%d" % k, b, u)
                    unchanged(S, I, o, before, "unchanged")
            return
        for v in S.returns(I, m, lambda: I.call(I.getattr_(o, m), [mk_int(i)])):
            a, b, c, d = I.unpack(v, 4)
            t, u = split_of(nm, i)
            S.eq(I, "name", a, t)
            S.eq(I, "units", b, u)
            em, es = entry(I, B, what, i)
            S.eq(I, "missing", c, em)
            S.eq(I, "scale", d, es)
            unchanged(S, I, o, before, "unchanged")
        if what == "V":
            for mm, kk in (("getMissingValue", "VMISS"), ("getScaleFactor", "VSCAL")):
                for v in S.returns(I, mm, lambda: I.call(I.getattr_(o, mm), [mk_int(i)])):
                    S.eq(I, mm + "-value", v, miss(B, kk, i))
    return fn

def entry(I, B, what, i):
    """(missing value, scale factor) of variable i"""
    if what == "V":
        return miss(B, "VMISS", i), miss(B, "VSCAL", i)
    if B.ffi != 2160:
        return miss(B, "AMISS", i), miss(B, "ASCAL", i)
    nn = nint(B.NAUXV - B.NAUXC)
    if I.decide(i < as_term(nn)):
        return miss(B, "AMISS", i), miss(B, "ASCAL", i)
    from pyvc.interp import NUMFLAGS
    return na.txt("AMISSC", (nint(i - as_term(nn)),), NUMFLAGS - {"num"} | {"tok", "noctl"}), None

def listed(ffi, what):
    """the list accessors: one entry per variable, in order"""
    def fn(S):
        I = S.interp({})
        B, attrs = header(I, ffi)
        S.cover(I, "header")
        o = core(I, attrs)
        before = snapshot(I, o)
        m = {"V": "getVariables", "X": "getIndependentVariables", "A": "getAuxVariables"}[what]
        for v in S.returns(I, m, lambda: I.call(I.getattr_(o, m), [])):
            if what == "X":
                S.eq(I, "entries", v, LV([Unit(split_of("XNAME", z3.IntVal(k))) for k in range(B.niv)]))
            elif what == "V":
                S.eq(I, "entries", v, LV(na.gen(B.NV, lambda i: (Unit(split_of("VNAME", i) + (miss(B, "VMISS", i), miss(B, "VSCAL", i))),))))
            elif not B.hasaux:
                S.eq(I, "entries", v, LV(()))
            elif ffi != 2160:
                S.eq(I, "entries", v, LV(na.gen(B.NAUXV, lambda i: (Unit(split_of("ANAME", i) + (miss(B, "AMISS", i), miss(B, "ASCAL", i))),))))
            else:
                from pyvc.interp import NUMFLAGS
                nn = nint(B.NAUXV - B.NAUXC)
                f = NUMFLAGS - {"num"} | {"tok", "noctl"}
                S.eq(I, "entries", v, LV(na.gen(nn, lambda i: (Unit(split_of("ANAME", i) + (miss(B, "AMISS", i), miss(B, "ASCAL", i))),)) +
                                         na.gen(B.NAUXC, lambda i: (Unit(split_of("ANAME", i + as_term(nn)) + (na.txt("AMISSC", (i,), f), None)),))))
            unchanged(S, I, o, before, "unchanged")
    return fn

# ---------------------------------------------------------------- the dictionary of contents
KEYS = ("A", "AMISS", "ANAME", "ASCAL", "DATE", "DX", "FFI", "IVOL", "LENA", "LENX", "MNAME", "NAUXC", "NAUXV", "NCOM", "NIV", "NLHEAD", "NNCOML",
        "NSCOML", "NV", "NVOL", "NVPM", "NX", "NXDEF", "ONAME", "ORG", "RDATE", "SCOM", "SNAME", "V", "VMISS", "VNAME", "VSCAL", "X", "XNAME",
        "ignored_header_lines")

def contents(values):
    """exactly the items that are set; each is decided on its own, so every subset with one item more or less is tried"""
    def fn(S):
        I = S.interp({})
        def val(k):
            if values == "text":
                return mk_text((Atom("VALUE_" + k, (), frozenset()),))
            return {"zero": 0, "empty": "", "false": False}.get(values) if values != "list" else I.new_list(())
        sets = [("all", KEYS), ("none", ())] + [("only-" + k, (k,)) for k in KEYS] + [("without-" + k, tuple(x for x in KEYS if x != k)) for k in KEYS]
        for nm, ks in sets:
            def run():
                o = core(I, {k: val(k) for k in ks})
                exp = {k: I.obj(o).attrs[k] for k in ks}
                return I.call(I.getattr_(o, "getNADict"), []), exp, o
            for d, exp, o in S.returns(I, nm, run):
                items = I.obj(d).items
                S.holds(I, nm + "-keys", set(items) == set(exp), "keys %s" % sorted(set(items) ^ set(exp)))
                for k in exp:
                    if k in items:
                        S.eq(I, "%s-%s" % (nm, k), items[k], exp[k])
                S.holds(I, nm + "-attributes", all((k in exp) == (I.obj(o).attrs[k] is not None) for k in KEYS), "attributes changed")
    return fn

def read_contents(ffi):
    """after reading a file: exactly the header and data items of the format"""
    def fn(S):
        R = roundtrip.Setup(S, ffi)
        I = R.I
        def run():
            R.write()
            r = R.read()
            before = dict(I.obj(r).attrs)
            return I.call(I.getattr_(r, "getNADict"), []), before, r
        for d, before, r in S.returns(I, "read", run):
            items = I.obj(d).items
            want = {k for k in KEYS if before.get(k) is not None}
            S.holds(I, "keys", set(items) == want, "keys %s" % sorted(set(items) ^ want))
            for k in sorted(want & set(items)):
                S.holds(I, "same-" + k, items[k] is before[k] or items[k] == before[k], "%s is not the object's own item" % k)
    return fn

def copied(ffi):
    """setNADict: an equal copy that shares nothing with the caller's dictionary"""
    def fn(S):
        I = S.interp({})
        B = na.Dict(I, ffi)
        d = na.make_dict(B)
        S.cover(I, "dictionary")
        def run():
            o = core(I)
            I.call(I.getattr_(o, "setNADict"), [d])
            return I.obj(o).attrs["na_dict"]
        for v in S.returns(I, "set", run):
            S.holds(I, "is-a-copy", isinstance(v, Ref) and v != d, "the caller's dictionary itself is kept")
            S.holds(I, "shares-nothing", not (reach(I, v) & reach(I, d)), "shares %r" % (reach(I, v) & reach(I, d),))
            a, b = I.obj(v).items, I.obj(d).items
            S.holds(I, "keys", set(a) == set(b), "keys %s" % sorted(set(a) ^ set(b)))
            for k in b:
                if k in a:
                    S.eq(I, "copy-" + k, a[k], b[k])
    return fn

def reach(I, v, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, Ref):
        if v.oid in seen:
            return seen
        seen.add(v.oid)
        o = I.obj(v)
        for x in (o.items.values() if hasattr(o, "items") else [p.v for p in o.seq if isinstance(p, Unit)] if hasattr(o, "seq") else []):
            reach(I, x, seen)
    return seen

def item_access(S):
    I = S.interp({})
    B, attrs = header(I, 1001)
    o = core(I, attrs)
    for k in sorted(attrs):
        for v in S.returns(I, "item-" + k, lambda: I.getitem(o, k)):
            S.eq(I, "item-%s-value" % k, v, attrs[k])

PROOFS = [("name/" + k, split_case(k)) for k in KINDS] + [("name/callback", callback)]
PROOFS += [("ffi%d/simple" % f, simple(f)) for f in (1001, 2010)]
PROOFS += [("ffi%d/one-%s" % (f, w), indexed(f, w)) for f in na.FFIS for w in ("VXA" if f != 1001 else "VX")]
PROOFS += [("ffi%d/list-%s" % (f, w), listed(f, w)) for f in na.FFIS for w in "VXA"]
PROOFS += [("contents/" + v, contents(v)) for v in ("text", "zero", "empty", "list", "false")]
PROOFS += [("ffi%d/contents-read" % f, read_contents(f)) for f in na.FFIS] + [("ffi%d/copied" % f, copied(f)) for f in na.FFIS] + [("item-access", item_access)]
