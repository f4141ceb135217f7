"""C14: the dictionary built from variables is consistent: counts, lists in step, comments and overriding items."""
import z3
from pyvc.core import *
from pyvc import env
from pyvc.interp import DictO, InstO, Opq, PyRaise
from . import na, building
from .building import LEN, VAL, AX, MISS, Defined, name_text, da, fl
from .record import calls, stub, given, val

CC = building.CC
XN = "nappy.nc_interface.xarray_to_na"
PROOFS = []

# ---------------------------------------------------------------- variables
def variables(ffi):
    def fn(S):
        D = Defined(S, ffi)
        I = D.I
        K = z3.Int("NAUX")
        I.assume(K >= 0)
        S.cover(I, "variables")
        def run():
            inst, d = D.run()
            I.call(I.getattr_(inst, "_defineNAAuxVars"), [I.new_list(na.gen(K, lambda i: da(D.NV + i)))])
            return d
        n = 0
        for kind, d, k in S.paths(I, run):
            if kind == "raise":
                S.holds(I, "refused", ffi == 1020, "raises %s %r" % (d.etype, d.value))
                continue
            n += 1
            it = I.obj(d).items
            S.eq(I, "count", it["NV"], mk_int(D.NV))
            lists(S, I, it, "V", D.NV, z3.IntVal(0), ())
            pre = {2110: 1, 2310: 3}.get(ffi, 0)
            S.eq(I, "count-auxiliary", it["NAUXV"], mk_int(K + pre))
            lists(S, I, it, "A", K, D.NV, pre)
        S.add("some-defined", "discharged" if n else "failed", "no path returns")
    return fn

def lists(S, I, it, c, n, first, pre):
    """one entry per variable, in order: the variable's own name, missing value, scale factor one and data"""
    want = {"NAME": lambda i: name_text("da", first + i), "MISS": lambda i: fl(MISS(first + i)), "SCAL": lambda i: 1,
            "": lambda i: Opq("data", (simp(first + i), MISS(first + i)))}
    for k, f in want.items():
        s = I.seq_of(it[c + k])
        if pre:
            s0, s = I.split_at(s, pre)
            S.holds(I, "%s%s-first" % (c, k), len(s0) == pre)
        S.eq(I, c + k, LV(s), LV(na.gen(n, f)))

for ffi in building.RANK:
    PROOFS.append(("variables/%d" % ffi, variables(ffi)))

# ---------------------------------------------------------------- comments
HP = "header_partitions"
# a comment line: not blank, one line, no section marker
LINE = frozenset({"nonempty", "nonl", "stripped", "notspecial"})
# ... nor the characters that make up the markers and the text an organisation is recorded with
FREE = LINE | {"no:=("}

def line(name, i):
    return mk_text((Atom(name, (as_term(i),), LINE),))

def lines(name, n):
    return na.gen(n, lambda i: line(name, i))

def mark(I, k):
    return I.getitem(env.func(I, CC.rsplit(".", 1)[0] + ".hp"), k)

def starts(I, seq, pre):
    """whether the list starts with that"""
    a, b = I.split_at(seq, I.seq_len(pre))
    return LV(a)

def collector(I, attrs):
    return I.alloc(InstO(env.func(I, CC), attrs))

class Attributed:
    """variables with any number of attributes, all of them text"""
    def __init__(self, I):
        H = I.ext_handlers
        self.N = z3.Function("attributes", z3.IntSort(), z3.IntSort())
        H["isnone:da"] = lambda I, v: False
        H["getattr:da"] = self.attr
        Z, B = z3.IntSort(), z3.BoolSort()
        has, length, text, scalar = (z3.Function("attr_" + n, Z, Z, s) for n, s in (("has_len", B), ("len", Z), ("is_text", B), ("is_scalar", B)))
        H["hasattr:attr_value"] = lambda I, v, n: Sc("bool", has(*v.args)) if n == "__len__" else False
        H["len:attr_value"] = lambda I, v: mk_int(length(*v.args))
        H["getitem:attr_value"] = lambda I, v, i: Opq("attr_value", (v.args[0], simp(-1 - v.args[1])))
        H["isinstance"] = lambda I, v, c: Sc("bool", text(*v.args)) if isinstance(v, Opq) and v.fn == "attr_value" else NotImplemented
        H["extern:numpy"] = lambda I, name, args, kw: Sc("bool", scalar(*args[0].args)) if name.endswith("isscalar") else NotImplemented
        H["str"] = lambda I, v: mk_text((Atom("attr_text", tuple(v.args), LINE),)) if isinstance(v, Opq) and v.fn == "attr_value" else NotImplemented
        H["getitem:attrs"] = self.named
        H["getattr:attrs"] = lambda I, v, n: Opq("attrs." + n, v.args)
        H["call:attrs.items"] = lambda I, f, a, k: I.new_list(na.gen(self.N(f.args[0]), lambda j: (Unit((self.key(f.args[0], j), self.value(f.args[0], j))),)))
        H["call:attrs.keys"] = lambda I, f, a, k: I.new_list(na.gen(self.N(f.args[0]), lambda j: self.key(f.args[0], j)))
    def key(self, v, j):
        return mk_text((Atom("attr_name", (v, j), LINE),))
    def named(self, I, a, k):
        """the value of the attribute of that name"""
        p = k.pieces[0] if isinstance(k, Text) and len(k.pieces) == 1 else None
        if isinstance(p, Atom) and p.fn == "attr_name" and p.args[0].eq(as_term(a.args[0])):
            return self.value(*p.args)
        raise Unsupported("attribute %r" % (k,))
    def value(self, v, j):
        return Opq("attr_value", (v, j))
    def attr(self, I, v, n):
        if n == "name":
            return mk_text((Atom("id", (v.args[0],), LINE),))
        if n == "attrs":
            I.assume(self.N(v.args[0]) >= 0)
            return Opq("attrs", v.args)
        raise Unsupported("variable.%s" % n)

def block(nm, k):
    """k lines of one text"""
    i = fresh_int("i")
    return (Gen(simp(k - 1), i, (Atom(nm, (i,), FREE), "\n")), Atom(nm, (simp(k - 1),), FREE))

def text_lines(name, n):
    return na.gen(n, lambda i: mk_text((Atom(name, (i,), FREE),)))

def comments(hist, nvars=None, nzero=0, several=False):
    def fn(S):
        I = S.interp(building.CONTRACTS)
        at = Attributed(I)
        ns = {k: z3.Int("N_" + k) for k in ("special", "normal", "other", "hist", "vars")}
        for v in ns.values():
            I.assume(v >= 0)
        if nvars:
            # the normal comments do not depend on the variables: their lines are left out here
            I.assume(z3.And(ns["normal"] == 0, ns["other"] == 0))
        S.cover(I, "comments")
        L = I.new_list
        # the texts kept of other attributes may hold several lines each
        other0, other = lines("other", ns["other"]), lines("other", ns["other"])
        if several:
            p = z3.Int("P")
            I.assume(z3.And(p >= 1, ns["special"] == 0, ns["vars"] == 0, ns["other"] == 0))
            other0 = (Unit(mk_text(block("first", p))),) + other0
            other = text_lines("first", p) + other
        def run():
            d = I.alloc(DictO({"NLHEAD": -999}))
            a = {"na_dict": d, "rank_zero_vars": L([Unit(da(100 + i)) for i in range(nzero)]), "ordered_vars": L(na.gen(ns["vars"], da) if nvars is None else [Unit(da(i)) for i in range(nvars)]),
                 "extra_comments": L([Unit(L(lines(k, ns[k]))) for k in ("special", "normal")] + [Unit(L(other0))])}
            if hist:
                a["history"] = L(lines("hist", ns["hist"]))
            inst = collector(I, a)
            I.call(I.getattr_(inst, "_defineNAComments"), [])
            return d
        some = lambda *k: z3.BoolVal(True) if several else z3.Sum(*[ns[x] for x in k]) > 0
        for d in S.returns(I, "comments", run):
            it = I.obj(d).items
            N, C = I.seq_of(it["NCOM"]), I.seq_of(it["SCOM"])
            S.eq(I, "count-normal", it["NNCOML"], mk_int(I.seq_len(N)))
            S.eq(I, "count-special", it["NSCOML"], mk_int(I.seq_len(C)))
            u = lambda k: (Unit(mark(I, k)),)
            ks = ("other", "normal") + (("hist",) if hist else ())
            if I.entails(some(*ks)):
                w = u("nc_start") + other
                w += (u("addl_globals") if I.entails(ns["normal"] > 0) else ()) + lines("normal", ns["normal"])
                w += (lines("hist", ns["hist"]) if hist else ()) + u("nc_end") + u("data_next")
                if several:
                    # continuation lines may be indented: how many there are, and what surrounds them
                    S.eq(I, "how-many", mk_int(I.seq_len(N)), mk_int(I.seq_len(w)))
                    S.eq(I, "first", starts(I, N, w[:1]), LV(w[:1]))
                else:
                    S.eq(I, "normal", LV(N), LV(w))
            else:
                S.holds(I, "no-normal", z3.And(z3.Not(some(*ks)), z3.BoolVal(len(N) == 0)))
            if I.entails(ns["special"] > 0):
                w = u("sc_start") + lines("special", ns["special"])
                S.eq(I, "special", starts(I, C, w), LV(w))
                S.eq(I, "special-end", C[-1].v, mark(I, "sc_end"))
            else:
                S.holds(I, "no-special", ns["special"] == 0)
    return fn
PROOFS.append(("comments/history", comments(True, 0)))
for n in (0, 1):
    PROOFS.append(("comments/plain-%d" % n, comments(False, n)))
PROOFS.append(("comments/several", comments(False, None, 0, True)))
PROOFS.append(("comments/single", comments(False, 1, 1)))

# ---------------------------------------------------------------- comments given by the user
def free(name):
    return mk_text((Atom(name, (), LINE),))

EXISTING = ("plain", "marked", "marked-next", "open", "closed", "only-marks")
def existing(I, key, kind, n):
    """(first line, lines, last line) of the comments there are"""
    c = key[0].lower()
    st, end = mark(I, c + "c_start"), mark(I, "data_next" if kind == "marked-next" else c + "c_end")
    return {"plain": ((), lines("old", n), ()), "marked": ((Unit(st),), lines("old", n), (Unit(end),)), "marked-next": ((Unit(st),), lines("old", n), (Unit(end),)),
            "open": ((Unit(st),), lines("old", n), ()), "closed": ((), lines("old", n), (Unit(end),)), "only-marks": ((Unit(st),), (), (Unit(end),))}[kind]

def wrap(key, kind, rule):
    def fn(S):
        I = S.interp({})
        n, m = z3.Int("N"), z3.Int("M")
        I.assume(z3.And(n >= 1, m >= 1))
        X = env.func(I, XN + ".XarrayToNA")
        S.cover(I, "comments")
        a, mid, b = existing(I, key, kind, n)
        new = lines("new", m)
        def run():
            inst = I.alloc(InstO(X, {}))
            old = I.new_list(a + mid + b)
            return old, I.call(I.getattr_(inst, "_cleanWrapComments"), [old, I.new_list(new), key, rule])
        for old, v in S.returns(I, "wrap", run):
            S.eq(I, "combined", v, LV(a + (new + mid if rule == "insert" else mid + new) + b))
            S.eq(I, "given-kept", old, LV(a + mid + b))
    return fn
for KEY in ("SCOM", "NCOM"):
    for KIND in EXISTING:
        if KIND != "marked-next" or KEY == "NCOM":
            for RULE in ("insert", "extend"):
                PROOFS.append(("wrap/%s-%s-%s" % (KEY, KIND, RULE), wrap(KEY, KIND, RULE)))

# ---------------------------------------------------------------- items given by the user
def obtained(I, e):
    I.fs["<seen>"] = snapshot(I, e["na_dict"])
    return I.alloc(InstO(env.func(I, "nappy.na_file.na_file.NAFile"), {}))

def snapshot(I, d):
    return {k: LV(I.list_seq(v)) if isinstance(v, Ref) and hasattr(I.obj(v), "seq") else v for k, v in I.obj(d).items.items()}

def override(ffi, naux, user, local):
    """the dictionary written is the one built, but for the items given and, for the formats with columns, a line of column headers"""
    def fn(S):
        con = {XN + ".XarrayToNA.constructNAFileNames": stub("names", lambda I, e: I.new_list([Unit(given("NAME"))])),
               "nappy.nappy_api.openNAFile": stub("open", obtained),
               "nappy.na_file.na_file.NAFile.write": stub("write"), "nappy.na_file.na_file.NAFile.close": stub("close"),
               "nappy.utils.parse_config.getLocalAttributesConfigDict": lambda I, f, a, k: I.alloc(DictO({"nc_attributes": I.alloc(DictO({})), "na_attributes": I.alloc(DictO({k: items(I, B, k)[0] for k in local}))}))}
        I = S.interp(con)
        B = na.Dict(I, ffi)
        I.assume(B.NV >= 1)
        if B.hasaux:
            I.assume(B.NAUXV == 0 if not naux else B.NAUXV >= 1)
        n, m = z3.Int("NCOMMENT"), z3.Int("NEW")
        I.assume(z3.And(n >= 0, m >= 1))
        X = env.func(I, XN + ".XarrayToNA")
        S.cover(I, "dictionary")
        old = (Unit(mark(I, "nc_start")),) + lines("old", n) + (Unit(mark(I, "data_next")),)
        def run():
            d = na.make_dict(B, {} if B.hasaux else {"NAUXV": 0})
            it = I.obj(d).items
            it.update(NCOM=I.new_list(old), NNCOML=mk_int(n + 2), SCOM=I.new_list(()), NSCOML=0, DATE=I.new_list([Unit(1), Unit(2), Unit(3)]))
            was = snapshot(I, d)
            o = I.call(X, [I.new_list(())], {"na_items_to_override": I.alloc(DictO({k: items(I, B, k, w)[0] for k, w in user}))})
            none = lambda: I.new_list(())
            I.obj(o).attrs.update(converted=True, na_dict_list=I.new_list([Unit((d, I.new_list([Unit(none()), Unit(none()), Unit(none())])))]))
            I.call(I.getattr_(o, "writeNAFiles"), [given("output")], {})
            return was
        for was in S.returns(I, "write", run):
            now = dict(I.fs["<seen>"])
            want = dict(was)
            told = dict([(k, items(I, B, k)[1]) for k in local] + [(k, items(I, B, k, w)[1]) for k, w in user])
            for k, v in told.items():
                if k == "SCOM":
                    want["SCOM"], want["NSCOML"] = LV(v), mk_int(I.seq_len(v))
                elif k == "NCOM":
                    want["NCOM"] = LV(old[:1] + v + old[1:])
                else:
                    want[k] = v
            if ffi in (1001, 1010, 2110) and not naux:
                # the header line itself is not specified here but for being one more line
                a, b = I.split_at(I.norm(now["NCOM"].seq), simp(I.seq_len(I.norm(now["NCOM"].seq)) - 1))
                now["NCOM"] = LV(a)
                S.holds(I, "header-line", len(b) == 1 and isinstance(b[0], Unit), "column headers %r" % (b,))
                cols = column_names(I, now, ffi)
                S.eq(I, "headers", b[0].v if len(b) == 1 and isinstance(b[0], Unit) else None, cols)
                want["NNCOML"] = mk_int(I.seq_len(want["NCOM"].seq) + 1)
            else:
                want["NNCOML"] = mk_int(I.seq_len(want["NCOM"].seq))
            S.holds(I, "items", set(now) == set(want), "items %s" % (set(now) ^ set(want)))
            for k in want:
                if k in now:
                    item(S, I, "item-" + k, now[k], want[k], was.get(k))
            S.eq(I, "count-special", now["NSCOML"], mk_int(I.seq_len(now["SCOM"].seq)))
    return fn

def item(S, I, name, got, want, was):
    """the item is the one wanted; where the code found that the one there is the same, it may stay"""
    text = lambda v: isinstance(v, (str, Text))
    if text(got) and text(want):
        S.holds(I, name, I.eq(got, want), "%r, not %r" % (got, want))
        return
    if isinstance(was, LV) and isinstance(want, LV) and isinstance(got, LV) and I.eq_val(got, was):
        for f in I.pc:
            pair = getattr(I, "seqeqs", {}).get(str(f))
            if pair and any(I.eq_val(LV(x), want) and I.eq_val(LV(y), was) for x, y in (pair, pair[::-1])):
                S.holds(I, name, True)
                return
    S.eq(I, name, got, want)

def column_names(I, it, ffi):
    s = (() if ffi == 1010 else (I.split_at(I.norm(it["XNAME"].seq), 1)[0])) + I.norm(it["VNAME"].seq)
    return I.call(I.getattr_(",", "join"), [I.new_list(s)])

def items(I, B, k, way="text"):
    """(what the user gives for an item, what the dictionary then holds)"""
    if k in ("DATE", "RDATE"):
        y = [z3.Int("%s%d" % (k, j)) for j in range(3)]
        want = LV([Unit(mk_int(x)) for x in y])
        if way == "text":
            return mk_text(sum(((" " if j else "", Atom("tok", ("%d", x), frozenset({"num", "tok", "nonl"}))) for j, x in enumerate(y)), ())), want
        return I.new_list(want.seq), want
    if k in ("VNAME", "ANAME"):
        want = na.gen(B.NV if k == "VNAME" else B.NAUXV, lambda i: mk_text((Atom("NEW" + k, (i,), LINE),)))
        return I.new_list(want), LV(want)
    if k in ("SCOM", "NCOM"):
        w = lines("NEW" + k, z3.Int("NEW"))
        return I.new_list(w), w
    t = free("NEW" + k)
    return t, t

WAYS = {"none": ((), ()), "texts": ((("MNAME", "text"), ("ONAME", "text"), ("SNAME", "text"), ("ORG", "text")), ("ORG", "SNAME")),
        "dates": ((("DATE", "list"), ("RDATE", "text")), ("DATE",)), "special": ((("SCOM", "list"),), ()), "normal": ((("NCOM", "list"),), ("MNAME",)),
        "both": ((("NCOM", "list"), ("SCOM", "list")), ()), "names": ((("VNAME", "list"),), ())}
for ffi in na.FFIS:
    for naux in (False, True):
        if not naux and ffi not in (2110, 2160, 2310) or naux and ffi != 1001:
            for w in ("both", "names", "texts") if ffi in (1001, 1010, 2110) else ("both",):
                PROOFS.append(("items/%d-%s-%s" % (ffi, "aux" if naux else "noaux", w), override(ffi, naux, *WAYS[w])))
for w in ("none", "dates", "special", "normal"):
    PROOFS.append(("items/1001-noaux-%s" % w, override(1001, False, *WAYS[w])))

# ---------------------------------------------------------------- global attributes
def globals_(case):
    def fn(S):
        I = S.interp(building.CONTRACTS)
        n, m = z3.Int("N"), z3.Int("M")
        I.assume(z3.And(n >= 1, m >= 1))
        T = lambda nm: mk_text((Atom(nm, (), FREE),))
        mk = lambda k: mark(I, k)
        ncom, scom, want, g = (), (), {}, {}
        if case == "items":
            g = {"source": T("src"), "title": T("ttl"), "file_number_in_set": 4, "file_format_index": 2010, "no_of_nasa_ames_header_lines": 33,
                 "institution": T("inst"), "other": T("oth"), "references": T("ref"), "count": 7}
            want = {"SNAME": T("src"), "MNAME": T("ttl"), "FFI": 1001, "NLHEAD": -999, "ONAME": T("inst"), "ORG": T("inst")}
            ncom = tuple(Unit(mk_text(("%s:   " % k,) + v.pieces)) for k, v in (("other", T("oth")), ("references", T("ref")))) + (Unit("count:   7"),)
        elif case == "comment":
            g = {"comment": mk_text(block("line", n))}
            ncom = (Unit(mk("addl_globals")),) + text_lines("line", n)
        elif case == "comment-na":
            t = lambda *p: mk_text(sum(((x,) if isinstance(x, str) else tuple(x) for x in p), ()))
            g = {"comment": t(mk("sc_start"), "\n", block("spec", m), "\n", mk("sc_end"), "\n", mk("nc_start"), "\n", block("line", n), "\n", mk("nc_end"))}
            ncom = (Unit(mk("addl_globals")),) + text_lines("line", n)
            scom = text_lines("spec", m)
        elif case == "comment-mixed":
            # lines before, between and after what was quoted from a NASA Ames file
            t = lambda *p: mk_text(sum(((x,) if isinstance(x, str) else tuple(x) for x in p), ()))
            q = z3.Int("Q")
            I.assume(q >= 1)
            g = {"comment": t(block("before", q), "\n", mk("nc_start"), "\n", block("line", n), "\n", mk("nc_end"), "\n", block("after", m), "\n", mk("sc_start"), "\n", block("spec", q), "\n", mk("sc_end"), "\n", block("last", q))}
            ncom = (Unit(mk("addl_globals")),) + text_lines("before", q) + text_lines("line", n) + text_lines("after", m) + text_lines("last", q)
            scom = text_lines("spec", q)
        elif case == "institution-na":
            g = {"institution": mk_text((Atom("a", (), FREE), " (ONAME from NASA Ames file); ", Atom("b", (), FREE), " (ORG from NASA Ames file)."))}
            want = {"ONAME": T("a"), "ORG": T("b")}
        elif case == "date":
            d = [Unit(mk_int(z3.Int("y%d" % j))) for j in range(3)]
            g = {"first_valid_date_of_data": I.new_list(d)}
            want = {"DATE": LV(d)}
        S.cover(I, "attributes")
        L = I.new_list
        def run():
            d = I.alloc(DictO({"FFI": 1001, "NLHEAD": -999}))
            inst = collector(I, {"na_dict": d, "globals": I.alloc(DictO(dict(g))), "rank_zero_vars": L(()), "ordered_vars": L(())})
            I.call(I.getattr_(inst, "_defineNAGlobals"), [])
            I.call(I.getattr_(inst, "_defineNAComments"), [])
            return d
        for d in S.returns(I, "globals", run):
            it = I.obj(d).items
            for k, v in want.items():
                S.holds(I, "given-" + k, k in it, "no " + k)
                if k in it:
                    S.eq(I, "item-" + k, it[k], v)
            S.eq(I, "format", it["FFI"], 1001)
            N, C = I.seq_of(it["NCOM"]), I.seq_of(it["SCOM"])
            S.eq(I, "normal", LV(N), LV((Unit(mk("nc_start")),) + ncom + (Unit(mk("nc_end")), Unit(mk("data_next"))) if ncom else ()))
            S.eq(I, "special", LV(C), LV((Unit(mk("sc_start")),) + scom + (Unit(mk("sc_end")),) if scom else ()))
            S.eq(I, "count-normal", it["NNCOML"], mk_int(I.seq_len(N)))
            S.eq(I, "count-special", it["NSCOML"], mk_int(I.seq_len(C)))
    return fn
for c in ("items", "comment", "comment-na", "comment-mixed", "institution-na", "date"):
    PROOFS.append(("globals/" + c, globals_(c)))

# ---------------------------------------------------------------- all of it together
def collect(ffi, dated):
    def fn(S):
        K, n = z3.Int("NAUX"), z3.Int("NLINES")
        def analysed(I, e):
            I.obj(I.getattr_(e["self"], "na_dict")).items.update(FFI=ffi, NIV=D.rank)
            I.obj(e["self"]).attrs["unused_vars"] = I.new_list(())
            return (I.new_list((Unit(da(0)),) + na.gen(D.NV - 1, lambda i: da(i + 1))), I.new_list(na.gen(K, lambda i: da(D.NV + i))))
        D = Defined(S, ffi, {CC + "._analyseVariables": stub("analyse", analysed), building.XU + ".is_time": lambda I, f, a, k: False})
        I = D.I
        I.assume(z3.And(K >= 0, n >= 1, D.NV == 1))
        if ffi == 1001:
            I.assume(K == 0)
        H = I.ext_handlers
        rest = H["getattr:da"]
        H["getattr:da"] = lambda I, v, k: mk_text((Atom("id", (v.args[0],), LINE),)) if k == "name" else I.alloc(DictO({})) if k == "attrs" else rest(I, v, k)
        H["extern:time"] = lambda I, name, args, kw: "2001 02 03" if name.endswith("strftime") else Opq("now", ())
        i = fresh_int("i")
        text = mk_text((Gen(simp(n - 1), i, (Atom("line", (i,), FREE), "\n")), Atom("line", (simp(n - 1),), FREE)))
        date = [Unit(mk_int(z3.Int("y%d" % j))) for j in range(3)]
        g = {"comment": text, "title": mk_text((Atom("ttl", (), FREE),)), "file_format_index": 4010}
        S.cover(I, "variables")
        def run():
            gg = dict(g)
            if dated:
                gg["first_valid_date_of_data"] = I.new_list(date)
            c = I.call(env.func(I, CC), [I.new_list(na.gen(D.NV + K, lambda i: da(i))), I.alloc(DictO(gg))])
            I.call(I.getattr_(c, "collectNAContent"), [])
            return c
        for c in S.returns(I, "collect", run):
            it = I.obj(I.getattr_(c, "na_dict")).items
            S.holds(I, "found", I.getattr_(c, "found_na") is True)
            S.eq(I, "count", it["NV"], mk_int(D.NV))
            lists(S, I, it, "V", D.NV, z3.IntVal(0), ())
            S.eq(I, "count-auxiliary", it["NAUXV"], mk_int(K))
            lists(S, I, it, "A", K, D.NV, 0)
            N = I.seq_of(it["NCOM"])
            S.eq(I, "normal", LV(N), LV((Unit(mark(I, "nc_start")), Unit(mark(I, "addl_globals"))) + text_lines("line", n) + (Unit(mark(I, "nc_end")), Unit(mark(I, "data_next")))))
            S.eq(I, "count-normal", it["NNCOML"], mk_int(I.seq_len(N)))
            S.eq(I, "count-special", it["NSCOML"], mk_int(I.seq_len(I.seq_of(it["SCOM"]))))
            S.eq(I, "format", it["FFI"], ffi)
            S.eq(I, "title", it["MNAME"], g["title"])
            if dated:
                S.eq(I, "date", it["DATE"], LV(date))
    return fn
for ffi in (1001, 1010, 2010):
    PROOFS.append(("collect/%d" % ffi, collect(ffi, False)))
PROOFS.append(("collect/1001-dated", collect(1001, True)))
