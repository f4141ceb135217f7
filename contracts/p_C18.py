"""C18: the comparison tool reports sameness exactly when contents agree."""
import z3
from pyvc.core import *
from pyvc import env
from pyvc.env import regex_getattr
from pyvc.interp import DictO, InstO, Opq, PyRaise
from . import record
from .record import calls, stub, given

MOD = "nappy.utils.compare_na"
Z, R, BO = z3.IntSort(), z3.RealSort(), z3.BoolSort()
F = lambda n, *s: z3.Function(n, *s)
# A line is known by a number: equal numbers, equal texts.  What the string operations make of it is unknown but the same each time.
LINE = {1: F("line1", Z, Z), 2: F("line2", Z, Z)}
STRIP = F("strip", Z, Z)
NITEMS = F("items_in", Z, Z, Z)            # delimiter, text
ITEM = F("item", Z, Z, Z, Z)               # delimiter, text, position
LETTER = F("has_letter", Z, BO)
ISNUM = F("is_number", Z, BO)
NUM = F("number", Z, R)
INT = F("integer", Z, Z)
SPACE = z3.IntVal(0)                       # splitting at runs of white space

class Lines:
    """handlers that give such lines the methods of strings"""
    def __init__(self, I, delims):
        self.I, self.delims = I, delims
        H = I.ext_handlers
        H["getattr:line"] = lambda I, v, n: Opq("line." + n, v.args)
        H["call:line.strip"] = lambda I, f, a, k: Opq("line", (STRIP(f.args[0]),)) if not a and not k else self.no("strip", a)
        H["call:line.split"] = lambda I, f, a, k: self.items(self.delim((list(a) + list(k.values()) + [None])[0]), f.args[0])
        H["len:items"] = lambda I, v: mk_int(NITEMS(*v.args))
        H["getitem:items"] = self.item
        H["truth:items"] = lambda I, v: I.truth(mk_bool(NITEMS(*v.args) > 0))
        H["iter:items"] = lambda I, v: self.each(v)
        H["float"] = self.number
        H["eq"] = self.eq
        H["getattr:regex"] = lambda I, v, n: Opq("letter." + n, ()) if n in ("search", "findall") else regex_getattr(I, v, n)
        H["call:letter.search"] = self.search
        H["type:line"] = H["type:items"] = lambda I, v: str if v.fn == "line" else list
        H["int"] = lambda I, v: mk_int(INT(v.args[0])) if v.fn == "line" else self.no("int", v)
        H["str"] = lambda I, v: Text((Atom("line", (v.args[0],), frozenset({"nonl"})),)) if v.fn == "line" else self.no("str", v)
    def no(self, *what):
        raise Unsupported("line: %r" % (what,))
    def delim(self, d):
        if d is None:
            return SPACE
        for k, v in self.delims:
            if v is d or v == d:
                return k
        self.no("split", d)
    def items(self, d, t):
        self.I.assume(NITEMS(d, t) >= 0)
        return Opq("items", (d, t))
    def each(self, v):
        i = fresh_int("i")
        return (Gen(NITEMS(*v.args), i, (Unit(Opq("line", (ITEM(v.args[0], v.args[1], i),))),)),)
    def item(self, I, v, i):
        n = NITEMS(*v.args)
        k = as_term(i)
        if not I.entails(z3.And(k >= 0, k < n)):
            if I.decide(z3.Or(k >= n, k < -n)):
                raise PyRaise("IndexError", "item")
            if not I.entails(k >= 0):
                k = z3.If(k < 0, k + n, k)
        return Opq("line", (ITEM(v.args[0], v.args[1], simp(k)),))
    def number(self, I, v):
        if v.fn != "line":
            self.no("float", v)
        if not I.decide(ISNUM(v.args[0])):
            raise PyRaise("ValueError", "float()")
        return Sc("float", NUM(v.args[0]))
    def search(self, I, f, a, k):
        if I.decide(LETTER(a[0].args[0])):
            return Opq("match", ("a letter",))
        return None
    def eq(self, I, a, b):
        if isinstance(a, Opq) and isinstance(b, Opq) and a.fn == b.fn == "line":
            return mk_bool(a.args[0] == b.args[0])
        if isinstance(a, Opq) and isinstance(b, Opq) and a.fn == b.fn == "items":
            return mk_bool(same_items(a.args, b.args))
        return NotImplemented

def same_items(a, b):
    if a[0].eq(b[0]) and a[1].eq(b[1]):
        return z3.BoolVal(True)
    c = fresh_int("c")
    return z3.And(NITEMS(*a) == NITEMS(*b), z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < NITEMS(*a)), ITEM(*a, c) == ITEM(*b, c))))

DIV = F("quotient", R, R, R)
TOL = real_term(0.01)
def close(x, y):
    """within one per cent of each other; nought counts as 1e-9"""
    x1, y1 = (z3.If(t == 0, real_term(0.000000001), t) for t in (x, y))
    q = z3.If(DIV(x1, y1) < 1, DIV(y1, x1), DIV(x1, y1))
    return z3.Or(x == y, z3.If(1 - q >= 0, 1 - q <= TOL, q - 1 <= TOL))

def line_same(s, t, d1, d2, clever, approx):
    """the lines s and t (stripped) hold equal items"""
    a, b = (d1, s), (d2, t)
    c = fresh_int("c")
    x, y = ITEM(*a, c), ITEM(*b, c)
    num = z3.And(ISNUM(x), ISNUM(y))
    item = z3.If(num, close(NUM(x), NUM(y)) if approx else NUM(x) == NUM(y), x == y) if clever else x == y
    one = lambda a, b: z3.And(NITEMS(*a) == 1, same_items((SPACE, ITEM(*a, 0)), b))
    return z3.Or(z3.And(LETTER(s), s == t),
                 z3.And(NITEMS(*a) == NITEMS(*b), z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < NITEMS(*a)), item))),
                 z3.And(NITEMS(*a) != NITEMS(*b), z3.Or(one(a, b), one(b, a))))

def lines(I, n, which):
    i = fresh_int("i")
    return I.new_list((Gen(n, i, (Unit(Opq("line", (LINE[which](i),))),)),))

def sections(clever, approx, delims):
    def fn(S):
        I = S.interp({})
        D1, D2 = z3.IntVal(1), z3.IntVal(2)
        ds = []
        known = []
        for k, (code, nm) in enumerate(((D1, "delimiter_1"), (D2, "delimiter_2"))):
            if delims[k]:
                v = given(nm)
                known.append((code, v))
                ds.append((code, v))
            else:
                ds.append((SPACE, None))
        Lines(I, known)
        I.div_fun = DIV
        n1, n2 = z3.Int("N1"), z3.Int("N2")
        I.assume(n1 >= 0)
        I.assume(n2 >= 0)
        S.cover(I, "sections")
        kw = {"number_clever": clever, "approx_equal": approx}
        for k in (0, 1):
            if delims[k]:
                kw["delimiter_%d" % (k + 1)] = ds[k][1]
        d1, d2 = ds[0][0], ds[1][0]
        def run():
            return I.call(env.func(I, MOD + ".compareSections"), [lines(I, n1, 1), lines(I, n2, 2)], dict(kw))
        i = fresh_int("i")
        n = z3.If(n1 < n2, n1, n2)
        spec = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), line_same(STRIP(LINE[1](i)), STRIP(LINE[2](i)), d1, d2, clever, approx)))
        for v in S.returns(I, "compare", run):
            t = I.truth(v)
            S.holds(I, "same-only-if-equal" if t else "different-only-if-unequal", spec if t else z3.Not(spec))
    return fn

PROOFS = []
for DL in ((0, 0), (1, 0), (1, 1)):
    for C, A in ((True, False), (True, True), (False, False), (False, True)):
        PROOFS.append(("section/%s-%s-%s" % ("value" if C else "strict", "approx" if A else "exact", "%d%d" % DL), sections(C, A, DL)))

# ------------------------------------------------------------------ files
OPTIONS = (("number_clever", False), ("approx_equal", True), ("delimiter_1", "given"), ("delimiter_2", "given"))

def files(entry, opts, header, body):
    """the verdict on two files from the verdicts on their sections"""
    def fn(S):
        H, B = z3.Bool("headers_same"), z3.Bool("bodies_same")
        N = {1: z3.Int("N1"), 2: z3.Int("N2")}
        kw, known = {}, []
        for k, v in OPTIONS:
            if k in opts:
                kw[k] = given(k) if v == "given" else v
                if v == "given":
                    known.append((z3.IntVal(int(k[-1])), kw[k]))
        def verdict(I, e):
            k = len(calls(I, "sections"))
            return mk_bool(H if header and k == 1 else B)
        I = S.interp({MOD + ".compareSections": stub("sections", verdict)})
        L = Lines(I, known)
        I.ext_handlers["call:os.path.isfile"] = lambda I, a, k: a[0] in I.fs
        W = env.func(I, MOD + ".compareSections")
        HL = {}
        for k in (1, 2):
            d = z3.IntVal(k) if "delimiter_%d" % k in opts else SPACE
            first = (d, LINE[k](0))
            HL[k] = INT(ITEM(*first, 0))
            I.assume(N[k] >= 1)
            I.assume(NITEMS(*first) >= 1)
            I.assume(z3.And(HL[k] >= 1, HL[k] <= N[k]))
        S.cover(I, "files")
        def run():
            for k in (1, 2):
                i = fresh_int("i")
                I.fs["dir/f%d.na" % k] = LV((Gen(N[k], i, (Unit(Opq("line", (LINE[k](i),))),)),))
            a = dict(kw)
            if not header:
                a["header"] = False
            if not body:
                a["body"] = False
            return I.call(env.func(I, MOD + "." + entry), ["dir/f1.na", "dir/f2.na"], a)
        dflt = I.bind(W, [None, None], {})
        same = z3.And(z3.And(H, HL[1] == HL[2]) if header else z3.BoolVal(True),
                      z3.And(B, N[1] - HL[1] == N[2] - HL[2]) if body else z3.BoolVal(True))
        part = lambda k, lo, n: LV((Gen(n, i, (Unit(Opq("line", (LINE[k](simp(i + lo)),))),)),))
        i = fresh_int("i")
        for v in S.returns(I, "compare", run):
            t = I.truth(v)
            S.holds(I, "same-only-if-equal" if t else "different-only-if-unequal", same if t else z3.Not(same))
            c = calls(I, "sections")
            want = (["header"] if header else []) + (["body"] if body else [])
            S.holds(I, "sections-compared", len(c) == len(want), "%d comparisons" % len(c))
            for w, e in zip(want, c):
                for k, nm in ((1, "l1"), (2, "l2")):
                    S.eq(I, "%s-lines%d" % (w, k), LV(I.list_seq(e[nm])), part(k, 0, HL[k]) if w == "header" else part(k, HL[k], simp(N[k] - HL[k])))
                for o, d in OPTIONS:
                    S.eq(I, "%s-%s" % (w, o), e[o], kw.get(o, dflt[o]))
    return fn

SETS = [()] + [(o,) for o, _ in OPTIONS] + [tuple(o for o, _ in OPTIONS)]
for E in ("compNAFiles", "compareNA"):
    for HB in ((True, True), (True, False), (False, True)):
        for O in SETS:
            PROOFS.append(("file/%s-%s-%s" % (E, "+".join(n for n, x in zip(("header", "body"), HB) if x), "+".join(O) or "none"), files(E, O, *HB)))

# ------------------------------------------------------------------ the command
SWITCH = {"-h": ("body", False), "-b": ("header", False), "-n": ("number_clever", False), "-a": ("approx_equal", True),
          "--header-only": ("body", False), "--body-only": ("header", False), "--number-strict": ("number_clever", False), "--approx-equal": ("approx_equal", True),
          "-1": ("delimiter_1", "value"), "-2": ("delimiter_2", "value"), "--delimiter-1": ("delimiter_1", "value"), "--delimiter-2": ("delimiter_2", "value")}

def command(argv, want):
    def fn(S):
        I = S.interp({MOD + ".compareNA": stub("compare", lambda I, e: None)})
        S.cover(I, "arguments")
        def run():
            a, b = mk_text(("dir/",) + text_of(given("file1"))), mk_text(("dir/",) + text_of(given("file2")))
            I.call(env.func(I, MOD + ".main"), [I.new_list([Unit(given(x[1:]) if x.startswith("=") else x) for x in argv] + [Unit(a), Unit(b)])])
            return a, b
        for a, b in S.returns(I, "main", run):
            c = calls(I, "compare")
            S.holds(I, "compared-once", len(c) == 1, "%d comparisons" % len(c))
            for e in c:
                S.eq(I, "first", e["i1"], a)
                S.eq(I, "second", e["i2"], b)
                k = e["kwargs"]
                k = I.obj(k).items if isinstance(k, Ref) else k
                full = {"header": True, "body": True, "number_clever": True, "approx_equal": False, "delimiter_1": None, "delimiter_2": None}
                full.update(want)
                for o in full:
                    S.eq(I, o, k.get(o, DEFAULT.get(o)), full[o])
    return fn

DEFAULT = {"header": True, "body": True, "number_clever": True, "approx_equal": False, "delimiter_1": None, "delimiter_2": None}
def args_of(*sw):
    argv, want = [], {}
    for s in sw:
        k, v = SWITCH[s]
        argv.append(s)
        if v == "value":
            argv.append("=" + k)
            v = given(k)
        want[k] = v
    return argv, want
for SW in [()] + [(s,) for s in SWITCH] + [("-h", "-n"), ("-b", "-a"), ("-n", "-a"), ("-b", "-n", "-a", "-1", "-2"), ("--header-only", "--number-strict", "--approx-equal", "--delimiter-2", "--delimiter-1"), ("-2", "-1")]:
    PROOFS.append(("command/%s" % ("+".join(SW) or "none"), command(*args_of(*SW))))
