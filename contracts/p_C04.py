"""C04: reading a count of items consumes exactly the lines that hold them.

The text is any sequence of lines; line j holds w(j) >= 0 items.  S(j) is the number of items before line j, so
FLAT(S(j)+i) is item i of line j.  For a count n >= 0 exactly one of these holds, and each is a case below:
n = 0; or n = S(K) for the first K lines with a non-empty line K-1 (exact); or S(K-1) < n < S(K) (surplus); or n > S(N), N lines in all."""
import z3
from pyvc.core import *
from pyvc import env, lib
from pyvc.interp import FileO, Builtin, InstO
from . import na

Z = z3.IntSort()
S_ = z3.Function("ITEMS_BEFORE", Z, Z)
UNKNOWN = "nappy.utils.text_parser.readItemsFromUnknownLines"
NUMTOK = frozenset({"tok", "num", "nobrace", "noquote", "nonl", "stripped", "nonempty", "noctl", "nopct", "endok"})
INTTOK = NUMTOK
STRTOK = frozenset({"tok", "noquote", "nobraces", "nobrace", "nonl", "stripped", "nonempty"})

def schema(I, strict):
    def two(t, u):
        a, b = t.arg(0), u.arg(0)
        if strict:               # every line holds at least one item
            return z3.And(z3.Implies(a <= b, u - t >= b - a), z3.Implies(b <= a, t - u >= a - b))
        return z3.And(z3.Implies(a <= b, t <= u), z3.Implies(b <= a, u <= t))
    I.pair_schema(S_, lambda t: z3.Implies(t.arg(0) >= 0, t >= 0), two)

def item(ty, k):
    if ty == "int":
        return Atom("tok", ("%d", z3.Function("ITEM", Z, Z)(k)), NUMTOK)
    if ty == "float":
        return Atom("tok", ("ITEM", z3.Function("NUMBER", Z, z3.RealSort())(k)), NUMTOK)
    return Atom("TOK", (k,), STRTOK)

class Lines:
    """symbolic lines: layout of blanks around the items"""
    def __init__(self, I, ty, layout, annotated):
        self.I, self.ty, self.layout, self.annotated = I, ty, layout, annotated
    def tok(self, k):
        return (item(self.ty, k),)
    def width(self, j):
        return nint(S_(as_term(j) + 1) - S_(as_term(j)))
    def line(self, j, minw=0):
        j = as_term(j)
        i = fresh_int("i")
        w = self.width(j)
        at = S_(j)
        ann = (Atom("ANN", (j,), {"nobraces", "nonl"}),)
        tail = ("{",) + ann + ("}\n",) if self.annotated else ("\n",)
        ws = lambda *a: Atom("WS", a, {"ws1", "nonl"})
        if self.layout == "after":          # blanks after every item
            p = (Atom("LEAD", (j,), {"ws1" if self.annotated else "ws", "nonl"}), Gen(w, i, self.tok(at + i) + (ws(j, i),))) + tail
        else:                                # blanks before every item but the first, none after the last
            p = self.tok(at) + (Gen(nint(as_term(w) - 1), i, (ws(j, i),) + self.tok(at + 1 + i)),) + tail
        return mk_text(p)
    def lines(self, lo, n):
        j = fresh_int("j")
        return (Gen(n, j, (Unit(self.line(as_term(lo) + j)),)),)
    def items(self, n):
        i = fresh_int("i")
        b = self.tok(i)
        return (Gen(n, i, (Unit(mk_text(b)),)),)
    def value(self, n):
        i = fresh_int("i")
        k = self.ty
        if k == "str":
            v = mk_text(self.tok(i))
        elif k == "float":
            v = mk_float(lib.rd_fun("ITEM")(z3.Function("NUMBER", Z, z3.RealSort())(i)))
        else:
            v = mk_int(z3.Function("ITEM", Z, Z)(i))
        return LV((Gen(n, i, (Unit(v),)),))

def setup(S, ty, layout, annotated):
    I = S.interp({})
    schema(I, layout == "before")
    I.partial_loops = True
    L = Lines(I, ty, layout, annotated)
    K, N, n = z3.Int("K"), z3.Int("N"), z3.Int("n")
    I.assume(K >= 1)
    I.assume(N >= K)
    I.assume(S_(0) == 0)
    I.ghost_ints = [K]
    return I, L, K, N, n

def source(I, how, seq):
    if how == "list":
        return I.new_list(seq)
    return I.alloc(FileO("r", "text", (), seq))

def exact(ty, how, layout, annotated):
    def fn(S):
        I, L, K, N, n = setup(S, ty, layout, annotated)
        I.assume(n == S_(K))
        I.assume(S_(K - 1) + 1 <= S_(K))
        S.cover(I, "lines")
        seq = L.lines(z3.IntVal(0), K) + L.lines(K, N - K)
        def run():
            src = source(I, how, seq)
            r = I.call(env.func(I, UNKNOWN), [src, mk_int(n), Builtin(ty)])
            if how == "list":
                items, rest = I.unpack(r, 2)
                return items, rest, src
            return r, LV(I.obj(src).rest), src
        for items, rest, src in S.returns(I, "read", run):
            S.eq(I, "items", items, L.value(S_(K)))
            S.eq(I, "following-lines", rest, LV(L.lines(K, N - K)))
            if how == "list":
                S.eq(I, "argument-unchanged", src, LV(seq))
    return fn

def surplus(ty, how, layout, annotated):
    def fn(S):
        I, L, K, N, n = setup(S, ty, layout, annotated)
        I.assume(S_(K - 1) + 1 <= n)
        I.assume(n + 1 <= S_(K))
        S.cover(I, "lines")
        seq = L.lines(z3.IntVal(0), K) + L.lines(K, N - K)
        S.raises(I, "read", lambda: I.call(env.func(I, UNKNOWN), [source(I, how, seq), mk_int(n), Builtin(ty)]))
    return fn

def ends(ty, how, layout, annotated):
    def fn(S):
        I, L, K, N, n = setup(S, ty, layout, annotated)
        I.assume(n >= S_(K) + 1)
        S.cover(I, "lines")
        seq = L.lines(z3.IntVal(0), K)
        S.raises(I, "read", lambda: I.call(env.func(I, UNKNOWN), [source(I, how, seq), mk_int(n), Builtin(ty)]))
    return fn

def zero(ty, how):
    def fn(S):
        I, L, K, N, n = setup(S, ty, "after", False)
        S.cover(I, "lines")
        seq = L.lines(z3.IntVal(0), K)
        def run():
            src = source(I, how, seq)
            r = I.call(env.func(I, UNKNOWN), [src, 0, Builtin(ty)])
            return I.unpack(r, 2) if how == "list" else (r, LV(I.obj(src).rest))
        for items, rest in S.returns(I, "read", run):
            S.eq(I, "items", items, LV(()))
            S.eq(I, "following-lines", rest, LV(seq))
    return fn

def empty_text(ty, how):
    def fn(S):
        I = S.interp({})
        n = z3.Int("n")
        I.assume(n >= 1)
        S.raises(I, "read", lambda: I.call(env.func(I, UNKNOWN), [source(I, how, ()), mk_int(n), Builtin(ty)]))
    return fn

# ---------------------------------------------------------------- one line, and one item per line
TP = "nappy.utils.text_parser."
def tail(I, ann):
    return ("{", Atom("ANN", (), {"nobraces", "nonl"}), "}", Atom("END", (), {"ws"})) if ann else (Atom("END", (), {"ws"}),)

def line_of(I, ty, k, ann):
    """k items with blanks in front, between and behind"""
    i = fresh_int("i")
    ws = lambda *a: Atom("WS", a, {"ws1", "nonl"})
    it = lambda t: item(ty, t)
    return mk_text((Atom("LEAD", (), {"ws", "nonl"}), it(z3.IntVal(0)), Gen(nint(as_term(k) - 1), i, (ws(i), it(i + 1)))) + ((ws(z3.IntVal(-1)),) if ann else ()) + tail(I, ann))

def values(ty, n):
    i = fresh_int("i")
    v = mk_text((item(ty, i),)) if ty == "str" else mk_int(z3.Function("ITEM", Z, Z)(i)) if ty == "int" else \
        mk_float(lib.rd_fun("ITEM")(z3.Function("NUMBER", Z, z3.RealSort())(i)))
    return LV((Gen(n, i, (Unit(v),)),))

def one_line(ty, ann, kind):
    """a line of w >= 1 items, n asked for"""
    def fn(S):
        I = S.interp({})
        w, n = z3.Int("w"), z3.Int("n")
        I.assume(w >= 1)
        I.assume(n >= 1)
        I.assume({"exact": n == w, "surplus": n < w, "short": n > w}[kind])
        S.cover(I, "line")
        run = lambda: I.call(env.func(I, TP + "readItemsFromLine"), [line_of(I, ty, w, ann), mk_int(n), Builtin(ty)])
        if kind == "exact":
            for v in S.returns(I, "read", run):
                S.eq(I, "items", v, values(ty, n))
        else:
            S.raises(I, "read", run)
    return fn

def lines_items(ty, ann, kind):
    """one item per line"""
    def fn(S):
        I = S.interp({})
        w, n = z3.Int("w"), z3.Int("n")
        I.assume(w >= 0)
        I.assume(n >= 0)
        I.assume({"exact": n == w, "surplus": n < w, "short": n > w}[kind])
        S.cover(I, "lines")
        j = fresh_int("j")
        tl = ("{", Atom("ANN", (j,), {"nobraces", "nonl"}), "}\n") if ann else ("\n",)
        line = lambda j: mk_text((Atom("LEAD", (j,), {"ws", "nonl"}), item(ty, j), Atom("WS", (j,), {"ws", "nonl"})) + tl)
        seq = (Gen(w, j, (Unit(line(j)),)),)
        run = lambda: I.call(env.func(I, TP + "readItemsFromLines"), [I.new_list(seq), mk_int(n), Builtin(ty)])
        if kind == "exact":
            for v in S.returns(I, "read", run):
                S.eq(I, "items", v, values(ty, n))
        else:
            S.raises(I, "read", run)
    return fn

def one_item(ty, ann):
    def fn(S):
        I = S.interp({})
        line = mk_text((Atom("LEAD", (), {"ws", "nonl"}), item(ty, z3.IntVal(0)), Atom("WS", (), {"ws", "nonl"})) + tail(I, ann))
        for v in S.returns(I, "read", lambda: I.call(env.func(I, TP + "readItemFromLine"), [line, Builtin(ty)])):
            S.eq(I, "item", v, I.index(values(ty, 1).seq, 0))
    return fn

def phrase(ann):
    """a text item is the whole line without the blanks around it"""
    def fn(S):
        I = S.interp({})
        t = Atom("PHRASE", (), {"stripped", "nonempty", "nonl", "nobraces", "noquote"})
        line = mk_text((Atom("LEAD", (), {"ws", "nonl"}), t, Atom("WS", (), {"ws", "nonl"})) + tail(I, ann))
        for v in S.returns(I, "read", lambda: I.call(env.func(I, TP + "readItemFromLine"), [line, Builtin("str")])):
            S.eq(I, "item", v, mk_text((t,)))
        for v in S.returns(I, "read-lines", lambda: I.call(env.func(I, TP + "readItemsFromLines"), [I.new_list((Unit(line), Unit(line))), 2, Builtin("str")])):
            S.eq(I, "items", v, LV((Unit(mk_text((t,))), Unit(mk_text((t,))))))
    return fn

def header_lines(kind):
    """_readLines of NAFile: n lines of a header, or an error at the end of the file"""
    def fn(S):
        I = S.interp({})
        w, n = z3.Int("w"), z3.Int("n")
        I.assume(w >= 0)
        I.assume(n >= 0)
        I.assume(n <= w if kind == "enough" else n > w)
        j = fresh_int("j")
        t = lambda j: Atom("PHRASE", (j,), {"stripped", "nonl", "nonempty"})
        seq = (Gen(w, j, (Unit(mk_text((Atom("LEAD", (j,), {"ws", "nonl"}), t(j), Atom("WS", (j,), {"ws", "nonl"}), "\n"))),)),)
        holder = []
        def run():
            f = I.alloc(FileO("r", "text", (), seq))
            cls = env.func(I, "nappy.na_file.na_file.NAFile")
            o = I.alloc(InstO(cls, {"file": f}))
            r = I.call(I.getattr_(o, "_readLines"), [mk_int(n)])
            return r, LV(I.obj(f).rest)
        if kind == "enough":
            for r, rest in S.returns(I, "read", run):
                i = fresh_int("i")
                S.eq(I, "lines", r, LV((Gen(n, i, (Unit(mk_text((t(i),))),)),)))
                S.eq(I, "following-lines", rest, LV((gen_shift(seq[0], n, nint(w - n)),)))
        else:
            S.raises(I, "read", run)
    return fn

PROOFS = []
for ty in ("float", "int", "str"):
    for how in ("list", "file"):
        for layout in ("after", "before"):
            for ann in (False, True):
                tag = "%s/%s/%s%s" % (ty, how, layout, "-annotated" if ann else "")
                PROOFS += [("unknown-lines/%s/exact" % tag, exact(ty, how, layout, ann)), ("unknown-lines/%s/surplus" % tag, surplus(ty, how, layout, ann)),
                           ("unknown-lines/%s/ends" % tag, ends(ty, how, layout, ann))]
        PROOFS.append(("unknown-lines/%s/%s/zero" % (ty, how), zero(ty, how)))
        PROOFS.append(("unknown-lines/%s/%s/empty" % (ty, how), empty_text(ty, how)))
    for ann in (False, True):
        a = "-annotated" if ann else ""
        for kind in ("exact", "surplus", "short"):
            PROOFS += [("line/%s%s/%s" % (ty, a, kind), one_line(ty, ann, kind)), ("lines/%s%s/%s" % (ty, a, kind), lines_items(ty, ann, kind))]
        PROOFS.append(("item/%s%s" % (ty, a), one_item(ty, ann)))
PROOFS += [("phrase", phrase(False)), ("phrase-annotated", phrase(True)), ("header-lines/enough", header_lines("enough")), ("header-lines/short", header_lines("short"))]
