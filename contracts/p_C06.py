"""C06: a trailing {annotation} never changes what is read; nothing else is removed.

Case analysis of a line L (after its line end): its last non-blank character is not '}'; or it is, and the brace before it is
absent, '}' or '{'.  Only in the last case is anything, the text from that '{' on, removed."""
import z3
from pyvc.core import *
from pyvc import env, lib
from pyvc.interp import FileO, Builtin, InstO
from . import na, roundtrip, p_C02, p_C04, p_C05
from .roundtrip import Setup

STRIP = "nappy.utils.right_strip.rightStripCurlyBraces"
TP = "nappy.utils.text_parser."
FREE = {"nonl"}                        # any characters but line ends
ANN = lambda: Atom("ANN", (), {"nobraces"})
WS = lambda n="WS": Atom(n, (), {"ws"})

def strip_case(kind):
    """-> (line, expected)"""
    text = Atom("TEXT", (), FREE)
    if kind == "annotated":
        return (text, "{", ANN(), "}", WS()), (text,)
    if kind == "annotated-empty":
        return (text, "{}", WS()), (text,)
    if kind == "two-groups":
        return (text, "{", Atom("A1", (), {"nobraces", "nonl"}), "}", Atom("MID", (), {"nonl", "nobraces"}), "{", ANN(), "}", WS()), \
               (text, "{", Atom("A1", (), {"nobraces", "nonl"}), "}", Atom("MID", (), {"nonl", "nobraces"}))
    if kind == "annotation-only":
        return ("{", ANN(), "}", WS()), ()
    if kind == "blank-before":
        b = Atom("B", (), {"ws1", "nonl"})
        return (b, "{", ANN(), "}", WS()), (b,)
    if kind == "no-brace-at-end":
        p = (Atom("ANYTHING", (), frozenset()), Atom("LAST", (), {"stripped", "nonempty", "nobrace"}), WS())
        return p, p
    if kind == "no-brace-at-all":
        p = (Atom("PLAIN", (), {"nobraces"}),)
        return p, p
    if kind == "closing-only":
        p = (Atom("PLAIN", (), {"nobraces"}), "}", WS())
        return p, p
    if kind == "closing-twice":
        p = (Atom("ANYTHING", (), {"nonl"}), "}", Atom("MID", (), {"nobraces"}), "}", WS())
        return p, p
    if kind == "open-only":
        p = (Atom("ANYTHING", (), frozenset()), "{", Atom("MID", (), {"nobraces", "nonempty"}))
        return p, p
    if kind == "blank":
        p = (WS(),)
        return p, p
    if kind == "empty":
        return (), ()
    raise KeyError(kind)

STRIPS = ["annotated", "annotation-only", "annotated-empty", "two-groups", "blank-before", "no-brace-at-end", "no-brace-at-all", "closing-only", "closing-twice", "open-only", "blank", "empty"]

def strip(kind):
    def fn(S):
        I = S.interp({})
        line, want = strip_case(kind)
        for v in S.returns(I, "strip", lambda: I.call(env.func(I, STRIP), [mk_text(line)])):
            S.eq(I, "text", v, mk_text(want))
    return fn

# a text line: not itself ending in a closed group (its last group would be its own annotation)
def texts(kind):
    if kind == "plain":
        return (Atom("PHRASE", (), {"stripped", "nonempty", "nonl", "nobrace", "noquote"}),)
    if kind == "braces-inside":
        return (Atom("PHRASE", (), {"stripped", "nonempty", "nonl", "noquote"}), "{", Atom("IN", (), {"nobraces", "nonl"}), "}",
                Atom("END", (), {"stripped", "nonempty", "nonl", "nobrace"}))
    if kind == "unopened":
        return (Atom("PHRASE", (), {"stripped", "nonempty", "nonl", "nobraces", "noquote"}), "}")

def one_text(kind, ann):
    def fn(S):
        I = S.interp({})
        t = texts(kind)
        tail = ("{", Atom("ANN", (), {"nobraces", "nonl"}), "}", WS("END_")) if ann else (WS("END_"),)
        line = mk_text((Atom("LEAD", (), {"ws", "nonl"}),) + t + (Atom("GAP", (), {"ws", "nonl"}),) + tail)
        other = mk_text((Atom("LEAD2", (), {"ws", "nonl"}),) + t + tail)
        for v in S.returns(I, "item", lambda: I.call(env.func(I, TP + "readItemFromLine"), [line, Builtin("str")])):
            S.eq(I, "item", v, mk_text(t))
        for v in S.returns(I, "lines", lambda: I.call(env.func(I, TP + "readItemsFromLines"), [I.new_list((Unit(line), Unit(other))), 2, Builtin("str")])):
            S.eq(I, "items", v, LV((Unit(mk_text(t)), Unit(mk_text(t)))))
    return fn

def one_group_only(S):
    """a text that itself ends in a group keeps it when an annotation follows"""
    I = S.interp({})
    t = (Atom("PHRASE", (), {"stripped", "nonempty", "nonl", "noquote"}), "{", Atom("IN", (), {"nobraces", "nonl"}), "}")
    line = mk_text((Atom("LEAD", (), {"ws", "nonl"}),) + t + (Atom("GAP", (), {"ws", "nonl"}), "{", Atom("ANN", (), {"nobraces", "nonl"}), "}", WS()))
    for v in S.returns(I, "item", lambda: I.call(env.func(I, TP + "readItemFromLine"), [line, Builtin("str")])):
        S.eq(I, "item", v, mk_text(t))
    for v in S.returns(I, "lines", lambda: I.call(env.func(I, TP + "readItemsFromLines"), [I.new_list((Unit(line),)), 1, Builtin("str")])):
        S.eq(I, "items", v, LV((Unit(mk_text(t)),)))

# ---------------------------------------------------------------- whole files
def annotate(I, seq, tag, skip):
    """every line gets ' {annotation}' at its end, comment lines excepted"""
    out = []
    for k, p in enumerate(seq):
        out.append(_ann(I, p, (z3.IntVal(tag), z3.IntVal(k)), skip))
    return tuple(out)

def _ann(I, p, args, skip):
    if isinstance(p, Unit):
        t = text_of(p.v)
        if any(isinstance(q, Atom) and q.fn in skip for q in t):
            return p
        if not t or not isinstance(t[-1], str) or not t[-1].endswith("\n"):
            raise Unsupported("line %r" % (t,))
        return Unit(mk_text(tuple(t[:-1]) + (t[-1][:-1], Atom("GAPA", args, {"ws1", "nonl"}), "{", Atom("ANNOT", args, {"nobraces", "nonl", "nonempty"}), "}\n")))
    if isinstance(p, Gen):
        return Gen(p.n, p.var, tuple(_ann(I, q, args + (z3.IntVal(j), p.var), skip) for j, q in enumerate(p.body)))
    raise Unsupported("lines %r" % (p,))

def whole_file(ffi, delim, what, names="nonempty"):
    def fn(S):
        R = Setup(S, ffi, p_C05.DELIMS[delim], names=names)
        I = R.I
        def run():
            R.write()
            p_C05.file_of(I, "more.na", annotate(I, p_C05.written_lines(I, "out.na"), 0, ("SCOM", "NCOM")))
            return R.read("more.na", data=what == "data")
        for v in S.returns(I, "write-read", run):
            got = I.obj(v).attrs
            if what == "header":
                p_C02.check_fields(S, R, got)
                continue
            exp = R.B.data(R.D, R.D)
            for k in ("X", "V", "A", "NX"):
                if k in exp:
                    S.eq(I, "postcondition-%s" % k, got.get(k), exp[k])
    return fn

PROOFS = [("strip/" + k, strip(k)) for k in STRIPS] + [("text/%s%s" % (k, "-annotated" if a else ""), one_text(k, a)) for k in ("plain", "braces-inside", "unopened") for a in (False, True)]
PROOFS += [("last-group-only", one_group_only)]
PROOFS += [(c, f) for c, f in p_C04.PROOFS if "annotated" in c and ("exact" in c or c.startswith(("item/", "phrase")))]
PROOFS += [("ffi%d/annotated-%s-%s" % (f, w, d), whole_file(f, d, w)) for f in na.FFIS for d in ("spaces", "tab") for w in ("header", "data")]
PROOFS += [("ffi%d/annotated-empty-names" % f, whole_file(f, "spaces", "header", "empty")) for f in na.FFIS]
