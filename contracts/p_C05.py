"""C05: trailing blank lines are ignored, a blank line followed by data is an error.

The lines of a data section are N^a B^b (a non-blank lines, then b blank lines, a, b >= 0) or N^a B^b N rest with b >= 1
and any rest: every sequence of lines is one of the two."""
import z3
from pyvc.core import *
from pyvc import env
from pyvc.interp import FileO, InstO, NUMFLAGS
from . import na, roundtrip
from .roundtrip import Setup

CHECK = "nappy.na_file.na_file.NAFile"
DELIMS = {"spaces": "    ", "tab": "\t"}

def blanks(n, nl=True):
    j = fresh_int("b")
    return (Gen(n, j, (Unit(mk_text((Atom("BLANK", (j,), {"ws", "nonl"}), "\n"))),)),)

def data_line(a):
    return Unit(mk_text((Atom("LINELEAD", a, {"ws", "nonl"}), Atom("LINE", a, {"stripped", "nonempty", "nonl"}), Atom("LINETAIL", a, {"ws", "nonl"}), "\n")))

def data(n, tag=0):
    j = fresh_int("l")
    return (Gen(n, j, (data_line((z3.IntVal(tag), j)),)),)

def anything(n):
    j = fresh_int("r")
    return (Gen(n, j, (Unit(mk_text((Atom("ANYLINE", (j,), {"nonl"}), "\n"))),)),)

def last_blank(tag):
    "the last line may lack its end"
    return {"ended": (), "spaces": (Unit(Text((Atom("BLANKEND", (), {"ws1", "nonl"}),))),)}[tag]

def checker(kind, last):
    def fn(S):
        I = S.interp({})
        a, b, c = z3.Int("a"), z3.Int("b"), z3.Int("c")
        I.assume(a >= 0)
        I.assume(b >= (0 if kind == "trailing" else 1))
        I.assume(c >= 0)
        I.ghost_ints = [a, b]
        S.cover(I, "lines")
        seq = data(a) + blanks(b)
        seq = seq + (last_blank(last) if kind == "trailing" else data(1, 1) + anything(c))
        def run():
            o = I.alloc(InstO(env.func(I, CHECK), {}))
            src = I.new_list(seq)
            return I.call(I.getattr_(o, "_checkForBlankLines"), [src]), src
        if kind == "trailing":
            for r, src in S.returns(I, "check", run):
                S.eq(I, "lines", r, LV(data(a)))
                S.eq(I, "argument-unchanged", src, LV(seq))
        else:
            S.raises(I, "check", run)
    return fn

def file_of(I, name, lines):
    f = I.alloc(FileO("w", name, ()))
    I.obj(f).flushed = I.obj(f).closed = True
    I.obj(f).content = mk_text(I.join_lines(I.norm(lines))).pieces
    I.filelog = I.filelog + (Unit((name, f)),)

def written_lines(I, name):
    r = None
    for p in I.filelog:
        if p.v[0] == name:
            r = I.obj(p.v[1])
    return I.norm(I.lines(r.content))

def trailing(ffi, delim, last):
    """the data are read as they were written when any number of blank lines follows them"""
    def fn(S):
        R = Setup(S, ffi, DELIMS[delim])
        I = R.I
        b = z3.Int("b")
        I.assume(b >= 0)
        I.ghost_ints = I.ghost_ints + [b]
        def run():
            R.write()
            file_of(I, "more.na", tuple(written_lines(I, "out.na")) + blanks(b) + last_blank(last))
            return R.read("more.na")
        for v in S.returns(I, "write-read", run):
            exp = R.B.data(R.D, R.D)
            got = I.obj(v).attrs
            for k in ("X", "V", "A", "NX"):
                if k in exp:
                    S.eq(I, "postcondition-%s" % k, got.get(k), exp[k])
    return fn

def stray(ffi):
    """a last line that is no complete record is not dropped silently, whatever blank lines follow it"""
    def fn(S):
        R = Setup(S, ffi)
        I = R.I
        I.partial_loops = True
        b = z3.Int("b")
        I.assume(b >= 0)
        I.ghost_ints = I.ghost_ints + [b]
        def run():
            R.write()
            line = (Unit(mk_text((Atom("tok", ("%d", z3.Int("STRAY")), NUMFLAGS), "\n"))),)
            file_of(I, "more.na", tuple(written_lines(I, "out.na")) + line + blanks(b))
            q = R.read("more.na", data=False)
            I.fs["<ghost>"] = "header-read"
            I.call(I.getattr_(q, "readData"), [])
        def after(I):
            S.holds(I, "header-read", I.fs.get("<ghost>") == "header-read", "the header alone is refused")
        S.raises(I, "read", run, None, after)
    return fn

def interrupted(ffi):
    """behind the header: data lines, at least one blank line, a data line, anything: an error"""
    def fn(S):
        R = Setup(S, ffi)
        I = R.I
        a, b, c = z3.Int("a"), z3.Int("b"), z3.Int("c")
        I.assume(a >= 0)
        I.assume(b >= 1)
        I.assume(c >= 0)
        I.ghost_ints = I.ghost_ints + [a, b]
        def run():
            o = R.write()
            head = list(written_lines(I, "out.na"))
            I.fs["<ghost>"] = "written"
            r = R.read("out.na", data=False)
            h = I.getattr_(r, "NLHEAD")
            hl = I.slice(head, 0, h)
            file_of(I, "more.na", tuple(hl) + data(a) + blanks(b) + data(1, 1) + anything(c))
            q = R.read("more.na", data=False)
            I.fs["<ghost>"] = "header-read"
            I.call(I.getattr_(q, "readData"), [])
        def after(I):
            S.holds(I, "header-read", I.fs.get("<ghost>") == "header-read", "the header alone is refused")
        S.raises(I, "read", run, None, after)
    return fn

PROOFS = [("check/%s-%s" % (k, l), checker(k, l)) for k, l in (("trailing", "ended"), ("trailing", "spaces"), ("interrupted", "ended"))]
PROOFS += [("ffi%d/trailing-%s-%s" % (f, d, l), trailing(f, d, l)) for f in na.FFIS for d in ("spaces", "tab") for l in ("ended", "spaces")]
PROOFS += [("ffi%d/interrupted" % f, interrupted(f)) for f in na.FFIS]
PROOFS += [("ffi%d/stray" % f, stray(f)) for f in na.FFIS]
