"""C08: one write, and only while open for writing; refused writes leave the file as it was."""
import z3
from pyvc.core import *
from pyvc import env
from . import na, roundtrip
from .roundtrip import Setup

OPTS = {"default": {}, "no-header": {"no_header": True}, "annotated": {"annotation": True, "delimiter": ","}}

def handle(I, o):
    return I.obj(I.getattr_(o, "file"))

def stored(I, name):
    "what a reader of the file gets: the last handle that opened it for writing"
    r = None
    n = 0
    for p in I.filelog:
        if p.v[0] == name:
            n += 1
            r = I.obj(p.v[1])
    return n, r

def write_again(I, o, R, opts):
    kw = {"float_format": roundtrip.FMT, "delimiter": R.delim}
    kw.update(opts)
    I.call(I.getattr_(o, "write"), [], kw)

def history(ffi, steps, opts):
    """steps before the write that must be refused"""
    def fn(S):
        R = Setup(S, ffi)
        I = R.I
        def run():
            o = None
            for s in steps:
                if s == "write":
                    o = R.write()
                elif s == "open-w":
                    o = I.call(roundtrip.cls(I, ffi), ["out.na"], {"mode": "w", "na_dict": R.d})
                elif s == "close":
                    I.call(I.getattr_(o, "close"), [])
                elif s == "with":
                    I.call(I.getattr_(o, "__exit__"), [None, None, None])
                elif s == "open-r":
                    o = R.read(data=False)
                elif s == "read-data":
                    I.call(I.getattr_(o, "readData"), [])
                elif s == "setNADict":
                    I.call(I.getattr_(o, "setNADict"), [R.d])
                elif s == "refused":
                    try:
                        write_again(I, o, R, opts)
                    except PyRaise:
                        pass
            n, f = stored(I, "out.na")
            I.fs["<ghost>"] = (n, f.content, f.flushed)
            write_again(I, o, R, opts)
        def after(I):
            n, f = stored(I, "out.na")
            b = I.fs.get("<ghost>")
            if b is None:
                S.add("history-reaches-the-write", "failed", "an earlier step raises")
                return
            S.holds(I, "file-not-reopened", n == b[0], "the file was opened for writing again")
            S.eq(I, "content-unchanged", mk_text(f.content), mk_text(b[1]))
        S.raises(I, "write", run, None, after)
    return fn

def complete(ffi, opts):
    """after a write, without close, the whole content is in the file"""
    def fn(S):
        R = Setup(S, ffi)
        I = R.I
        def run():
            o = R.write(**opts)
            h = handle(I, o)
            before = (h.content, h.flushed)
            I.call(I.getattr_(o, "close"), [])
            return before, handle(I, o).content, stored(I, "out.na")
        for v in S.returns(I, "write", run):
            (c0, fl), c1, (n, f) = v
            S.holds(I, "flushed", bool(fl), "output may still be buffered when write returns")
            S.eq(I, "close-adds-nothing", mk_text(c1), mk_text(c0))
            S.holds(I, "opened-once", n == 1 and f is not None, "the file is opened %d times" % n)
    return fn

HIST = {"second-write": (["write"], "default"), "second-write-no-header": (["write"], "no-header"), "second-write-annotated": (["write"], "annotated"),
        "third-write": (["write", "refused"], "default"),
        "written-and-set": (["write", "setNADict"], "default"), "closed-and-set": (["open-w", "close", "setNADict"], "default"),
        "closed": (["open-w", "close"], "default"), "closed-no-header": (["open-w", "close"], "no-header"), "written-and-closed": (["write", "close"], "default"),
        "left-with-block": (["open-w", "with"], "default"), "reader": (["write", "close", "open-r"], "default"),
        "reader-no-header": (["write", "close", "open-r"], "no-header"),
        "reader-with-dictionary": (["write", "close", "open-r", "setNADict"], "default"),
        "reader-after-data": (["write", "close", "open-r", "read-data"], "default")}
PROOFS = [("ffi%d/%s" % (f, h), history(f, HIST[h][0], OPTS[HIST[h][1]])) for f in na.FFIS for h in HIST] + \
         [("ffi%d/complete-%s" % (f, k), complete(f, OPTS[k])) for f in na.FFIS for k in OPTS]
