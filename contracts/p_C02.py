"""C02: header fields written are read back unchanged (all FFIs, any counts)."""
import z3
from pyvc.core import *
from . import na, roundtrip
from .roundtrip import Setup

DELIMS = {"spaces": "    ", "tab": "\t"}

def check_fields(S, R, attrs, tag="postcondition"):
    I, B = R.I, R.B
    exp = B.header(na.fl)
    for k in sorted(exp):
        if B.ffi == 2310 and k == "DX":
            # the reader appends the increment of every record; the header's own comes first
            continue
        if k in ("ASCAL", "AMISS", "ANAME") and attrs.get(k) is None:
            # absent exactly when there are no auxiliary variables
            S.holds(I, "%s-%s" % (tag, k), as_term(exp["NAUXV"]) == 0, "%s missing" % k)
            continue
        S.eq(I, "%s-%s" % (tag, k), attrs.get(k), exp[k])
    if B.ffi == 2310:
        S.eq(I, tag + "-DX", attrs.get("DX"), exp["DX"])
    if B.ffi in (2010, 3010, 4010):
        for k in range(B.niv - 1):
            ax = I.getitem(attrs["X"], k + 1)
            S.eq(I, "%s-axis%d" % (tag, k), ax, LV(B.axis(k, R.D)))

def case(ffi, delim):
    def fn(S):
        R = Setup(S, ffi, DELIMS[delim])
        def run():
            R.write()
            return R.read(data=False)
        for v in S.returns(R.I, "write-read", run):
            check_fields(S, R, R.I.obj(v).attrs)
    return fn

def ignored(ffi):
    "any number of ignored lines before the header"
    def fn(S):
        R = Setup(S, ffi)
        I = R.I
        K = z3.Int("NIGN")
        I.assume(K >= 0)
        def run():
            o = R.write()
            body = I.obj(I.getattr_(o, "file")).content
            pre = na.gen(K, lambda i: Text(text_of(na.txt("IGN", (i,))) + ("\n",)))
            I.fs["pre.na"] = LV(pre + tuple(I.lines(body)))
            return R.read("pre.na", data=False, ignore_header_lines=mk_int(K))
        for v in S.returns(I, "write-read", run):
            attrs = I.obj(v).attrs
            check_fields(S, R, attrs)
            S.eq(I, "postcondition-ignored_header_lines", attrs.get("ignored_header_lines"), LV(na.gen(K, lambda i: na.txt("IGN", (i,)))))
    return fn

PROOFS = [("ffi%d/%s" % (f, d), case(f, d)) for f in na.FFIS for d in DELIMS] + [("ffi%d/ignored-lines" % f, ignored(f)) for f in (1001, 2010, 2160)]
