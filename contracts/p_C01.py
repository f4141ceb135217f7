"""C01: data written are read back at the same positions (all FFIs, any counts)."""
from . import na, roundtrip
from .roundtrip import Setup

DELIMS = {"spaces": "    ", "tab": "\t", "blank": " "}

def case(ffi, delim, again=False):
    def fn(S):
        R = Setup(S, ffi, DELIMS[delim])
        def run():
            R.write()
            r = R.read()
            if again:
                # the data may be read once more (a conversion does)
                R.I.call(R.I.getattr_(r, "readData"), [])
            return r
        for v in S.returns(R.I, "write-read", run):
            exp = R.B.data(R.D, R.D)
            got = R.I.obj(v).attrs
            for k in ("X", "V", "A", "NX"):
                if k in exp:
                    S.eq(R.I, "postcondition-%s" % k, got.get(k), exp[k])
    return fn

PROOFS = [("ffi%d/%s" % (f, d), case(f, d)) for f in na.FFIS for d in ("spaces", "tab")]
PROOFS += [("ffi%d/read-again" % f, case(f, "spaces", True)) for f in na.FFIS]
