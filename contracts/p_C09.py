"""C09: writing leaves the caller's dictionary as it was; a second write gives the same file."""
import z3
from pyvc.core import *
from pyvc import env
from . import na, roundtrip
from .roundtrip import Setup

def expected(B):
    d = B.header(na.fl)
    d.update(B.data(na.intdata, na.fl))
    d["NLHEAD"] = na.it(z3.Int("NLHEAD_given"))
    return d

def unchanged(S, I, B, d, tag, extra=()):
    exp = expected(B)
    items = I.obj(d).items
    S.holds(I, tag + "-keys", set(items) == set(exp) | set(extra), "keys %s, expected %s" % (sorted(items), sorted(exp)))
    for k in sorted(exp):
        if k in items:
            S.eq(I, "%s-%s" % (tag, k), items[k], exp[k])

def content(I, o):
    return mk_text(I.obj(I.getattr_(o, "file")).content)

def case(ffi, opts):
    def fn(S):
        R = Setup(S, ffi)
        I = R.I
        def run():
            a = R.write("a.na", **opts)
            keep = {}
            return content(I, a), R.write("b.na", **opts)
        for v in S.returns(I, "write-twice", run):
            S.eq(I, "second-write-identical", content(I, v[1]), v[0])
            unchanged(S, I, R.B, R.d, "dictionary")
    return fn

def single(ffi, opts):
    def fn(S):
        R = Setup(S, ffi)
        I = R.I
        def run():
            o = R.write("a.na", **opts)
            I.call(I.getattr_(o, "close"), [])
        for v in S.returns(I, "write", run):
            unchanged(S, I, R.B, R.d, "dictionary")
    return fn

def api(ffi, given):
    """openNAFile; the only permitted addition is FFI"""
    def fn(S):
        R = Setup(S, ffi)
        I = R.I
        def run():
            if not given:
                del I.obj(R.d).items["FFI"]
            o = I.call(env.func(I, "nappy.nappy_api.openNAFile"), ["a.na", "w", R.d])
            I.call(I.getattr_(o, "write"), [], {"float_format": roundtrip.FMT, "delimiter": "    "})
            I.call(I.getattr_(o, "close"), [])
        for v in S.returns(I, "open-and-write", run):
            exp = expected(R.B)
            items = I.obj(R.d).items
            extra = set(items) - set(exp)
            S.holds(I, "only-FFI-added", not extra, "added %s" % sorted(extra))
            for k in sorted(exp):
                if k in items and k != "FFI":
                    S.eq(I, "dictionary-" + k, items[k], exp[k])
                elif k != "FFI":
                    S.holds(I, "dictionary-" + k, False, "removed")
            S.holds(I, "FFI", items.get("FFI") == ffi if given else isinstance(items.get("FFI"), int), "FFI is %r" % (items.get("FFI"),))
    return fn

PROOFS = [("ffi%d/twice" % f, case(f, {})) for f in na.FFIS] + \
         [("ffi%d/annotated" % f, single(f, {"annotation": True, "delimiter": ","})) for f in na.FFIS] + \
         [("ffi%d/no-header" % f, single(f, {"no_header": True})) for f in na.FFIS] + \
         [("ffi%d/openNAFile" % f, api(f, True)) for f in na.FFIS] + \
         [("ffi%d/openNAFile-no-FFI" % f, api(f, False)) for f in na.FFIS]
