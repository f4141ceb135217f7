"""C03: the first line declares the number of lines that precede the data section."""
import z3
from pyvc.core import *
from pyvc import env
from . import na, roundtrip
from .roundtrip import Setup

def case(ffi, delim, ann):
    def fn(S):
        ghost = {}
        def at_data(I, f, args, kw):
            # ghost state: the text written before the data section starts
            ghost["head"] = I.obj(I.getattr_(args[0], "file")).content
            return NotImplemented
        con = dict(roundtrip.CONTRACTS)
        for f in na.FFIS:
            con["nappy.na_file.na_file_%d.NAFile%d.writeData" % (f, f)] = at_data
        R = Setup(S, ffi, delim, con)
        I = R.I
        label = env.native_config().getAnnotationsConfigDict()["NLHEAD_FFI"] + delim if ann else ""
        def run():
            ghost.clear()
            o = R.write(annotation=ann)
            head = ghost.get("head")
            if head is None:
                return None
            content = I.lines(I.obj(I.getattr_(o, "file")).content)
            hl = I.lines(head)
            n = I.seq_len(hl)
            r = rest = None
            if not ann and not delim.strip():
                r = I.obj(R.read(data=False)).attrs["NLHEAD"]
                # what follows the declared number of lines is the data section
                rest = I.slice(content, n, None)
            return hl, n, content, I.ensure_front(content)[0].v, r, rest
        for v in S.returns(I, "write", run):
            if v is None:
                S.holds(I, "writeData-called", False, "no data section")
                continue
            hl, n, content, first, r, rest = v
            S.eq(I, "postcondition-first-line", first, mk_text((label,) + text_of(I.format("%d%s%d\n", (mk_int(n), delim, ffi)))))
            if r is not None:
                S.eq(I, "postcondition-NLHEAD-read", r, mk_int(n))
                S.eq(I, "postcondition-data-starts-there", LV(tuple(hl) + tuple(rest)), LV(content))
    return fn

PROOFS = [("ffi%d/%s" % (f, nm), case(f, d, a)) for f in na.FFIS
          for nm, d, a in (("spaces", "    ", False), ("comma", ",", False), ("annotated", "    ", True), ("annotated-comma", ",", True))]
