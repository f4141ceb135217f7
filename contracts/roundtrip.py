"""Write a symbolic dictionary with the real writer, read the resulting text with the real reader."""
import z3
from pyvc.core import *
from pyvc import env, lib
from pyvc.interp import FileO
from . import na, text

CONTRACTS = {"nappy.utils.text_parser.readItemsFromUnknownLines": text.c_readItemsUnknown}

def cls(I, ffi):
    return env.func(I, "nappy.na_file.na_file_%d.NAFile%d" % (ffi, ffi))

FMT = Text((Atom("FF", (), {"numfmt", "nopad"}),))

class Setup:
    def __init__(self, S, ffi, delim="    ", contracts=None, **opt):
        self.S, self.ffi, self.delim = S, ffi, delim
        self.I = I = S.interp(contracts or CONTRACTS)
        I.int_exact = True
        self.B = na.Dict(I, ffi, **opt)
        self.d = na.make_dict(self.B)
        I.ghost_ints = [self.B.M, self.B.NV]
        S.cover(I, "dictionary")
    def D(self, t):
        return na.fl(lib.denote(self.I, "FF", t))
    def write(self, name="out.na", d=None, **opts):
        I = self.I
        o = I.call(cls(I, self.ffi), [name], {"mode": "w", "na_dict": d or self.d})
        kw = {"float_format": FMT, "delimiter": self.delim}
        kw.update(opts)
        I.call(I.getattr_(o, "write"), [], kw)
        return o
    def read(self, name="out.na", data=True, **kw):
        I = self.I
        r = I.call(cls(I, self.ffi), [name], dict({"mode": "r"}, **kw))
        if data:
            I.call(I.getattr_(r, "readData"), [])
        return r
