"""Character sets of unknown pieces of text, over a finite universe of representatives."""
from .core import *

ASCII = [chr(i) for i in range(128)]
# representatives of the classes of non-ASCII characters that str methods and \\w \\s \\d tell apart
UNI = frozenset(ASCII + ["\x85", "\xa0", "\xe9", "\u0663", "\u2028", "\u4e2d", "\u03a9", "\u2212"])
WS = frozenset(c for c in UNI if c.isspace())
CTL = frozenset(chr(i) for i in range(32) if not chr(i).isspace()) | {"\x7f"}
QUOTE = frozenset("'\"")
NUMCH = frozenset("0123456789+-.eEinfaINFA")

class Info:
    __slots__ = ("cs", "first", "last", "min", "one")
    def __init__(self, cs, first, last, mn, one=False):
        self.cs, self.first, self.last, self.min, self.one = cs, first, last, mn, one

_cache = {}
def atom_info(a):
    r = _cache.get(a.flags)
    if r is None:
        r = _cache[a.flags] = _atom_info(a.flags)
    return r

def _atom_info(f):
    cs = UNI
    if "num" in f:
        cs = NUMCH
    if f & {"ws", "ws1"}:
        cs = cs & WS
    if "sp" in f:
        cs = cs & frozenset(" ,")
    if "tok" in f:
        cs = cs - WS
    if "nonl" in f:
        cs = cs - {"\n"}
    if "noctl" in f:
        cs = cs - CTL
    if "nopct" in f:
        cs = cs - {"%"}
    if "nobraces" in f:
        cs = cs - {"{", "}"}
    if "noquotechar" in f:
        cs = cs - QUOTE
    first = last = None
    for x in f:
        if isinstance(x, tuple) and x[0] == "cs":
            cs = cs & x[1]
        elif isinstance(x, str) and x.startswith("no:"):
            cs = cs - frozenset(x[3:])
    first = last = cs
    if f & {"stripped", "tok", "num"}:
        first, last = first - WS, last - WS
    if "noquote" in f:
        first, last = first - QUOTE, last - QUOTE
    if "nobrace" in f:
        last = last - {"}"}
    if "endok" in f:
        last = last - {" ", ","}
    for x in f:
        if isinstance(x, tuple) and x[0] == "first":
            first = first & x[1]
        elif isinstance(x, tuple) and x[0] == "last":
            last = last & x[1]
    mn = 1 if f & {"tok", "ws1", "nonempty", "char", "num"} else 0
    return Info(cs, first, last, mn, "char" in f)

def info(I, p):
    """Info of one piece (not a Hole)"""
    if isinstance(p, str):
        return Info(frozenset(p), frozenset(p[:1]), frozenset(p[-1:]), 1 if p else 0, len(p) == 1)
    if isinstance(p, Atom):
        return atom_info(p)
    if isinstance(p, Gen):
        cs = frozenset()
        mn = 0
        for q in p.body:
            i = info(I, q)
            cs |= i.cs
            mn = max(mn, i.min)
        if mn and not I.lt(0, p.n):
            mn = 0
        first, last = cs, cs
        if p.body and mn:
            a, b = info(I, p.body[0]), info(I, p.body[-1])
            if a.min:
                first = a.first
            if b.min:
                last = b.last
        return Info(cs, first, last, mn)
    raise Unsupported("characters of %r" % (p,))
