"""Values, solver interface and the algebra of symbolic sequences and texts.

A symbolic sequence is a tuple of pieces:
    Unit(v)            one element
    Gen(n, var, body)  body[var:=0] ++ body[var:=1] ++ ... ++ body[var:=n-1]
    Hole(id, n)        an unknown stretch of n elements (only while an invariant is being guessed)
A text is a tuple of pieces: str literals, Atom (an unknown piece of text with known
properties), Gen and Hole.
"""
import itertools
import z3

class Unsupported(Exception):
    """The engine cannot decide this construct: the obligation stays undischarged."""

class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, etype, value=None):
        Exception.__init__(self, etype)
        self.etype = etype
        self.value = value

class Counter:
    """numbers for fresh names; set back when a path is re-executed, so that its shared part gets the same names"""
    def __init__(self):
        self.at = 0
    def __next__(self):
        self.at += 1
        return self.at - 1
    def __iter__(self):
        return self
_ctr = Counter()
def fresh_name(base):
    return "%s!%d" % (base, next(_ctr))
def fresh_int(base="i"):
    return z3.Int(fresh_name(base))

# ---------------------------------------------------------------- scalars
class Sc:
    """Symbolic scalar: kind is 'int', 'bool', 'float' or 'str' (z3 string)."""
    __slots__ = ("kind", "t")
    def __init__(self, kind, t):
        self.kind = kind
        self.t = t
    def __repr__(self):
        return "Sc(%s)" % (self.t,)

_simp_cache = {}
def simp(t):
    if isinstance(t, (int, bool)):
        return t
    k = t.get_id()
    r = _simp_cache.get(k)
    if r is None:
        r = (t, z3.simplify(t, som=True))
        _simp_cache[k] = r
    return r[1]

def as_term(n):
    """python int / Sc int / z3 -> z3 Int term"""
    if isinstance(n, bool):
        return z3.IntVal(1 if n else 0)
    if isinstance(n, int):
        return z3.IntVal(n)
    if isinstance(n, Sc):
        if n.kind == "int":
            return n.t
        if n.kind == "bool":
            return z3.If(n.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported("not an int: %r" % n)
    return n

def nint(t):
    """normalised int: python int when it is a numeral, else z3 term"""
    if isinstance(t, int):
        return t
    if isinstance(t, Sc):
        t = as_term(t)
    t = simp(t)
    if z3.is_int_value(t):
        return t.as_long()
    return t

def mk_int(t):
    t = nint(t)
    return t if isinstance(t, int) else Sc("int", t)

def mk_bool(t):
    if isinstance(t, bool):
        return t
    t = simp(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return Sc("bool", t)

def mk_float(t):
    return Sc("float", simp(t))

def real_term(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        from fractions import Fraction
        f = Fraction(v)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    if isinstance(v, Sc):
        if v.kind == "int":
            return simp(z3.ToReal(v.t))
        if v.kind == "float":
            return v.t
    raise Unsupported("not a number: %r" % (v,))

# ---------------------------------------------------------------- sequence values
class Unit:
    __slots__ = ("v",)
    def __init__(self, v):
        self.v = v
    def __repr__(self):
        return "U(%r)" % (self.v,)

class Gen:
    __slots__ = ("n", "var", "body")
    def __init__(self, n, var, body):
        self.n = nint(n)
        self.var = var
        self.body = tuple(body)
    def __repr__(self):
        return "Gen(%s,%s->%s)" % (self.n, self.var, list(self.body))

class Hole:
    __slots__ = ("hid", "n", "args")
    def __init__(self, hid, n=None, args=()):
        self.hid = hid
        self.n = n
        self.args = tuple(args)
    def __repr__(self):
        return "Hole(%s,%s)" % (self.hid, self.n)

class Atom:
    """Unknown text fn(args) with known properties.
    flags: tok (non-empty, no whitespace), ws (whitespace only), ws1 (whitespace, non-empty),
    nonl (no line break), stripped (no whitespace at either end), nonempty, noquote (no quote at either end),
    nobrace (does not end in '}'), nopct (no '%'), numfmt (a printf format of exactly one number),
    sp (only ' ' and ',' characters), endok (last char is neither ' ' nor ','), nobs (blank-free ...)"""
    __slots__ = ("fn", "args", "flags")
    def __init__(self, fn, args=(), flags=()):
        self.fn = fn
        self.args = tuple(args)
        self.flags = frozenset(flags)
    def has(self, f):
        return f in self.flags
    def __repr__(self):
        return "<%s%s>" % (self.fn, "(%s)" % ",".join(map(str, self.args)) if self.args else "")

class Text:
    __slots__ = ("pieces",)
    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + p
                    continue
            out.append(p)
        self.pieces = tuple(out)
    def __repr__(self):
        return "T%r" % (list(self.pieces),)

class LV:
    """a list value stored inside a symbolic sequence (unaliased)"""
    __slots__ = ("seq",)
    def __init__(self, seq):
        self.seq = tuple(seq)
    def __repr__(self):
        return "LV%r" % (list(self.seq),)

class TupSeq:
    """tuple with symbolically many elements"""
    __slots__ = ("seq",)
    def __init__(self, seq):
        self.seq = tuple(seq)
    def __repr__(self):
        return "Tup%r" % (list(self.seq),)

class Ref:
    __slots__ = ("oid",)
    def __init__(self, oid):
        self.oid = oid
    def __repr__(self):
        return "Ref%d" % self.oid
    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid
    def __hash__(self):
        return hash(("Ref", self.oid))

class View:
    """the list at position idx of the list object parent (resolved lazily)"""
    __slots__ = ("parent", "idx", "ver")
    def __init__(self, parent, idx, ver):
        self.parent = parent
        self.idx = idx
        self.ver = ver
    def __repr__(self):
        return "View(%r,%s)" % (self.parent, self.idx)

class Poison:
    __slots__ = ("why",)
    def __init__(self, why=""):
        self.why = why
    def __repr__(self):
        return "Poison(%s)" % self.why

class Opq:
    """opaque external value: an uninterpreted function of its arguments"""
    __slots__ = ("fn", "args")
    def __init__(self, fn, args=()):
        self.fn = fn
        self.args = tuple(args)
    def __repr__(self):
        return "Opq:%s%r" % (self.fn, self.args)

def text_of(v):
    """value -> piece tuple"""
    if isinstance(v, str):
        return (v,) if v else ()
    if isinstance(v, Text):
        return v.pieces
    if isinstance(v, Atom):
        return (v,)
    raise Unsupported("not text: %r" % (v,))

def mk_text(pieces):
    t = Text(pieces)
    if not t.pieces:
        return ""
    if len(t.pieces) == 1 and isinstance(t.pieces[0], str):
        return t.pieces[0]
    return t

# ---------------------------------------------------------------- substitution
def subst(v, m):
    """m: list of (z3 const, z3 term)"""
    if isinstance(v, (str, int, float, bool, bytes)) or v is None:
        return v
    if isinstance(v, z3.ExprRef):
        return simp(z3.substitute(v, *m))
    if isinstance(v, Sc):
        t = z3.substitute(v.t, *m)
        if v.kind == "int":
            return mk_int(t)
        if v.kind == "bool":
            return mk_bool(t)
        return Sc(v.kind, simp(t))
    if isinstance(v, Unit):
        return Unit(subst(v.v, m))
    if isinstance(v, Gen):
        return Gen(subst(v.n, m), v.var, [subst(p, m) for p in v.body])
    if isinstance(v, Hole):
        return Hole(v.hid, v.n if v.n is None or isinstance(v.n, int) else nint(subst(v.n, m)), [subst(a, m) for a in v.args])
    if isinstance(v, Atom):
        return Atom(v.fn, [subst(a, m) for a in v.args], v.flags)
    if isinstance(v, Text):
        return Text([subst(p, m) for p in v.pieces])
    if isinstance(v, LV):
        return LV([subst(p, m) for p in v.seq])
    if isinstance(v, TupSeq):
        return TupSeq([subst(p, m) for p in v.seq])
    if isinstance(v, tuple):
        return tuple(subst(x, m) for x in v)
    if isinstance(v, list):
        return [subst(x, m) for x in v]
    if isinstance(v, Opq):
        return Opq(v.fn, [subst(a, m) for a in v.args])
    if isinstance(v, View):
        return View(v.parent, subst(v.idx, m), v.ver)
    if isinstance(v, dict):
        return {k: subst(x, m) for k, x in v.items()}
    return v

def subst_seq(seq, m):
    return tuple(subst(p, m) for p in seq)

def gen_at(g, k):
    """pieces of iteration k of g"""
    k = as_term(k)
    return subst_seq(g.body, [(g.var, k)])

def gen_shift(g, k, n):
    """n iterations of g starting at iteration k"""
    k2 = nint(k)
    if isinstance(k2, int) and k2 == 0:
        return Gen(n, g.var, g.body)
    v = fresh_int("i")
    return Gen(n, v, subst_seq(g.body, [(g.var, v + as_term(k2))]))

def hole_of(hid, j):
    while hid and hid[0] in ("lines", "joined"):
        hid = hid[1]
    return hid[1] == j

def contains_hole(v, j=None):
    """does v contain an unknown stretch (of the loop with iteration variable named j)"""
    if isinstance(v, Hole):
        return j is None or hole_of(v.hid, j)
    if isinstance(v, Unit):
        return contains_hole(v.v, j)
    if isinstance(v, Gen):
        return any(contains_hole(p, j) for p in v.body)
    if isinstance(v, Text):
        return any(contains_hole(p, j) for p in v.pieces)
    if isinstance(v, (LV, TupSeq)):
        return any(contains_hole(p, j) for p in v.seq)
    if isinstance(v, (tuple, list)):
        return any(contains_hole(p, j) for p in v)
    if isinstance(v, (Atom, Opq)):
        return any(contains_hole(p, j) for p in v.args)
    return False

def iter_terms(v):
    if isinstance(v, z3.ExprRef):
        yield v
    elif isinstance(v, Sc):
        yield v.t
    elif isinstance(v, Unit):
        yield from iter_terms(v.v)
    elif isinstance(v, Gen):
        if not isinstance(v.n, int):
            yield v.n
        for p in v.body:
            yield from iter_terms(p)
    elif isinstance(v, Hole):
        if v.n is not None and not isinstance(v.n, int):
            yield v.n
        for a in v.args:
            yield from iter_terms(a)
    elif isinstance(v, (Atom, Opq)):
        for a in v.args:
            yield from iter_terms(a)
    elif isinstance(v, Text):
        for p in v.pieces:
            yield from iter_terms(p)
    elif isinstance(v, (LV, TupSeq)):
        for p in v.seq:
            yield from iter_terms(p)
    elif isinstance(v, (tuple, list)):
        for p in v:
            yield from iter_terms(p)

def occurs(const, v):
    """does z3 constant const occur in v (binders of Gens excluded by unique naming)"""
    cid = const.get_id()
    seen = set()
    def go(t):
        if t.get_id() in seen:
            return False
        seen.add(t.get_id())
        if t.get_id() == cid:
            return True
        return any(go(c) for c in t.children())
    return any(go(t) for t in iter_terms(v))
