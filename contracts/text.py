"""Contract of readItemsFromUnknownLines as used at call sites (its body is proved against the
same relation in text_bodies.py): the items of the shortest sufficient prefix of the lines are
returned, converted, in order; the following lines stay; too many or too few items raise."""
import z3
from pyvc.core import *
from pyvc import lib
from pyvc.interp import FileO, ListO, Builtin, Extern
from pyvc import env

def line_tokens(I, t):
    t = I.call(env.func(I, "nappy.utils.right_strip.rightStripCurlyBraces"), [t])
    return I.tokens(text_of(t))

def consume(I, seq, n):
    """(token seq, remaining lines) after reading n items from the line sequence"""
    out = []
    rem = nint(as_term(n))
    seq = list(I.norm(seq))
    fuel = 40
    while True:
        if I.le(rem, 0):
            return tuple(out), tuple(seq)
        if not I.lt(0, rem):
            if not I.decide(as_term(rem) >= 1):
                return tuple(out), tuple(seq)
        fuel -= 1
        if fuel < 0:
            raise Unsupported("reading items: too many lines (%s of %s left: %r; got %r)" % (rem, n, seq, out))
        while seq and isinstance(seq[0], Gen) and I.le(seq[0].n, 0):
            seq = seq[1:]
        if not seq:
            raise PyRaise("Exception", "not enough items")
        p = seq[0]
        if isinstance(p, Hole):
            raise Unsupported("reading items from unknown lines")
        if isinstance(p, Unit):
            toks = line_tokens(I, p.v)
            L = I.seq_len(toks)
            if I.decide(as_term(L) <= as_term(rem)):
                out.extend(toks)
                rem = nint(as_term(rem) - as_term(L))
                seq = seq[1:]
                continue
            raise PyRaise("Exception", "too many items")
        # repeat: whole if it fits
        def body_tokens(body):
            r = []
            for q in body:
                if isinstance(q, Unit):
                    r.extend(line_tokens(I, q.v))
                elif isinstance(q, Gen):
                    r.append(Gen(q.n, q.var, body_tokens(q.body)))
                else:
                    raise Unsupported("lines %r" % (q,))
            return r
        i = fresh_int("ln")
        mark = len(I.pc)
        I.assume(i >= 0)
        I.assume(i < as_term(p.n))
        try:
            bt = I.norm(body_tokens(gen_at(p, i)))
            w = I.seq_len(bt)
            pos = I.lt(0, w)
        except Unsupported:
            bt, pos = (), False
        finally:
            del I.pc[mark:]
        g = Gen(p.n, i, bt)
        total = I.piece_len(g) if pos else 0
        if pos and I.le(total, rem):
            out.append(g)
            rem = nint(as_term(rem) - as_term(total))
            seq = seq[1:]
            continue
        if not I.lt(0, p.n):
            if not I.decide(as_term(p.n) >= 1):
                seq = seq[1:]
                continue
        f, r = I.peel_front(p)
        seq = list(I.norm(f + (r,))) + seq[1:]

def convert(I, toks, ty):
    out = []
    for p in toks:
        if isinstance(p, Unit):
            out.append(Unit(I.call(ty, [p.v])))
        elif isinstance(p, Gen):
            mark = len(I.pc)
            I.assume(p.var >= 0)
            I.assume(p.var < as_term(p.n))
            b = convert(I, p.body, ty)
            del I.pc[mark:]
            out.append(Gen(p.n, p.var, b))
        else:
            raise Unsupported("items %r" % (p,))
    return tuple(out)

def c_readItemsUnknown(I, fn, args, kw):
    names = ["object", "nitems", "rttype"]
    a = dict(zip(names, args))
    a.update(kw)
    obj, n = a["object"], a["nitems"]
    ty = a.get("rttype", Builtin("str"))
    isl = lib.is_list(I, obj)
    if isl:
        seq = I.list_seq(obj)
    else:
        o = I.obj(obj)
        if not isinstance(o, FileO):
            return NotImplemented
        seq = o.rest
    toks, rest = consume(I, seq, n)
    if not isl:
        o.rest = rest
    if I.norm_type(ty) is not str:
        toks = convert(I, toks, ty)
    r = I.new_list(I.norm(toks))
    if isl:
        return (r, I.new_list(I.norm(rest)))
    return r
