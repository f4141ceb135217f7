"""Loops: an inductive invariant is guessed from one symbolic iteration and checked.

The state before iteration j is described by a template per changed location in which the
contribution of the first j iterations is an opaque stretch (Hole).  One iteration is executed
from that state; its contribution delta(j) must not depend on the stretch, so the invariant
"contribution of the first j iterations == delta(0) ++ ... ++ delta(j-1)" is preserved, and it
holds trivially for j = 0.  Anything that does not fit raises Unsupported.
"""
import ast
import z3
from .core import *
from .core import _ctr
from .interp import (ReturnSig, BreakSig, ContinueSig, PathEnd, Frame, ListO, DictO, SetO, InstO, FileO, IterSegs)

class Retry(Exception):
    """restart after a loop-invariant decision was taken outside the loop"""

# ------------------------------------------------------------------ iteration over values
def run_for(I, st):
    old, I.in_while = I.in_while, False
    try:
        return run_for_(I, st)
    finally:
        I.in_while = old

def run_for_(I, st):
    itv = I.eval(st.iter)
    seq = I.norm(I.seq_of(itv))
    container = itv
    if isinstance(container, LV):
        container = None
    ver = I.obj(container).ver if isinstance(container, Ref) and isinstance(I.obj(container), ListO) else None
    def element(v):
        if ver is not None and I.obj(container).ver != ver:
            raise Unsupported("list changed while iterated")
        I.assign(st.target, v)
        try:
            I.exec_block(st.body)
        except ContinueSig:
            pass
    tag = (I.frames[-1].func.qual if I.frames[-1].func else I.frames[-1].mod, st.lineno - (I.frames[-1].func.node.lineno if I.frames[-1].func else 0))
    try:
        run_segments(I, seq, container, element, tag)
    except BreakSig:
        return
    I.exec_block(st.orelse)

def wrap_elem(I, container, v, pos):
    if isinstance(v, LV):
        c = container
        if isinstance(c, (Ref, View)) and pos is not None:
            if isinstance(c, View):
                return View(c, nint(as_term(pos)), None)
            if isinstance(I.obj(c), ListO):
                return View(c, nint(as_term(pos)), I.obj(c).ver)
        return I.new_frozen(v.seq)
    return v

def run_segments(I, seq, container, element, tag, off=0):
    """execute element(v) for every element of seq"""
    for p in I.norm(seq):
        if isinstance(p, Unit):
            element(wrap_elem(I, container, p.v, off))
            off = nint(as_term(off) + 1) if off is not None else None
        elif isinstance(p, Gen):
            if I.le(p.n, 0):
                continue
            try:
                w = I.seq_len(p.body)
            except Unsupported:
                w = None
            o0 = off
            def step(j, p=p, w=w, o0=o0):
                o = None
                if o0 is not None and w is not None and (isinstance(w, int) or not occurs(p.var, w)):
                    o = nint(as_term(o0) + as_term(j) * as_term(w))
                run_segments(I, gen_at(p, j), container, element, tag, o)
            summarise(I, p.n, step, tag)
            try:
                off = nint(as_term(off) + as_term(I.piece_len(p))) if off is not None else None
            except Unsupported:
                off = None
        else:
            raise Unsupported("iterate over %r" % (p,))

def comprehension(I, e, kind):
    g = e.generators[0]
    it = I.eval(g.iter)
    seq = I.norm(I.seq_of(it))
    cur = I.frames[-1]
    fr = Frame(cur.mod, {}, cur.func, closure=cur)
    fr.comp = True
    I.frames.append(fr)
    try:
        if kind == "list":
            acc = I.new_list(())
        elif kind == "set":
            acc = I.alloc(SetO())
        else:
            acc = I.alloc(DictO())
        tag = ((cur.func.qual if cur.func else cur.mod), "comp%d" % (e.lineno - (cur.func.node.lineno if cur.func else 0)))
        def element(v, k=0):
            g = e.generators[k]
            I.assign(g.target, v)
            for c in g.ifs:
                if not I.truth(I.eval(c)):
                    return
            if k + 1 < len(e.generators):
                t = I.eval(e.generators[k + 1].iter)
                run_segments(I, I.norm(I.seq_of(t)), t if not isinstance(t, LV) else None, lambda w: element(w, k + 1), (tag[0], tag[1] + "in%d" % (k + 1)))
                return
            if kind == "dict":
                k = I.key(I.eval(e.key))
                I.obj(acc).items[k] = I.escape(I.eval(e.value))
            else:
                v = I.escape(I.eval(e.elt))
                if kind == "list":
                    o = I.obj(acc)
                    o.seq = I.norm(o.seq + (Unit(v),))
                    o.ver += 1
                else:
                    I.set_add(I.obj(acc), v)
        run_segments(I, seq, it if not isinstance(it, LV) else None, element, tag)
        return acc
    finally:
        while I.frames[-1] is not fr:
            I.frames.pop()
        I.frames.pop()

# ------------------------------------------------------------------ state locations
def cap(I):
    """snapshot of the mutable state"""
    return ({k: o.clone() for k, o in I.heap.items()}, dict(I.frames[-1].env), tuple(getattr(I, "filelog", ())), dict(I.fs))

def loc_values(state):
    heap, env, log, fs = state
    out = {}
    for k, v in env.items():
        out[("env", k)] = v
    for oid, o in heap.items():
        if isinstance(o, ListO):
            out[("list", oid)] = LV(o.seq)
        elif isinstance(o, InstO):
            for a, v in o.attrs.items():
                out[("inst", oid, a)] = v
        elif isinstance(o, DictO):
            for a, v in o.known.items():
                out[("dict", oid, a)] = v
            if o.log:
                out[("dictlog", oid)] = LV(o.log)
        elif isinstance(o, SetO):
            out[("set", oid)] = tuple(o.items)
        elif isinstance(o, FileO):
            out[("file", oid, "content")] = Text(o.content)
            if o.rest is not None:
                out[("file", oid, "rest")] = LV(o.rest)
            out[("file", oid, "closed")] = o.closed
    out[("log",)] = LV(log)
    return out

def set_loc(I, loc, v):
    if loc[0] == "env":
        I.frames[-1].env[loc[1]] = v
    elif loc[0] == "list":
        o = I.heap[loc[1]]
        o.seq = I.norm(v.seq)
        o.ver += 1
    elif loc[0] == "inst":
        I.heap[loc[1]].attrs[loc[2]] = v
    elif loc[0] == "dict":
        I.heap[loc[1]].known[loc[2]] = v
    elif loc[0] == "dictlog":
        I.heap[loc[1]].log = I.norm(v.seq)
    elif loc[0] == "file":
        o = I.heap[loc[1]]
        if loc[2] == "content":
            o.content = text_of(v) if isinstance(v, (Text, str)) else v
        elif loc[2] == "rest":
            o.rest = I.norm(v.seq)
        else:
            o.closed = v
    elif loc[0] == "log":
        I.filelog = tuple(v.seq)
    else:
        raise Unsupported("location %r" % (loc,))

def same_obj(a, b):
    if a is b:
        return True
    if isinstance(a, LV) and isinstance(b, LV):
        return a.seq is b.seq or (len(a.seq) == len(b.seq) and all(x is y for x, y in zip(a.seq, b.seq)))
    if isinstance(a, Text) and isinstance(b, Text):
        return len(a.pieces) == len(b.pieces) and all(x is y or (isinstance(x, str) and x == y) for x, y in zip(a.pieces, b.pieces))
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if type(a) is type(b) and isinstance(a, (int, str, float, bool, type(None))):
        return a == b
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.kind == b.kind and a.t.eq(b.t)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_obj(x, y) for x, y in zip(a, b))
    return False

def value_seq(I, v, heap=None):
    """content of a list value in a given heap"""
    if isinstance(v, LV):
        return v.seq
    if isinstance(v, Ref):
        o = (heap or I.heap).get(v.oid)
        if isinstance(o, ListO):
            return o.seq
    if isinstance(v, View):
        return I.list_seq(v)
    return None

# ------------------------------------------------------------------ sequence walking
def walk(I, B, A):
    """longest structurally provable common prefix: (common, rest of B, rest of A)"""
    B, A = list(I.norm(B)), list(I.norm(A))
    common = []
    while B and A:
        b, a = B[0], A[0]
        if b is a:
            common.append(b)
            B, A = B[1:], A[1:]
            continue
        if isinstance(b, str) and isinstance(a, str):
            n = 0
            m = min(len(a), len(b))
            while n < m and a[n] == b[n]:
                n += 1
            if n:
                common.append(a[:n])
            B = ([b[n:]] if b[n:] else []) + B[1:]
            A = ([a[n:]] if a[n:] else []) + A[1:]
            if n < m:
                break
            continue
        why = I.why
        if isinstance(b, Gen) and isinstance(a, Gen):
            if I.le(b.n, 0):
                B = B[1:]
                continue
            if I.le(a.n, 0):
                A = A[1:]
                continue
            n = None
            if I.eqi(a.n, b.n):
                n = a.n
            elif I.le(a.n, b.n):
                n = a.n
            elif I.le(b.n, a.n):
                n = b.n
            if n is not None and I.gen_body_eq(a, b, n):
                I.why = why
                common.append(Gen(n, b.var, b.body))
                nb, na = nint(as_term(b.n) - as_term(n)), nint(as_term(a.n) - as_term(n))
                B = ([gen_shift(b, n, nb)] if not I.eqi(nb, 0) else []) + B[1:]
                A = ([gen_shift(a, n, na)] if not I.eqi(na, 0) else []) + A[1:]
                continue
            I.why = why
            break
        if isinstance(b, Gen) or isinstance(a, Gen):
            g = b if isinstance(b, Gen) else a
            if I.le(g.n, 0):
                if g is b:
                    B = B[1:]
                else:
                    A = A[1:]
                continue
            if len(g.body) >= 1 and I.lt(0, g.n):
                # compare first iteration without committing
                f, r = I.peel_front(g)
                other = A if g is b else B
                f = list(I.norm(f))
                if f and not isinstance(f[0], Gen) and len(other) >= len(f) and all(I.eq_seq((x,), (y,)) for x, y in zip(f, other)):
                    I.why = why
                    common.extend(other[:len(f)])
                    if g is b:
                        B, A = [r] + B[1:], A[len(f):]
                    else:
                        A, B = [r] + A[1:], B[len(f):]
                    B, A = list(I.norm(B)), list(I.norm(A))
                    continue
            I.why = why
            break
        ok = I.eq_seq((b,), (a,))
        I.why = why
        if not ok:
            break
        common.append(b)
        B, A = B[1:], A[1:]
    return tuple(common), tuple(B), tuple(A)

def nonempty_rest(I, S):
    return tuple(p for p in S if not (isinstance(p, Gen) and I.le(p.n, 0)))

def eqs(I, A, B):
    why = I.why
    r = I.eq_seq(A, B)
    I.why = why
    return r

# ------------------------------------------------------------------ change kinds
# ("same",) ("int", d) ("append",) ("prepend",) ("drop",) ("point", offset_len) ("deep", pre, gen, suf, kind) ("deepu", pre, unit, suf, kind) ("const", v) ("temp",)
def classify_seq(I, B, A):
    k = _classify_seq(I, B, A)
    return k if k is not None else classify_multi(I, B, A)

def _classify_seq(I, B, A):
    """kind of the change of a sequence from B (before the first iteration) to A (after it)"""
    common, rb, ra = walk(I, B, A)
    rb, ra = nonempty_rest(I, rb), nonempty_rest(I, ra)
    if not rb and not ra:
        return ("same",)
    if not rb:
        d = progress(I, B, ra)
        return ("append",) if d is None else ("append", d)
    # deep change in one element
    if rb and ra:
        b, a = rb[0], ra[0]
        if isinstance(b, Gen) and isinstance(a, Gen) and I.eqi(a.n, b.n) and len(a.body) == 1 and len(b.body) == 1 and \
                isinstance(a.body[0], Unit) and isinstance(b.body[0], Unit) and eqs(I, rb[1:], ra[1:]):
            i = fresh_int("d")
            mark = len(I.pc)
            I.assume(i >= 0)
            I.assume(i < as_term(b.n))
            try:
                vb, va = gen_at(b, i)[0].v, gen_at(a, i)[0].v
                sb, sa = value_seq(I, vb), value_seq(I, va)
                if sb is not None and sa is not None:
                    k = classify_seq(I, sb, sa)
                    if k is not None and k[0] != "same":
                        return ("deep", I.seq_len(common), k)
            finally:
                del I.pc[mark:]
        if isinstance(b, Unit) and isinstance(a, Unit) and eqs(I, rb[1:], ra[1:]):
            sb, sa = value_seq(I, b.v), value_seq(I, a.v)
            if sb is not None and sa is not None:
                k = classify_seq(I, sb, sa)
                if k is not None and k[0] != "same":
                    return ("deepu", I.seq_len(common), k)
    # pointwise: one element replaced
    if rb and ra and isinstance(rb[0], Gen) and isinstance(ra[0], Unit):
        f = I.ensure_front(rb)
        if f and eqs(I, f[1:], ra[1:]):
            alt = None
            sb, sa = value_seq(I, f[0].v) if isinstance(f[0], Unit) else None, value_seq(I, ra[0].v)
            if sb is not None and sa is not None:
                k = classify_seq(I, sb, sa)
                if k is not None and k[0] not in ("same", "deep"):
                    alt = ("deepu", I.seq_len(common), k)
            return ("point", I.seq_len(common), alt)
    if not common:
        # front drop of one iteration of the leading repeat
        b0 = rb[0]
        if isinstance(b0, Gen):
            r = gen_shift(b0, 1, as_term(b0.n) - 1)
            if eqs(I, (r,) + tuple(rb[1:]), A):
                return ("drop",)
        # prepend: A = extra ++ B
        try:
            la, lb = I.seq_len(A), I.seq_len(B)
            d = nint(as_term(la) - as_term(lb))
            if isinstance(d, int) and d > 0:
                x, y = I.split_at(A, d)
                if eqs(I, y, B):
                    return ("prepend", d)
        except Unsupported:
            pass
    else:
        b0 = I.norm(B)[0]
        if isinstance(b0, Gen):
            r = gen_shift(b0, 1, as_term(b0.n) - 1)
            if eqs(I, (r,) + tuple(I.norm(B)[1:]), A):
                return ("drop",)
        try:
            la, lb = I.seq_len(A), I.seq_len(B)
            d = nint(as_term(la) - as_term(lb))
            if isinstance(d, int) and d > 0:
                x, y = I.split_at(A, d)
                if eqs(I, y, B):
                    return ("prepend", d)
        except Unsupported:
            pass
    return None

def last_of(I, B):
    """(all but the last element, the last) of a list of numbers"""
    try:
        n = nint(as_term(I.seq_len(B)))
        if not I.le(1, n):
            return None
        init, last = I.split_at(B, nint(as_term(n) - 1))
        last = I.ensure_front(nonempty_rest(I, last))
    except Unsupported:
        return None
    if last and isinstance(last[0], Unit) and (isinstance(last[0].v, int) and not isinstance(last[0].v, bool) or isinstance(last[0].v, Sc) and last[0].v.kind in ("int", "float")):
        return tuple(init), last[0].v
    return None

def progress(I, B, ra):
    """the increment if a while loop puts a number behind a list of numbers (it may continue a progression)"""
    if not getattr(I, "in_while", False) or len(ra) != 1 or not isinstance(ra[0], Unit):
        return None
    l, a = last_of(I, B), ra[0].v
    if l is None or not isinstance(a, Sc) or a.kind not in ("int", "float"):
        return None
    k = lambda v: "int" if isinstance(v, int) else v.kind
    if k(l[1]) != k(a):
        return None
    t = lambda v: v.t if isinstance(v, Sc) else as_term(v)
    return simp(t(a) - t(l[1]))

def progression(n, last, d):
    """last, last + d, ... (n numbers)"""
    u = fresh_int("u")
    d = as_term(d)
    if d.sort() == z3.RealSort():
        return Gen(n, u, (Unit(Sc("float", simp(last.t + z3.ToReal(u) * d))),))
    return Gen(n, u, (Unit(mk_int(as_term(last) + u * d)),))

def classify_multi(I, B, A):
    """several parts of a list change: align both by position and classify part by part"""
    try:
        if not I.eqi(I.seq_len(B), I.seq_len(A)):
            return None
    except Unsupported:
        return None
    B, A = list(nonempty_rest(I, I.norm(B))), list(nonempty_rest(I, I.norm(A)))
    segs = []
    def one(b, a):
        if eqs(I, (b,), (a,)):
            return ("same",)
        if isinstance(b, Unit) and isinstance(a, Unit):
            sb, sa = value_seq(I, b.v), value_seq(I, a.v)
            if sb is None or sa is None:
                return None
            k = classify_seq(I, sb, sa)
            return None if k is None or k[0] == "same" else ("deepu", 0, k)
        if len(a.body) != 1 or len(b.body) != 1 or not isinstance(a.body[0], Unit) or not isinstance(b.body[0], Unit):
            return None
        i = fresh_int("d")
        mark = len(I.pc)
        I.assume(i >= 0)
        I.assume(i < as_term(b.n))
        try:
            sb, sa = value_seq(I, gen_at(b, i)[0].v), value_seq(I, gen_at(a, i)[0].v)
            if sb is None or sa is None:
                return None
            k = classify_seq(I, sb, sa)
            return None if k is None or k[0] == "same" else ("deep", 0, k)
        finally:
            del I.pc[mark:]
    fuel = 12
    while B or A:
        fuel -= 1
        if not B or not A or not fuel:
            return None
        b, a = B[0], A[0]
        if isinstance(b, Unit) and isinstance(a, Unit):
            L = 1
            B, A = B[1:], A[1:]
        elif isinstance(b, Gen) and isinstance(a, Gen):
            if len(a.body) != 1 or len(b.body) != 1:
                return None
            if I.le(a.n, b.n):
                L = a.n
            elif I.le(b.n, a.n):
                L = b.n
            else:
                return None
            B1, A1 = I.split_at(B, L), I.split_at(A, L)
            if len(B1[0]) != 1 or len(A1[0]) != 1:
                return None
            b, a = B1[0][0], A1[0][0]
            B, A = list(nonempty_rest(I, B1[1])), list(nonempty_rest(I, A1[1]))
        else:
            g = b if isinstance(b, Gen) else a
            if not I.lt(0, g.n):
                return None
            f, r = I.peel_front(g)
            f = list(I.norm(f))
            if g is b:
                B = f + list(nonempty_rest(I, (r,))) + B[1:]
            else:
                A = f + list(nonempty_rest(I, (r,))) + A[1:]
            continue
        k = one(b, a)
        if k is None:
            return None
        if k == ("same",) and segs and segs[-1][1] == ("same",):
            segs[-1] = (nint(as_term(segs[-1][0]) + as_term(L)), k)
        else:
            segs.append((L, k))
    if all(k == ("same",) for _, k in segs):
        return None
    return ("multi", segs)

def template_seq(I, kind, B, j, fill, path=(), args=()):
    """sequence before iteration j; fill(path, element args) gives the pieces contributed so far"""
    k = kind[0]
    if k == "same":
        return tuple(B)
    if k == "append":
        return tuple(B) + tuple(fill(path, args))
    if k == "arith":
        init, last = last_of(I, B)
        return init + (progression(nint(as_term(j) + 1), last, kind[1]),)
    if k == "prepend":
        return tuple(fill(path, args)) + tuple(B)
    if k == "drop":
        b = I.norm(B)
        return (gen_shift(b[0], j, as_term(b[0].n) - as_term(j)),) + tuple(b[1:])
    if k == "point":
        pre, rb = I.split_at(B, kind[1])
        _, rest = I.split_at(rb, j)
        return tuple(pre) + tuple(fill(path, args)) + tuple(rest)
    if k == "deep":
        pre, rest = I.split_at(B, kind[1])
        rest = I.norm(rest)
        g, suf, inner = rest[0], rest[1:], kind[2]
        if not isinstance(g, Gen):
            raise Unsupported("deep template")
        w = fresh_int("w")
        mark = len(I.pc)
        I.assume(w >= 0)
        I.assume(w < as_term(g.n))
        try:
            vb = gen_at(g, w)[0].v
            s = template_seq(I, inner, value_seq(I, vb), j, fill, path, tuple(args) + (w,))
        finally:
            del I.pc[mark:]
        return tuple(pre) + (Gen(g.n, w, (Unit(LV(s)),)),) + tuple(suf)
    if k == "deepu":
        pre, rest = I.split_at(B, kind[1])
        rest = I.ensure_front(rest)
        s = template_seq(I, kind[2], value_seq(I, rest[0].v), j, fill, path, args)
        return tuple(pre) + (Unit(LV(s)),) + tuple(rest[1:])
    if k == "multi":
        out, rest = (), tuple(B)
        for i, (L, kk) in enumerate(kind[1]):
            seg, rest = I.split_at(rest, L)
            out += tuple(template_seq(I, kk, seg, j, fill, path + (i,), args))
        return out + tuple(rest)
    raise Unsupported("template %s" % k)

def extract_seq(I, kind, T, P, j, args=()):
    """contribution of iteration j: P is the state after it, T the template before it"""
    k = kind[0]
    if k == "same":
        if not I.eq_seq(T, P):
            raise Unsupported("invariant location changed: %s" % I.why)
        return {}
    if k == "append":
        common, rt, rp = walk(I, T, P)
        if nonempty_rest(I, rt):
            raise Unsupported("not an append: %r | %r" % (rt[:2], rp[:2]))
        return {(): rp}
    if k == "arith":
        common, rt, rp = walk(I, T, P)
        rp = nonempty_rest(I, rp)
        if nonempty_rest(I, rt) or len(rp) != 1 or not isinstance(rp[0], Unit) or not eqv(I, rp[0].v, gen_at(T[-1], nint(as_term(j) + 1))[0].v):
            raise Unsupported("not a progression")
        return {}
    if k == "prepend":
        d = kind[1]
        x, y = I.split_at(P, d)
        if not I.eq_seq(y, T):
            raise Unsupported("not a prepend")
        return {(): x}
    if k == "drop":
        b = I.norm(T)[0]
        r = gen_shift(b, 1, as_term(b.n) - 1)
        if not I.eq_seq((r,) + tuple(I.norm(T)[1:]), P):
            raise Unsupported("not a front drop: %s" % I.why)
        return {}
    if k == "point":
        common, rt, rp = walk(I, T, P)
        rt = I.ensure_front(rt)
        rp = list(rp)
        if not rt or not rp or not isinstance(rp[0], Unit):
            raise Unsupported("not a pointwise update")
        if not I.eq_seq(rt[1:], rp[1:]):
            raise Unsupported("not a pointwise update: %s" % I.why)
        return {(): (rp[0],)}
    raise Unsupported("extract %s" % k)

def leaves(k, path=()):
    """(path, kind) of the places where contributions accumulate"""
    if k[0] == "multi":
        return [x for i, (L, kk) in enumerate(k[1]) for x in leaves(kk, path + (i,))]
    if k[0] in ("deep", "deepu"):
        return leaves(k[2], path)
    return [(path, k)]

# ------------------------------------------------------------------ fresh objects created in an iteration
def reify(I, v, newoids, counts, depth=0):
    """replace references to lists created in the iteration by list values"""
    if depth > 12:
        raise Unsupported("reify depth")
    if isinstance(v, View):
        v = I.materialise(v) if v.ver is None or isinstance(v.parent, View) or I.obj(v.parent).ver == v.ver else v
        if isinstance(v, View):
            raise Unsupported("stale view stored")
    if isinstance(v, Ref):
        if v.oid in newoids:
            o = I.heap[v.oid]
            if isinstance(o, ListO):
                counts[v.oid] = counts.get(v.oid, 0) + 1
                return LV(tuple(reify(I, p, newoids, counts, depth + 1) for p in I.norm(o.seq)))
            if isinstance(o, FileO):
                return Opq("file", ())
            raise Unsupported("object created in a loop: %s" % type(o).__name__)
        return v
    if isinstance(v, Unit):
        return Unit(reify(I, v.v, newoids, counts, depth))
    if isinstance(v, Gen):
        return Gen(v.n, v.var, [reify(I, p, newoids, counts, depth) for p in v.body])
    if isinstance(v, LV):
        return LV(tuple(reify(I, p, newoids, counts, depth) for p in v.seq))
    if isinstance(v, TupSeq):
        return TupSeq(tuple(reify(I, p, newoids, counts, depth) for p in v.seq))
    if isinstance(v, tuple):
        return tuple(reify(I, p, newoids, counts, depth) for p in v)
    return v

def has_new(v, newoids):
    if isinstance(v, Ref):
        return v.oid in newoids
    if isinstance(v, View):
        return has_new(v.parent, newoids)
    if isinstance(v, Unit):
        return has_new(v.v, newoids)
    if isinstance(v, Gen):
        return any(has_new(p, newoids) for p in v.body)
    if isinstance(v, (LV, TupSeq)):
        return any(has_new(p, newoids) for p in v.seq)
    if isinstance(v, tuple):
        return any(has_new(p, newoids) for p in v)
    return False

def free_consts(vs):
    """uninterpreted constants occurring in values (bound Gen variables excluded)"""
    found, bound = {}, set()
    def scan_bound(v):
        if isinstance(v, Gen):
            bound.add(v.var.get_id())
            for p in v.body:
                scan_bound(p)
        elif isinstance(v, Unit):
            scan_bound(v.v)
        elif isinstance(v, (LV, TupSeq)):
            for p in v.seq:
                scan_bound(p)
        elif isinstance(v, Text):
            for p in v.pieces:
                scan_bound(p)
        elif isinstance(v, (tuple, list)):
            for p in v:
                scan_bound(p)
    seen = set()
    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            go(t.body())
            return
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            found[t.get_id()] = t
        for c in t.children():
            go(c)
    for v in vs:
        scan_bound(v)
        for t in iter_terms(v):
            go(t)
    return [t for i, t in found.items() if i not in bound]

def born(t):
    s = str(t)
    if "!" in s:
        try:
            return int(s.rsplit("!", 1)[1])
        except ValueError:
            return -1
    return -1

# ------------------------------------------------------------------ the summariser
import os
DEBUG = bool(__import__("os").environ.get("PYVC_DEBUG"))

def summarise(I, n, step, tag, cond=None):
    """state after step(0); ...; step(n-1), or an outcome that leaves the loop early.
    cond: None for counted loops, else a function that evaluates the loop condition (while loops)"""
    I.loop_budget -= 1
    if I.loop_budget <= 0:
        raise Unsupported("loop budget")
    peel = 0
    nsplit = 0
    forced = set()
    for attempt in range(8):
        try:
            _summarise(I, n, step, tag, cond, frozenset(forced))
            I.loops_summarised[tag] = I.loops_summarised.get(tag, 0) + 1
            return
        except Retry as r:
            if isinstance(r, Lift):
                I.decide(I._lift)
                continue
            if isinstance(r, Carried):
                forced |= r.args[0]
                continue
            if isinstance(r, Split):
                t = r.args[0]
                if not I.le(1, t) and not I.decide(as_term(t) >= 1):
                    continue
                if not I.lt(t, n) and not I.decide(as_term(t) < as_term(n)):
                    continue
                nsplit += 1
                if nsplit > 3:
                    raise Unsupported("loop at %s: too many cases" % (tag,))
                summarise(I, t, step, tag)
                summarise(I, nint(as_term(n) - as_term(t)), lambda j: step(nint_t(as_term(j) + as_term(t))), tag)
                return
            if r.args and r.args[0] == "peel":
                peel += 1
                if peel > 2 or cond is not None:
                    raise Unsupported("loop at %s: state changes once then stays" % (tag,))
                if not I.decide(as_term(n) >= 1):
                    return
                step(z3.IntVal(0))
                n = nint(as_term(n) - 1)
                old = step
                step = lambda j, old=old: old(nint_t(as_term(j) + 1))
                if I.le(n, 0):
                    return
                continue
            continue
    raise Unsupported("loop at %s: no stable summary" % (tag,))

def threshold(c, j):
    """t such that c is settled by whether j < t (c linear in j with coefficient 1 or -1), else None"""
    while z3.is_not(c):
        c = c.arg(0)
    if not (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c) or z3.is_eq(c)) or not z3.is_int(c.arg(0)):
        return None
    d = c.arg(1) - c.arg(0)
    at = lambda k: z3.substitute(d, (j, z3.IntVal(k)))
    k = nint(at(1) - at(0))
    if not isinstance(k, int) or abs(k) != 1 or nint(d - (at(0) + k * j)) != 0:
        return None
    d0 = nint(at(0))
    root = nint(-as_term(d0)) if k == 1 else d0          # d == 0 at j == root
    if z3.is_eq(c):
        return nint(as_term(root) + 1) if isinstance(root, int) and root == 0 else root
    # c: d >= 0 / d <= 0 / d > 0 / d < 0
    if (z3.is_le(c) or z3.is_gt(c)):
        # le: d >= 0 ; gt: d < 0
        return root if k == 1 else nint(as_term(root) + 1)
    return nint(as_term(root) + 1) if k == 1 else root

def nint_t(t):
    return simp(t)

def _explore_tracked(I, fn):
    """explore fn with read-before-write tracking per path; returns (outcomes, names written on some path)"""
    chain = []
    f = I.frames[-1]
    while f is not None:
        chain.append(f)
        f = f.closure
    union = set()
    top = chain[0]
    def run():
        for f in chain:
            f.written = set()
            if f.rbw is None:
                f.rbw = set()
        try:
            fn()
        finally:
            union.update(top.written)
    return I.explore(run, 60), union

def _explore_generic(I, j, n, step, setup):
    """outcomes of one generic iteration"""
    top = I.frames[-1]
    def run():
        setup()
        top.written = set()
        step(j)
    return _explore_tracked(I, run)[0]

def _summarise(I, n, step, tag, cond, forced=frozenset()):
    fr = I.frames[-1]
    outer_rbw, outer_w = fr.rbw, fr.written
    fr_chain = []
    f = fr
    while f is not None:
        fr_chain.append((f, f.rbw, f.written))
        f = f.closure
    def restore_tracking(commit):
        for f, r, w in fr_chain:
            inner_r, inner_w = f.rbw, f.written
            f.rbw, f.written = r, w
            if commit and r is not None and inner_r is not None:
                r |= {x for x in inner_r if x not in w}
    s0 = cap(I)
    base_vals = loc_values(s0)
    oid0 = I.next_oid
    cnt0 = next(_ctr)
    nt = as_term(n)
    rbw_all, written_all = set(), set()
    try:
        # ---- phase A: the first iteration
        mark = len(I.pc)
        I.assume(nt >= 1)
        if I.entails(z3.BoolVal(False)):
            del I.pc[mark:]
            return
        for f, r, w in fr_chain:
            f.rbw, f.written = set(), set()
        resA, writtenA = _explore_tracked(I, lambda: step(z3.IntVal(0)))
        normals = [r for r in resA if r[0] == "return"]
        kinds = {}
        pathk = []
        if resA and not normals:
            # the first iteration always leaves: execute it on the real path
            restore_tracking(False)
            del I.pc[mark:]
            if I.decide(nt >= 1):
                step(z3.IntVal(0))
                raise Unsupported("loop at %s: first iteration did not leave" % (tag,))
            return
        for r in normals:
            sv = I.snap()
            I.restore(r[2])
            I.pc.extend(r[3])
            post = loc_values(cap(I))
            kd = {}
            for loc, a in post.items():
                if loc[0] in ("list", "inst", "dict", "set", "file") and loc[1] >= oid0:
                    continue
                k = classify_loc(I, loc, base_vals.get(loc, MISSING), a, s0)
                if k[0] != "same":
                    kd[loc] = k
            pathk.append(kd)
            for loc in base_vals:
                if loc not in post:
                    raise Unsupported("location %r deleted in loop" % (loc,))
            I.restore(sv)
        pathk, soft, lastn = settle(I, pathk, base_vals, fr, cond, forced)
        for kd in pathk:
            for loc, k in kd.items():
                if loc in lastn:
                    continue
                old = kinds.get(loc, ("same",))
                if k[0] == "rebind" and old[0] != "same":
                    continue
                if old[0] not in ("same", "rebind") and old[0] != k[0]:
                    k = ("temp",) if loc[0] == "env" else ("mixed", old, k)
                kinds[loc] = k
        del I.pc[mark:]
        if DEBUG:
            print("  kinds", kinds, fr.rbw, "written", writtenA, [r[0] for r in resA], "soft", soft, "last", lastn)
        # ---- phase B: a generic iteration
        j = fresh_int("j")
        changed = {loc: k for loc, k in kinds.items()}
        written_names = writtenA
        temps = set()
        for loc, k in changed.items():
            if loc[0] == "env":
                nm = loc[1]
                if (fr.rbw is None or nm not in fr.rbw) and loc not in forced:
                    temps.add(loc)
        for nm in written_names:
            if ("env", nm) not in changed and nm not in (fr.rbw or ()) and ("env", nm) not in forced:
                temps.add(("env", nm))
                changed[("env", nm)] = ("temp",)
        temps |= lastn
        for loc in lastn:
            changed[loc] = ("temp",)
        for loc in list(changed):
            k = changed[loc]
            if k[0] in ("temp",):
                if loc in temps or loc[0] == "env":
                    temps.add(loc)
                continue
            if k[0] == "mixed":
                raise Unsupported("loop at %s: %r changes in different ways" % (tag, loc))
            if k[0] == "const" and loc not in temps:
                if DEBUG:
                    print("  peel", tag, loc, base_vals.get(loc), k)
                raise Retry("peel")
        if ("log",) in changed and changed[("log",)][0] != "append":
            raise Unsupported("files written in loop")
        candidates = [None] + list(getattr(I, "ghost_cums", []))
        last = None
        done = None
        need_len = [loc for loc, k in changed.items() if loc not in temps and k[0] in ("append", "point", "deep", "deepu", "prepend")]
        variants = [changed]
        if any(has_alt(k) for k in changed.values()):
            variants.append({loc: use_alt(k) for loc, k in changed.items()})
        for changed, cum in [(v, c) for v in variants for c in candidates]:
            for f, r, w in fr_chain:
                f.rbw, f.written = set(), set()
            mark = len(I.pc)
            try:
                done = _generic(I, n, nt, j, step, tag, cond, s0, base_vals, changed, temps, cum, oid0, cnt0, fr, lastn)
                break
            except Unsupported as u:
                last = u
                done = None
                # a name that seemed to be set afresh by each iteration is read by a later one
                late = {loc for loc in temps if loc[0] == "env" and fr.rbw is not None and loc[1] in fr.rbw and loc not in lastn and loc not in forced and base_vals.get(loc, MISSING) is not MISSING and not isinstance(base_vals[loc], Poison)}
                if late and cond is None:
                    raise Carried(frozenset(late))
            finally:
                del I.pc[mark:]
        if done is None:
            raise last
    finally:
        rbw_all = set(fr.rbw or ())
        restore_tracking(True)
    done()
    if outer_w is not None and I.lt(0, n):
        outer_w |= {loc[1] for loc in temps if loc[0] == "env"}
        outer_w |= {loc[1] for loc in changed if loc[0] == "env"}

MISSING = object()

def value_shape(v):
    """what kind of thing a value is, whatever numbers it is made of; None for things that are not made of numbers"""
    if isinstance(v, bool):
        return None
    if isinstance(v, int) or isinstance(v, Sc) and v.kind == "int":
        return ("int",)
    if isinstance(v, Opq) and v.args and all(z3.is_expr(a) and z3.is_int(a) for a in v.args):
        return ("opq", v.fn, len(v.args))
    return None
def value_leaves(v):
    return list(v.args) if isinstance(v, Opq) else [as_term(v)]
def value_of(shape, ts):
    return mk_int(ts[0]) if shape[0] == "int" else Opq(shape[1], tuple(ts))

def chain_at(v, ds, jj):
    """something numbered, so many steps on"""
    return value_of(value_shape(v), [simp(t + d * as_term(jj)) for t, d in zip(value_leaves(v), ds)])

def settle(I, pathk, base, fr, cond, forced):
    """(kinds of the paths that repeat, whether there are others, names that keep what was last assigned to them):
    a path that gives a name or field something of another kind is one after which the loop goes on differently"""
    if cond is not None or len(pathk) < 2:
        return pathk, False, set()
    carried = lambda loc: loc[0] != "env" or loc[1] in (fr.rbw or ()) or loc in forced
    def consts(ks):
        return {loc for kd in ks for loc, k in kd.items() if k[0] == "const" and carried(loc)}
    def alike(loc, kd):
        k = kd.get(loc)
        sh = value_shape(base.get(loc, MISSING))
        return sh is not None and loc[0] == "env" and (k is None or k[0] == "int" and sh == ("int",) or k[0] == "const" and value_shape(k[1]) == sh)
    other = {loc for loc in consts(pathk) if not all(alike(loc, kd) for kd in pathk)}
    steady = [kd for kd in pathk if not any(kd.get(loc, ("same",))[0] == "const" for loc in other)]
    if not steady:
        return pathk, False, set()
    soft = len(steady) < len(pathk)
    last = set()
    for loc in consts(steady):
        if any(loc not in kd for kd in steady) and all(alike(loc, kd) for kd in steady):
            w = [loc in kd for kd in steady]
            last |= {l for kd in steady for l in kd if [l in kd2 for kd2 in steady] == w and carried(l) and all(alike(l, kd2) for kd2 in steady)}
    return steady, soft, last

def classify_loc(I, loc, b, a, s0):
    if b is not MISSING and same_obj(b, a):
        return ("same",)
    if loc[0] == "set":
        raise Unsupported("set changed in loop")
    if b is MISSING:
        return ("const", a) if loc[0] != "env" else ("temp",)
    if isinstance(b, Poison) or isinstance(a, Poison):
        return ("temp",)
    sb, sa = value_seq(I, b, s0[0]), value_seq(I, a)
    if sb is not None and sa is not None:
        old = I.nofork
        rebound = loc[0] == "env" and isinstance(a, Ref) and isinstance(b, Ref) and a != b
        I.nofork = old or rebound
        try:
            k = classify_seq(I, sb, sa)
        except Unsupported:
            if not rebound:
                raise
            return ("const", a)
        finally:
            I.nofork = old
        if k is not None:
            if k[0] == "same" and loc[0] in ("env", "inst", "dict") and not same_obj(b, a):
                # rebound to an equal list
                return ("rebind",) if isinstance(a, Ref) and isinstance(b, Ref) and a != b else ("same",)
            return k
        return ("const", a)
    if isinstance(b, (str, Text)) and isinstance(a, (str, Text)):
        why = I.why
        common, rb, ra = walk(I, text_of(b), text_of(a))
        I.why = why
        if not nonempty_rest(I, rb):
            return ("append",) if nonempty_rest(I, ra) else ("same",)
        return ("const", a)
    num = lambda v: (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, Sc) and v.kind == "int")
    if num(b) and num(a):
        d = nint(as_term(a) - as_term(b))
        if isinstance(d, int) and d == 0:
            return ("same",)
        if not isinstance(d, int) and loc[0] != "env" and I.entails(as_term(d) == 0):
            return ("same",)
        return ("int", d)
    if I.in_while and value_shape(b) is not None and value_shape(a) == value_shape(b):
        ds = [nint(y - x) if x.sort() == z3.IntSort() else None for x, y in zip(value_leaves(b), value_leaves(a))]
        if all(isinstance(d, int) for d in ds) and any(ds):
            return ("chain", tuple(ds))
    why = I.why
    try:
        if I.eq_val(b, a):
            return ("same",)
    except Unsupported:
        pass
    finally:
        I.why = why
    return ("const", a)

def has_alt(k):
    return (k[0] == "append" and len(k) > 1) or (k[0] == "point" and k[2] is not None) or (k[0] in ("deep", "deepu") and has_alt(k[2])) or (k[0] == "multi" and any(has_alt(x) for _, x in k[1]))
def use_alt(k):
    if k[0] == "append" and len(k) > 1:
        return ("arith", k[1])
    if k[0] == "point" and k[2] is not None:
        return use_alt(k[2])
    if k[0] in ("deep", "deepu"):
        return (k[0], k[1], use_alt(k[2]))
    if k[0] == "multi":
        return ("multi", [(L, use_alt(x)) for L, x in k[1]])
    return k

def deep_len(kind):
    while kind[0] in ("deep", "deepu"):
        kind = kind[2]
    return kind

def _generic(I, n, nt, j, step, tag, cond, s0, base, changed, temps, cum, oid0, cnt0, fr, last=()):
    I.assume(j >= 0)
    I.assume(j < nt)
    tmpl = {}
    holes = {}
    hole_len = {}
    cumint = {}
    def count_of(jj, L):
        L = as_term(L)
        return I.sum_term(jj, j, L) if occurs(j, L) else as_term(jj) * L
    unchecked = []
    unset = {loc: Poison("assigned in loop") for loc in temps}
    def under(conds, f):
        mark = len(I.pc)
        for c in conds:
            I.assume(c)
        why = I.why
        try:
            return f()
        except Unsupported:
            return False
        finally:
            I.why = why
            del I.pc[mark:]
    leafkind = {(loc, path): lk for loc, k in changed.items() if loc not in temps and k[0] not in ("rebind", "int", "chain") for path, lk in leaves(k)}
    def fill_for(loc, jj, extra=None):
        def fill(path, args):
            k = leafkind[(loc, path)]
            if k[0] == "point":
                L = as_term(jj)
            elif k[0] == "append" and not isinstance(base[loc], (str, Text)):
                L = cum(jj) if cum is not None else count_of(jj, hole_len.get((loc, path), 1))
            elif k[0] == "prepend":
                L = as_term(jj) * k[1]
            else:
                L = None
            hid = ((loc, path), str(j))
            return (Hole(hid, None if L is None else nint(L), tuple(args) + (as_term(jj),)),)
        return fill
    # names that keep what was last assigned to them: first anything of that kind, then what one earlier iteration gave
    lastval = {}
    groups = None       # [(names, {name: value given by iteration j}, condition on an iteration that gives it)]
    for loc in last:
        sh = value_shape(base[loc])
        lastval[loc] = value_of(sh, [fresh_int("prev") for _ in value_leaves(base[loc])])
    lastpc = []
    def last_at(g, w, upto):
        """(values of the names of a group if w was the last iteration before upto that assigned them, facts)"""
        names, f, wr = g
        at = lambda t: z3.substitute(t, (j, w))
        vals = {}
        for loc in names:
            sh = value_shape(base[loc])
            vals[loc] = value_of(sh, [simp(z3.If(w < 0, b, at(v))) for b, v in zip(value_leaves(base[loc]), value_leaves(f[loc]))])
        return vals, [z3.And(w >= -1, w < upto), z3.Implies(w >= 0, at(wr))]
    # element counts of appended stretches default to one per iteration; corrected below when they differ
    if DEBUG:
        print("  loop", tag, "x", n, {l: k for l, k in changed.items() if l not in temps}, "cum" if cum is not None else "", I.check(), I.pc[-4:])
    for attempt in range(4 if last else 3):
        tmpl.clear()
        for loc, k in changed.items():
            if loc in temps or k[0] in ("rebind",):
                continue
            b = base[loc]
            if k[0] == "chain":
                tmpl[loc] = chain_at(b, k[1], j)
            elif k[0] == "int":
                tmpl[loc] = mk_int(as_term(b) + count_of(j, cumint.get(loc, k[1])))
            elif isinstance(b, (str, Text)):
                tmpl[loc] = mk_text(template_seq(I, k, text_of(b), j, fill_for(loc, j)))
            else:
                sb = value_seq(I, b, s0[0])
                tmpl[loc] = LV(template_seq(I, k, sb, j, fill_for(loc, j)))
        def setup():
            for loc, k in changed.items():
                if loc in lastval:
                    fr.env[loc[1]] = lastval[loc]
                    continue
                if loc in temps:
                    fr.env[loc[1]] = unset[loc] if loc[0] == "env" else None
                    continue
                if k[0] == "rebind":
                    b = base[loc]
                    r = I.new_frozen(value_seq(I, b, s0[0]))
                    set_loc(I, loc, r)
                    continue
                t = tmpl[loc]
                if isinstance(t, LV) and loc[0] in ("env", "inst", "dict"):
                    t = I.new_frozen(t.seq)
                set_loc(I, loc, t)
            for c in lastpc:
                I.assume(c)
            if cond is not None:
                tr, I.trace = I.trace, None
                try:
                    if not I.truth(cond()):
                        raise Unsupported("loop condition not implied")
                except Unsupported:
                    # lengths are only guessed so far: decided again once they are known
                    if attempt or hole_len:
                        raise
                    unchecked.append(attempt)
                finally:
                    I.trace = tr
        for loc in temps:
            if loc[0] != "env":
                raise Unsupported("loop at %s: %r" % (tag, loc))
        res = _explore_generic(I, j, n, step, setup)
        normals = [r for r in res if r[0] == "return"]
        softs = []
        if len(normals) > 1 and cond is None:
            for r in normals:
                if goes_on_differently(I, r, base, changed, temps, oid0, s0):
                    softs.append(r)
            if len(softs) == len(normals):
                softs = []
            normals = [r for r in normals if not any(r is x for x in softs)]
        if softs and last:
            raise Unsupported("loop at %s: a change of course while values are kept" % (tag,))
        # names read before written in the generic iteration must not be temporaries
        for loc in temps:
            if fr.rbw is not None and loc[1] in fr.rbw and loc not in last:
                raise Unsupported("loop at %s: %s carried between iterations" % (tag, loc[1]))
        if not normals:
            raise Unsupported("loop at %s: no normal iteration" % (tag,))
        # loop-invariant decisions are lifted out of the loop
        if len(res) > 1:
            for r in res:
                for c in r[3]:
                    if not occurs(j, c) and all(born(t) < cnt0 for t in free_consts([c])) and not I.entails(c) and not I.entails(z3.Not(c)):
                        raise_lift(I, c, j)
        if len(normals) > 1 and cond is None:
            for r in normals:
                for c in r[3]:
                    t = threshold(c, j)
                    if t is not None and all(born(x) < cnt0 for x in free_consts([t])) and not (I.le(t, 0) or I.le(nt, t)):
                        raise Split(t)
        # ---- contributions per normal path
        paths = []
        relen = {}
        drift = {}
        for r in normals:
            sv = I.snap()
            I.restore(r[2])
            I.pc.extend(r[3])
            try:
                c = _contrib(I, j, s0, base, changed, temps, tmpl, oid0, fr, tag)
                paths.append((r[3], c))
                for loc, d in c["int"].items():
                    drift.setdefault(loc, []).append((r[3], d, I.eqi(d, cumint.get(loc, changed[loc][1]))))
            finally:
                I.restore(sv)
        again = False
        if last and groups is None:
            groups = last_groups(I, j, paths, last, temps, base, lastval, unset, cnt0, tag)
            lastpc = []
            for g in groups:
                w = fresh_int("w")
                vals, facts = last_at(g, w, j)
                lastval.update({l: v for l, v in vals.items() if l in last})
                lastpc += facts
            continue
        for loc, ds in drift.items():
            if all(ok for _, _, ok in ds):
                continue
            if attempt >= 2:
                raise Unsupported("loop at %s: %r does not advance uniformly" % (tag, loc))
            t = as_term(ds[-1][1])
            for p, d, _ in reversed(ds[:-1]):
                t = z3.If(z3.And(*p) if p else z3.BoolVal(True), as_term(d), t)
            t = as_term(nint(t))
            if any(born(x) >= cnt0 and not x.eq(j) for x in free_consts([t])) or (occurs(j, t) and not I.le(0, t)):
                raise Unsupported("loop at %s: %r does not advance uniformly" % (tag, loc))
            cumint[loc] = t
            again = True
        if again:
            continue
        if attempt < 2 and not hole_len:
            for pcs, d in paths:
                for loc, dd in d["delta"].items():
                    if leafkind[loc][0] == "append" and not isinstance(base[loc[0]], (str, Text)) and cum is None:
                        L = under(pcs, lambda: (I.seq_len(dd),))
                        L = L[0] if L else None
                        if L is not None and (isinstance(L, int) or not any(born(x) >= cnt0 and not x.eq(j) for x in free_consts([L]))):
                            if all(under(p2, lambda: I.eqi(I.seq_len(d2["delta"].get(loc, ())), L)) for p2, d2 in paths):
                                relen[loc] = L
            if any(not (isinstance(L, int) and L == 1) for L in relen.values()) and all(loc in relen for d in paths for loc in d[1]["delta"] if leafkind[loc][0] == "append" and not isinstance(base[loc[0]], (str, Text))):
                hole_len.update(relen)
                continue
        if DEBUG:
            print("   relen", relen, hole_len, attempt, [(p, d["delta"]) for p, d in paths])
        if attempt in unchecked:
            raise Unsupported("loop condition not implied")
        break
    # ---- lengths assumed for the stretches must be right
    for lk, dk in leafkind.items():
        loc = lk[0]
        if dk[0] in ("same", "drop", "point", "arith") or isinstance(base[loc], (str, Text)):
            continue
        total = 0
        for pcs, d in paths:
            dd = d["delta"].get(lk, ())
            L = I.seq_len(dd)
            L = as_term(L)
            if len(paths) > 1:
                L = z3.If(z3.And(*pcs) if pcs else z3.BoolVal(True), L, z3.IntVal(0))
            total = total + L
        exp = cum(j + 1) - cum(j) if cum is not None else as_term(hole_len.get(lk, dk[1] if dk[0] == "prepend" else 1))
        if not I.eqi(total, exp):
            # length not needed if the hole's length was never consulted: redo with unknown lengths
            if not getattr(I, "_nolen", False):
                try:
                    I._nolen = True
                    _recheck_without_length(I, j, n, step, changed, temps, tmpl, base, s0, fr, cond, tag, lastval, lastpc)
                finally:
                    I._nolen = False
            break
    # ---- early exits
    exits = [r for r in res if r[0] != "return" or any(r is x for x in softs)]
    if exits and last:
        raise Unsupported("loop at %s: left while values are kept" % (tag,))
    exit_conds = []
    for r in exits:
        exit_conds.append((r[0], list(r[3])))
    npcs = [p for p, _ in paths]
    normal_cond = None
    if exits:
        normal_cond = z3.Or(*[z3.And(*p) if p else z3.BoolVal(True) for p in npcs])
    # facts assumed on normal paths that mention values born in the iteration
    fresh = [t for t in free_consts([c for p in npcs for c in p] + [x for _, d in paths for x in d["delta"].values()] + [x for _, d in paths for x in d["temps"].values()]) if born(t) >= cnt0 and not t.eq(j)]
    evs_all = [e for lk in leafkind for e in getattr(I, "_elem_vars", {}).get((lk, str(j)), ())]
    fresh = [t for t in fresh if not any(t.eq(e) for e in evs_all)]
    sk = []
    for t in fresh:
        fz = z3.Function(fresh_name("sk"), z3.IntSort(), t.sort())
        sk.append((t, fz(j)))
    if sk:
        npcs = [[z3.substitute(c, *sk) for c in p] for p in npcs]
        paths = [([z3.substitute(c, *sk) for c in p], {"delta": {l: subst(v, sk) for l, v in d["delta"].items()}, "temps": {l: subst(v, sk) for l, v in d["temps"].items()}, "int": d["int"]}) for p, d in paths]
        if exits:
            normal_cond = z3.Or(*[z3.And(*p) if p else z3.BoolVal(True) for p in npcs])
    # merged contribution
    merged = {}
    for loc, k in leafkind.items():
        if k[0] in ("same", "drop", "arith"):
            continue
        if len(paths) == 1:
            merged[loc] = paths[0][1]["delta"].get(loc, ())
        else:
            one = None
            for p, d in paths:
                dd = d["delta"].get(loc, ())
                dd = under(p, lambda: deep_roll(I, dd)) or dd
                if dd and not any(contains_hole(x) for x in dd) and all(d2 is d or under(p2, lambda: eqs(I, dd, d2["delta"].get(loc, ()))) for p2, d2 in paths):
                    one = dd
                    break
            if one is not None:
                merged[loc] = one
                continue
            out = []
            for p, d in paths:
                dd = d["delta"].get(loc, ())
                if not dd:
                    continue
                c = z3.If(z3.And(*p) if p else z3.BoolVal(True), z3.IntVal(1), z3.IntVal(0))
                out.append(Gen(c, fresh_int("o"), dd))
            # identical contributions on every path need no condition
            same = all(eqs(I, paths[0][1]["delta"].get(loc, ()), d["delta"].get(loc, ())) for _, d in paths)
            merged[loc] = paths[0][1]["delta"].get(loc, ()) if same else tuple(out)
            if not same and k[0] == "point":
                raise Unsupported("loop at %s: conditional pointwise update of %s: %s" % (tag, loc, " | ".join(str(p) for p, _ in paths)))
    tempvals = {}
    flags = {}
    kept = set()
    for loc in temps:
        vs = [d["temps"].get(loc, MISSING) for _, d in paths]
        if all(x is unset[loc] for x in vs):
            kept.add(loc)           # only assigned where the loop is left
        # a constant set in some iterations, never read within the loop
        cs = [x for x in vs if x is not unset[loc]]
        if cs and len(cs) < len(vs) and isinstance(cs[0], (bool, str, type(None))) and all(type(x) is type(cs[0]) and x == cs[0] for x in cs) and cond is None:
            disj = lambda ps: z3.Or(*[z3.And(*p) if p else z3.BoolVal(True) for p in ps])
            flags[loc] = (cs[0], disj([p for (p, _), x in zip(paths, vs) if x is not unset[loc]]), disj([p for (p, _), x in zip(paths, vs) if x is unset[loc]]))
        v = vs[0]
        if any(x is MISSING or isinstance(x, Poison) for x in vs) or not all(same_obj(v, x) or eqv(I, v, x) for x in vs[1:]):
            v = MISSING
        tempvals[loc] = v
    def state_at(jj):
        """install the state before iteration jj"""
        for loc, k in changed.items():
            if loc in temps or k[0] == "rebind":
                continue
            b = base[loc]
            if k[0] == "chain":
                set_loc(I, loc, chain_at(b, k[1], jj))
                continue
            if k[0] == "int":
                set_loc(I, loc, mk_int(as_term(b) + count_of(jj, cumint.get(loc, k[1]))))
                continue
            def fill(path, args, loc0=loc):
                u = fresh_int("u")
                m = [(j, u)]
                loc = (loc0, path)
                d = merged.get(loc, ())
                if args:
                    # per-element contribution was extracted at element variable stored in the plan
                    m2 = [(ev, a) for ev, a in zip(elem_vars.get(loc, ()), args)]
                    m = m + m2
                body = subst_seq(d, m)
                if leafkind[loc][0] == "prepend":
                    body = subst_seq(d, [(j, as_term(jj) - 1 - u)] + m[1:])
                return (Gen(jj, u, body),)
            if isinstance(b, (str, Text)):
                set_loc(I, loc, mk_text(I.norm(template_seq(I, k, text_of(b), jj, fill))))
            else:
                sb = value_seq(I, b, s0[0])
                s = I.norm(template_seq(I, k, sb, jj, fill))
                if loc[0] in ("env", "inst", "dict"):
                    r = I.new_list(s)
                    if not I.lt(0, jj):
                        I.obj(r).frozen = "may alias the list before the loop"
                    set_loc(I, loc, r)
                else:
                    set_loc(I, loc, LV(s))
    ev0 = {}
    for lk in leafkind:
        ev0[lk] = I._elem_vars.get((lk, str(j)), ())
    elem_vars = ev0
    def finish():
        if exits:
            b = z3.Bool(fresh_name("leaves"))
            if I.decide(b):
                j0 = fresh_int("j0")
                I.assume(j0 >= 0)
                I.assume(j0 < nt)
                I.assume(z3.Not(z3.substitute(normal_cond, (j, j0))))
                ways = []
                for _, p in exit_conds:
                    p = [c for c in p if not I._quantified(c)]
                    m = [(t, z3.Const(fresh_name("x"), t.sort())) for t in free_consts(p) if born(t) >= cnt0 and not t.eq(j)] + [(j, j0)]
                    ways.append(z3.And(*[z3.substitute(c, *m) for c in p]) if p else z3.BoolVal(True))
                if softs:
                    I.assume(z3.Or(*ways))
                q = fresh_int("q")
                I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < j0), z3.substitute(normal_cond, (j, q)))))
                if not I.feasible():
                    raise PathEnd()
                state_at(j0)
                for loc in temps:
                    fr.env[loc[1]] = base[loc] if loc in kept and loc in base else Poison("assigned in loop")
                step(j0)
                # the loop goes on, from another kind of state
                if not softs:
                    raise Unsupported("loop at %s: exit iteration did not leave" % (tag,))
                I.soft_depth += 1
                try:
                    if I.soft_depth > 4:
                        raise Unsupported("loop at %s: too many changes of course" % (tag,))
                    summarise(I, nint(nt - j0 - 1), lambda jj: step(nint_t(as_term(jj) + j0 + 1)), tag)
                finally:
                    I.soft_depth -= 1
                return
            q = fresh_int("q")
            I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nt), z3.substitute(normal_cond, (j, q)))))
            if not I.feasible():
                raise PathEnd()
        elif sk and any(npcs):
            q = fresh_int("q")
            body = z3.Or(*[z3.And(*p) if p else z3.BoolVal(True) for p in npcs])
            I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nt), z3.substitute(body, (j, q)))))
        if cond is not None:
            pass
        state_at(n)
        some = I.lt(0, n)
        done_last = set()
        for g in groups or ():
            w = fresh_int("w")
            vals, facts = last_at(g, w, nt)
            for c in facts:
                I.assume(c)
            named = {}
            def name(t):
                if not z3.is_app_of(t, z3.Z3_OP_ITE):
                    return t
                if t.get_id() not in named:
                    named[t.get_id()] = (fresh_int("last"), t)
                    I.assume(named[t.get_id()][0] == t)
                return named[t.get_id()][0]
            for loc, v in vals.items():
                v = value_of(value_shape(v), [name(simp(t)) for t in value_leaves(v)])
                I.frames[-1].env[loc[1]] = v
                done_last.add(loc)
        for loc in temps:
            if loc in done_last:
                continue
            v = tempvals[loc]
            if loc in kept and loc in base:
                I.frames[-1].env[loc[1]] = base[loc]
                continue
            if loc in flags:
                c, yes, no = flags[loc]
                if I.decide(z3.Bool(fresh_name("set"))):
                    j0 = fresh_int("j0")
                    I.assume(z3.And(j0 >= 0, j0 < nt, z3.substitute(yes, (j, j0))))
                    I.frames[-1].env[loc[1]] = c
                else:
                    q = fresh_int("q")
                    I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nt), z3.substitute(no, (j, q)))))
                    if base.get(loc, MISSING) is MISSING:
                        I.frames[-1].env[loc[1]] = Poison("assigned in loop")
                    else:
                        I.frames[-1].env[loc[1]] = base[loc]
                if not I.feasible():
                    raise PathEnd()
                continue
            if v is MISSING or not some or contains_hole(v, str(j)):
                bv = base.get(loc, MISSING)
                I.frames[-1].env[loc[1]] = Poison("assigned in loop")
            else:
                v = subst(v, [(j, nint_term(nt - 1))])
                if isinstance(v, LV):
                    v = I.new_frozen(I.norm(v.seq))
                    I.obj(v).inner_frozen = True
                I.frames[-1].env[loc[1]] = v
    # while loops: the condition must fail after n iterations
    if cond is not None:
        sv = I.snap()
        mark = len(I.pc)
        del_marks = None
        try:
            # leave the j constraints out: they do not matter here
            state_at(n)
            for loc in temps:
                fr.env[loc[1]] = Poison("assigned in loop")
            tr, I.trace = I.trace, None
            try:
                if I.truth(cond()):
                    if not getattr(I, "partial_loops", False):
                        raise Unsupported("loop does not end after %s iterations" % (n,))
                    I._loop_goes_on = True
            finally:
                I.trace = tr
        finally:
            I.restore(sv)
    return finish

def goes_on_differently(I, r, base, changed, temps, oid0, s0):
    """whether a normal path leaves something carried in a state of another kind"""
    sv = I.snap()
    I.restore(r[2])
    I.pc.extend(r[3])
    why = I.why
    try:
        for loc, a in loc_values(cap(I)).items():
            if loc[0] in ("list", "inst", "dict", "set", "file") and loc[1] >= oid0:
                continue
            if loc in temps or loc in changed:
                continue
            b = base.get(loc, MISSING)
            if b is not MISSING and same_obj(b, a):
                continue
            try:
                if classify_loc(I, loc, b, a, s0)[0] == "const":
                    return True
            except Unsupported:
                pass
        return False
    finally:
        I.why = why
        I.restore(sv)

def last_groups(I, j, paths, last, temps, base, lastval, unset, cnt0, tag):
    """names that keep what was last assigned to them, grouped by the paths that assign them"""
    by = {}
    for loc in temps:
        vs = [d["temps"].get(loc, MISSING) for _, d in paths]
        none = lastval.get(loc, unset[loc])
        ws = tuple(not (x is none or x is not MISSING and same_obj(x, none)) for x in vs)
        if loc in last:
            if not any(ws):
                raise Unsupported("loop at %s: %r is assigned in no iteration" % (tag, loc))
        elif not any(ws) or all(ws) or value_shape(base.get(loc, MISSING)) is None:
            continue
        out = [x for x, y in zip(vs, ws) if y]
        sh = value_shape(base[loc])
        ok = all(x is not MISSING and value_shape(x) == sh for x in out) and all(same_obj(out[0], x) or eqv(I, out[0], x) for x in out[1:])
        ok = ok and not any(born(t) >= cnt0 and not t.eq(j) for t in free_consts(value_leaves(out[0])))
        if not ok:
            if loc in last:
                raise Unsupported("loop at %s: %r keeps different things: %s" % (tag, loc, out))
            continue
        by.setdefault(ws, {})[loc] = out[0]
    groups = []
    for ws, f in by.items():
        wr = []
        for (p, _), y in zip(paths, ws):
            if y:
                keep = [c for c in p if not any(born(t) >= cnt0 and not t.eq(j) for t in free_consts([c]))]
                wr.append(z3.And(*keep) if keep else z3.BoolVal(True))
        groups.append((list(f), f, z3.Or(*wr)))
    return groups

def deep_roll(I, seq):
    def one(p):
        if isinstance(p, Unit) and isinstance(p.v, LV):
            return Unit(LV(deep_roll(I, p.v.seq)))
        return p
    return tuple(I.roll([one(p) for p in seq]))

def nint_term(t):
    return simp(t)

def eqv(I, a, b):
    why = I.why
    try:
        return I.eq_val(a, b)
    except Unsupported:
        return False
    finally:
        I.why = why

class Split(Retry):
    pass

class Carried(Retry):
    pass

class Lift(Retry):
    pass

def raise_lift(I, c, j):
    I._lift = c
    raise Lift("lift")

def _recheck_without_length(I, j, n, step, changed, temps, tmpl, base, s0, fr, cond, tag, lastval={}, lastpc=()):
    """the iteration must not depend on the (wrongly) assumed length of a stretch: run it again with unknown lengths"""
    def strip(v):
        if isinstance(v, Hole):
            return Hole(v.hid, None, v.args)
        if isinstance(v, Unit):
            return Unit(strip(v.v))
        if isinstance(v, Gen):
            return Gen(v.n, v.var, [strip(p) for p in v.body])
        if isinstance(v, LV):
            return LV([strip(p) for p in v.seq])
        return v
    def setup():
        for c in lastpc:
            I.assume(c)
        for loc, k in changed.items():
            if loc in lastval:
                fr.env[loc[1]] = lastval[loc]
                continue
            if loc in temps:
                fr.env[loc[1]] = Poison("assigned in loop")
                continue
            if k[0] == "rebind":
                set_loc(I, loc, I.new_frozen(value_seq(I, base[loc], s0[0])))
                continue
            t = tmpl[loc]
            if isinstance(t, LV):
                t = LV(tuple(strip(p) for p in t.seq)) if all(lk[0] != "point" for _, lk in leaves(k)) else t
                if loc[0] in ("env", "inst", "dict"):
                    t = I.new_frozen(t.seq)
            set_loc(I, loc, t)
        if cond is not None:
            tr, I.trace = I.trace, None
            try:
                if not I.truth(cond()):
                    raise Unsupported("loop condition not implied")
            finally:
                I.trace = tr
    _explore_generic(I, j, n, step, setup)

def _contrib(I, j, s0, base, changed, temps, tmpl, oid0, fr, tag):
    """what this (normal) path of iteration j contributes to every location"""
    post = loc_values(cap(I))
    newoids = {oid for oid in I.heap if oid >= oid0}
    # lists installed by setup are new too, they are handled by value
    counts = {}
    delta, tv, ints = {}, {}, {}
    if not hasattr(I, "_elem_vars"):
        I._elem_vars = {}
    for loc, a in post.items():
        if loc[0] in ("list", "inst", "dict", "set", "file") and loc[1] >= oid0:
            continue
        if loc in temps:
            try:
                if isinstance(a, (Ref, View)) and I.list_seq(a) is not None and (has_new(a, newoids) or isinstance(a, View)):
                    tv[loc] = reify(I, LV(I.norm(I.list_seq(a))), newoids, {})
                else:
                    tv[loc] = a if not has_new(a, newoids) and not isinstance(a, View) else MISSING
            except Unsupported:
                tv[loc] = MISSING
            continue
        if loc not in changed:
            b = base.get(loc, MISSING)
            if b is MISSING or not same_obj(b, a):
                k = classify_loc(I, loc, b, a, s0)
                if k[0] != "same":
                    raise Unsupported("loop at %s: %r changes only in later iterations" % (tag, loc))
            continue
        k = changed[loc]
        if k[0] == "rebind":
            sb, sa = value_seq(I, base[loc], s0[0]), value_seq(I, a)
            if sa is None or not eqs(I, sb, sa):
                raise Unsupported("loop at %s: %r" % (tag, loc))
            continue
        if k[0] == "chain":
            if value_shape(a) != value_shape(tmpl[loc]) or not all(I.eqi(x, y) for x, y in zip(value_leaves(a), value_leaves(chain_at(tmpl[loc], k[1], 1)))):
                raise Unsupported("loop at %s: %r does not advance uniformly" % (tag, loc))
            continue
        if k[0] == "int":
            if not (isinstance(a, (int, Sc))):
                raise Unsupported("loop at %s: %r does not stay an integer" % (tag, loc))
            ints[loc] = nint(as_term(a) - as_term(tmpl[loc]))
            continue
        if isinstance(base[loc], (str, Text)):
            if not isinstance(a, (str, Text)):
                raise Unsupported("loop at %s: %r changes type" % (tag, loc))
            d = extract_seq(I, k, text_of(tmpl[loc]), text_of(a), j)
            got = {(): d.get((), ())}
        else:
            sa = value_seq(I, a)
            if sa is None:
                raise Unsupported("loop at %s: %r changes type" % (tag, loc))
            got = _extract_deep(I, k, tmpl[loc].seq, sa, j, loc, (), ())
        for path, dd in got.items():
            dd = tuple(reify(I, p, newoids, counts) for p in I.norm(dd))
            delta[(loc, path)] = dd
            if any(contains_hole(p, str(j)) for p in dd):
                if DEBUG:
                    print("  depends", tag, loc, dd)
                raise Unsupported("loop at %s: contribution to %r depends on earlier iterations" % (tag, loc))
    for oid, c in counts.items():
        if c > 1:
            raise Unsupported("loop at %s: list stored twice" % (tag,))
    for loc, v in tv.items():
        if v is not MISSING and contains_hole(v, str(j)):
            tv[loc] = MISSING
    return {"delta": delta, "temps": tv, "int": ints}

def _extract_deep(I, k, T, P, j, loc, path, evs):
    if k[0] == "multi":
        out = {}
        for i, (L, kk) in enumerate(k[1]):
            t, T = I.split_at(T, L)
            p, P = I.split_at(P, L)
            out.update(_extract_deep(I, kk, t, p, j, loc, path + (i,), evs))
        if not eqs(I, T, P):
            raise Unsupported("tail of a list changes in later iterations")
        return out
    if k[0] == "deep":
        inner = k[2]
        pre, T1 = I.split_at(T, k[1])
        pre2, P1 = I.split_at(P, k[1])
        if not eqs(I, pre, pre2):
            raise Unsupported("deep update: elements before it")
        T1, P1 = I.norm(T1), I.norm(P1)
        b, a = T1[0], P1[0]
        if not (isinstance(b, Gen) and isinstance(a, Gen) and I.eqi(a.n, b.n) and len(a.body) == 1 and isinstance(a.body[0], Unit)):
            raise Unsupported("deep update shape %r" % (a,))
        if not eqs(I, T1[1:], P1[1:]):
            raise Unsupported("deep update tail")
        ek = (loc, path, str(j), len(evs), "var")
        i = I._elem_vars.get(ek)
        if i is None:
            i = I._elem_vars[ek] = fresh_int("e")
        I.assume(i >= 0)
        I.assume(i < as_term(b.n))
        vb, va = gen_at(b, i)[0].v, gen_at(a, i)[0].v
        sb, sa = value_seq(I, vb), value_seq(I, va)
        if sb is None or sa is None:
            raise Unsupported("deep update elements")
        return _extract_deep(I, inner, sb, sa, j, loc, path, evs + (i,))
    if k[0] == "deepu":
        inner = k[2]
        pre, T1 = I.split_at(T, k[1])
        pre2, P1 = I.split_at(P, k[1])
        if not eqs(I, pre, pre2):
            raise Unsupported("deep unit update: elements before it")
        rt, rp = I.ensure_front(T1), I.ensure_front(P1)
        if not rt or not rp or not isinstance(rt[0], Unit) or not isinstance(rp[0], Unit) or not eqs(I, rt[1:], rp[1:]):
            raise Unsupported("deep unit update")
        sb, sa = value_seq(I, rt[0].v), value_seq(I, rp[0].v)
        if sb is None or sa is None:
            raise Unsupported("deep unit elements")
        return _extract_deep(I, inner, sb, sa, j, loc, path, evs)
    I._elem_vars[((loc, path), str(j))] = evs
    return {path: extract_seq(I, k, T, P, j).get((), ())}

# ------------------------------------------------------------------ while
def run_while(I, st):
    old, I.in_while = I.in_while, True
    try:
        return run_while_(I, st)
    finally:
        I.in_while = old

def run_while_(I, st):
    tag = (I.frames[-1].func.qual if I.frames[-1].func else I.frames[-1].mod, st.lineno - (I.frames[-1].func.node.lineno if I.frames[-1].func else 0))
    cond = lambda: I.eval(st.test)
    def step(j):
        try:
            I.exec_block(st.body)
        except ContinueSig:
            pass
    try:
        _run_while(I, st, tag, cond, step, lambda: distance(I, st.test))
    except BreakSig:
        return
    I.exec_block(st.orelse)

def drop_counts(I):
    """counts of leading repeats of lists in scope: candidate numbers of iterations"""
    out = []
    def add(seq):
        s = I.norm(seq)
        if s and isinstance(s[0], Gen) and not isinstance(s[0].n, int):
            out.append(s[0].n)
    for v in I.frames[-1].env.values():
        s = value_seq(I, v) if isinstance(v, (Ref, LV)) else None
        if s:
            add(s)
        if isinstance(v, Ref) and isinstance(I.heap.get(v.oid), FileO) and I.heap[v.oid].rest:
            add(I.heap[v.oid].rest)
    return out

def distance(I, test):
    """how far the condition's two sides are apart: a candidate number of iterations"""
    import ast
    if not isinstance(test, ast.Compare) or len(test.ops) != 1 or not isinstance(test.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)):
        return []
    a, b = I.eval(test.left), I.eval(test.comparators[0])
    num = lambda v: isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Sc) and v.kind == "int"
    if not num(a) or not num(b):
        return []
    if isinstance(test.ops[0], (ast.Gt, ast.GtE)):
        a, b = b, a
    d = nint(as_term(b) - as_term(a) + (1 if isinstance(test.ops[0], (ast.LtE, ast.GtE)) else 0))
    return [] if isinstance(d, int) else [d]

def _run_while(I, st, tag, cond, step, guess=lambda: []):
    # the first iterations are executed directly while the condition is settled by literals
    fuel = 40
    last = None
    used = []
    while fuel:
        fuel -= 1
        if not I.truth(cond()):
            return
        last = None
        cands = []
        for c in list(I.ghost_ints) or drop_counts(I) + guess():
            if not any(as_term(c).eq(as_term(d)) for d in cands + used):
                cands.append(c)
        for c in cands:
            if not I.entails(as_term(c) >= 1) and not (I.ghost_ints and I.decide(as_term(c) >= 1)):
                continue
            try:
                lp = I.loop_budget
                I._loop_goes_on = False
                summarise(I, c, step, tag, cond)
                if not I._loop_goes_on:
                    return
                # the first c iterations are summarised, the loop continues from there
                used.append(c)
                break
            except Unsupported as u:
                last = u
                if DEBUG:
                    print("while", tag, "count", c, ":", u)
        else:
            # no summary: execute one iteration on this path
            step(z3.IntVal(0))
    raise Unsupported("while loop at %s: no invariant found (%s)" % (tag, last))
