"""Builtins, methods of builtin types and the standard library functions nappy uses."""
import ast
import io
import os
import re
import z3
from .core import *
from . import chars
from .interp import (PYTYPES, TypeV, FuncV, ClassV, BoundV, ModV, Builtin, Extern, BMethod, RangeV, IterSegs, ListO, DictO, SetO, InstO, FileO,
                     Frame, EXC, EXC_PARENT, NUMFLAGS)

def idx_seq(I, seq, start=0):
    """enumerate"""
    out, off = [], start
    for p in I.norm(seq):
        if isinstance(p, Unit):
            out.append(Unit((mk_int(as_term(off)), fz(I, p.v))))
            off = nint(as_term(off) + 1)
        elif isinstance(p, Gen):
            if len(p.body) == 1 and isinstance(p.body[0], Unit):
                i = fresh_int("en")
                out.append(Gen(p.n, i, (Unit((mk_int(as_term(off) + i), fz(I, gen_at(p, i)[0].v))),)))
                off = nint(as_term(off) + as_term(p.n))
            else:
                raise Unsupported("enumerate nested")
        else:
            raise Unsupported("enumerate")
    return tuple(out)

def fz(I, v):
    if isinstance(v, LV):
        return v
    return v

def zip_seqs(I, seqs):
    seqs = [I.norm(s) for s in seqs]
    if all(all(isinstance(p, Unit) for p in s) for s in seqs):
        return tuple(Unit(tuple(p.v for p in ps)) for ps in zip(*seqs))
    lens = [I.seq_len(s) for s in seqs]
    n = lens[0]
    for L in lens[1:]:
        if not I.eqi(n, L):
            if I.decide(as_term(L) < as_term(n)):
                n = L
    out, off = [], 0
    heads = [s for s in seqs]
    # common refinement
    while True:
        hs = [I.norm(h) for h in heads]
        hs = [tuple(p for p in h if not (isinstance(p, Gen) and I.le(p.n, 0))) for h in hs]
        if any(not h for h in hs):
            break
        if all(isinstance(h[0], Unit) for h in hs):
            out.append(Unit(tuple(h[0].v for h in hs)))
            heads = [h[1:] for h in hs]
            continue
        if all(isinstance(h[0], Gen) for h in hs):
            m = hs[0][0].n
            for h in hs[1:]:
                if not I.eqi(h[0].n, m):
                    if I.decide(as_term(h[0].n) < as_term(m)):
                        m = h[0].n
            if not all(len(h[0].body) == 1 and isinstance(h[0].body[0], Unit) for h in hs):
                raise Unsupported("zip nested")
            i = fresh_int("z")
            out.append(Gen(m, i, (Unit(tuple(gen_at(h[0], i)[0].v for h in hs)),)))
            heads = [I.split_at(h, m)[1] for h in hs]
            continue
        nh = []
        stop = False
        for h in hs:
            e = I.ensure_front(h)
            if not e:
                stop = True
            nh.append(e)
        if stop:
            break
        out.append(Unit(tuple(h[0].v for h in nh)))
        heads = [h[1:] for h in nh]
    return tuple(out)

def is_list(I, v):
    return isinstance(v, (LV, View)) or (isinstance(v, Ref) and isinstance(I.obj(v), ListO))

def to_int(I, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            raise PyRaise(type(e).__name__)
    if isinstance(v, Sc):
        if v.kind == "int":
            return v
        if v.kind == "bool":
            return mk_int(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if v.kind == "float":
            t = v.t
            # conversion of an integer-valued real
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
                return mk_int(t.arg(0))
            f = z3.ToInt(t)
            if I.entails(t >= 0):
                return mk_int(f)
            return mk_int(z3.If(t >= 0, f, -z3.ToInt(-t)))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise("ValueError", "int()")
    if isinstance(v, Text):
        p = I.strip(v.pieces)
        if len(p) == 1 and isinstance(p[0], Atom) and p[0].fn == "tok":
            spec, t = p[0].args
            if t.sort() == z3.IntSort() and isinstance(spec, str) and re.match(r"^%0?\d*[ds]$", spec):
                return mk_int(t)
            if t.sort() == z3.RealSort():
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL and spec in ("%s", "%d"):
                    return mk_int(t.arg(0))
                # text of a real number: int() refuses it unless it is written without a point
                raise Unsupported("int() of a formatted real")
        raise Unsupported("int(%r)" % (v,))
    if v is None:
        raise PyRaise("TypeError", "int(None)")
    if isinstance(v, Opq):
        h = I.ext_handlers.get("int")
        if h:
            return h(I, v)
        return mk_int(z3.Function("int_of", z3.IntSort(), z3.IntSort())(I.opq_term(v)))
    raise Unsupported("int(%r)" % (v,))

RD = {}
def rd_fun(spec):
    """value denoted by the text a number format writes for a real number"""
    if spec not in RD:
        RD[spec] = z3.Function("RD_%s" % spec, z3.RealSort(), z3.RealSort())
    return RD[spec]

def denote(I, spec, t):
    """real denoted by format spec applied to the real t"""
    if spec in ("%s", "%d", "%r"):
        return t if t.sort() == z3.RealSort() else z3.ToReal(t)
    if t.sort() == z3.IntSort():
        t = z3.ToReal(t)
    if I.int_exact and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t
    return rd_fun(spec)(t)

def to_float(I, v):
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, Sc):
        return mk_float(real_term(v if v.kind != "bool" else to_int(I, v)))
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            raise PyRaise("ValueError", "float()")
    if isinstance(v, Text):
        p = I.strip(v.pieces)
        if len(p) == 1 and isinstance(p[0], Atom) and p[0].fn == "tok":
            spec, t = p[0].args
            if t.sort() == z3.IntSort() and spec not in ("%s", "%d") and not re.match(r"^%0?\d*d$", spec):
                # text of an opaque value
                return mk_float(rd_fun(spec + "@")(z3.ToReal(t)))
            return mk_float(denote(I, spec, t))
        if len(p) == 1 and isinstance(p[0], Atom) and p[0].fn == "numtok":
            return mk_float(z3.Function("num_of", z3.IntSort(), z3.RealSort())(I.opq_term(p[0])))
        if p and any(isinstance(q, Atom) and "notnum" in q.flags for q in p):
            raise PyRaise("ValueError", "float()")
        raise Unsupported("float(%r)" % (v,))
    if v is None:
        raise PyRaise("TypeError", "float(None)")
    if isinstance(v, Opq):
        h = I.ext_handlers.get("float")
        if h:
            return h(I, v)
    raise Unsupported("float(%r)" % (v,))

def isinstance_(I, v, t):
    if isinstance(t, tuple):
        return any(isinstance_(I, v, x) for x in t)
    t = I.norm_type(t)
    ty = I.type_of(v)
    if isinstance(t, type) and isinstance(ty, type):
        return issubclass(ty, t)
    if isinstance(ty, ClassV):
        if t is object:
            return True
        if isinstance(t, ClassV):
            return t in I.mro(ty)
        if isinstance(t, type):
            return False
        if isinstance(t, Extern):
            return any(isinstance(b, Extern) and b.name == t.name for b in I.mro(ty))
    if isinstance(t, (ClassV,)) :
        return False
    if isinstance(t, Extern):
        h = I.ext_handlers.get("isinstance")
        if h:
            r = h(I, v, t.name)
            if r is not NotImplemented:
                return r
        if isinstance(ty, type):
            return False
    if isinstance(ty, TypeV) and isinstance(t, type):
        return ty.name == t.__name__
    raise Unsupported("isinstance %r %r" % (v, t))

def builtin(I, name, args, kw):
    h = I.ext_handlers.get("builtin:" + name)
    if h:
        r = h(I, args, kw)
        if r is not NotImplemented:
            return r
    f = globals().get("b_" + name)
    if f is None:
        if name in EXC:
            return Opq("exc", (name,))
        raise Unsupported("builtin %s" % name)
    return f(I, args, kw)

def b_len(I, args, kw):
    v = args[0]
    if isinstance(v, str):
        return len(v)
    if isinstance(v, Text):
        raise Unsupported("length of text")
    if isinstance(v, Sc) and v.kind == "str":
        return mk_int(z3.Length(v.t))
    if isinstance(v, (tuple, TupSeq)) or is_list(I, v):
        return mk_int(I.seq_len(I.seq_of(v)))
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, DictO):
            if o.default is not None:
                raise Unsupported("len of abstract dict")
            return len(o.items)
        if isinstance(o, SetO):
            return len(o.items)
        if isinstance(o, InstO):
            if o.cls is not None and I.class_attr(o.cls, "__len__") is not None:
                return I.call(I.getattr_(v, "__len__"), [])
            h = I.ext_handlers.get("len:" + str(o.ext))
            if h:
                return h(I, v)
    if isinstance(v, RangeV):
        return mk_int(I.seq_len(I.seq_of(v)))
    if isinstance(v, IterSegs):
        return mk_int(I.seq_len(v.seq))
    if isinstance(v, Opq):
        h = I.ext_handlers.get("len:" + v.fn) or I.ext_handlers.get("len")
        if h:
            return h(I, v)
    if v is None or I.num(v):
        raise PyRaise("TypeError", "len()")
    raise Unsupported("len(%r)" % (v,))

def b_range(I, args, kw):
    args = [to_int_strict(I, a) for a in args]
    if len(args) == 1:
        return RangeV(0, args[0], 1)
    if len(args) == 2:
        return RangeV(args[0], args[1], 1)
    return RangeV(args[0], args[1], args[2])

def to_int_strict(I, a):
    if isinstance(a, bool):
        return int(a)
    if isinstance(a, int) or isinstance(a, Sc) and a.kind == "int":
        return a
    if isinstance(a, Sc) and a.kind == "float" or isinstance(a, (float, str, Text)) or a is None or is_list(I, a):
        raise PyRaise("TypeError", "range")
    raise Unsupported("range(%r)" % (a,))

def b_type(I, args, kw):
    return I.type_of(args[0])
def b_str(I, args, kw):
    return I.to_str(args[0]) if args else ""
def b_repr(I, args, kw):
    return I.to_str(args[0]) if I.num(args[0]) else mk_text((Atom("repr", (z3.Int(fresh_name("repr")),), {"nonempty", "nonl"}),))
def b_int(I, args, kw):
    return to_int(I, args[0]) if args else 0
def b_float(I, args, kw):
    return to_float(I, args[0]) if args else 0.0
def b_bool(I, args, kw):
    v = args[0] if args else False
    if isinstance(v, Sc) and v.kind == "bool":
        return v
    return I.truth(v)
def b_list(I, args, kw):
    if not args:
        return I.new_list(())
    return I.copy_seq(args[0], I.norm(I.seq_of(args[0])))
def b_tuple(I, args, kw):
    if not args:
        return ()
    v = args[0]
    if isinstance(v, tuple):
        return v
    s = I.norm(I.seq_of(v))
    if all(isinstance(p, Unit) for p in s):
        return tuple(p.v for p in s)
    return TupSeq(s)
def b_dict(I, args, kw):
    d = {}
    if args:
        v = args[0]
        if isinstance(v, Ref) and isinstance(I.obj(v), DictO):
            o = I.obj(v)
            r = DictO(o.items, o.default, None, o.allkeys)
            r.items.update(kw)
            return I.alloc(r)
        for p in I.norm(I.seq_of(v)):
            if not isinstance(p, Unit):
                raise Unsupported("dict of symbolic pairs")
            k, x = I.unpack(p.v, 2)
            d[I.key(k)] = I.escape(x)
    d.update(kw)
    return I.alloc(DictO(d))
def b_set(I, args, kw):
    r = I.alloc(SetO())
    if args:
        for p in I.norm(I.seq_of(args[0])):
            if not isinstance(p, Unit):
                raise Unsupported("set of symbolic sequence")
            I.set_add(I.obj(r), p.v)
    return r
def _minmax(I, args, kw, less):
    if len(args) == 1:
        s = I.norm(I.seq_of(args[0]))
        if not all(isinstance(p, Unit) for p in s):
            raise Unsupported("min/max of symbolic sequence")
        args = [p.v for p in s]
        if not args:
            raise PyRaise("ValueError")
    r = args[0]
    for x in args[1:]:
        c = I.order(ast.Lt(), x, r) if less else I.order(ast.Gt(), x, r)
        if isinstance(c, bool):
            r = x if c else r
        elif I.num(x) and I.num(r):
            a, b, k = I.arith_pair(x, r)
            t = z3.If(c.t, a, b)
            r = mk_int(t) if k == "int" else mk_float(t)
        else:
            r = x if I.truth(c) else r
    return r
def b_max(I, args, kw):
    return _minmax(I, args, kw, False)
def b_min(I, args, kw):
    return _minmax(I, args, kw, True)
def b_sum(I, args, kw):
    r = args[1] if len(args) > 1 else 0
    for p in I.norm(I.seq_of(args[0])):
        if isinstance(p, Unit):
            r = I.binop(ast.Add(), r, p.v)
        else:
            raise Unsupported("sum of symbolic sequence")
    return r
def b_abs(I, args, kw):
    v = args[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Sc):
        t = z3.If(v.t >= 0, v.t, -v.t)
        return mk_int(t) if v.kind == "int" else mk_float(t)
    raise Unsupported("abs")
def b_isinstance(I, args, kw):
    return isinstance_(I, args[0], args[1])
def b_hasattr(I, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported("hasattr symbolic")
    return I.hasattr_(args[0], args[1])
def b_getattr(I, args, kw):
    if not isinstance(args[1], str):
        h = I.ext_handlers.get("getattr_sym")
        if h:
            return h(I, args)
        raise Unsupported("getattr symbolic")
    try:
        return I.getattr_(args[0], args[1])
    except PyRaise as e:
        if e.etype == "AttributeError" and len(args) > 2:
            return args[2]
        raise
def b_setattr(I, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported("setattr symbolic")
    return I.setattr_(args[0], args[1], args[2])
def b_callable(I, args, kw):
    return isinstance(args[0], (FuncV, BoundV, ClassV, Builtin, BMethod, Extern))
def b_print(I, args, kw):
    return None
def b_super(I, args, kw):
    from .interp import SuperV
    return SuperV(args[1], args[0])
def b_vars(I, args, kw):
    v = args[0]
    o = I.obj(v)
    if isinstance(o, InstO):
        return I.alloc(DictO(o.attrs))
    raise Unsupported("vars")
def b_enumerate(I, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    return IterSegs(idx_seq(I, I.seq_of(args[0]), start))
def b_zip(I, args, kw):
    return IterSegs(zip_seqs(I, [I.seq_of(a) for a in args]))
def b_reversed(I, args, kw):
    return IterSegs(I.reverse_seq(I.seq_of(args[0])))
def b_iter(I, args, kw):
    return args[0]
def b_map(I, args, kw):
    from . import loops
    seq = I.norm(I.seq_of(args[1]))
    acc = I.new_list(())
    def element(v):
        r = I.escape(I.call(args[0], [v]))
        o = I.obj(acc)
        o.seq = I.norm(o.seq + (Unit(r),))
        o.ver += 1
    loops.run_segments(I, seq, args[1], element, ("map", 0))
    return acc
def b_filter(I, args, kw):
    raise Unsupported("filter")
def b_sorted(I, args, kw):
    s = I.norm(I.seq_of(args[0]))
    if "sort" in I.ext_handlers:
        return I.new_list(I.ext_handlers["sort"](I, s, kw))
    if all(isinstance(p, Unit) and isinstance(p.v, (int, float, str)) for p in s) and not kw:
        return I.new_list([Unit(x) for x in sorted(p.v for p in s)])
    # selection sort on symbolic numbers
    if all(isinstance(p, Unit) and I.num(p.v) for p in s) and not kw:
        vals = [p.v for p in s]
        for i in range(len(vals)):
            for k in range(len(vals) - 1 - i):
                if I.truth(I.order(ast.Gt(), vals[k], vals[k + 1])):
                    vals[k], vals[k + 1] = vals[k + 1], vals[k]
        return I.new_list([Unit(v) for v in vals])
    raise Unsupported("sorted")
def b_divmod(I, args, kw):
    a, b = args
    return (I.binop(ast.FloorDiv(), a, b), I.binop(ast.Mod(), a, b))
def b_round(I, args, kw):
    if all(isinstance(a, (int, float)) for a in args):
        return round(*args)
    raise Unsupported("round")
def _anyall(I, v, isany):
    terms = []
    for p in I.norm(I.seq_of(v)):
        if isinstance(p, Unit):
            x = p.v
            t = x.t if isinstance(x, Sc) and x.kind == "bool" else z3.BoolVal(I.truth(x))
            terms.append(t)
        elif isinstance(p, Gen) and len(p.body) == 1 and isinstance(p.body[0], Unit):
            i = fresh_int("q")
            x = gen_at(p, i)[0].v
            if isinstance(x, bool):
                t = z3.BoolVal(x)
            elif isinstance(x, Sc) and x.kind == "bool":
                t = x.t
            else:
                raise Unsupported("any/all element %r" % (x,))
            rng = z3.And(i >= 0, i < as_term(p.n))
            terms.append(z3.Exists([i], z3.And(rng, t)) if isany else z3.ForAll([i], z3.Implies(rng, t)))
        else:
            raise Unsupported("any/all")
    if not terms:
        return not isany
    return mk_bool(z3.Or(*terms) if isany else z3.And(*terms))
def b_any(I, args, kw):
    return _anyall(I, args[0], True)
def b_all(I, args, kw):
    return _anyall(I, args[0], False)
def b_exec(I, args, kw):
    src = args[0]
    if not isinstance(src, str):
        raise Unsupported("exec of symbolic text")
    for st in ast.parse(src).body:
        I.exec(st)
def b_eval(I, args, kw):
    src = args[0]
    if not isinstance(src, str):
        raise Unsupported("eval of symbolic text")
    return I.eval(ast.parse(src, mode="eval").body)
def b_object(I, args, kw):
    return I.alloc(InstO(None, {}, "object"))

def fname_key(I, name):
    return name if isinstance(name, str) else mk_text(text_of(name)) if isinstance(name, Text) else name

def b_open(I, args, kw):
    name = args[0]
    mode = args[1] if len(args) > 1 else kw.get("mode", "r")
    h = I.ext_handlers.get("open")
    if h:
        r = h(I, name, mode)
        if r is not NotImplemented:
            return r
    if not isinstance(mode, str):
        raise Unsupported("open mode")
    if mode.startswith("r"):
        content = fs_get(I, name)
        if content is None:
            raise PyRaise("FileNotFoundError")
        lines = I.lines(content) if not isinstance(content, LV) else content.seq
        return I.alloc(FileO("r", name, (), lines))
    if mode.startswith("w"):
        r = I.alloc(FileO("w", name, ()))
        I.filelog = I.filelog + (Unit((name, r)),)
        return r
    raise Unsupported("open mode %r" % mode)

def fs_get(I, name):
    """content of an existing file: given, or written by an earlier open(…, 'w')"""
    for p in reversed(I.filelog):
        if not isinstance(p, Unit):
            raise Unsupported("file written in a loop")
        nm, f = p.v
        same = nm == name if isinstance(nm, str) and isinstance(name, str) else I.eq_val(nm, name)
        I.why = ""
        if same:
            if isinstance(f, Ref):
                o = I.obj(f)
                if o.content and not getattr(o, "flushed", True):
                    raise PyRaise("StaleRead", "reading a file whose last output has not been flushed")
                return o.content
            return f
        if not (isinstance(nm, str) and isinstance(name, str)):
            raise Unsupported("file names may coincide")
    for nm, c in I.fs.items():
        if nm == name:
            return c
        if not isinstance(name, str) and I.eq_val(nm, name):
            return c
    return None

# ---------------------------------------------------------------- methods
def method(I, recv, name, args, kw):
    if isinstance(recv, (str, Text)):
        if isinstance(recv, str) and name not in ("join", "format") and all(isinstance(a, (str, int, type(None), tuple)) for a in args):
            try:
                r = getattr(recv, name)(*args, **kw)
            except (AttributeError, ValueError, IndexError, TypeError) as e:
                raise PyRaise(type(e).__name__)
            if isinstance(r, list):
                return I.new_list([Unit(x) for x in r])
            return r
        f = globals().get("t_" + name)
        if f is None:
            raise Unsupported("str.%s" % name)
        return f(I, recv, args, kw)
    if isinstance(recv, Sc) and recv.kind == "str":
        from . import strmode
        return strmode.method(I, recv, name, args, kw)
    if is_list(I, recv):
        f = globals().get("l_" + name)
        if f is None:
            raise Unsupported("list.%s" % name)
        return f(I, recv, args, kw)
    if isinstance(recv, (tuple, TupSeq)):
        if name == "index":
            return l_index(I, recv, args, kw)
        if name == "count":
            raise Unsupported("tuple.count")
        raise PyRaise("AttributeError", name)
    if isinstance(recv, Ref):
        o = I.obj(recv)
        if isinstance(o, DictO):
            f = globals().get("d_" + name)
            if f is None:
                if not hasattr(dict, name):
                    raise PyRaise("AttributeError", name)
                raise Unsupported("dict.%s" % name)
            return f(I, recv, args, kw)
        if isinstance(o, SetO):
            if name == "add":
                I.set_add(o, args[0])
                return None
            if name == "update":
                for p in I.norm(I.seq_of(args[0])):
                    if not isinstance(p, Unit):
                        raise Unsupported("set.update")
                    I.set_add(o, p.v)
                return None
            raise Unsupported("set.%s" % name)
        if isinstance(o, FileO):
            f = globals().get("f_" + name)
            if f is None:
                raise Unsupported("file.%s" % name)
            return f(I, recv, args, kw)
    if isinstance(recv, (int, float)) or isinstance(recv, Sc):
        raise PyRaise("AttributeError", name)
    raise Unsupported("method %s of %r" % (name, recv))

# strings
def t_strip(I, t, a, kw):
    return mk_text(I.strip(text_of(t), a[0] if a else None))
def t_rstrip(I, t, a, kw):
    return mk_text(I.rstrip(text_of(t), a[0] if a else None))
def t_lstrip(I, t, a, kw):
    return mk_text(I.lstrip(text_of(t), a[0] if a else None))
def t_split(I, t, a, kw):
    sep = a[0] if a else kw.get("sep")
    if sep is None:
        return I.new_list(I.tokens(text_of(t)))
    if sep == "\n":
        parts, cur = [], []
        seq = I.lines(text_of(t))
        out = []
        def cut(ps):
            r = []
            for p in ps:
                if isinstance(p, Unit):
                    q = list(text_of(p.v))
                    if q and isinstance(q[-1], str) and q[-1].endswith("\n"):
                        q[-1] = q[-1][:-1]
                        r.append(Unit(mk_text(q)))
                    else:
                        r.append(Unit(("last", mk_text(q))))
                elif isinstance(p, Gen):
                    r.append(Gen(p.n, p.var, cut(p.body)))
                else:
                    raise Unsupported("split lines")
            return r
        r = cut(seq)
        if r and isinstance(r[-1], Unit) and isinstance(r[-1].v, tuple):
            r[-1] = Unit(r[-1].v[1])
        else:
            r.append(Unit(""))
        return I.new_list(I.norm(r))
    # literal separator that no unknown piece contains; repeats start with it
    def items(pieces):
        out, cur = [], []
        for p in pieces:
            if isinstance(p, str):
                for k, s in enumerate(p.split(sep)):
                    if k:
                        if cur is not None:
                            out.append(Unit(mk_text(cur)))
                        cur = []
                    if s:
                        if cur is None:
                            raise Unsupported("split(%r) behind a repeat" % sep)
                        cur.append(s)
            elif isinstance(p, Atom) and (("no" + sep) in p.flags or ("tok" in p.flags and sep.isspace()) or (len(sep) == 1 and sep not in chars.info(I, p).cs)):
                if cur is None:
                    raise Unsupported("split(%r) behind a repeat" % sep)
                cur.append(p)
            elif isinstance(p, Gen) and p.body and isinstance(p.body[0], str) and p.body[0].startswith(sep):
                body = items((p.body[0][len(sep):],) + p.body[1:])
                if cur is not None:
                    out.append(Unit(mk_text(cur)))
                cur = None          # the last item is complete: the text ends or a separator follows
                out.append(Gen(p.n, p.var, body))
            else:
                raise Unsupported("split(%r) of %r" % (sep, p))
        if cur is not None:
            out.append(Unit(mk_text(cur)))
        return out
    out = items(I.norm(text_of(t)))
    if len(a) > 1 or "maxsplit" in kw:
        raise Unsupported("maxsplit")
    return I.new_list(out)
def t_splitlines(I, t, a, kw):
    keep = a[0] if a else kw.get("keepends", False)
    if I.truth(keep):
        return I.new_list(I.lines(text_of(t)))
    r = t_split(I, t, ["\n"], {})
    o = I.obj(r)
    s = I.norm(o.seq)
    if s and isinstance(s[-1], Unit) and s[-1].v == "":
        s = s[:-1]
    o.seq = s
    return r
def t_join(I, t, a, kw):
    return mk_text(I.join(text_of(t), I.seq_of(a[0])))
def t_replace(I, t, a, kw):
    old, new = a[0], a[1]
    out = []
    if (old, new) == ("\n\n", "\n") and any(isinstance(p, Gen) for p in text_of(t)):
        return mk_text(replace_blank_lines(I, text_of(t)))
    for p in text_of(t):
        if isinstance(p, str):
            out.append(p.replace(old, new))
        elif isinstance(p, Atom) and ("no" + old in p.flags or (old.strip() == "" and "tok" in p.flags) or ("nonl" in p.flags and old == "\n")):
            out.append(p)
        elif isinstance(p, Atom) and "nonl" in p.flags and "nonempty" in p.flags and "\n" in old:
            out.append(p)
        else:
            raise Unsupported("replace in %r" % (p,))
    return mk_text(out)
def replace_blank_lines(I, t):
    """"\n\n" becomes "\n" once, where lines are repeats of a line break and something on one line"""
    line = lambda p: isinstance(p, Atom) and {"nonl", "nonempty"} <= p.flags
    todo, out = list(I.norm(t)), []
    while todo:
        p = todo.pop(0)
        if isinstance(p, Gen):
            b = I.norm(p.body)
            if not (b and b[0] == "\n" and len(b) > 1 and all(line(q) or isinstance(q, str) and q and "\n" not in q for q in b[1:])):
                raise Unsupported("replace in %r" % (p,))
            if out and isinstance(out[-1], str) and out[-1].endswith("\n"):
                # the first line follows a line break
                if not I.decide(as_term(p.n) > 0):
                    continue
                first = subst_seq(p.body, [(p.var, z3.IntVal(0))])
                rest = Gen(nint(as_term(p.n) - 1), p.var, subst_seq(p.body, [(p.var, p.var + 1)]))
                todo = list(first) + [rest] + todo
            elif I.decide(as_term(p.n) > 0):
                out.append(p)
        elif isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif isinstance(p, str) or line(p):
            out.append(p)
        else:
            raise Unsupported("replace in %r" % (p,))
    return tuple(p.replace("\n\n", "\n") if isinstance(p, str) else p for p in out)
def t_upper(I, t, a, kw):
    return mapcase(I, t, "upper")
def t_lower(I, t, a, kw):
    return mapcase(I, t, "lower")
def mapcase(I, t, how):
    out = []
    for p in text_of(t):
        if isinstance(p, str):
            out.append(getattr(p, how)())
        elif isinstance(p, Atom):
            out.append(Atom(how, (I.opq_term(p),), p.flags))
        else:
            raise Unsupported(how)
    return mk_text(out)
def t_startswith(I, t, a, kw):
    pre = a[0]
    p = text_of(t)
    if isinstance(pre, str) and p and isinstance(p[0], str) and (len(p[0]) >= len(pre) or not pre.startswith(p[0])):
        return p[0].startswith(pre)
    if isinstance(pre, str) and p and isinstance(p[0], Atom):
        return mk_bool(I.opq_bool("startswith", p[0], pre))
    raise Unsupported("startswith")
def t_endswith(I, t, a, kw):
    suf = a[0]
    p = text_of(t)
    if isinstance(suf, str) and p and isinstance(p[-1], str) and (len(p[-1]) >= len(suf) or not suf.endswith(p[-1])):
        return p[-1].endswith(suf)
    raise Unsupported("endswith")
def t_find(I, t, a, kw):
    p = text_of(t)
    if len(a) != 1 or kw or not isinstance(a[0], str):
        raise Unsupported("find %r in %r" % (a, t))
    if all(isinstance(x, str) for x in p):
        return "".join(p).find(a[0])
    if isinstance(p[0], str) and a[0] in p[0]:
        return p[0].find(a[0])
    if len(p) == 1 and isinstance(p[0], Atom):
        if not (set(a[0]) & chars.UNI) <= chars.atom_info(p[0]).cs:
            return -1
        at = I.opq_term(p[0])
        r = z3.Function("find_" + a[0], at.sort(), z3.IntSort())(at)
        I.assume(r >= -1)
        return mk_int(r)
    raise Unsupported("find %r in %r" % (a, t))
def t_format(I, t, a, kw):
    if not isinstance(t, str):
        raise Unsupported("format")
    out, pos, k = [], 0, 0
    for m in re.finditer(r"\{(\w*)(?::([^{}]*))?\}", t):
        out.append(t[pos:m.start()])
        pos = m.end()
        nm = m.group(1)
        if nm == "":
            v = a[k]
            k += 1
        elif nm.isdigit():
            v = a[int(nm)]
        else:
            v = kw[nm]
        if m.group(2):
            out.extend(I.fstr(v, m.group(2)))
        else:
            out.extend(text_of(I.to_str(v)))
    out.append(t[pos:])
    return mk_text(out)
def t_isdigit(I, t, a, kw):
    p = text_of(t)
    return mk_bool(I.opq_bool("isdigit", *[x if isinstance(x, Atom) else x for x in p]))
def t_count(I, t, a, kw):
    """occurrences of one character"""
    sub = a[0]
    if not isinstance(sub, str) or len(a) > 1 or len(sub) != 1:
        raise Unsupported("str.count")
    def count(pieces):
        n = z3.IntVal(0)
        for p in pieces:
            if isinstance(p, str):
                n = n + p.count(sub)
            elif isinstance(p, Gen):
                m = count(p.body)
                if occurs(p.var, m):
                    raise Unsupported("count in %r" % (p,))
                n = n + m * as_term(p.n)
            elif sub in chars.info(I, p).cs:
                raise Unsupported("count in %r" % (p,))
        return simp(n)
    return mk_int(count(text_of(t)))
def t_index(I, t, a, kw):
    raise Unsupported("str.index")
def t_title(I, t, a, kw):
    raise Unsupported("str.title")

# lists
def l_append(I, l, a, kw):
    o = I.list_obj(l, True, True)
    v = I.escape(a[0])
    o = I.list_obj(l, True, False)
    o.seq = I.norm(tuple(o.seq) + (Unit(v),))
def l_extend(I, l, a, kw):
    o = I.list_obj(l, True, True)
    s = I.seq_of(a[0])
    if I._has_lv_any(s):
        # the elements are shared with the source
        ms = a[0]
        if isinstance(ms, View):
            ms = I.materialise(ms)
        if any(isinstance(p, (Unit, Gen)) and I._has_lv(p) for p in s):
            if isinstance(ms, Ref) and isinstance(I.obj(ms), ListO):
                I.obj(ms).inner_frozen = True
            o.inner_frozen = True
    o.seq = I.norm(tuple(o.seq) + tuple(s))
def l_insert(I, l, a, kw):
    v = I.escape(a[1])
    o = I.list_obj(l, True, True)
    k = a[0]
    if isinstance(k, int) and k == 0:
        o.seq = I.norm((Unit(v),) + tuple(o.seq))
        return
    k = nint(as_term(k))
    if isinstance(k, int) and k < 0:
        raise Unsupported("insert at negative index")
    x, y = I.split_at(o.seq, k)
    o.seq = I.norm(tuple(x) + (Unit(v),) + tuple(y))
def l_reverse(I, l, a, kw):
    o = I.list_obj(l, True, True)
    o.seq = I.norm(I.reverse_seq(o.seq))
def l_pop(I, l, a, kw):
    o = I.list_obj(l, True, False)
    if not I.decide(as_term(I.seq_len(o.seq)) > 0):
        raise PyRaise("IndexError")
    k = a[0] if a else -1
    v = I.elem(l, o.seq, k)
    if isinstance(v, View):
        v = I.materialise(v)
    o = I.list_obj(l, True, True)
    k2 = nint(as_term(k))
    if isinstance(k2, int) and k2 < 0:
        k2 = nint(as_term(k2) + as_term(I.seq_len(o.seq)))
    x, y = I.split_at(o.seq, k2)
    y = I.ensure_front(y)
    o.seq = I.norm(tuple(x) + tuple(y[1:]))
    return v
def l_remove(I, l, a, kw):
    s = I.norm(I.seq_of(l))
    for k, p in enumerate(s):
        if not isinstance(p, Unit):
            raise Unsupported("remove from symbolic list")
        if I.truth(I.eq(a[0], p.v)):
            o = I.list_obj(l, True, True)
            o.seq = tuple(s[:k]) + tuple(s[k + 1:])
            return None
    raise PyRaise("ValueError")
def l_index(I, l, a, kw):
    s = I.norm(I.seq_of(l))
    off = 0
    for k, p in enumerate(s):
        if isinstance(p, Unit):
            if I.truth(I.eq(a[0], p.v)):
                return mk_int(as_term(off))
            off = nint(as_term(off) + 1)
        elif isinstance(p, Gen) and len(p.body) == 1 and isinstance(p.body[0], Unit):
            # first position in the repeat, if any
            q = fresh_int("ix")
            r = I.eq(a[0], gen_at(p, q)[0].v)
            if r is False:
                off = nint(as_term(off) + as_term(p.n))
                continue
            rt = r.t if isinstance(r, Sc) else z3.BoolVal(r)
            b = fresh_int("ixq")
            found = z3.Bool(fresh_name("found"))
            none = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < as_term(p.n)), z3.Not(rt)))
            if I.decide(found):
                rb = z3.substitute(rt, (q, b))
                I.assume(b >= 0)
                I.assume(b < as_term(p.n))
                I.assume(rb)
                I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < b), z3.Not(rt))))
                if not I.feasible():
                    from .interp import PathEnd
                    raise PathEnd()
                return mk_int(as_term(off) + b)
            I.assume(none)
            if not I.feasible():
                from .interp import PathEnd
                raise PathEnd()
            off = nint(as_term(off) + as_term(p.n))
        else:
            raise Unsupported("list.index")
    raise PyRaise("ValueError", "not in list")
def l_copy(I, l, a, kw):
    return I.copy_seq(l, I.list_seq(l))
def l_sort(I, l, a, kw):
    r = b_sorted(I, [l], kw)
    o = I.list_obj(l, True, True)
    o.seq = I.obj(r).seq
def l_count(I, l, a, kw):
    n = z3.IntVal(0)
    for p in I.norm(I.seq_of(l)):
        if not isinstance(p, Unit):
            raise Unsupported("count")
        r = I.eq(a[0], p.v)
        n = n + (z3.If(r.t, z3.IntVal(1), z3.IntVal(0)) if isinstance(r, Sc) else int(bool(r)))
    return mk_int(n)
def l_clear(I, l, a, kw):
    o = I.list_obj(l, True, True)
    o.seq = ()

# dicts
def d_keys(I, d, a, kw):
    o = I.obj(d)
    if o.default is not None and o.allkeys:
        return o.default("keys", None)
    return I.new_list([Unit(k) for k in o.items])
def d_values(I, d, a, kw):
    o = I.obj(d)
    if o.default is not None and o.allkeys:
        raise Unsupported("values of abstract dict")
    return I.new_list([Unit(o.items[k]) for k in o.items])
def d_items(I, d, a, kw):
    o = I.obj(d)
    if o.default is not None and o.allkeys:
        raise Unsupported("items of abstract dict")
    return I.new_list([Unit((k, o.items[k])) for k in o.items])
def d_get(I, d, a, kw):
    o = I.obj(d)
    default = a[1] if len(a) > 1 else kw.get("default")
    k = a[0]
    if isinstance(k, (Text, Sc, Opq, Atom)):
        if o.default is not None and o.allkeys:
            if I.truth(o.default("in", k)):
                return o.default("get", k)
            return default
        for kk, vv in o.items.items():
            if I.truth(I.eq(k, kk)):
                return vv
        return default
    if k in o.items:
        return o.items[k]
    if o.default is not None:
        if I.truth(o.default("in", k)):
            return o.default("get", k)
    return default
def d_has_key(I, d, a, kw):
    raise PyRaise("AttributeError", "has_key")
def d_copy(I, d, a, kw):
    o = I.obj(d)
    return I.alloc(DictO(o.items, o.default, None, o.allkeys))
def d_update(I, d, a, kw):
    o = I.obj(d)
    if o.frozen:
        raise Unsupported("mutating a shared dict")
    if a:
        s = I.obj(a[0])
        if not isinstance(s, DictO) or s.default is not None:
            raise Unsupported("dict.update")
        o.items.update(s.items)
    o.items.update(kw)
def d_setdefault(I, d, a, kw):
    o = I.obj(d)
    if a[0] in o.items:
        return o.items[a[0]]
    if o.default is not None:
        raise Unsupported("setdefault")
    o.items[I.key(a[0])] = I.escape(a[1] if len(a) > 1 else None)
    return o.items[a[0]]
def d_pop(I, d, a, kw):
    o = I.obj(d)
    if o.frozen:
        raise Unsupported("mutating a shared dict")
    if a[0] in o.items:
        return o.items.pop(a[0])
    if o.default is not None:
        raise Unsupported("dict.pop")
    if len(a) > 1:
        return a[1]
    raise PyRaise("KeyError")

# files
def f_write(I, f, a, kw):
    o = I.obj(f)
    if o.closed is not False:
        if I.truth(o.closed):
            raise PyRaise("ValueError", "I/O operation on closed file")
    if o.mode == "r":
        raise PyRaise("io.UnsupportedOperation")
    if not isinstance(a[0], (str, Text)):
        if isinstance(a[0], Opq):
            raise Unsupported("write opaque")
        raise PyRaise("TypeError", "write() argument must be str")
    if o.rest is not None and o.kind == "stringio":
        raise Unsupported("write after seek")
    o.content = Text(tuple(o.content) + text_of(a[0])).pieces
    o.flushed = False
def f_writelines(I, f, a, kw):
    f_write(I, f, [mk_text(I.join_lines(I.norm(I.seq_of(a[0]))))], {})
def _check_open(I, o):
    if o.closed is not False and I.truth(o.closed):
        raise PyRaise("ValueError", "I/O operation on closed file")
    if o.mode == "w":
        raise PyRaise("io.UnsupportedOperation")
def f_readline(I, f, a, kw):
    o = I.obj(f)
    _check_open(I, o)
    if o.rest is None:
        raise Unsupported("readline before seek")
    s = I.ensure_front(o.rest)
    if not s:
        o.rest = ()
        return ""
    o.rest = tuple(s[1:])
    return s[0].v
def f_readlines(I, f, a, kw):
    o = I.obj(f)
    _check_open(I, o)
    if o.rest is None:
        raise Unsupported("readlines before seek")
    r = I.new_list(I.norm(o.rest))
    o.rest = ()
    return r
def f_read(I, f, a, kw):
    o = I.obj(f)
    _check_open(I, o)
    if a:
        raise Unsupported("read(n)")
    if o.rest is None:
        raise Unsupported("read before seek")
    t = mk_text(I.join_lines(I.norm(o.rest)))
    o.rest = ()
    return t
def f_getvalue(I, f, a, kw):
    return mk_text(I.obj(f).content)
def f_seek(I, f, a, kw):
    o = I.obj(f)
    if a[0] != 0:
        raise Unsupported("seek")
    if o.kind == "stringio":
        o.rest = I.lines(o.content)
        return 0
    if o.mode == "r":
        c = fs_get(I, o.name)
        o.rest = I.lines(c) if not isinstance(c, LV) else c.seq
        return 0
    raise Unsupported("seek in output file")
def f_flush(I, f, a, kw):
    o = I.obj(f)
    if o.closed is not False and I.truth(o.closed):
        raise PyRaise("ValueError", "I/O operation on closed file")
    o.flushed = True
def f_close(I, f, a, kw):
    o = I.obj(f)
    o.closed = True
    o.flushed = True
def f___enter__(I, f, a, kw):
    return f
def f_truncate(I, f, a, kw):
    raise Unsupported("truncate")

# ---------------------------------------------------------------- standard library
def extern(I, name, args, kw):
    h = I.ext_handlers.get("call:" + name)
    if h:
        r = h(I, args, kw)
        if r is not NotImplemented:
            return r
    f = EXT.get(name)
    if f is not None:
        return f(I, args, kw)
    root = name.split(".")[0]
    if root in ("logging",):
        return Opq("logger", ()) if name.endswith("getLogger") else None
    g = I.ext_handlers.get("extern:" + root)
    if g:
        return g(I, name, args, kw)
    raise Unsupported("external function %s" % name)

def x_stringio(I, args, kw):
    f = FileO("rw", None, text_of(args[0]) if args else ())
    f.kind = "stringio"
    if args:
        f.rest = I.lines(text_of(args[0]))
    return I.alloc(f)
def x_re_compile(I, args, kw):
    if not isinstance(args[0], str):
        raise Unsupported("re.compile")
    return Opq("regex", (args[0],))
def x_re_method(name):
    def go(I, args, kw):
        from . import regex
        pat, rest = args[0], list(args[1:])
        if kw:
            raise Unsupported("re.%s options" % name)
        if isinstance(pat, Opq) and pat.fn == "regex":
            pat = pat.args[0]
        if name == "sub" and all(isinstance(a, str) for a in rest):
            return re.sub(pat, *rest)
        return regex.do(I, pat, name, rest, kw)
    return go
def x_re_split(I, args, kw):
    pat, t = args[0], args[1]
    if isinstance(t, str) and isinstance(pat, str):
        return I.new_list([Unit(x) for x in re.split(pat, t)])
    if pat == r"\s+":
        # on text without leading or trailing white space this is str.split(), except that '' gives ['']
        p = text_of(t)
        s = I.tokens(p)
        out = I.norm(s)
        q = I.strip(p)
        same = len(q) == len(p)
        if not same or not I.eq_seq(q, p):
            raise Unsupported("re.split with outer white space")
        I.why = ""
        if not I.decide(as_term(I.seq_len(out)) >= 1):
            return I.new_list([Unit("")])
        return I.new_list(out)
    raise Unsupported("re.split")
def x_deepcopy(I, args, kw):
    memo = {}
    def cp(v):
        if isinstance(v, View):
            v = I.resolve_view(v)
        if isinstance(v, Ref):
            if v.oid in memo:
                return memo[v.oid]
            o = I.obj(v)
            if isinstance(o, ListO):
                r = I.new_list(())
                memo[v.oid] = r
                I.obj(r).seq = cpseq(o.seq)
                return r
            if isinstance(o, DictO):
                r = I.alloc(DictO({}, o.default, None, o.allkeys))
                memo[v.oid] = r
                I.obj(r).known = {k: cp(x) for k, x in o.items.items()}
                return r
            raise Unsupported("deepcopy of %s" % type(o).__name__)
        if isinstance(v, tuple):
            return tuple(cp(x) for x in v)
        return v
    def cpseq(s):
        out = []
        for p in s:
            if isinstance(p, Unit):
                out.append(Unit(cp(p.v)))
            elif isinstance(p, Gen):
                out.append(Gen(p.n, p.var, cpseq(p.body)))
            else:
                out.append(p)
        return tuple(out)
    return cp(args[0])
def last_slash(I, pieces):
    """(k, j): the last '/' is character j of literal piece k; None when there is none"""
    for k in range(len(pieces) - 1, -1, -1):
        p = pieces[k]
        if isinstance(p, str):
            j = p.rfind("/")
            if j >= 0:
                return k, j
        elif "/" in chars.info(I, p).cs:
            raise Unsupported("file name %r" % (p,))
    return None
def x_basename(I, args, kw):
    v = args[0]
    if isinstance(v, str):
        return os.path.basename(v)
    t = text_of(v)
    at = last_slash(I, t)
    if at is None:
        return v
    k, j = at
    return mk_text((t[k][j + 1:],) + t[k + 1:])
def x_join(I, args, kw):
    if all(isinstance(a, str) for a in args):
        return os.path.join(*args)
    if len(args) == 2:
        a, b = text_of(args[0]), text_of(args[1])
        if b and isinstance(b[0], str) and b[0].startswith("/"):
            return args[1]
        if b and (isinstance(b[0], str) or (chars.info(I, b[0]).min and "/" not in chars.info(I, b[0]).first)):
            if not a:
                return args[1]
            if isinstance(a[-1], str):
                return mk_text(a + ("" if a[-1].endswith("/") else "/",) + b)
            if chars.info(I, a[-1]).min and "/" not in chars.info(I, a[-1]).last:
                return mk_text(a + ("/",) + b)
    raise Unsupported("os.path.join")
def x_time(I, args, kw):
    return Opq("time", (z3.Int(fresh_name("now")),))
def x_pathsplit(I, args, kw):
    import os
    if isinstance(args[0], str):
        return os.path.split(args[0])
    return (x_dirname(I, args, kw), x_basename(I, args, kw))

def x_splitext(I, args, kw):
    """the extension starts at the last '.' of the last path component, unless only dots precede it there"""
    v = args[0]
    if isinstance(v, str):
        return os.path.splitext(v)
    t = text_of(v)
    at = None
    for k in range(len(t) - 1, -1, -1):
        p = t[k]
        if isinstance(p, str):
            j = max(p.rfind("."), p.rfind("/"))
            if j >= 0:
                at = (k, j)
                break
        elif chars.info(I, p).cs & {".", "/"}:
            raise Unsupported("extension of %r" % (p,))
    if at is None or t[at[0]][at[1]] == "/":
        return (v, "")
    k, j = at
    head, tail = mk_text(t[:k] + (t[k][:j],)), mk_text((t[k][j:],) + t[k + 1:])
    for p in reversed(text_of(head)):
        if isinstance(p, str):
            for c in reversed(p):
                if c == "/":
                    return (v, "")
                if c != ".":
                    return (head, tail)
        else:
            i = chars.info(I, p)
            if i.cs == frozenset("."):
                continue
            if "/" in i.cs or not i.min or "." in i.last:
                raise Unsupported("extension behind %r" % (p,))
            return (head, tail)
    return (v, "")
def x_dirname(I, args, kw):
    v = args[0]
    if isinstance(v, str):
        return os.path.dirname(v)
    t = text_of(v)
    at = last_slash(I, t)
    if at is None:
        return ""
    k, j = at
    head = mk_text(t[:k] + (t[k][:j],))
    h = text_of(head)
    if h and isinstance(h[-1], str) and not h[-1].endswith("/") or h and not isinstance(h[-1], str) and chars.info(I, h[-1]).min and "/" not in chars.info(I, h[-1]).last:
        return head
    if not h:
        return "/"
    raise Unsupported("dirname of %r" % (v,))
def x_copy(I, args, kw):
    v = args[0]
    if is_list(I, v):
        return I.copy_seq(v, I.list_seq(v))
    if isinstance(v, Ref) and isinstance(I.obj(v), DictO):
        return d_copy(I, v, [], {})
    return v

def x_getopt(I, args, kw):
    """the real getopt on the arguments, each unknown text standing for itself; it only looks at the first characters
    of an argument and at the literal text before '='"""
    import getopt
    b = dict(zip(("args", "shortopts", "longopts"), args), **kw)
    short = b["shortopts"]
    long_ = []
    if "longopts" in b:
        for p in I.norm(I.seq_of(b["longopts"])):
            if not isinstance(p, Unit) or not isinstance(p.v, str):
                raise Unsupported("getopt options")
            long_.append(p.v)
    seq = I.norm(I.seq_of(b["args"]))
    if not isinstance(short, str) or not all(isinstance(p, Unit) for p in seq):
        raise Unsupported("getopt")
    marks, argv = {}, []
    for p in seq:
        t = text_of(p.v)
        if t and not isinstance(t[0], str):
            i = chars.info(I, t[0])
            dash = not i.min or "-" in i.first
        else:
            # joined forms: the literal part must settle which option it is
            h = t[0] if t else ""
            rest = len(t) > 1
            if rest and h.startswith("--") and "=" not in h or rest and h == "-":
                raise Unsupported("getopt argument %r" % (p.v,))
            dash = False
        s = ""
        for q in t:
            if isinstance(q, str):
                s += q
            else:
                m = chr(0xE000 + len(marks))
                marks[m] = q
                s += m
        argv.append((s, dash))
    def back(s):
        out = []
        for c in s:
            out.append(marks.get(c, c))
        return mk_text(out)
    used = [s for s, d in argv]
    try:
        opts, rest = getopt.getopt(used, short, long_)
    except getopt.GetoptError as e:
        raise PyRaise("GetoptError", back(str(e)))
    # a text that may start with '-' must have been taken as the value of the option before it
    val = set()
    for k, (s, d) in enumerate(argv):
        if d and not (k and any(v == s for o, v in opts) and s not in rest):
            raise Unsupported("argument that may be an option")
    return (I.new_list([Unit((o, back(v))) for o, v in opts]), I.new_list([Unit(back(s)) for s in rest]))
def x_exit(I, args, kw):
    raise PyRaise("SystemExit", args[0] if args else None)

EXT = {"getopt.getopt": x_getopt, "sys.exit": x_exit, "io.StringIO": x_stringio, "StringIO.StringIO": x_stringio, "re.compile": x_re_compile, "re.split": x_re_split,
       "re.match": x_re_method("match"), "re.search": x_re_method("search"), "re.fullmatch": x_re_method("fullmatch"), "re.sub": x_re_method("sub"),
       "copy.deepcopy": x_deepcopy, "copy.copy": x_copy, "os.path.basename": x_basename, "os.path.join": x_join,
       "os.path.splitext": x_splitext, "os.path.dirname": x_dirname, "os.path.split": x_pathsplit, "time.time": x_time, "time.localtime": x_time, "time.strftime": None}
