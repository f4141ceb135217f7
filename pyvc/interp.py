"""Symbolic interpreter for the Python subset nappy is written in.

It interprets the AST of /repo's current source.  Control flow is explored path by path
(Algebra.decide); loops are summarised in loops.py.
"""
import ast
import os
import re
import string
import z3
from .core import *
from . import chars
from .core import _ctr
from .algebra import Algebra

class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v
class BreakSig(Exception):
    pass
class ContinueSig(Exception):
    pass
class PathEnd(Exception):
    """this path's assumptions are contradictory"""

class Trace:
    """decision trace for re-execution forking"""
    def __init__(self, prefix=(), top=0):
        self.prefix = list(prefix)
        self.taken = []
        self.top = top      # fresh names beyond the shared part start here
    def choose(self):
        i = len(self.taken)
        b = self.prefix[i] if i < len(self.prefix) else True
        self.taken.append(b)
        if i + 1 == len(self.prefix):
            _ctr.at = max(_ctr.at, self.top)
        return b
    def next_prefix(self):
        t = list(self.taken)
        while t and t[-1] is False:
            t.pop()
        if not t:
            return None
        t[-1] = False
        return t

# ------------------------------------------------------------------ program values
class FuncV:
    def __init__(self, node, mod, qual, cls=None, closure=None):
        self.node, self.mod, self.qual, self.cls, self.closure = node, mod, qual, cls, closure
    def __repr__(self):
        return "<func %s>" % self.qual
class ClassV:
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual = node, mod, qual
        self.name = node.name
        self._bases = None
        self.members = {}
        self.assigns = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                if st.name in self.members and any(isinstance(d, ast.Attribute) for d in st.decorator_list):
                    continue  # property setter
                self.members[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
    def __repr__(self):
        return "<class %s>" % self.qual
class BoundV:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func
class ModV:
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return "<mod %s>" % self.name
class Builtin:
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return "<builtin %s>" % self.name
class Extern:
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return "<extern %s>" % self.name
class BMethod:
    """method of a builtin-typed value"""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name
class SuperV:
    def __init__(self, self_, cls):
        self.self_, self.cls = self_, cls
class TypeV:
    """type of a symbolic value that is not a builtin type"""
    def __init__(self, name):
        self.name = name
    def __eq__(self, o):
        return isinstance(o, TypeV) and o.name == self.name
    def __hash__(self):
        return hash(self.name)
class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step
class IterSegs:
    """an iterable given by explicit segments (enumerate, zip, items())"""
    def __init__(self, seq):
        self.seq = tuple(seq)

# ------------------------------------------------------------------ heap objects
class ListO:
    def __init__(self, seq=(), ver=0, frozen=None, inner_frozen=False):
        self.seq = tuple(seq)
        self.ver = ver
        self.frozen = frozen
        self.inner_frozen = inner_frozen
    def clone(self):
        return ListO(self.seq, self.ver, self.frozen, self.inner_frozen)
    fields = ("seq",)
class DictO:
    def __init__(self, items=None, default=None, frozen=None, allkeys=False, log=()):
        self.known = dict(items or {})
        self.default = default      # function key -> value for keys not listed
        self.frozen = frozen
        self.allkeys = allkeys      # default covers every key
        self.log = tuple(log)       # assignments made since the first one to an unknown key, in order
    @property
    def items(self):
        if self.log:
            raise Unsupported("contents of a dictionary with unknown keys")
        return self.known
    def clone(self):
        return DictO(self.known, self.default, self.frozen, self.allkeys, self.log)
class SetO:
    def __init__(self, items=()):
        self.items = list(items)
    def clone(self):
        return SetO(self.items)
class InstO:
    def __init__(self, cls, attrs=None, ext=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.ext = ext              # handler for attributes/methods of external objects
    def clone(self):
        return InstO(self.cls, self.attrs, self.ext)
class FileO:
    """text stream.  Written text is `content`; a stream opened for reading has `rest`, the lines not yet read."""
    def __init__(self, mode, name=None, content=(), rest=None, closed=False, kind="file"):
        self.mode, self.name, self.content, self.rest, self.closed, self.kind = mode, name, tuple(content), rest, closed, kind
        self.flushed = 0
    def clone(self):
        f = FileO(self.mode, self.name, self.content, self.rest, self.closed, self.kind)
        f.flushed = self.flushed
        return f

class Frame:
    def __init__(self, mod, env, func=None, closure=None):
        self.mod, self.env, self.func, self.closure = mod, env, func, closure
        self.globals_decl = set()
        self.rbw = None
        self.written = None

# ------------------------------------------------------------------ program
class Program:
    def __init__(self, root="/repo", pkg="nappy"):
        self.root = root
        self.mods = {}
        for dp, dn, fn in os.walk(os.path.join(root, pkg)):
            dn[:] = [d for d in dn if d not in ("__pycache__", "contrib")]
            for f in fn:
                if f.endswith(".py"):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    self.mods[rel] = (path, None)
        self._ast = {}
        self._names = {}

    def tree(self, mod):
        if mod not in self._ast:
            path = self.mods[mod][0]
            with open(path, encoding="utf-8") as f:
                self._ast[mod] = ast.parse(f.read(), path)
        return self._ast[mod]

    def names(self, mod):
        """static name table of a module: name -> (kind, payload)"""
        if mod in self._names:
            return self._names[mod]
        t = {}
        self._names[mod] = t
        def scan(body):
            for st in body:
                if isinstance(st, ast.FunctionDef):
                    t[st.name] = ("func", st)
                elif isinstance(st, ast.ClassDef):
                    t[st.name] = ("class", st)
                elif isinstance(st, ast.Assign):
                    for tg in st.targets:
                        if isinstance(tg, ast.Name):
                            t[tg.id] = ("expr", st.value)
                        elif isinstance(tg, ast.Tuple):
                            for k, e in enumerate(tg.elts):
                                if isinstance(e, ast.Name):
                                    t[e.id] = ("item", (st.value, k))
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    t[st.target.id] = ("expr", st.value)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            t[a.asname] = ("mod", a.name)
                        else:
                            t[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ""
                    if st.level:
                        parts = mod.split(".")
                        if not self.mods[mod][0].endswith("__init__.py"):
                            parts = parts[:-1]
                        parts = parts[:len(parts) - (st.level - 1)]
                        base = ".".join(parts + ([base] if base else []))
                    for a in st.names:
                        if a.name == "*":
                            if base in self.mods:
                                for k, v in self.names(base).items():
                                    t.setdefault(k, ("from", (base, k)))
                        else:
                            t[a.asname or a.name] = ("from", (base, a.name))
                elif isinstance(st, (ast.If, ast.Try)):
                    if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) and st.test.left.id == "__name__":
                        continue
                    scan(st.body)
        scan(self.tree(mod).body)
        return t

BUILTINS = {"len", "range", "type", "str", "int", "float", "list", "tuple", "dict", "set", "max", "min", "sum", "abs",
            "isinstance", "hasattr", "getattr", "setattr", "open", "print", "enumerate", "zip", "sorted", "reversed",
            "divmod", "any", "all", "bool", "repr", "super", "exec", "eval", "vars", "iter", "next", "map", "filter",
            "input", "callable", "id", "issubclass", "property", "object", "staticmethod", "round", "apply__"}
EXC = {"Exception", "ValueError", "TypeError", "IndexError", "KeyError", "AttributeError", "IOError", "OSError", "NameError",
       "RuntimeError", "StopIteration", "EOFError", "NotImplementedError", "ZeroDivisionError", "UnboundLocalError",
       "BaseException", "LookupError", "FileNotFoundError", "ImportError", "ModuleNotFoundError", "AssertionError", "ArithmeticError"}
EXC_PARENT = {"SystemExit": "BaseException", "KeyboardInterrupt": "BaseException", "IndexError": "LookupError", "KeyError": "LookupError", "UnboundLocalError": "NameError", "FileNotFoundError": "OSError",
              "ZeroDivisionError": "ArithmeticError", "ModuleNotFoundError": "ImportError", "NotImplementedError": "RuntimeError", "IOError": "OSError"}

def exc_matches(etype, handler):
    while etype is not None:
        if etype == handler:
            return True
        if etype == "Exception":
            etype = "BaseException"
        elif etype == "BaseException":
            etype = None
        else:
            etype = EXC_PARENT.get(etype, "Exception")
    return False

PYTYPES = {"str": str, "int": int, "float": float, "list": list, "tuple": tuple, "dict": dict, "set": set, "bool": bool, "object": object}

class Interp(Algebra):
    def __init__(self, prog, contracts=None, timeout_ms=3000):
        Algebra.__init__(self, timeout_ms)
        self.prog = prog
        self.contracts = contracts or {}
        self.heap = {}
        self.modheap = {}
        self.next_oid = 1
        self.frames = []
        self.fs = {}                  # file name -> content text pieces (files that exist)
        self.modcache = {}
        self.obligations = []         # (name, ok, detail)
        self.hints = {}
        self.ext_handlers = {}
        self.soft_depth = 0
        self.in_while = False
        self.mod_fun = None              # an uninterpreted remainder
        self.div_fun = None              # an uninterpreted quotient, where only its use matters
        self.steps = 0
        self.max_steps = 400000
        self.depth = 0
        self.functions_seen = set()
        self.loops_summarised = {}
        self.ghost_ints = []          # candidate loop exit counts
        self.loop_budget = 4000
        self.classcache = {}
        self.deadline = None
        self.filelog = ()             # (name, file) in order of opening for writing
        self.set_add = lambda o, v: lib_set_add(self, o, v)

    # -------------------------------------------------------------- heap
    def alloc(self, obj):
        oid = self.next_oid
        self.next_oid += 1
        self.heap[oid] = obj
        return Ref(oid)
    def new_list(self, seq):
        return self.alloc(ListO(seq))
    def obj(self, ref):
        try:
            return self.heap[ref.oid]
        except KeyError:
            # object of a module or class, built while another path was explored
            self.heap[ref.oid] = o = self.modheap[ref.oid].clone()
            return o
    def keep_new(self, first):
        """objects allocated since `first` belong to a module: every path sees them as they were built"""
        for k in range(first, self.next_oid):
            if k in self.heap:
                self.modheap[k] = self.heap[k].clone()

    def resolve_view(self, v):
        """View -> Ref or LV"""
        parent = v.parent
        if isinstance(parent, View):
            p = self.resolve_view(parent)
            if isinstance(p, Ref):
                seq = self.obj(p).seq
            else:
                seq = p.seq
        else:
            o = self.obj(parent)
            if o.ver != v.ver:
                raise Unsupported("stale list view")
            seq = o.seq
        e = self.index(seq, v.idx)
        return e

    def list_seq(self, v):
        """contents of a list value, or None if v is not a list"""
        if isinstance(v, View):
            v = self.resolve_view(v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListO):
                return o.seq
            return None
        if isinstance(v, LV):
            return v.seq
        return None

    def as_seq(self, v):
        s = Algebra.as_seq(self, v)
        if s is not None:
            return s
        return self.list_seq(v) if isinstance(v, (View, Ref, LV)) else None

    def materialise(self, v):
        """View -> Ref of a real heap object placed in the parent list"""
        if not isinstance(v, View):
            return v
        e = self.resolve_view(v)
        if isinstance(e, Ref):
            return e
        pref = self.materialise(v.parent) if isinstance(v.parent, View) else v.parent
        po = self.obj(pref)
        if po.inner_frozen:
            raise Unsupported("mutating an element shared between lists")
        if po.frozen:
            raise Unsupported("mutating a shared list (%s)" % po.frozen)
        ref = self.new_list(e.seq)
        a, b = self.split_at(po.seq, v.idx)
        try:
            b = self.ensure_front(b)
        except Unsupported:
            raise Unsupported("element %s of %r (before it: %r, from it: %r)" % (v.idx, po.seq, a, b))
        po.seq = self.norm(a + (Unit(ref),) + tuple(b[1:]))
        return ref

    def list_obj(self, v, mutate=False, structural=False):
        ref = self.materialise(v)
        if isinstance(ref, LV):
            raise Unsupported("mutating a list value without identity")
        o = self.obj(ref)
        if mutate and o.frozen:
            raise Unsupported("mutating a shared list (%s)" % o.frozen)
        if mutate and structural:
            o.ver += 1
        return o

    def escape(self, v):
        """value about to be stored in a container or attribute"""
        if isinstance(v, View):
            return self.materialise(v)
        if isinstance(v, LV):
            return self.new_list(v.seq)
        return v

    def has_lists(self, seq):
        for p in seq:
            if isinstance(p, Unit):
                if isinstance(p.v, (LV, Ref, View)):
                    return True
            elif isinstance(p, Gen):
                if self.has_lists(p.body):
                    return True
        return False

    def copy_seq(self, src, seq):
        """new list sharing src's elements"""
        r = self.new_list(seq)
        if any(isinstance(p, (Gen, Unit)) and self._has_lv(p) for p in seq):
            self.obj(r).inner_frozen = True
            s = self.materialise(src) if isinstance(src, View) else src
            if isinstance(s, Ref) and isinstance(self.obj(s), ListO):
                self.obj(s).inner_frozen = True
        return r

    def _has_lv(self, p):
        if isinstance(p, Unit):
            return isinstance(p.v, LV)
        return any(self._has_lv(x) for x in p.body if isinstance(x, (Unit, Gen)))

    # -------------------------------------------------------------- equality hooks
    def eq_objects(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(a), self.obj(b)
            if isinstance(oa, DictO) and isinstance(ob, DictO):
                if oa.log or ob.log:
                    if not oa.known and not ob.known:
                        return self.eq_seq(oa.log, ob.log)      # the same assignments in the same order
                    raise Unsupported("dictionaries with unknown keys")
                if list(oa.items) != list(ob.items) and set(oa.items) != set(ob.items):
                    return False
                return all(self.eq_val(oa.items[k], ob.items[k]) for k in oa.items)
        for x, y in ((ClassV, ClassV), (Extern, Extern), (Builtin, Builtin), (ModV, ModV)):
            if isinstance(a, x) and isinstance(b, y):
                return getattr(a, "qual", getattr(a, "name", None)) == getattr(b, "qual", getattr(b, "name", None))
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            return a.qual == b.qual
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return a.self_ == b.self_ and a.func.qual == b.func.qual
        return False

    # -------------------------------------------------------------- snapshots for exploration
    def snap(self):
        return ({k: o.clone() for k, o in self.heap.items()}, [dict(f.env) for f in self.frames], len(self.pc), dict(self.fs),
                tuple(self.filelog))
    def restore(self, s):
        heap, envs, npc, fs, log = s
        self.heap = {k: o.clone() for k, o in heap.items()}
        for f, e in zip(self.frames, envs):
            f.env = dict(e)
        del self.frames[len(envs):]
        del self.pc[npc:]
        self.fs = dict(fs)
        self.filelog = tuple(log)

    # -------------------------------------------------------------- names
    def module_value(self, mod, name):
        key = (mod, name)
        if key in self.modcache:
            return self.modcache[key]
        ent = self.prog.names(mod).get(name)
        if ent is None:
            if mod + "." + name in self.prog.mods:
                return ModV(mod + "." + name)
            return None
        kind, pl = ent
        if kind == "func":
            v = FuncV(pl, mod, mod + "." + name)
        elif kind == "class":
            v = self.get_class(pl, mod)
        elif kind == "mod":
            v = ModV(pl) if pl in self.prog.mods else Extern(pl)
        elif kind == "from":
            base, nm = pl
            if base in self.prog.mods:
                v = self.module_value(base, nm)
                if v is None:
                    raise PyRaise("ImportError")
            else:
                v = Extern(base + "." + nm)
        elif kind in ("expr", "item"):
            qn = mod + "." + name
            first = self.next_oid
            if qn in self.contracts:
                v = self.contracts[qn](self)
            else:
                fr = Frame(mod, {})
                self.frames.append(fr)
                try:
                    v = self.eval(pl if kind == "expr" else pl[0])
                    if kind == "item":
                        v = self.getitem(v, pl[1])
                finally:
                    self.frames.pop()
            self.keep_new(first)
        self.modcache[key] = v
        return v

    def get_class(self, node, mod):
        key = (mod, node.name)
        if key not in self.classcache:
            self.classcache[key] = ClassV(node, mod, mod + "." + node.name)
        return self.classcache[key]

    def bases(self, cls):
        if cls._bases is None:
            out = []
            for b in cls.node.bases:
                fr = Frame(cls.mod, {})
                self.frames.append(fr)
                try:
                    out.append(self.eval(b))
                finally:
                    self.frames.pop()
            cls._bases = out
        return cls._bases

    def mro(self, cls):
        out = [cls]
        for b in self.bases(cls):
            if isinstance(b, ClassV):
                for c in self.mro(b):
                    if c not in out:
                        out.append(c)
            elif not isinstance(b, Builtin):
                out.append(b)
        return out

    def class_attr(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if not isinstance(c, ClassV):
                continue
            if name in c.members:
                return FuncV(c.members[name], c.mod, c.qual + "." + name, cls=c)
            if name in c.assigns:
                key = (c.qual, name)
                if key not in self.modcache:
                    fr = Frame(c.mod, {})
                    first = self.next_oid
                    self.frames.append(fr)
                    try:
                        self.modcache[key] = self.eval(c.assigns[name])
                    finally:
                        self.frames.pop()
                    self.keep_new(first)
                return self.modcache[key]
        return None

    def lookup(self, name):
        f = self.frames[-1]
        if name not in f.globals_decl:
            e = f
            while e is not None:
                if name in e.env:
                    if e.rbw is not None and name not in e.written:
                        e.rbw.add(name)
                    v = e.env[name]
                    if isinstance(v, Poison):
                        if v.why == "unbound":
                            raise PyRaise("UnboundLocalError", name)
                        raise Unsupported("value of %s unknown (%s)" % (name, v.why))
                    return v
                e = e.closure
            if f.func is not None and name in self.local_names(f.func):
                raise PyRaise("UnboundLocalError", name)
        v = self.module_value(f.mod, name)
        if v is not None:
            return v
        if name in BUILTINS:
            return Builtin(name)
        if name in EXC:
            return Builtin(name)
        if name == "__name__":
            return f.mod
        if name == "__file__":
            return self.prog.mods[f.mod][0]
        if name == "__doc__":
            return "doc"
        raise PyRaise("NameError", name)

    def local_names(self, func):
        ln = getattr(func, "_locals", None)
        if ln is None:
            ln = set()
            a = func.node.args
            for x in a.args + a.kwonlyargs:
                ln.add(x.arg)
            body = func.node.body if isinstance(func.node.body, list) else []
            gl = set()
            def scan(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        ln.add(c.name)
                        continue
                    if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                        ln.add(c.id)
                    if isinstance(c, ast.Global):
                        gl.update(c.names)
                    scan(c)
            for st in body:
                if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
                    ln.add(st.id)
                if isinstance(st, ast.FunctionDef):
                    ln.add(st.name)
                    continue
                if isinstance(st, ast.Global):
                    gl.update(st.names)
                scan(st)
            ln -= gl
            func._locals = ln
        return ln

    def setname(self, name, v):
        f = self.frames[-1]
        if name in f.globals_decl:
            self.modcache[(f.mod, name)] = v
            return
        if f.written is not None:
            f.written.add(name)
        f.env[name] = v

    # -------------------------------------------------------------- calls
    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(fn, BoundV):
            return self.call(fn.func, [fn.self_] + list(args), kwargs)
        if isinstance(fn, FuncV):
            h = self.contracts.get(fn.qual)
            if h is not None:
                r = h(self, fn, list(args), dict(kwargs))
                if r is not NotImplemented:
                    return r
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, ClassV):
            h = self.contracts.get(fn.qual)
            if h is not None:
                r = h(self, fn, list(args), dict(kwargs))
                if r is not NotImplemented:
                    return r
            inst = self.alloc(InstO(fn))
            init = self.class_attr(fn, "__init__")
            if init is not None:
                self.call(init, [inst] + list(args), kwargs)
            return inst
        if isinstance(fn, Builtin):
            return self.call_builtin(fn.name, list(args), kwargs)
        if isinstance(fn, BMethod):
            return self.call_method(fn.recv, fn.name, list(args), kwargs)
        if isinstance(fn, Extern):
            return self.call_extern(fn.name, list(args), kwargs)
        if fn in (str, int, float, list, tuple, dict, set, bool):
            return self.call_builtin(fn.__name__, list(args), kwargs)
        if isinstance(fn, Opq):
            h = self.ext_handlers.get("call:" + fn.fn)
            if h:
                return h(self, fn, list(args), kwargs)
        if callable(fn) and getattr(fn, "_pyvc", False):
            return fn(self, list(args), kwargs)
        if fn is None or isinstance(fn, (int, float, str, Sc, Text, tuple)):
            raise PyRaise("TypeError", "not callable")
        raise Unsupported("call of %r" % (fn,))

    def bind(self, fn, args, kwargs):
        a = fn.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise("TypeError", "too many arguments")
        for nm, v in zip(names, args):
            env[nm] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwargs = dict(kwargs)
        for nm in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if nm in kwargs:
                env[nm] = kwargs.pop(nm)
        for nm in list(kwargs):
            if nm in names and nm in env:
                raise PyRaise("TypeError", "multiple values for %s" % nm)
        if kwargs:
            if a.kwarg is None:
                raise PyRaise("TypeError", "unexpected keyword %s" % list(kwargs)[0])
            env[a.kwarg.arg] = self.alloc(DictO(kwargs))
        elif a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(DictO({}))
        defs = a.defaults
        if defs:
            for nm, d in zip(names[-len(defs):], defs):
                if nm not in env:
                    env[nm] = self.default_value(fn, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default_value(fn, d)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in env:
                raise PyRaise("TypeError", "missing argument %s" % nm)
        return env

    def default_value(self, fn, d):
        fr = Frame(fn.mod, {}, closure=fn.closure)
        self.frames.append(fr)
        try:
            return self.eval(d)
        finally:
            self.frames.pop()

    def call_func(self, fn, args, kwargs):
        self.functions_seen.add(fn.qual)
        env = self.bind(fn, args, kwargs)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion depth")
        fr = Frame(fn.mod, env, fn, fn.closure)
        fr.cls = fn.cls
        self.frames.append(fr)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body)
            self.exec_block(fn.node.body)
            return None
        except ReturnSig as r:
            return r.v
        finally:
            self.depth -= 1
            # frames may have been restored/truncated by exploration
            while self.frames and self.frames[-1] is not fr:
                self.frames.pop()
            if self.frames:
                self.frames.pop()

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for st in stmts:
            self.exec(st)

    def exec(self, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget")
        if self.deadline is not None and self.steps % 50 == 0:
            import time as _t
            if _t.time() > self.deadline:
                raise Unsupported("time budget")
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        m(st)

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value)
    def s_Pass(self, st):
        pass
    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)
    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))
    def s_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            old = self.getattr_(base, t.attr)
        else:
            base = self.eval(t.value)
            key = self.eval(t.slice)
            old = self.getitem(base, key)
        v = self.eval(st.value)
        if isinstance(st.op, ast.Add) and isinstance(old, (Ref, View)) and self.list_seq(old) is not None:
            self.call_method(old, "extend", [v], {})
            r = old
        else:
            r = self.binop(st.op, old, v)
        if isinstance(t, ast.Name):
            self.setname(t.id, r)
        elif isinstance(t, ast.Attribute):
            self.setattr_(base, t.attr, r)
        else:
            self.setitem(base, key, r)
    def s_Return(self, st):
        raise ReturnSig(self.eval(st.value) if st.value is not None else None)
    def s_Break(self, st):
        raise BreakSig()
    def s_Continue(self, st):
        raise ContinueSig()
    def s_If(self, st):
        if self.truth(self.eval(st.test)):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)
    def s_Raise(self, st):
        if st.exc is None:
            raise PyRaise(getattr(self, "_cur_exc", "Exception"))
        # the message of an exception is not modelled beyond its type
        e = st.exc
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            nm = e.func.id
            args = []
            try:
                args = [self.eval(a) for a in e.args]
            except Unsupported:
                args = None
            if nm in EXC:
                raise PyRaise(nm, args)
            raise Unsupported("raise %s" % nm)
        if isinstance(e, ast.Name) and e.id in EXC:
            raise PyRaise(e.id)
        v = self.eval(e)
        if isinstance(v, Opq) and v.fn == "exc":
            raise PyRaise(v.args[0])
        if isinstance(v, (str, Text)):
            raise PyRaise("TypeError", "exceptions must derive from BaseException")
        raise Unsupported("raise %r" % (v,))
    def s_Global(self, st):
        self.frames[-1].globals_decl.update(st.names)
    def s_Import(self, st):
        for a in st.names:
            root = a.name.split(".")[0]
            if a.name.startswith("nappy") and a.name not in self.prog.mods:
                raise PyRaise("ModuleNotFoundError", a.name)
            if a.asname:
                self.setname(a.asname, ModV(a.name) if a.name in self.prog.mods else Extern(a.name))
            else:
                self.setname(root, ModV(root) if root in self.prog.mods else Extern(root))
    def s_ImportFrom(self, st):
        base = st.module or ""
        for a in st.names:
            if base in self.prog.mods:
                v = self.module_value(base, a.name)
                if v is None:
                    raise PyRaise("ImportError")
            else:
                v = Extern(base + "." + a.name)
            self.setname(a.asname or a.name, v)
    def s_FunctionDef(self, st):
        f = self.frames[-1]
        q = (f.func.qual if f.func else f.mod) + ".<locals>." + st.name
        self.setname(st.name, FuncV(st, f.mod, q, closure=f))
    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                if isinstance(t.slice, ast.Slice):
                    seq = self.list_seq(base)
                    lo = self.eval(t.slice.lower) if t.slice.lower else None
                    hi = self.eval(t.slice.upper) if t.slice.upper else None
                    if seq is None or t.slice.step:
                        raise Unsupported("del slice")
                    lo_ = 0 if lo is None else nint(as_term(lo))
                    a = self.slice(seq, None, lo_)
                    b = self.slice(seq, nint(as_term(hi)), None) if hi is not None else ()
                    o = self.list_obj(base, True, True)
                    o.seq = self.norm(tuple(a) + tuple(b))
                else:
                    key = self.eval(t.slice)
                    if isinstance(base, Ref) and isinstance(self.obj(base), DictO):
                        o = self.obj(base)
                        if o.frozen:
                            raise Unsupported("del on shared dict")
                        if key not in o.items:
                            raise PyRaise("KeyError")
                        del o.items[key]
                    else:
                        seq = self.list_seq(base)
                        if seq is None:
                            raise Unsupported("del item")
                        self.call_method(base, "pop", [key], {})
            else:
                raise Unsupported("del")
    def s_Assert(self, st):
        if not self.truth(self.eval(st.test)):
            raise PyRaise("AssertionError")
    def s_With(self, st):
        mgrs = []
        for it in st.items:
            m = self.eval(it.context_expr)
            if isinstance(m, Ref) and isinstance(self.obj(m), FileO):
                v = m
            elif isinstance(m, Ref) and isinstance(self.obj(m), InstO) and self.obj(m).cls is not None:
                v = self.call(self.getattr_(m, "__enter__"), [])
            else:
                raise Unsupported("with %r" % (m,))
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        def leave():
            for m in reversed(mgrs):
                if isinstance(self.obj(m), FileO):
                    self.obj(m).closed = True
                else:
                    self.call(self.getattr_(m, "__exit__"), [None, None, None])
        try:
            self.exec_block(st.body)
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            leave()
            raise
        leave()
    def s_Try(self, st):
        mark = None
        try:
            self.exec_block(st.body)
        except PyRaise as e:
            for h in st.handlers:
                names = []
                if h.type is None:
                    names = ["BaseException"]
                elif isinstance(h.type, ast.Tuple):
                    names = [self._excname(x) for x in h.type.elts]
                else:
                    names = [self._excname(h.type)]
                if any(exc_matches(e.etype, n) for n in names):
                    if h.name:
                        self.setname(h.name, Opq("exc", (e.etype,)))
                    old = getattr(self, "_cur_exc", None)
                    self._cur_exc = e.etype
                    try:
                        self.exec_block(h.body)
                    except (PyRaise, ReturnSig, BreakSig, ContinueSig):
                        self.exec_block(st.finalbody)
                        raise
                    self._cur_exc = old
                    break
            else:
                self.exec_block(st.finalbody)
                raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.exec_block(st.finalbody)
            raise
        else:
            self.exec_block(st.orelse)
        self.exec_block(st.finalbody)
    def _excname(self, node):
        if isinstance(node, ast.Name):
            return node.id
        if isinstance(node, ast.Attribute):
            return node.attr
        raise Unsupported("except clause")
    def s_For(self, st):
        from . import loops
        loops.run_for(self, st)
    def s_While(self, st):
        from . import loops
        loops.run_while(self, st)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            self.setattr_(base, t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            self.setitem(base, self.eval(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y)
        else:
            raise Unsupported("assign to %s" % type(t).__name__)

    def unpack(self, v, n):
        seq = self.seq_of(v)
        out = []
        L = self.seq_len(seq)
        if not self.decide(as_term(L) == n):
            raise PyRaise("ValueError", "unpack")
        for k in range(n):
            out.append(self.elem(v, seq, k))
        return out

    def elem(self, container, seq, k):
        """element k of seq; LV elements become views into their container"""
        e = self.index(seq, k)
        if isinstance(e, LV):
            if isinstance(container, View):
                return View(container, nint(as_term(k)), None)
            if isinstance(container, Ref):
                return View(container, nint(as_term(k)), self.obj(container).ver)
            return self.new_frozen(e.seq)
        return e

    def new_frozen(self, seq):
        r = self.new_list(seq)
        self.obj(r).frozen = "element of an immutable sequence"
        return r

    # -------------------------------------------------------------- expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value
    def e_Name(self, e):
        return self.lookup(e.id)
    def e_Tuple(self, e):
        vals = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                raise Unsupported("starred tuple")
            vals.append(self.escape_t(self.eval(x)))
        return tuple(vals)
    def escape_t(self, v):
        return v
    def e_List(self, e):
        return self.new_list([Unit(self.escape(self.eval(x))) for x in e.elts])
    def e_Set(self, e):
        return self.alloc(SetO([self.eval(x) for x in e.elts]))
    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict **")
            d[self.key(self.eval(k))] = self.escape(self.eval(v))
        return self.alloc(DictO(d))
    def key(self, k):
        if isinstance(k, (str, int, float, tuple, type(None), bool, Ref)):
            return k
        if isinstance(k, ClassV):
            return k
        raise Unsupported("symbolic dictionary key %r" % (k,))
    def e_IfExp(self, e):
        return self.eval(e.body) if self.truth(self.eval(e.test)) else self.eval(e.orelse)
    def e_BoolOp(self, e):
        v = None
        isand = isinstance(e.op, ast.And)
        # keep a symbolic boolean when every operand is one (no fork)
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v
    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sc) and v.kind == "bool":
                return mk_bool(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Sc):
                return mk_int(-v.t) if v.kind == "int" else mk_float(-v.t)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary")
    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))
    def e_Compare(self, e):
        left = self.eval(e.left)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return False
            left = right
        return True
    def e_Attribute(self, e):
        return self.getattr_(self.eval(e.value), e.attr)
    def e_Subscript(self, e):
        base = self.eval(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower) if e.slice.lower else None
            hi = self.eval(e.slice.upper) if e.slice.upper else None
            st = self.eval(e.slice.step) if e.slice.step else None
            return self.getslice(base, lo, hi, st)
        return self.getitem(base, self.eval(e.slice))
    def e_Lambda(self, e):
        f = self.frames[-1]
        return FuncV(e, f.mod, (f.func.qual if f.func else f.mod) + ".<lambda>", closure=f)
    def e_JoinedStr(self, e):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.eval(p.value)
                if p.format_spec is not None:
                    spec = self.eval(p.format_spec)
                    if not isinstance(spec, str):
                        raise Unsupported("format spec")
                    out.extend(self.fstr(v, spec))
                else:
                    out.extend(text_of(self.to_str(v)))
        return mk_text(out)
    def fstr(self, v, spec):
        if isinstance(v, (int, float, str)) and not isinstance(v, bool):
            return text_of(format(v, spec))
        m = re.match(r"^0?(\d+)d$", spec)
        if isinstance(v, Sc) and v.kind == "int" and m:
            return (Atom("tok", ("%" + spec, v.t), NUMFLAGS),)
        if spec == "" or spec == "s":
            return text_of(self.to_str(v))
        raise Unsupported("format %r with %s" % (v, spec))
    def e_ListComp(self, e):
        from . import loops
        return loops.comprehension(self, e, "list")
    def e_GeneratorExp(self, e):
        from . import loops
        return loops.comprehension(self, e, "list")
    def e_SetComp(self, e):
        from . import loops
        return loops.comprehension(self, e, "set")
    def e_DictComp(self, e):
        from . import loops
        return loops.comprehension(self, e, "dict")
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frames[-1]
            while fr.func is None or fr.func.cls is None:
                fr = fr.closure
            selfname = fr.func.node.args.args[0].arg
            return SuperV(fr.env[selfname], fr.func.cls)
        fn = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                seq = self.norm(self.seq_of(v))
                if not all(isinstance(p, Unit) for p in seq):
                    raise Unsupported("starred argument")
                args.extend(p.v for p in seq)
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                kw.update(self.obj(d).items)
            else:
                kw[k.arg] = self.eval(k.value)
        if isinstance(fn, Builtin) and fn.name == "vars" and not args:
            return self.alloc(DictO(dict(self.frames[-1].env)))
        return self.call(fn, args, kw)

    # -------------------------------------------------------------- truth / comparison
    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if isinstance(v, Sc):
            if v.kind == "bool":
                return self.decide(v.t)
            if v.kind == "int":
                return self.decide(v.t != 0)
            if v.kind == "float":
                return self.decide(v.t != 0)
            if v.kind == "str":
                return self.decide(z3.Length(v.t) > 0)
        if isinstance(v, Text):
            return not self.t_decide_empty(v.pieces)
        seq = self.list_seq(v) if isinstance(v, (Ref, View, LV)) else self.as_seq(v)
        if seq is not None:
            return self.decide(as_term(self.seq_len(seq)) > 0)
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, DictO):
                if o.items:
                    return True
                if o.default is None:
                    return False
                raise Unsupported("truth of abstract dict")
            if isinstance(o, SetO):
                return bool(o.items)
            return True
        if isinstance(v, (FuncV, ClassV, BoundV, ModV, Builtin, BMethod)) or getattr(v, "_pyvc", False):
            return True
        if isinstance(v, Opq):
            h = self.ext_handlers.get("truth:" + v.fn)
            if h:
                return self.truth(h(self, v))
            return self.decide(self.opq_bool("truth", v))
        if isinstance(v, IterSegs):
            return self.decide(as_term(self.seq_len(v.seq)) > 0)
        raise Unsupported("truth of %r" % (v,))

    def opq_term(self, v):
        """z3 term identifying an opaque value (uninterpreted sort encoded as Int)"""
        if isinstance(v, Opq):
            args = [self.opq_term(a) for a in v.args]
            if not args:
                return z3.Int("opq_" + v.fn)
            f = z3.Function("opq_%s_%d" % (v.fn, len(args)), *([a.sort() for a in args] + [z3.IntSort()]))
            return f(*args)
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, Sc):
            return v.t
        if isinstance(v, (bool, int)):
            return as_term(v)
        if isinstance(v, float):
            return real_term(v)
        if isinstance(v, (str, type(None))):
            return z3.StringVal("c:" + str(v))
        if isinstance(v, Atom):
            args = [self.opq_term(a) for a in v.args]
            if not args:
                return z3.Int("atm_" + v.fn)
            f = z3.Function("atm_%s_%d" % (v.fn, len(args)), *([a.sort() for a in args] + [z3.IntSort()]))
            return f(*args)
        if isinstance(v, Text) and len(v.pieces) == 1:
            return self.opq_term(v.pieces[0])
        if isinstance(v, Ref):
            return z3.IntVal(-1000 - v.oid)
        raise Unsupported("opaque term of %r" % (v,))

    def opq_bool(self, name, *vs):
        ts = [self.opq_term(v) for v in vs]
        f = z3.Function("b_" + name + "_" + "_".join(str(t.sort()) for t in ts), *([t.sort() for t in ts] + [z3.BoolSort()]))
        return f(*ts)

    def type_of(self, v):
        if v is None:
            return type(None)
        if isinstance(v, (bool, int, float, str, bytes)):
            return type(v)
        if isinstance(v, Sc):
            return {"int": int, "bool": bool, "float": float, "str": str}[v.kind]
        if isinstance(v, (Text, Atom)):
            return str
        if isinstance(v, (tuple, TupSeq)):
            return tuple
        if isinstance(v, (LV,)):
            return list
        if isinstance(v, View):
            return list
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListO):
                return list
            if isinstance(o, DictO):
                return dict
            if isinstance(o, SetO):
                return set
            if isinstance(o, InstO):
                return o.cls if o.cls is not None else TypeV("ext:" + str(o.ext))
            return TypeV("file")
        if isinstance(v, Opq):
            h = self.ext_handlers.get("type:" + v.fn)
            if h:
                return h(self, v)
            return TypeV("opq:" + v.fn)
        if isinstance(v, (FuncV, BoundV, BMethod)):
            return TypeV("function")
        if isinstance(v, ClassV) or v in PYTYPES.values():
            return TypeV("type")
        raise Unsupported("type of %r" % (v,))

    def norm_type(self, t):
        if isinstance(t, Builtin):
            return PYTYPES.get(t.name, t.name)
        return t

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (isinstance(a, (Builtin, type, TypeV, ClassV)) or isinstance(b, (Builtin, type, TypeV, ClassV))):
            r = self.norm_type(a) == self.norm_type(b)
            return r if isinstance(op, (ast.Is, ast.Eq)) else not r
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else (mk_bool(z3.Not(r.t)) if isinstance(r, Sc) else not r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b)
            if isinstance(op, ast.Eq):
                return r
            if isinstance(r, Opq):
                h = self.ext_handlers.get("not:" + r.fn)
                if h is None:
                    raise Unsupported("!= gives %s" % r.fn)
                return h(self, r)
            return mk_bool(z3.Not(r.t)) if isinstance(r, Sc) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.In):
                return r
            return mk_bool(z3.Not(r.t)) if isinstance(r, Sc) else not r
        return self.order(op, a, b)

    def is_(self, a, b):
        if a is None or b is None:
            for x, y in ((a, b), (b, a)):
                if x is None:
                    if y is None:
                        return True
                    if isinstance(y, Opq):
                        h = self.ext_handlers.get("isnone:" + y.fn)
                        if h:
                            return h(self, y)
                    return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            x = b if isinstance(a, bool) else a
            y = a if isinstance(a, bool) else b
            if isinstance(x, Sc) and x.kind == "bool":
                return mk_bool(x.t == y)
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, Opq) and isinstance(b, Opq):
            return self.eq(a, b)
        raise Unsupported("is")

    def num(self, v):
        return isinstance(v, (int, float, bool)) or (isinstance(v, Sc) and v.kind in ("int", "float", "bool"))

    def arith_pair(self, a, b):
        """z3 terms of a and b in a common sort, and the sort kind"""
        ka = "float" if isinstance(a, float) or (isinstance(a, Sc) and a.kind == "float") else "int"
        kb = "float" if isinstance(b, float) or (isinstance(b, Sc) and b.kind == "float") else "int"
        if ka == "int" and kb == "int":
            return as_term(a), as_term(b), "int"
        return real_term(a if not isinstance(a, bool) else int(a)), real_term(b if not isinstance(b, bool) else int(b)), "float"

    def order(self, op, a, b):
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            try:
                if isinstance(op, ast.Lt):
                    return a < b
                if isinstance(op, ast.LtE):
                    return a <= b
                if isinstance(op, ast.Gt):
                    return a > b
                if isinstance(op, ast.GtE):
                    return a >= b
            except TypeError:
                raise PyRaise("TypeError")
        if self.num(a) and self.num(b):
            x, y, _ = self.arith_pair(a, b)
            if isinstance(op, ast.Lt):
                return mk_bool(x < y)
            if isinstance(op, ast.LtE):
                return mk_bool(x <= y)
            if isinstance(op, ast.Gt):
                return mk_bool(x > y)
            if isinstance(op, ast.GtE):
                return mk_bool(x >= y)
        if isinstance(a, Opq) or isinstance(b, Opq):
            nm = type(op).__name__
            h = self.ext_handlers.get("order")
            if h:
                return h(self, nm, a, b)
        raise Unsupported("ordering of %r and %r" % (a, b))

    def eq(self, a, b):
        """== as python bool or Sc bool"""
        if isinstance(a, (Builtin, type, TypeV, ClassV)) or isinstance(b, (Builtin, type, TypeV, ClassV)):
            return self.norm_type(a) == self.norm_type(b)
        if self.num(a) and self.num(b):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a == b
            x, y, k = self.arith_pair(a, b)
            return mk_bool(x == y)
        if isinstance(a, (str,)) and isinstance(b, str):
            return a == b
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            if isinstance(o, Opq):
                h = self.ext_handlers.get("isnone:" + o.fn)
                if h:
                    return h(self, o)
                return mk_bool(self.opq_bool("isnone", o))
            return False
        if isinstance(a, Sc) and a.kind == "str" or isinstance(b, Sc) and b.kind == "str":
            from . import strmode
            return strmode.eq(self, a, b)
        if isinstance(a, (str, Text)) and isinstance(b, (str, Text)):
            return self.text_eq(a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            h = self.ext_handlers.get("eq")
            if h:
                r = h(self, a, b)
                if r is not NotImplemented:
                    return r
            ta, tb = self.opq_term(a), self.opq_term(b)
            if ta.sort() != tb.sort():
                return mk_bool(self.opq_bool("eq", a, b))
            return mk_bool(ta == tb)
        la = self.list_seq(a) if isinstance(a, (Ref, View, LV)) else None
        lb = self.list_seq(b) if isinstance(b, (Ref, View, LV)) else None
        if (la is not None) != (lb is not None):
            return False
        if la is not None or (isinstance(a, (tuple, TupSeq)) and isinstance(b, (tuple, TupSeq))):
            sa, sb = (la, lb) if la is not None else (self.as_seq(a), self.as_seq(b))
            return self.seq_eq_bool(sa, sb)
        if isinstance(a, (tuple, TupSeq)) or isinstance(b, (tuple, TupSeq)):
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            oa, ob = self.obj(a), self.obj(b)
            if type(oa) != type(ob):
                return False
            if isinstance(oa, DictO):
                if oa.default is None and ob.default is None:
                    if set(oa.items) != set(ob.items):
                        return False
                    return self.seq_eq_bool([Unit(oa.items[k]) for k in oa.items], [Unit(ob.items[k]) for k in oa.items])
            if isinstance(oa, SetO):
                return set(map(repr, oa.items)) == set(map(repr, ob.items))
            if isinstance(oa, InstO):
                return False
            raise Unsupported("object ==")
        kinds = (str, Text), (int, float, bool)
        def kind(x):
            if isinstance(x, (str, Text)):
                return "s"
            if self.num(x):
                return "n"
            if isinstance(x, (Ref, LV, View)):
                return "o"
            return "?"
        if kind(a) != kind(b) and "?" not in (kind(a), kind(b)):
            return False
        raise Unsupported("== of %r and %r" % (a, b))

    def seq_eq_bool(self, sa, sb):
        why, self.why = self.why, ""
        mark = len(self.pc)
        try:
            r = self.eq_seq(sa, sb)
        finally:
            self.why = why
        if r:
            return True
        la, lb = self.seq_len(sa), self.seq_len(sb)
        if not self.decide(as_term(la) == as_term(lb)):
            return False
        if isinstance(la, int) and la <= 8:
            conj = []
            for k in range(la):
                e = self.eq(self.index(sa, k), self.index(sb, k))
                if e is False:
                    return False
                if e is not True:
                    conj.append(e.t)
            return mk_bool(z3.And(*conj)) if conj else True
        # equality of symbolic sequences: existentially skolemised when false
        ok = z3.Bool(fresh_name("seqeq"))
        self.seqeqs = getattr(self, "seqeqs", {})
        self.seqeqs[str(ok)] = (sa, sb)
        return Sc("bool", ok)

    def text_eq(self, a, b):
        why, self.why = self.why, ""
        r = self.eq_seq(text_of(a), text_of(b))
        self.why = why
        if r:
            return True
        for x, y in ((a, b), (b, a)):
            if x == "" or x == ():
                if not isinstance(y, str):
                    ne = self.t_nonempty(text_of(y))
                    if ne is True:
                        return False
                    if len(text_of(y)) == 1 and isinstance(text_of(y)[0], Atom):
                        return mk_bool(self.atom_empty(text_of(y)[0]))
                    return self.t_decide_empty(text_of(y))
        # distinguished by a literal first character
        pa, pb = text_of(a), text_of(b)
        for i in (0, -1):
            if pa and pb and isinstance(pa[i], str) and isinstance(pb[i], str):
                n = min(len(pa[i]), len(pb[i]))
                if i == 0 and pa[0][:n] != pb[0][:n]:
                    return False
                if i == -1 and pa[-1][-n:] != pb[-1][-n:]:
                    return False
        for x, y in ((pa, pb), (pb, pa)):
            if len(x) == 1 and isinstance(x[0], Atom) and len(y) == 1 and isinstance(y[0], str):
                lit = y[0]
                at = x[0]
                ci = chars.atom_info(at)
                if (not lit and ci.min) or (lit and (lit[0] in chars.UNI - ci.first or lit[-1] in chars.UNI - ci.last or not (set(lit) & chars.UNI) <= ci.cs)) or (ci.one and len(lit) != 1):
                    return False
                h = at.flags & {"num"}
                if h and not re.match(r"^\s*[-+0-9.naif]", lit):
                    return False
                if "notspecial" in at.flags and (lit.startswith("=") or "\n" in lit):
                    return False
                return mk_bool(self.opq_bool("texteq", at, lit))
            if len(x) == 1 and len(y) == 1 and isinstance(x[0], Atom) and isinstance(y[0], Atom):
                ta, tb = self.opq_term(x[0]), self.opq_term(y[0])
                if ta.sort() == tb.sort():
                    return mk_bool(ta == tb)
        # distinguished by the characters they can begin and end with, or by literal text the other cannot hold
        for end in (0, -1):
            fa, fb = self.end_chars(pa, end), self.end_chars(pb, end)
            if fa is not None and fb is not None and not (fa & fb):
                return False
        for x, y in ((pa, pb), (pb, pa)):
            if len(y) <= 1 and all(isinstance(q, str) for q in y):
                if any(isinstance(q, str) and q not in (y[0] if y else "") for q in x):
                    return False
        raise Unsupported("text equality %r == %r" % (a, b))

    def end_chars(self, pieces, end):
        """representatives of the characters the text can begin (0) or end (-1) with; None when it may be empty or is unknown"""
        out = frozenset()
        for p in (pieces if end == 0 else reversed(pieces)):
            if isinstance(p, Hole):
                return None
            if isinstance(p, str) and p[end] not in chars.UNI:
                return None
            i = chars.info(self, p)
            if isinstance(p, Gen):
                q = [x for x in p.body]
                b = self.end_chars(q, end)
                if b is None:
                    return None
                out |= b
            else:
                out |= i.first if end == 0 else i.last
            if i.min:
                return out
        return None

    def contains(self, cont, x):
        if isinstance(cont, (tuple,)):
            return self.any_eq(x, cont)
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, Sc) and cont.kind == "str" or isinstance(x, Sc) and x.kind == "str":
            from . import strmode
            return strmode.contains(self, cont, x)
        if isinstance(cont, Ref):
            o = self.obj(cont)
            if isinstance(o, DictO):
                if o.default is None or (isinstance(x, str) and x in o.items):
                    if isinstance(x, (Text, Sc, Opq, Atom)):
                        return self.any_eq(x, list(o.items))
                    return x in o.items
                return o.default("in", x)
            if isinstance(o, SetO):
                return self.any_eq(x, o.items)
            if isinstance(o, InstO):
                h = self.ext_handlers.get("contains:" + str(o.ext))
                if h:
                    return h(self, cont, x)
        if isinstance(cont, Opq):
            h = self.ext_handlers.get("contains:" + cont.fn)
            if h:
                return h(self, cont, x)
            return mk_bool(self.opq_bool("in", x, cont))
        seq = self.list_seq(cont) if isinstance(cont, (Ref, View, LV)) else self.as_seq(cont)
        if seq is not None:
            seq = self.norm(seq)
            if all(isinstance(p, Unit) for p in seq):
                return self.any_eq(x, [p.v for p in seq])
            terms = []
            for p in seq:
                if isinstance(p, Unit):
                    r = self.eq(x, p.v)
                    if r is True:
                        return True
                    if r is not False:
                        terms.append(r.t)
                elif isinstance(p, Gen) and len(p.body) == 1 and isinstance(p.body[0], Unit):
                    i = fresh_int("in")
                    r = self.eq(x, gen_at(p, i)[0].v)
                    if r is False:
                        continue
                    rt = r.t if isinstance(r, Sc) else z3.BoolVal(r)
                    terms.append(z3.Exists([i], z3.And(i >= 0, i < as_term(p.n), rt)))
                else:
                    raise Unsupported("in %r" % (p,))
            return mk_bool(z3.Or(*terms)) if terms else False
        if isinstance(cont, (str, Text)):
            raise Unsupported("substring test")
        raise Unsupported("in %r" % (cont,))

    def any_eq(self, x, items):
        ts = []
        for y in items:
            r = self.eq(x, y)
            if r is True:
                return True
            if r is False:
                continue
            ts.append(r.t)
        if not ts:
            return False
        return mk_bool(z3.Or(*ts))

    # -------------------------------------------------------------- operators
    def binop(self, op, a, b):
        if isinstance(op, ast.Mod) and isinstance(a, (str, Text)):
            return self.format(a, b)
        if isinstance(a, Sc) and a.kind == "str" or isinstance(b, Sc) and b.kind == "str":
            from . import strmode
            return strmode.binop(self, op, a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, Text)) and isinstance(b, (str, Text)):
                return mk_text(text_of(a) + text_of(b))
            if isinstance(a, (str, Text)) or isinstance(b, (str, Text)):
                if not isinstance(a, Opq) and not isinstance(b, Opq):
                    raise PyRaise("TypeError", "str +")
            sa = self.list_seq(a) if isinstance(a, (Ref, View, LV)) else None
            sb = self.list_seq(b) if isinstance(b, (Ref, View, LV)) else None
            if sa is not None and sb is not None:
                r = self.new_list(self.norm(tuple(sa) + tuple(sb)))
                if any(self._has_lv(p) for p in tuple(sa) + tuple(sb) if isinstance(p, (Unit, Gen))):
                    self.obj(r).inner_frozen = True
                    for s in (a, b):
                        s = self.materialise(s)
                        if isinstance(s, Ref):
                            self.obj(s).inner_frozen = True
                return r
            if isinstance(a, (tuple, TupSeq)) and isinstance(b, (tuple, TupSeq)):
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return a + b
                return TupSeq(self.as_seq(a) + self.as_seq(b))
            if sa is not None or sb is not None:
                raise PyRaise("TypeError", "list +")
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (str, Text)) and self.num(y):
                    if isinstance(x, str) and isinstance(y, int):
                        return x * y
                    if isinstance(y, int):
                        return mk_text(text_of(x) * max(y, 0))
                    n = as_term(y)
                    if not self.entails(n >= 0):
                        n = z3.If(n > 0, n, z3.IntVal(0))
                    return mk_text((Gen(n, fresh_int("r"), text_of(x)),))
                s = self.list_seq(x) if isinstance(x, (Ref, View, LV)) else None
                if s is not None and self.num(y):
                    if isinstance(y, int):
                        return self.copy_seq(x, self.norm(tuple(s) * max(y, 0)))
                    n = as_term(y)
                    if not self.entails(n >= 0):
                        n = z3.If(n > 0, n, z3.IntVal(0))
                    if self._has_lv_any(s):
                        raise Unsupported("list * n of lists")
                    return self.new_list((Gen(n, fresh_int("r"), s),))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return self.pyarith(op, a, b)
        if self.num(a) and self.num(b):
            x, y, k = self.arith_pair(a, b)
            mk = mk_int if k == "int" else mk_float
            if isinstance(op, ast.Add):
                return mk(x + y)
            if isinstance(op, ast.Sub):
                return mk(x - y)
            if isinstance(op, ast.Mult):
                return mk(x * y)
            if isinstance(op, ast.Div):
                if not self.decide(y != 0):
                    raise PyRaise("ZeroDivisionError")
                x, y = (z3.ToReal(x) if k == "int" else x), (z3.ToReal(y) if k == "int" else y)
                return mk_float(self.div_fun(x, y) if self.div_fun is not None else x / y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and k == "int":
                if not self.decide(y != 0):
                    raise PyRaise("ZeroDivisionError")
                if not self.entails(y > 0):
                    raise Unsupported("division by possibly negative int")
                if self.mod_fun is not None and isinstance(op, ast.Mod):
                    return mk_int(self.mod_fun(x, y))
                return mk_int(x / y) if isinstance(op, ast.FloorDiv) else mk_int(x % y)
            raise Unsupported("arithmetic %s" % type(op).__name__)
        if isinstance(a, Opq) or isinstance(b, Opq):
            h = self.ext_handlers.get("binop")
            if h:
                return h(self, type(op).__name__, a, b)
        if isinstance(a, Ref) and isinstance(self.obj(a), SetO) or isinstance(b, Ref) and isinstance(self.obj(b), SetO):
            raise Unsupported("set operator")
        if a is None or b is None:
            raise PyRaise("TypeError")
        raise Unsupported("binop %s %r %r" % (type(op).__name__, a, b))

    def _has_lv_any(self, s):
        return any(self._has_lv(p) for p in s if isinstance(p, (Unit, Gen))) or any(isinstance(p, Unit) and isinstance(p.v, Ref) for p in s)

    def pyarith(self, op, a, b):
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                    ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[type(op)]()
        except ZeroDivisionError:
            raise PyRaise("ZeroDivisionError")
        except KeyError:
            raise Unsupported("operator")

    # -------------------------------------------------------------- text formatting
    def to_str(self, v):
        if isinstance(v, (str, Text)):
            return v
        if isinstance(v, (int, float, bool)) or v is None:
            return str(v)
        if isinstance(v, Sc):
            if v.kind == "int":
                return mk_text((Atom("tok", ("%d", v.t), NUMFLAGS),))
            if v.kind == "float":
                return mk_text((Atom("tok", ("%s", v.t), NUMFLAGS),))
            if v.kind == "str":
                return v
        if isinstance(v, Opq):
            h = self.ext_handlers.get("str")
            if h:
                r = h(self, v)
                if r is not NotImplemented:
                    return r
            return mk_text((Atom("str", (self.opq_term(v),), {"nonl"}),))
        return mk_text((Atom("repr", (z3.Int(fresh_name("repr")),), {"nonempty", "nonl"}),))

    def fmt_value(self, spec, v):
        """text pieces of one printf directive applied to v; spec is a str directive or an Atom numfmt"""
        if isinstance(spec, str):
            conv = spec[-1]
            if isinstance(v, (int, float, bool)) or (isinstance(v, str) and conv in "sr"):
                try:
                    return text_of(spec % (v,))
                except TypeError:
                    raise PyRaise("TypeError", "format")
            if spec == "%s":
                return text_of(self.to_str(v))
            if conv in "sr":
                raise Unsupported("format %s" % spec)
            if conv in "di":
                if isinstance(v, Sc) and v.kind == "int":
                    return (Atom("tok", ("%d" if spec in ("%d", "%i") else spec, v.t), NUMFLAGS),) if spec in ("%d", "%i") else self.padded(spec, v)
                if isinstance(v, (str, Text)) or v is None:
                    raise PyRaise("TypeError", "%d format")
                if isinstance(v, Opq):
                    return (Atom("tok", (spec, self.opq_term(v)), NUMFLAGS),)
                raise Unsupported("%%d of %r" % (v,))
            if isinstance(v, (str, Text)) or v is None or self.list_seq(v) is not None if not isinstance(v, (Sc, Opq)) else False:
                raise PyRaise("TypeError", "float format")
            return self.padded(spec, v)
        # unknown numeric format
        if isinstance(v, (str, Text)) or v is None:
            raise PyRaise("TypeError", "number format")
        if isinstance(v, Sc) and v.kind == "str":
            raise PyRaise("TypeError", "number format")
        if isinstance(v, (Ref, View, LV)) and self.list_seq(v) is not None:
            raise PyRaise("TypeError", "number format")
        return self.padded(spec, v)

    def padded(self, spec, v):
        if isinstance(v, Opq):
            t = self.opq_term(v)
        else:
            t = real_term(v)
        name = spec if isinstance(spec, str) else spec.fn
        tok = Atom("tok", (name, t), NUMFLAGS)
        if isinstance(spec, str):
            pad = re.match(r"^%[-#+ 0]*\d", spec) is not None or " " in spec
        else:
            pad = "nopad" not in spec.flags
        if pad:
            return (Atom("padl", (name, t), {"ws", "sp", "nonl"}), tok, Atom("padr", (name, t), {"ws", "sp", "nonl"}))
        return (tok,)

    def format(self, fmt, args):
        if isinstance(args, tuple):
            src = [Unit(x) for x in args]
            multi = True
        elif isinstance(args, TupSeq):
            src = list(args.seq)
            multi = True
        else:
            src = [Unit(args)]
            multi = False
        src = list(self.norm(src))
        state = {"src": src}
        def pop1():
            s = list(self.ensure_front(state["src"]))
            if not s:
                raise PyRaise("TypeError", "not enough arguments for format string")
            state["src"] = s[1:]
            return s[0].v
        def do(pieces):
            out = []
            for p in pieces:
                if isinstance(p, str):
                    pos = 0
                    for m in re.finditer(r"%(%|[#0\- +]*\d*(?:\.\d+)?[sdifgeEGrx])", p):
                        out.append(p[pos:m.start()])
                        pos = m.end()
                        if m.group() == "%%":
                            out.append("%")
                            continue
                        out.extend(self.fmt_value(m.group(), pop1()))
                    rest = p[pos:]
                    if "%" in rest:
                        raise Unsupported("format string %r" % p)
                    out.append(rest)
                elif isinstance(p, Atom):
                    if "numfmt" in p.flags:
                        out.extend(self.fmt_value(p, pop1()))
                    elif "nopct" in p.flags:
                        out.append(p)
                    else:
                        raise Unsupported("format string %r" % p)
                elif isinstance(p, Gen):
                    c = count(p.body)
                    if c == 0:
                        out.append(p)
                        continue
                    if self.le(p.n, 0):
                        continue
                    total = nint(as_term(p.n) * c)
                    L = self.seq_len(state["src"])
                    if not self.decide(as_term(L) >= as_term(total)):
                        raise PyRaise("TypeError", "not enough arguments for format string")
                    a, b = self.split_at(tuple(state["src"]), total)
                    v = fresh_int("f")
                    mark = len(self.pc)
                    self.assume(v >= 0)
                    self.assume(v < as_term(p.n))
                    vals = [self.index(a, v * c + k) for k in range(c)]
                    save = state["src"]
                    state["src"] = [Unit(x) for x in vals]
                    body = do(gen_at(p, v))
                    del self.pc[mark:]
                    state["src"] = list(b)
                    out.append(Gen(p.n, v, Text(body).pieces))
                else:
                    raise Unsupported("format piece %r" % (p,))
            return out
        def count(pieces):
            c = 0
            for p in pieces:
                if isinstance(p, str):
                    c += len([1 for m in re.finditer(r"%(%|[#0\- +]*\d*(?:\.\d+)?[sdifgeEGrx])", p) if m.group() != "%%"])
                elif isinstance(p, Atom):
                    if "numfmt" in p.flags:
                        c += 1
                    elif "nopct" not in p.flags:
                        raise Unsupported("format string %r" % p)
                else:
                    if count(p.body):
                        raise Unsupported("nested format repeat")
            return c
        out = do(self.norm(text_of(fmt)))
        if multi or True:
            L = self.seq_len(state["src"])
            if not self.decide(as_term(L) == 0):
                if not multi and isinstance(args, Ref) and isinstance(self.obj(args), DictO):
                    pass
                else:
                    raise PyRaise("TypeError", "not all arguments converted")
        return mk_text(out)

    # -------------------------------------------------------------- containers
    def seq_of(self, v):
        """sequence of the elements of an iterable"""
        if isinstance(v, (Ref, View, LV)):
            s = self.list_seq(v)
            if s is not None:
                return s
            o = self.obj(v)
            if isinstance(o, DictO):
                if o.default is not None:
                    raise Unsupported("iterate abstract dict")
                return tuple(Unit(k) for k in o.items)
            if isinstance(o, SetO):
                return tuple(Unit(k) for k in o.items)
            if isinstance(o, FileO):
                if o.rest is None:
                    raise Unsupported("iterate file")
                s, o.rest = o.rest, ()
                return s
            h = self.ext_handlers.get("iter:" + str(o.ext)) if isinstance(o, InstO) else None
            if h:
                return h(self, v)
        if isinstance(v, (tuple, TupSeq)):
            return self.as_seq(v)
        if isinstance(v, IterSegs):
            return v.seq
        if isinstance(v, RangeV):
            lo, hi, st = v.lo, v.hi, v.step
            if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int):
                return tuple(Unit(k) for k in range(lo, hi, st))
            if st != 1:
                if not isinstance(st, int) or st <= 0:
                    raise Unsupported("range step")
                n = as_term(hi) - as_term(lo)
                cnt = (n + (st - 1)) / st
                cnt = z3.If(n > 0, cnt, z3.IntVal(0)) if not self.entails(n >= 0) else cnt
                i = fresh_int("r")
                return (Gen(cnt, i, (Unit(mk_int(as_term(lo) + st * i)),)),)
            n = as_term(hi) - as_term(lo)
            if not self.entails(n >= 0):
                n = z3.If(n > 0, n, z3.IntVal(0))
            i = fresh_int("r")
            return self.norm((Gen(n, i, (Unit(mk_int(as_term(lo) + i)),)),))
        if isinstance(v, str):
            return tuple(Unit(c) for c in v)
        if isinstance(v, Opq):
            h = self.ext_handlers.get("iter:" + v.fn)
            if h:
                return h(self, v)
        raise Unsupported("iterate %r" % (v,))

    def getitem(self, base, k):
        if isinstance(base, str) and isinstance(k, int):
            try:
                return base[k]
            except IndexError:
                raise PyRaise("IndexError")
        if isinstance(base, Sc) and base.kind == "str":
            from . import strmode
            return strmode.getitem(self, base, k)
        if isinstance(base, Text):
            return self.text_index(base, k)
        if isinstance(base, tuple) and isinstance(k, int):
            try:
                return base[k]
            except IndexError:
                raise PyRaise("IndexError")
        if isinstance(base, (Ref, View, LV)):
            seq = self.list_seq(base)
            if seq is not None:
                if not (isinstance(k, int) or isinstance(k, Sc) and k.kind == "int"):
                    raise PyRaise("TypeError", "list index")
                return self.elem(base, seq, k)
            o = self.obj(base)
            if isinstance(o, DictO):
                if isinstance(k, (Text, Sc, Opq, Atom)):
                    if o.default is not None and o.allkeys:
                        return o.default("get", k)
                    if o.default is None:
                        return self.dict_sym_get(o, k)
                    raise Unsupported("symbolic key")
                if k in o.items:
                    return o.items[k]
                if o.default is not None:
                    return o.default("get", k)
                raise PyRaise("KeyError", k)
            if isinstance(o, InstO):
                if o.cls is not None:
                    m = self.class_attr(o.cls, "__getitem__")
                    if m is not None:
                        return self.call(m, [base, k])
                h = self.ext_handlers.get("getitem:" + str(o.ext))
                if h:
                    return h(self, base, k)
        if isinstance(base, TupSeq):
            return self.index(base.seq, k)
        if isinstance(base, Opq):
            h = self.ext_handlers.get("getitem:" + base.fn)
            if h:
                return h(self, base, k)
        if base is None:
            raise PyRaise("TypeError", "None is not subscriptable")
        if self.num(base):
            raise PyRaise("TypeError", "number is not subscriptable")
        raise Unsupported("getitem %r[%r]" % (base, k))

    def dict_sym_get(self, o, k):
        for kk, vv in o.items.items():
            r = self.eq(k, kk)
            if self.truth(r):
                return vv
        raise PyRaise("KeyError")

    def text_index(self, t, k):
        p = t.pieces
        if k == 0 or k == -1:
            q = p[0] if k == 0 else p[-1]
            if isinstance(q, str):
                return q[k]
            if isinstance(q, Atom):
                if q.flags & {"tok", "nonempty", "ws1"}:
                    fl = {"nonempty", "nonl", "char"}
                    if "noquote" in q.flags:
                        fl.add("noquotechar")
                    return mk_text((Atom("char%d" % k, (self.opq_term(q),), fl),))
                if self.decide(self.atom_empty(q)):
                    if len(p) == 1:
                        raise PyRaise("IndexError")
                    return self.text_index(Text(p[1:] if k == 0 else p[:-1]), k)
                return self.text_index(Text((Atom(q.fn, q.args, q.flags | {"nonempty"}),)), k)
        raise Unsupported("text index")

    def setitem(self, base, k, v):
        v = self.escape(v)
        if isinstance(base, (Ref, View)):
            if self.list_seq(base) is not None:
                o = self.list_obj(base, True, False)
                seq = o.seq
                self.index(seq, k)      # bounds
                k2 = nint(as_term(k))
                if (isinstance(k2, int) and k2 < 0) or (not isinstance(k2, int) and self.entails(k2 < 0)):
                    k2 = nint(as_term(k2) + as_term(self.seq_len(seq)))
                a, b = self.split_at(seq, k2)
                b = self.ensure_front(b)
                o.seq = self.norm(a + (Unit(v),) + tuple(b[1:]))
                return
            o = self.obj(base)
            if isinstance(o, DictO):
                if o.frozen:
                    raise Unsupported("mutating a shared dict (%s)" % o.frozen)
                if o.log or (isinstance(k, (Text, Atom)) and o.default is None):
                    if o.default is not None:
                        raise Unsupported("symbolic key")
                    o.log = self.norm(o.log + (Unit((k, v)),))
                    return
                o.items[self.key(k)] = v
                return
            if isinstance(o, InstO):
                h = self.ext_handlers.get("setitem:" + str(o.ext))
                if h:
                    return h(self, base, k, v)
        if isinstance(base, Opq):
            h = self.ext_handlers.get("setitem:" + base.fn)
            if h:
                return h(self, base, k, v)
        raise Unsupported("setitem on %r" % (base,))

    def getslice(self, base, lo, hi, st):
        if st is not None and st != 1:
            if isinstance(base, str) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return base[lo:hi:st]
            seq = self.list_seq(base) if isinstance(base, (Ref, View, LV)) else None
            if seq is not None and st == -1 and lo is None and hi is None:
                return self.copy_seq(base, self.reverse_seq(seq))
            if seq is not None:
                return self.step_slice(base, seq, lo, hi, st)
            h = self.ext_handlers.get("getslice:" + base.fn) if isinstance(base, Opq) else None
            if h:
                return h(self, base, lo, hi, st)
            raise Unsupported("slice step")
        if isinstance(base, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return base[lo:hi]
        if isinstance(base, Sc) and base.kind == "str":
            from . import strmode
            return strmode.getslice(self, base, lo, hi)
        if isinstance(base, tuple) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return base[lo:hi]
        lo_ = None if lo is None else nint(as_term(lo))
        hi_ = None if hi is None else nint(as_term(hi))
        if isinstance(base, (Ref, View, LV)):
            seq = self.list_seq(base)
            if seq is not None:
                return self.copy_seq(base, self.slice(seq, lo_, hi_))
        if isinstance(base, TupSeq):
            return TupSeq(self.slice(base.seq, lo_, hi_))
        if isinstance(base, Opq):
            h = self.ext_handlers.get("getslice:" + base.fn)
            if h:
                return h(self, base, lo, hi)
        if isinstance(base, Ref) and isinstance(self.obj(base), InstO):
            h = self.ext_handlers.get("getslice:" + str(self.obj(base).ext))
            if h:
                return h(self, base, lo, hi)
        if isinstance(base, Text):
            return self.text_slice(base, lo, hi)
        raise Unsupported("slice of %r" % (base,))

    def text_slice(self, t, lo, hi):
        p = list(self.norm(t.pieces))
        if len(p) == 1 and isinstance(p[0], Atom) and not chars.atom_info(p[0]).one:
            # no need to know whether it is empty
            i = chars.atom_info(p[0])
            ne = {"nonempty"} if i.min else set()
            if (lo, hi) in ((None, 1), (0, 1)):
                return mk_text((Atom("head", (self.opq_term(p[0]),), {("cs", i.first)} | ne | ({"char"} if i.min else set())),))
            if (lo, hi) == (-1, None):
                return mk_text((Atom("tail", (self.opq_term(p[0]),), {("cs", i.last)} | ne | ({"char"} if i.min else set())),))
        if (lo, hi) in ((None, 1), (0, 1), (1, None)):
            while p and not isinstance(p[0], str) and self.piece_empty(p[0]):
                p = p[1:]
            if not p:
                return ""
            if isinstance(p[0], str):
                return p[0][:1] if hi == 1 else mk_text([p[0][1:]] + p[1:])
            i = chars.info(self, p[0])
            if i.one:
                return mk_text(p[:1] if hi == 1 else p[1:])
            if hi == 1 and isinstance(p[0], Atom):
                return mk_text((Atom("head", (self.opq_term(p[0]),), {"char", "nonempty", ("cs", i.first)}),))
            if isinstance(p[0], Atom):
                fl = {f for f in p[0].flags if isinstance(f, tuple) and f[0] == "cs" or isinstance(f, str) and (f.startswith("no:") or f in (
                    "nonl", "noctl", "nopct", "nobraces", "noquotechar", "nobrace", "endok"))} - {"nobrace", "endok"}
                return mk_text([Atom("rest", (self.opq_term(p[0]),), fl)] + p[1:])
        if (lo, hi) in ((None, -1), (-1, None), (0, -1)):
            while p and not isinstance(p[-1], str) and self.piece_empty(p[-1]):
                p = p[:-1]
            if not p:
                return ""
            if isinstance(p[-1], str):
                return p[-1][-1:] if lo == -1 else mk_text(p[:-1] + [p[-1][:-1]])
            i = chars.info(self, p[-1])
            if i.one:
                return mk_text(p[-1:] if lo == -1 else p[:-1])
            if lo == -1 and isinstance(p[-1], Atom):
                return mk_text((Atom("tail", (self.opq_term(p[-1]),), {"char", "nonempty", ("cs", i.last)}),))
        if (lo is None or lo == 0 or isinstance(lo, int) and lo > 0) and isinstance(p[0], str):
            if (lo or 0) <= len(p[0]) and hi is None:
                return mk_text([p[0][lo or 0:]] + p[1:])
            if isinstance(hi, int) and 0 <= hi <= len(p[0]):
                return p[0][lo or 0:hi]
        if isinstance(p[-1], str) and isinstance(hi, int) and hi < 0 and -hi <= len(p[-1]) and (lo is None or lo == 0):
            return mk_text(p[:-1] + [p[-1][:hi]])
        if isinstance(p[-1], str) and isinstance(lo, int) and lo < 0 and -lo <= len(p[-1]) and hi is None:
            return p[-1][lo:]
        raise Unsupported("text slice")

    def piece_empty(self, p):
        if chars.info(self, p).min:
            return False
        if isinstance(p, Atom):
            return self.decide(self.atom_empty(p))
        return self.t_decide_empty((p,))

    def step_slice(self, base, seq, lo, hi, st):
        """seq[lo:hi:st] for lo 0/None, hi = len or None and positive step dividing the length exactly or not"""
        n = self.seq_len(seq)
        if not (lo is None or lo == 0):
            raise Unsupported("slice step with lower bound")
        if hi is not None and not self.eqi(hi, n):
            raise Unsupported("slice step with upper bound")
        stt = as_term(st)
        if not self.entails(stt > 0):
            if not self.decide(stt > 0):
                raise Unsupported("slice step sign")
        # count = ceil(n/st): look for q with n == q*st
        qr = self.divmod_sym(n, nint(stt))
        if qr is not None and qr[1] == 0:
            cnt = qr[0]
        else:
            cnt = None
            for g in self.ghost_ints:
                if self.entails(z3.And((as_term(g) - 1) * stt < as_term(n), as_term(g) * stt >= as_term(n))) or self.eqi(as_term(g) * stt, n):
                    cnt = g
                    break
            if cnt is None:
                raise Unsupported("slice step count")
        i = fresh_int("s")
        mark = len(self.pc)
        self.assume(i >= 0)
        self.assume(i < as_term(cnt))
        v = self.index(seq, i * stt)
        del self.pc[mark:]
        return self.copy_seq(base, self.norm((Gen(cnt, i, (Unit(v),)),)))

    def reverse_seq(self, seq):
        out = []
        for p in reversed(list(seq)):
            if isinstance(p, Gen):
                v = fresh_int("rv")
                body = self.reverse_seq(subst_seq(p.body, [(p.var, as_term(p.n) - 1 - v)]))
                out.append(Gen(p.n, v, body))
            else:
                out.append(p)
        return tuple(out)

    # -------------------------------------------------------------- attributes
    def getattr_(self, base, name):
        if isinstance(base, Ref):
            o = self.obj(base)
            if isinstance(o, InstO):
                if name in o.attrs:
                    v = o.attrs[name]
                    if isinstance(v, Poison):
                        raise Unsupported("value of attribute %s unknown (%s)" % (name, v.why))
                    return v
                if o.cls is not None:
                    if name == "__class__":
                        return o.cls
                    m = self.class_attr(o.cls, name)
                    if m is not None:
                        if isinstance(m, FuncV):
                            if any(isinstance(d, ast.Name) and d.id == "property" for d in m.node.decorator_list):
                                return self.call(m, [base])
                            if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.node.decorator_list):
                                return m
                            return BoundV(base, m)
                        return m
                if o.ext is not None:
                    h = self.ext_handlers.get("getattr:" + str(o.ext))
                    if h:
                        return h(self, base, name)
                if o.cls is not None and name in ("__dict__", "__name__"):
                    raise Unsupported("attribute %s" % name)
                raise PyRaise("AttributeError", name)
            return BMethod(base, name)
        if isinstance(base, ModV):
            v = self.module_value(base.name, name)
            if v is None:
                if base.name + "." + name in self.prog.mods:
                    return ModV(base.name + "." + name)
                if name == "__file__":
                    return self.prog.mods[base.name][0]
                raise PyRaise("AttributeError", name)
            return v
        if isinstance(base, Extern):
            h = self.ext_handlers.get("value:" + base.name + "." + name)
            if h is not None:
                return h(self)
            return Extern(base.name + "." + name)
        if isinstance(base, ClassV):
            m = self.class_attr(base, name)
            if m is not None:
                return m
            if name == "__name__":
                return base.name
            raise PyRaise("AttributeError", name)
        if isinstance(base, SuperV):
            cls = self.obj(base.self_).cls
            m = self.class_attr(cls, name, after=base.cls)
            if m is None:
                if name == "__init__":
                    return _noop
                raise PyRaise("AttributeError", name)
            return BoundV(base.self_, m)
        if isinstance(base, Opq):
            h = self.ext_handlers.get("getattr:" + base.fn)
            if h:
                return h(self, base, name)
            raise Unsupported("attribute %s of %r" % (name, base))
        if isinstance(base, (str, Text, View, LV, Sc, tuple, TupSeq, int, float)):
            return BMethod(base, name)
        if base is None:
            raise PyRaise("AttributeError", name)
        if isinstance(base, (FuncV, BoundV)) and name in ("__name__", "__doc__"):
            return Opq("fattr", (name,))
        raise Unsupported("attribute %s of %r" % (name, base))

    def setattr_(self, base, name, v):
        v = self.escape(v)
        if isinstance(base, Ref) and isinstance(self.obj(base), InstO):
            o = self.obj(base)
            if o.ext is not None:
                h = self.ext_handlers.get("setattr:" + str(o.ext))
                if h:
                    return h(self, base, name, v)
            if o.cls is not None:
                # property setters
                for c in self.mro(o.cls):
                    if isinstance(c, ClassV):
                        for st in c.node.body:
                            if isinstance(st, ast.FunctionDef) and st.name == name and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in st.decorator_list):
                                self.call(FuncV(st, c.mod, c.qual + "." + name + ".setter", cls=c), [base, v])
                                return
            o.attrs[name] = v
            return
        if isinstance(base, Opq):
            h = self.ext_handlers.get("setattr:" + base.fn)
            if h:
                return h(self, base, name, v)
        raise Unsupported("setattr on %r" % (base,))

    def hasattr_(self, base, name):
        if isinstance(base, Opq) or (isinstance(base, Ref) and isinstance(self.obj(base), InstO) and self.obj(base).ext):
            nm = base.fn if isinstance(base, Opq) else self.obj(base).ext
            h = self.ext_handlers.get("hasattr:" + nm)
            if h:
                return h(self, base, name)
        try:
            v = self.getattr_(base, name)
        except PyRaise as e:
            if e.etype == "AttributeError":
                return False
            raise
        if isinstance(v, BMethod):
            t = self.type_of(base)
            if isinstance(t, type):
                return hasattr(t, name)
            raise Unsupported("hasattr %s" % name)
        return True

    # -------------------------------------------------------------- builtins / methods: see lib.py
    def call_builtin(self, name, args, kw):
        from . import lib
        return lib.builtin(self, name, args, kw)
    def call_method(self, recv, name, args, kw):
        from . import lib
        return lib.method(self, recv, name, args, kw)
    def call_extern(self, name, args, kw):
        from . import lib
        return lib.extern(self, name, args, kw)

    # -------------------------------------------------------------- path exploration
    def explore(self, fn, max_paths=200):
        """run fn() on every feasible path; returns list of (kind, value, state) and leaves the initial state restored.
        kind: 'return' | 'raise' | signal names"""
        s0 = self.snap()
        old = self.trace
        res = []
        prefix = []
        count = 0
        ctr0 = top = _ctr.at
        try:
            while prefix is not None:
                self.restore(s0)
                top = max(top, _ctr.at)
                _ctr.at = ctr0
                self.trace = Trace(prefix, top)
                out = None
                try:
                    out = ("return", fn())
                except PyRaise as e:
                    out = ("raise", e)
                except BreakSig:
                    out = ("break", None)
                except ContinueSig:
                    out = ("continue", None)
                except ReturnSig as r:
                    out = ("fnreturn", r.v)
                except PathEnd:
                    out = None
                count += 1
                if count > max_paths:
                    raise Unsupported("too many paths")
                if out is not None and (not self.trace.taken or self.feasible()):
                    res.append((out[0], out[1], self.snap(), self.pc[s0[2]:]))
                prefix = self.trace.next_prefix()
        finally:
            self.trace = old
            self.restore(s0)
            _ctr.at = max(top, _ctr.at)
        return res

NUMFLAGS = frozenset({"tok", "endok", "nobrace", "nopct", "noquote", "nonl", "stripped", "nonempty", "num"})

def _noop(interp, args, kwargs):
    return None
_noop._pyvc = True

def lib_set_add(I, o, v):
    for x in o.items:
        r = I.eq(v, x)
        if I.truth(r):
            return
    o.items.append(v)
