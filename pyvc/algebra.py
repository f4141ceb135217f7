"""Path condition, entailment, and operations/equality on symbolic sequences and texts."""
import re
import time
import z3
from .core import *

SEQ_FUEL = 60

class Fork(Exception):
    """raised by decide() in no-fork mode"""
    def __init__(self, cond):
        self.cond = cond

class Algebra:
    def __init__(self, timeout_ms=3000):
        self.pc = []              # assumed z3 Bools
        self._stack = []          # asserted in solver
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.cache = {}
        self._caches, self._quant = {}, {}
        self.queries = 0
        self.unknowns = 0
        self.solver_time = 0.0
        self.axioms = []
        self.trace = None         # decision trace, None = no forking allowed
        self.why = ""
        self.sums = {}
        self.sum_canon = {}
        self.sum_terms = {}
        self.sum_args = {}
        self.int_exact = False    # number format writes integers exactly
        self._keep = []           # keep terms alive so ids stay unique
        self.schemas = {}         # function name -> fact about every application of it
        self._scanned = set()
        self.pair_schemas = {}
        self._app_cache = {}
        self._inst = set()
        self._lin_cache, self._lin_apps, self._lin_side = {}, {}, {}

    # ------------------------------------------------------------ entailment
    def _sync(self):
        k = 0
        st, pc = self._stack, self.pc
        m = min(len(st), len(pc))
        while k < m and st[k] is pc[k]:
            k += 1
        if len(st) > k:
            self.solver.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.solver.push()
            if not (self.lazy and self._quantified(c)):
                self.solver.add(c)
            st.append(c)

    # facts about every position may be left out while paths are explored (more paths, none missed)
    lazy = False
    nofork = False              # sequences are compared without splitting cases
    def set_lazy(self, on):
        if on == self.lazy:
            return
        if self._stack:
            self.solver.pop(len(self._stack))
            self._stack = []
        self.lazy = on
        self._caches[not on], self.cache = self.cache, self._caches.get(on, {})
    def _quantified(self, c):
        r = self._quant.get(c.get_id())
        if r is None:
            r = z3.is_quantifier(c) or any(self._quantified(k) for k in c.children())
            self._quant[c.get_id()] = r
            self._keep.append(c)
        return r

    def add_axiom(self, ax):
        # axioms sit below the path condition
        if self._stack:
            self.solver.pop(len(self._stack))
            self._stack = []
        self.solver.add(ax)
        self.axioms.append(ax)
        self.cache = {}
        self._caches = {}
        if self.schemas:
            self._instantiate(ax)

    def schema(self, decl, fact):
        """assume fact(f(args)) for every application of decl (instantiated at the terms that occur)"""
        self.schemas[decl.name()] = fact

    def pair_schema(self, decl, one, two):
        """assume one(f(a)) and two(f(a), f(b)) for the applications that occur in a query"""
        self.pair_schemas[decl.name()] = (one, two)

    def _apps(self, c):
        r = self._app_cache.get(c.get_id())
        if r is None:
            r = {}
            seen = set()
            todo = [c]
            while todo:
                t = todo.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_quantifier(t):
                    continue
                if z3.is_app(t):
                    todo.extend(t.children())
                    if t.num_args() and t.decl().name() in self.pair_schemas:
                        r[t.get_id()] = t
            self._keep.append(c)
            self._app_cache[c.get_id()] = r
        return r

    def _pair_facts(self, extra):
        apps = {}
        for c in self.pc:
            apps.update(self._apps(c))
        if extra is not None:
            apps.update(self._apps(extra))
        out = []
        by = {}
        for t in apps.values():
            by.setdefault(t.decl().name(), []).append(t)
        for n, ts in by.items():
            one, two = self.pair_schemas[n]
            for i, t in enumerate(ts):
                out.append(one(t))
                for u in ts[:i]:
                    out.append(two(t, u))
        return out

    def _instantiate(self, c):
        if not self.schemas:
            return
        todo = [c]
        while todo:
            t = todo.pop()
            if t.get_id() in self._scanned:
                continue
            self._scanned.add(t.get_id())
            self._keep.append(t)
            if not z3.is_app(t):
                continue
            todo.extend(t.children())
            f = self.schemas.get(t.decl().name())
            if f is not None and t.num_args() and t.get_id() not in self._inst:
                self._inst.add(t.get_id())
                self.add_axiom(f(t))

    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = simp(c)
        if z3.is_true(c):
            return
        self._keep.append(c)
        self.pc.append(c)
        if not self._in_lemma:
            self._in_lemma = True
            try:
                self._product_lemma(c)
            finally:
                self._in_lemma = False

    _in_lemma = False
    def _product_lemma(self, c):
        """f*g >= k with f >= 1, k >= 1 gives g >= 1 and f*g >= f (integers)"""
        neg = False
        t = c
        while z3.is_not(t):
            neg, t = not neg, t.arg(0)
        if not (z3.is_app(t) and t.num_args() == 2 and z3.is_int(t.arg(0))):
            return
        k = t.decl().kind()
        a, b = t.arg(0), t.arg(1)
        if k == z3.Z3_OP_LE:
            e = a - b - 1 if neg else b - a          # e >= 0
        elif k == z3.Z3_OP_GE:
            e = b - a - 1 if neg else a - b
        else:
            return
        ms = self._monos(e)
        const = sum(co for co, fs in ms if not fs)
        ms = [(co, fs) for co, fs in ms if fs]
        if const >= 0 or not ms or not any(len(fs) > 1 for co, fs in ms):
            return
        for f in ms[0][1]:
            if not all(any(f.eq(x) for x in fs) for co, fs in ms):
                continue
            if not self.le(1, f):
                continue
            g = z3.IntVal(0)
            for co, fs in ms:
                m = z3.IntVal(co)
                done = False
                for x in fs:
                    if not done and x.eq(f):
                        done = True
                    else:
                        m = m * x
                g = g + m
            self.assume(g >= 1)
            self.assume(f * g >= f)
            return

    def check(self, extra=None):
        """sat check of pc (+extra): 'sat','unsat','unknown'"""
        if self.schemas:
            for c in self.pc:
                if c.get_id() not in self._scanned:
                    self._instantiate(c)
            if extra is not None:
                self._instantiate(extra)
        if self.factors:
            t0 = time.time()
            self.queries += 1
            r = self._check_linear(extra)
            self.solver_time += time.time() - t0
            if r is not None:
                if r == "unknown":
                    self.unknowns += 1
                return r
        self._sync()
        t0 = time.time()
        self.queries += 1
        facts = self._pair_facts(extra) if self.pair_schemas else ()
        if extra is not None or facts:
            self.solver.push()
            if extra is not None:
                self.solver.add(extra)
            for f in facts:
                self.solver.add(f)
        r = self.solver.check()
        if extra is not None or facts:
            self.solver.pop()
        self.solver_time += time.time() - t0
        if r == z3.unknown:
            self.unknowns += 1
        return str(r)

    # products with a fixed factor, quotients and remainders by it, as linear arithmetic over P(t) = t * factor
    factors = ()                  # z3 constants known to be >= 1
    def _linear(self, t):
        r = self._lin_cache.get(t.get_id())
        if r is not None:
            return r[1]
        out = t
        if z3.is_app(t) and t.num_args():
            kids = t.children()
            k = t.decl().kind()
            L = None
            if k == z3.Z3_OP_MUL:
                L = next((f for f in self.factors if any(c.eq(f) for c in kids)), None)
            if L is not None:
                rest, coef, used = [], [], False
                for c in kids:
                    if not used and c.eq(L):
                        used = True
                    elif z3.is_int_value(c):
                        coef.append(c)
                    else:
                        rest.append(c)
                if rest:
                    a = simp(rest[0] if len(rest) == 1 else z3.Product(*rest))
                    # t * (u + v) is kept whole: simp has multiplied out, so a is a monomial
                    out = z3.Function("times!%s" % L, z3.IntSort(), z3.IntSort())(self._linear(a))
                    self._lin_apps[out.get_id()] = (L, out)
                    for c in coef:
                        out = c * out
                else:
                    out = t
            else:
                new = [self._linear(c) for c in kids]
                if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and any(kids[1].eq(f) for f in self.factors):
                    L = kids[1]
                    q = z3.Function("quot!%s" % L, z3.IntSort(), z3.IntSort())(new[0])
                    p = z3.Function("times!%s" % L, z3.IntSort(), z3.IntSort())(q)
                    self._lin_apps[p.get_id()] = (L, p)
                    self._lin_side[p.get_id()] = z3.And(p <= new[0], new[0] < p + L)
                    out = q if k == z3.Z3_OP_IDIV else new[0] - p
                elif any(not a.eq(b) for a, b in zip(kids, new)):
                    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
                        out = z3.Sum(*new) if k == z3.Z3_OP_ADD else z3.Product(*new)
                    elif k == z3.Z3_OP_AND:
                        out = z3.And(*new)
                    elif k == z3.Z3_OP_OR:
                        out = z3.Or(*new)
                    else:
                        out = t.decl()(*new)
        self._keep.append(t)
        self._lin_cache[t.get_id()] = (t, out)
        return out

    def _lin_products(self, t, acc, seen):
        todo = [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() == 1 and x.decl().name().startswith("times!"):
                    acc.setdefault(x.decl().name(), {})[x.get_id()] = x
                todo.extend(x.children())

    def _check_linear(self, extra):
        cs = [self._linear(simp(c)) for c in list(self.axioms) + self.pc + ([extra] if extra is not None else [])]
        acc, seen = {}, set()
        for c in cs:
            self._lin_products(c, acc, seen)
        # products named by the side conditions of quotients
        side = []
        again = True
        done = set()
        while again:
            again = False
            for d in list(acc.values()):
                for pid in list(d):
                    if pid in self._lin_side and pid not in done:
                        done.add(pid)
                        side.append(self._lin_side[pid])
                        self._lin_products(self._lin_side[pid], acc, seen)
                        again = True
        lem = []
        for L in self.factors:
            ts = list(acc.get("times!%s" % L, {}).values())
            for i, p in enumerate(ts):
                x = p.arg(0)
                lem += [z3.Implies(x >= 1, p >= L), z3.Implies(x == 0, p == 0), z3.Implies(x <= -1, p <= -L), z3.Implies(x == 1, p == L)]
                for q in ts[:i]:
                    y = q.arg(0)
                    lem += [z3.Implies(x == y, p == q), z3.Implies(x <= y - 1, p <= q - L), z3.Implies(y <= x - 1, q <= p - L),
                            z3.Implies(x == y + 1, p == q + L), z3.Implies(y == x + 1, q == p + L)]
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*(cs + side + lem))
        r = s.check()
        if r == z3.unsat:
            return "unsat"
        return "unknown" if acc else str(r)

    def entails(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            key = (tuple(p.get_id() for p in self.pc), -1)
            if key not in self.cache:
                self.cache[key] = self.check() == "unsat"
            return self.cache[key]
        key = (tuple(p.get_id() for p in self.pc), c.get_id())
        if key in self.cache:
            return self.cache[key]
        self._keep.append(c)
        r = self.check(z3.Not(c)) == "unsat"
        if not r and len(self.pc) == 0:
            pass
        self.cache[key] = r
        return r

    def feasible(self):
        return not self.entails(z3.BoolVal(False))

    def decide(self, c):
        """python bool for condition c on this path (forks the path when undetermined)"""
        if isinstance(c, bool):
            return c
        if isinstance(c, Sc):
            c = c.t
        if self.entails(c):
            return True
        nc = z3.Not(c)
        if self.entails(nc):
            return False
        if self.trace is None:
            raise Unsupported("undetermined condition %s" % c)
        b = self.trace.choose()
        self.assume(c if b else nc)
        return b

    # ------------------------------------------------------------ ints
    def le(self, a, b):
        a, b = nint(a), nint(b)
        if isinstance(a, int) and isinstance(b, int):
            return a <= b
        return self.entails(as_term(a) <= as_term(b))
    def lt(self, a, b):
        a, b = nint(a), nint(b)
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        return self.entails(as_term(a) < as_term(b))
    def eqi(self, a, b):
        a, b = nint(a), nint(b)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        a, b = as_term(a), as_term(b)
        if a.eq(b):
            return True
        return self.entails(a == b)
    def dle(self, a, b):
        return self.decide(as_term(nint(a)) <= as_term(nint(b)))

    # ------------------------------------------------------------ lengths
    def piece_len(self, p):
        if isinstance(p, Unit):
            return 1
        if isinstance(p, Hole):
            if p.n is None:
                raise Unsupported("length of unknown stretch %s" % p.hid)
            return p.n
        if isinstance(p, Gen):
            L = self.seq_len(p.body)
            n = p.n
            if not isinstance(n, int) and not self.le(0, n):
                n = nint(z3.If(n >= 0, n, z3.IntVal(0)))
            if isinstance(L, int) or not occurs(p.var, L):
                return nint(as_term(n) * as_term(L)) if not (isinstance(L, int) and L == 1) else n
            return nint(self.sum_term(n, p.var, L))
        raise Unsupported("piece_len %r" % (p,))

    def seq_len(self, seq):
        tot = 0
        for p in seq:
            tot = nint(as_term(tot) + as_term(self.piece_len(p)))
        return tot

    def flatten(self, p):
        """n groups of g(j+1)-g(j) elements whose k-th element is number g(j)+k: one repeat of g(n)-g(0)"""
        inner = p.body[0]
        if isinstance(inner.n, int) or not self.le(0, p.n):
            return None
        tot = self.telescope(p.n, p.var, inner.n)
        if tot is None:
            return None
        n = simp(as_term(inner.n))
        for t in self._apps(n).values():
            if not occurs(p.var, t):
                continue
            if nint(n - (simp(z3.substitute(t, (p.var, p.var + 1))) - t)) != 0:
                continue
            v = fresh_int("fl")
            body = subst_seq(inner.body, [(inner.var, v - t)])
            if occurs(p.var, body):
                continue
            t0 = simp(z3.substitute(t, (p.var, z3.IntVal(0))))
            return (Gen(tot, v, subst_seq(body, [(v, v + t0)])),)
        return None

    def telescope(self, n, var, L):
        """sum of g(var+1) - g(var) over 0 <= var < n, when L has that form and no term is negative"""
        L = simp(as_term(L))
        ts = []
        def go(t):
            if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if occurs(var, t) and z3.is_int(t):
                    ts.append(t)
                return
            for c in t.children():
                go(c)
        go(L)
        for t in ts:
            p = simp(z3.substitute(t, (var, var - 1)))
            if nint(L - (t - p)) == 0:
                mark = len(self.pc)
                self.assume(var >= 0)
                self.assume(var < as_term(n))
                ok = self.entails(L >= 0)
                del self.pc[mark:]
                if ok and self.le(0, n):
                    return nint(z3.substitute(t, (var, as_term(n) - 1)) - z3.substitute(p, (var, z3.IntVal(0))))
        return None

    def _always(self, f):
        sol = z3.Solver()
        sol.set("timeout", 200)
        sol.add(z3.Not(f))
        return sol.check() == z3.unsat

    def sum_term(self, n, var, L):
        t = self.telescope(n, var, L)
        if t is not None:
            return t
        L = simp(as_term(L))
        if z3.is_app_of(L, z3.Z3_OP_ADD) and sum(z3.is_app_of(c, z3.Z3_OP_ITE) for c in L.children()) > 1:
            # the same number each time, if by cases
            for k in (1, 2):
                if self._always(L == k):
                    return nint(z3.If(as_term(n) > 0, k * as_term(n), 0))
        params = []
        seen = set()
        def go(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.eq(var):
                params.append(t)
            for c in t.children():
                go(c)
        go(L)
        params.sort(key=lambda t: str(t))
        canon = z3.substitute(L, *([(var, z3.Int("sum_v"))] + [(p, z3.Const("sum_p%d" % i, p.sort())) for i, p in enumerate(params)]))
        key = canon.sexpr()
        canon = z3.If(canon >= 0, canon, z3.IntVal(0))
        if key not in self.sums:
            f = z3.Function("SUM%d" % len(self.sums), *([p.sort() for p in params] + [z3.IntSort(), z3.IntSort()]))
            self.sums[key] = f
            self.sum_canon[key] = (canon, [z3.Const("sum_p%d" % i, p.sort()) for i, p in enumerate(params)])
        f = self.sums[key]
        arg = simp(as_term(n))
        t = f(*(params + [arg]))
        if t.get_id() not in self.sum_terms:
            self._keep.append(t)
            self.sum_terms[t.get_id()] = t
            canon, ps = self.sum_canon[key]
            at = lambda k: z3.substitute(canon, *([(z3.Int("sum_v"), k)] + list(zip(ps, params))))
            fa = lambda k: f(*(params + [simp(k)]))
            facts = [t >= 0, fa(z3.IntVal(0)) == 0,
                     z3.Implies(arg >= 0, fa(arg + 1) == t + at(arg)),
                     z3.Implies(arg >= 1, z3.And(t == fa(arg - 1) + at(simp(arg - 1)), fa(arg - 1) >= 0))]
            def small(x):
                return z3.is_int_value(x) and x.as_long() <= 1 or z3.is_app_of(x, z3.Z3_OP_ITE) and small(x.arg(1)) and small(x.arg(2))
            if small(canon.arg(1)) if z3.is_app_of(canon, z3.Z3_OP_ITE) else False:
                facts.append(z3.Implies(arg >= 0, t <= arg))
            grp = self.sum_args.setdefault((key, tuple(p.get_id() for p in params)), [])
            for o in grp:
                facts.append(z3.Implies(z3.And(o >= 0, o <= arg), fa(o) <= t))
                facts.append(z3.Implies(z3.And(arg >= 0, arg <= o), t <= fa(o)))
                # one more whole iteration fits strictly below
                facts.append(z3.Implies(z3.And(o >= 0, o < arg), fa(o) + at(o) <= t))
                facts.append(z3.Implies(z3.And(arg >= 0, arg < o), t + at(arg) <= fa(o)))
            grp.append(arg)
            for x in facts:
                self.add_axiom(x)
        return t

    # ------------------------------------------------------------ normal form
    def norm(self, seq, limit=8):
        out = []
        for p in seq:
            if isinstance(p, Gen):
                if isinstance(p.n, int):
                    if p.n <= 0:
                        continue
                    if p.n <= limit:
                        for k in range(p.n):
                            out.extend(self.norm(gen_at(p, k)))
                        continue
                if not p.body:
                    continue
                if self.pair_schemas and len(p.body) == 2 and any(isinstance(q, Gen) for q in p.body) and any(isinstance(q, Unit) for q in p.body):
                    mark = len(self.pc)
                    self.assume(p.var >= 0)
                    self.assume(p.var < as_term(p.n))
                    try:
                        b = self.roll(p.body)
                    finally:
                        del self.pc[mark:]
                    if len(b) == 1:
                        p = Gen(p.n, p.var, b)
                if self.pair_schemas and len(p.body) == 1 and isinstance(p.body[0], Gen):
                    q = self.flatten(p)
                    if q is not None:
                        out.extend(self.norm(q))
                        continue
                out.append(p)
            elif isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            elif isinstance(p, Hole) and isinstance(p.n, int) and p.n == 0:
                continue
            else:
                out.append(p)
        return tuple(out)

    def roll(self, seq):
        """the same sequence with neighbouring elements absorbed into repeats where equal"""
        seq = list(self.norm(seq))
        w0 = self.why
        changed = True
        while changed:
            changed = False
            for i, g in enumerate(seq):
                if not isinstance(g, Gen) or not all(isinstance(q, (Unit, Gen)) for q in g.body) or not self.le(0, g.n):
                    continue
                w = len(g.body)
                nxt = seq[i + 1:i + 1 + w]
                if len(nxt) == w and all(type(q) is type(b) for q, b in zip(nxt, g.body)) and self.eq_seq(gen_at(g, g.n), nxt):
                    seq[i:i + 1 + w] = [Gen(as_term(g.n) + 1, g.var, g.body)]
                    changed = True
                    break
                prv = seq[max(i - w, 0):i]
                if len(prv) == w and all(type(q) is type(b) for q, b in zip(prv, g.body)) and self.eq_seq(gen_at(g, -1), prv):
                    seq[i - w:i + 1] = [gen_shift(g, -1, as_term(g.n) + 1)]
                    changed = True
                    break
                if i + 1 < len(seq) and isinstance(seq[i + 1], Gen) and len(seq[i + 1].body) == w and all(type(q) is type(b) for q, b in zip(seq[i + 1].body, g.body)):
                    b = seq[i + 1]
                    j = fresh_int("rl")
                    mark = len(self.pc)
                    self.assume(j >= 0)
                    self.assume(j < as_term(b.n))
                    same = self.eq_seq(gen_at(g, as_term(g.n) + j), gen_at(b, j))
                    del self.pc[mark:]
                    if same and self.le(0, g.n) and self.le(0, b.n):
                        seq[i:i + 2] = [Gen(as_term(g.n) + as_term(b.n), g.var, g.body)]
                        changed = True
                        break
        self.why = w0
        return tuple(seq)

    def peel_front(self, g):
        """g non-empty: (first iteration pieces, rest Gen)"""
        return gen_at(g, 0), gen_shift(g, 1, as_term(g.n) - 1)

    def peel_back(self, g):
        return Gen(as_term(g.n) - 1, g.var, g.body), gen_at(g, as_term(g.n) - 1)

    def ensure_front(self, seq):
        """seq with its first element exposed as Unit (forks when emptiness is open); () if empty"""
        seq = list(self.norm(seq))
        fuel = SEQ_FUEL
        while seq and fuel:
            fuel -= 1
            p = seq[0]
            if isinstance(p, (Unit, str, Atom)):
                return tuple(seq)
            if isinstance(p, Hole):
                if p.n is not None and self.le(p.n, 0):
                    seq = seq[1:]
                    continue
                raise Unsupported("front of unknown stretch")
            if self.le(p.n, 0):
                seq = seq[1:]
            elif self.nofork and not self.entails(as_term(p.n) >= 1):
                raise Unsupported("emptiness of a stretch")
            elif self.decide(as_term(p.n) >= 1):
                f, r = self.peel_front(p)
                seq = list(self.norm(f + (r,))) + seq[1:]
            else:
                seq = seq[1:]
        if not fuel:
            raise Unsupported("ensure_front: fuel")
        return tuple(seq)

    # ------------------------------------------------------------ polynomial division
    def _monos(self, t):
        t = simp(as_term(t))
        parts = t.children() if z3.is_add(t) else [t]
        out = []
        for m in parts:
            coef, facs = 1, []
            todo = [m]
            while todo:
                f = todo.pop(0)
                if z3.is_mul(f):
                    todo = f.children() + todo
                elif z3.is_int_value(f):
                    coef *= f.as_long()
                else:
                    facs.append(f)
            out.append((coef, facs))
        return out

    def divmod_sym(self, k, c):
        """(q, r) with k == q*c + r and 0 <= r < c entailed, or None"""
        k, c = nint(k), nint(c)
        if isinstance(c, int) and isinstance(k, int):
            return divmod(k, c)
        cm = self._monos(c)
        q, r = [], []
        if len(cm) == 1:
            ccoef, cf = cm[0]
            for coef, facs in self._monos(k):
                rest = list(facs)
                ok = coef % ccoef == 0
                for f in cf:
                    for i, g in enumerate(rest):
                        if g.eq(f):
                            del rest[i]
                            break
                    else:
                        ok = False
                        break
                (q if ok else r).append((coef // ccoef if ok else coef, rest if ok else facs))
        else:
            r = self._monos(k)
        def build(ms):
            t = z3.IntVal(0)
            for coef, facs in ms:
                m = z3.IntVal(coef)
                for f in facs:
                    m = m * f
                t = t + m
            return nint(t)
        Q, R = build(q), build(r)
        if self.le(0, R) and self.lt(R, c):
            return Q, R
        return None

    # ------------------------------------------------------------ indexing / slicing
    def index(self, seq, k, rolled=False):
        """value at position k (0 <= k); raises PyRaise IndexError"""
        k = nint(k)
        if not isinstance(k, int) or k < 0:
            if (isinstance(k, int) and k < 0) or self.entails(as_term(k) < 0):
                k = nint(as_term(k) + as_term(self.seq_len(seq)))
                if (isinstance(k, int) and k < 0) or (not isinstance(k, int) and not self.decide(as_term(k) >= 0)):
                    raise PyRaise("IndexError")
            elif not self.entails(as_term(k) >= 0):
                if not self.decide(as_term(k) >= 0):
                    return self.index(seq, nint(as_term(k) + as_term(self.seq_len(seq))))
        off = 0
        for p in seq:
            L = self.piece_len(p)
            if isinstance(L, int) and L == 0:
                continue
            rel = nint(as_term(k) - as_term(off))
            if not rolled and len(seq) > 1 and not isinstance(rel, int) and not self.lt(rel, L) and not self.le(L, rel):
                r = self.roll(seq)
                if len(r) < len(seq):
                    return self.index(r, k, True)
            if self.decide(as_term(rel) < as_term(L)):
                if isinstance(p, Unit):
                    return p.v
                if isinstance(p, Hole):
                    raise Unsupported("element of unknown stretch")
                return self._gen_index(p, rel)
            off = nint(as_term(off) + as_term(L))
        raise PyRaise("IndexError")

    def _gen_index(self, g, rel):
        if len(g.body) == 1 and isinstance(g.body[0], Unit):
            return gen_at(g, rel)[0].v
        c = self.seq_len(g.body)
        if not isinstance(c, int) and occurs(g.var, c):
            # non-uniform: only first iteration supported
            if self.lt(rel, self.seq_len(gen_at(g, 0))):
                return self.index(gen_at(g, 0), rel)
            raise Unsupported("index into non-uniform nested sequence")
        qr = self.divmod_sym(rel, c)
        if qr is None:
            raise Unsupported("index %s into nested sequence of width %s" % (rel, c))
        return self.index(gen_at(g, qr[0]), qr[1])

    def split_at(self, seq, k):
        """(first k elements, rest); k clipped to [0, len]"""
        k = nint(k)
        left = []
        seq = list(self.norm(seq))
        if isinstance(k, int) and k <= 0:
            return (), tuple(seq)
        while seq:
            p = seq[0]
            L = self.piece_len(p) if not isinstance(p, (str, Atom)) else 1
            if isinstance(k, int) and isinstance(L, int):
                whole = L <= k
            elif isinstance(k, int) and k == 0:
                whole = False
            elif self.eqi(k, 0):
                return tuple(left), tuple(seq)
            elif self.le(L, k):
                whole = True
            elif isinstance(p, Gen) and self.le(k, L) and self.le(0, k):
                whole = False
            else:
                whole = self.decide(as_term(L) <= as_term(k))
            if whole:
                left.append(p)
                seq = seq[1:]
                k = nint(as_term(k) - as_term(L))
                if isinstance(k, int) and k == 0:
                    return tuple(left), tuple(seq)
                continue
            if isinstance(k, int) and k <= 0 or self.entails(as_term(k) <= 0):
                return tuple(left), tuple(seq)
            if not self.entails(as_term(k) >= 0) or not (isinstance(p, Gen) and self.le(k, L)):
                if not self.decide(as_term(k) >= 0):
                    return tuple(left), tuple(seq)
            if isinstance(p, Gen):
                if len(p.body) == 1 and isinstance(p.body[0], Unit):
                    left.append(Gen(k, p.var, p.body))
                    return tuple(left), (gen_shift(p, k, as_term(p.n) - as_term(k)),) + tuple(seq[1:])
                c = self.seq_len(p.body)
                if isinstance(c, int) or not occurs(p.var, c):
                    qr = self.divmod_sym(k, c)
                    if qr is None:
                        raise Unsupported("split nested sequence at %s" % k)
                    q, r = qr
                    left.append(Gen(q, p.var, p.body))
                    rest = gen_shift(p, q, as_term(p.n) - as_term(q))
                    if isinstance(r, int) and r == 0:
                        return tuple(left), (rest,) + tuple(seq[1:])
                    f, rest2 = self.peel_front(rest)
                    a, b = self.split_at(f, r)
                    return tuple(left) + a, b + (rest2,) + tuple(seq[1:])
                f, rest = self.peel_front(p)
                seq = list(f) + [rest] + seq[1:]
                continue
            raise Unsupported("split inside %r" % (p,))
        return tuple(left), ()

    def slice(self, seq, lo, hi, step=1):
        n = None
        def clip(x, default):
            nonlocal n
            if x is None:
                return default
            x = nint(x)
            if (isinstance(x, int) and x < 0) or (not isinstance(x, int) and self.entails(as_term(x) < 0)):
                if n is None:
                    n = self.seq_len(seq)
                x = nint(as_term(x) + as_term(n))
                if not self.entails(as_term(x) >= 0):
                    if not self.decide(as_term(x) >= 0):
                        return 0
            elif not isinstance(x, int) and not self.entails(as_term(x) >= 0):
                raise Unsupported("slice bound of unknown sign %s" % x)
            return x
        lo_, hi_ = clip(lo, 0), clip(hi, None)
        if step != 1:
            raise Unsupported("slice step")
        if hi_ is not None:
            seq, _ = self.split_at(seq, hi_)
        if not (isinstance(lo_, int) and lo_ == 0):
            _, seq = self.split_at(seq, lo_)
        return tuple(seq)

    # ------------------------------------------------------------ equality
    def fail(self, msg):
        if not self.why:
            self.why = msg
        return False

    def eq_term(self, a, b):
        if isinstance(a, (z3.ExprRef,)) and isinstance(b, z3.ExprRef):
            if a.eq(b):
                return True
            if a.sort() != b.sort():
                if z3.is_arith(a) and z3.is_arith(b):
                    a = z3.ToReal(a) if a.is_int() else a
                    b = z3.ToReal(b) if b.is_int() else b
                else:
                    return self.fail("sorts %s %s" % (a, b))
            d = simp(a == b)
            if z3.is_true(d):
                return True
            if self.entails(d):
                return True
            if self.why:
                return False
            if self.check(z3.Not(d)) != "sat":
                return self.fail("undecided: %s =/= %s (no answer from the solver)" % (a, b))
            return self.fail("%s =/= %s" % (a, b))
        return self.eq_val(a, b)

    def eq_atom(self, a, b):
        if a.fn != b.fn or len(a.args) != len(b.args):
            return self.fail("%r vs %r" % (a, b))
        return all(self.eq_term(x, y) for x, y in zip(a.args, b.args)) or self.fail("%r vs %r" % (a, b))

    def eq_val(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sc) or isinstance(b, Sc):
            if isinstance(a, Sc) and isinstance(b, Sc) and a.kind == b.kind:
                return self.eq_term(a.t, b.t)
            try:
                if isinstance(a, Sc) and a.kind == "bool" or isinstance(b, Sc) and b.kind == "bool":
                    ta = a.t if isinstance(a, Sc) else z3.BoolVal(bool(a))
                    tb = b.t if isinstance(b, Sc) else z3.BoolVal(bool(b))
                    return self.eq_term(ta, tb)
                return self.eq_term(real_term(a), real_term(b))
            except Unsupported:
                return self.fail("%r vs %r" % (a, b))
        if isinstance(a, (str, Text, Atom)) and isinstance(b, (str, Text, Atom)):
            return self.eq_seq(text_of(a), text_of(b))
        la, lb = self.as_seq(a), self.as_seq(b)
        if la is not None and lb is not None:
            ta, tb = isinstance(a, (tuple, TupSeq)), isinstance(b, (tuple, TupSeq))
            if ta != tb:
                return self.fail("tuple vs list")
            return self.eq_seq(la, lb)
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return True
        if isinstance(a, Opq) and isinstance(b, Opq):
            return (a.fn == b.fn and len(a.args) == len(b.args) and all(self.eq_val(x, y) for x, y in zip(a.args, b.args))) or self.fail("%r vs %r" % (a, b))
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                return self.eq_term(a, b)
        try:
            if type(a) in (int, float, str, bool, type(None)) and type(b) in (int, float, str, bool, type(None)):
                return a == b or self.fail("%r vs %r" % (a, b))
        except Exception:
            pass
        if self.eq_objects(a, b):
            return True
        return self.fail("%r vs %r" % (a, b))

    def eq_objects(self, a, b):
        return False

    def as_seq(self, v):
        if isinstance(v, (LV, TupSeq)):
            return v.seq
        if isinstance(v, tuple):
            return tuple(Unit(x) for x in v)
        return None

    def gen_body_eq(self, a, b, n):
        i = fresh_int("eq")
        mark = len(self.pc)
        self.assume(i >= 0)
        self.assume(i < as_term(n))
        try:
            return self.eq_seq(gen_at(a, i), gen_at(b, i))
        finally:
            del self.pc[mark:]

    def _unflatten(self, a, b):
        """a flat with one unit per iteration, b nested with uniform inner Gen: reshape a like b"""
        if len(b.body) == 1 and isinstance(b.body[0], Gen) and len(a.body) == 1 and not isinstance(a.body[0], Gen):
            g = b.body[0]
            c = g.n
            if len(g.body) == 1 and not isinstance(g.body[0], Gen) and (isinstance(c, int) or not occurs(b.var, c)):
                w, u = fresh_int("w"), fresh_int("u")
                inner = Gen(c, u, subst_seq(a.body, [(a.var, w * as_term(c) + u)]))
                outer = Gen(b.n, w, (inner,))
                if self.eqi(a.n, as_term(b.n) * as_term(c)):
                    return outer
        return None

    def eq_seq(self, A, B, fuel=SEQ_FUEL):
        A, B = list(self.norm(A)), list(self.norm(B))
        while True:
            if fuel < 0:
                return self.fail("undecided: comparison fuel")
            if not A and not B:
                return True
            if not A or not B:
                R = A or B
                for p in R:
                    if isinstance(p, Gen) and (self.le(p.n, 0) or self.eqi(self.piece_len_t(p), 0)):
                        continue
                    if isinstance(p, Hole) and p.n is not None and self.eqi(p.n, 0):
                        continue
                    return self.fail("extra %r" % (R,))
                return True
            a, b = A[0], B[0]
            if isinstance(a, Hole) and isinstance(b, Hole):
                if a.hid == b.hid and len(a.args) == len(b.args) and all(self.eq_val(x, y) for x, y in zip(a.args, b.args)):
                    A, B = A[1:], B[1:]
                    continue
                return self.fail("%r vs %r" % (a, b))
            if isinstance(a, str) and isinstance(b, str):
                n = min(len(a), len(b))
                if a[:n] != b[:n]:
                    return self.fail("text %r vs %r" % (a, b))
                A = ([a[n:]] if a[n:] else []) + A[1:]
                B = ([b[n:]] if b[n:] else []) + B[1:]
                continue
            ga, gb = isinstance(a, Gen), isinstance(b, Gen)
            if ga and gb:
                if self.le(a.n, 0):
                    A = A[1:]
                    continue
                if self.le(b.n, 0):
                    B = B[1:]
                    continue
                w0 = self.why
                same_n = self.eqi(a.n, b.n)
                if same_n:
                    if self.gen_body_eq(a, b, a.n):
                        A, B = A[1:], B[1:]
                        continue
                    self_why = self.why
                    self.why = w0
                else:
                    if self.le(a.n, b.n):
                        if self.gen_body_eq(a, b, a.n):
                            A = A[1:]
                            B = [gen_shift(b, a.n, as_term(b.n) - as_term(a.n))] + B[1:]
                            self.why = w0
                            continue
                    elif self.le(b.n, a.n):
                        if self.gen_body_eq(a, b, b.n):
                            B = B[1:]
                            A = [gen_shift(a, b.n, as_term(a.n) - as_term(b.n))] + A[1:]
                            self.why = w0
                            continue
                    self_why = self.why or "counts %s vs %s" % (a.n, b.n)
                    self.why = w0
                u = self._unflatten(a, b)
                if u is not None:
                    A = [u] + A[1:]
                    continue
                u = self._unflatten(b, a)
                if u is not None:
                    B = [u] + B[1:]
                    continue
                # phase difference: unfold one
                pa, pb = self.lt(0, a.n), self.lt(0, b.n)
                if pa and pb and len(a.body) != len(b.body) and fuel > SEQ_FUEL - 12:
                    fuel -= 1
                    f, r = self.peel_front(a)
                    A = list(self.norm(f + (r,))) + A[1:]
                    f, r = self.peel_front(b)
                    B = list(self.norm(f + (r,))) + B[1:]
                    continue
                aligned = same_n and len(a.body) == len(b.body) and all(type(x) is type(y) for x, y in zip(a.body, b.body))
                return self.fail("%srepeats differ: %s" % ("" if aligned or self_why.startswith("undecided") else "undecided: ", self_why))
            if ga or gb:
                g = a if ga else b
                if self.le(g.n, 0):
                    if ga:
                        A = A[1:]
                    else:
                        B = B[1:]
                    continue
                if self.lt(0, g.n):
                    fuel -= 1
                    f, r = self.peel_front(g)
                    if ga:
                        A = list(self.norm(f + (r,))) + A[1:]
                    else:
                        B = list(self.norm(f + (r,))) + B[1:]
                    continue
                if fuel < SEQ_FUEL - 8:
                    return self.fail("undecided: possibly empty repeat %r vs %r" % (a, b))
                for c in (as_term(g.n) <= 0, as_term(g.n) >= 1):
                    mark = len(self.pc)
                    self.assume(c)
                    try:
                        if not self.eq_seq(A, B, fuel - 3):
                            return False
                    finally:
                        del self.pc[mark:]
                return True
            if isinstance(a, Unit) and isinstance(b, Unit):
                if not self.eq_val(a.v, b.v):
                    return False
            elif isinstance(a, Atom) and isinstance(b, Atom):
                if not self.eq_atom(a, b):
                    return False
            else:
                return self.fail("%r vs %r" % (a, b))
            A, B = A[1:], B[1:]

    def piece_len_t(self, p):
        """length for emptiness purposes; texts count pieces"""
        try:
            return self.piece_len(p)
        except Unsupported:
            return 1

    # ------------------------------------------------------------ text operations
    def t_flags_all(self, pieces, pred):
        return all(pred(p) if not isinstance(p, Gen) else self.t_flags_all(p.body, pred) for p in pieces)

    def t_nonempty(self, pieces):
        """True/False/None"""
        maybe = False
        for p in pieces:
            if isinstance(p, str) and p:
                return True
            if isinstance(p, Atom):
                if p.flags & {"tok", "ws1", "nonempty"}:
                    return True
                maybe = True
            elif isinstance(p, Gen):
                if self.lt(0, p.n) and self.t_nonempty(p.body) is True:
                    return True
                if not self.le(p.n, 0):
                    maybe = True
            elif isinstance(p, Hole):
                maybe = True
        return None if maybe else False

    def atom_empty(self, a):
        """z3 Bool: atom is the empty string"""
        args = [x if isinstance(x, z3.ExprRef) else z3.StringVal(str(x)) for x in a.args]
        f = z3.Function("empty_" + a.fn + "_%d" % len(args), *([x.sort() for x in args] + [z3.BoolSort()])) if args else None
        return f(*args) if args else z3.Bool("empty_" + a.fn)

    def t_decide_empty(self, pieces):
        """is the text empty (forks on emptiness of unknown atoms)"""
        r = self.t_nonempty(pieces)
        if r is not None:
            return not r
        for p in pieces:
            if isinstance(p, Atom):
                if not self.decide(self.atom_empty(p)):
                    return False
            elif isinstance(p, Gen):
                if self.decide(as_term(p.n) >= 1):
                    if self.t_nonempty(p.body) is not True:
                        raise Unsupported("emptiness of repeated text")
                    return False
            else:
                raise Unsupported("emptiness of %r" % (p,))
        return True

    def lstrip(self, pieces, chars=None):
        return tuple(self._rev(self.rstrip(self._rev(pieces), chars, left=True)))

    def _rev(self, pieces):
        out = []
        for p in reversed(list(pieces)):
            if isinstance(p, str):
                out.append(p[::-1])
            elif isinstance(p, Gen):
                v = fresh_int("rv")
                body = self._rev(subst_seq(p.body, [(p.var, as_term(p.n) - 1 - v)]))
                out.append(Gen(p.n, v, body))
            else:
                out.append(p)
        return tuple(out)

    def rstrip(self, pieces, chars=None, left=False):
        from . import chars as chars_mod
        ps = list(self.norm(pieces))
        cs = chars_mod.WS if chars is None else frozenset(chars)
        if not cs <= chars_mod.UNI:
            raise Unsupported("strip(%r)" % chars)
        fuel = 12
        while ps and fuel:
            p = ps[-1]
            if isinstance(p, str):
                q = p.rstrip(chars)
                if q:
                    ps[-1] = q
                    return tuple(ps)
                ps.pop()
                continue
            if isinstance(p, Atom):
                i = chars_mod.atom_info(p)
                end = i.first if left else i.last
                if i.cs <= cs:
                    ps.pop()
                    continue
                if not end & cs:
                    if len(ps) == 1 or i.min:
                        return tuple(ps)
                    if self.decide(self.atom_empty(p)):
                        ps.pop()
                        continue
                    return tuple(ps)
                if chars is not None and not left and p.flags & {"ws", "ws1"} and len(ps) > 1 and isinstance(ps[-2], Atom) and {"endok", "tok"} <= ps[-2].flags and cs <= {" ", ","}:
                    ps[-1] = Atom("rs", (p,), {"ws", "nonl"})
                    return tuple(ps)
                raise Unsupported("strip(%r) of %r" % (chars, p))
            if isinstance(p, Gen):
                if self._stable_end(ps, cs, left):
                    return tuple(ps)
                if self.decide(as_term(p.n) >= 1):
                    h, t = self.peel_back(p)
                    ps = ps[:-1] + [h] + list(self.norm(t))
                    fuel -= 1
                    continue
                ps.pop()
                continue
            raise Unsupported("strip of %r" % (p,))
        if not fuel:
            raise Unsupported("strip fuel")
        return ()

    def _stable_end(self, ps, cs, left=False):
        """nothing can be stripped from the end of ps"""
        from . import chars as chars_mod
        if not ps:
            return True
        p = ps[-1]
        if isinstance(p, str):
            return bool(p) and p[-1] not in cs
        if isinstance(p, Atom):
            i = chars_mod.atom_info(p)
            return i.min > 0 and not (i.first if left else i.last) & cs
        if isinstance(p, Gen):
            return bool(p.body) and self._stable_end(p.body, cs, left) and self._stable_end(ps[:-1], cs, left)
        return False

    def strip(self, pieces, chars=None):
        return self.lstrip(self.rstrip(pieces, chars), chars)

    def tokens(self, pieces):
        """str.split() -> seq of Unit(text)"""
        out, cur, sep, openg, loose = self._tok(pieces)
        if cur:
            out.append(Unit(mk_text(cur)))
        return self.norm(out)

    def _tok(self, pieces):
        out, cur = [], []
        sep = "yes"          # separation between previous token and what follows
        opened = False       # last token sits inside a Gen and may not be extended
        first_loose = False  # text starts with a token directly (no leading separator)
        started = False
        def flush():
            nonlocal cur, opened
            if cur:
                out.append(Unit(mk_text(cur)))
            cur = []
            opened = False
        for p in self.norm(pieces):
            if isinstance(p, str):
                i = 0
                for m in re.finditer(r"\s+|\S+", p):
                    s = m.group()
                    if s.isspace():
                        flush()
                        sep = "yes"
                    else:
                        if opened and sep != "yes":
                            raise Unsupported("token joins repeated text")
                        if sep == "maybe" and cur:
                            raise Unsupported("tokens may touch")
                        if not started:
                            first_loose = sep_is_initial(out, cur, started)
                        cur.append(s)
                        sep = "no"
                    started = True
                continue
            if isinstance(p, Atom):
                if "ws1" in p.flags:
                    flush()
                    sep = "yes"
                elif "ws" in p.flags:
                    if sep == "no":
                        sep = "maybe"
                elif "tok" in p.flags:
                    if opened and sep != "yes":
                        raise Unsupported("token joins repeated text")
                    if sep == "maybe" and cur:
                        raise Unsupported("tokens may touch")
                    if not started:
                        first_loose = True
                    cur.append(p)
                    sep = "no"
                else:
                    raise Unsupported("split of %r" % p)
                started = True
                continue
            if isinstance(p, Gen):
                if self.le(p.n, 0):
                    continue
                bo, bc, bs, _, bl = self._tok(p.body)
                if bc:
                    bo = bo + [Unit(mk_text(bc))]
                if not bo:
                    raise Unsupported("repeated text without tokens")
                # consecutive iterations must be separated
                ends_sep = bs == "yes"
                starts_sep = not bl
                if not (ends_sep or starts_sep):
                    raise Unsupported("repeated tokens may touch")
                if sep != "yes" and not starts_sep:
                    raise Unsupported("token joins repeated text")
                if sep != "yes" and not self.lt(0, p.n) and not starts_sep:
                    raise Unsupported("possibly empty repeat")
                was = sep
                flush()
                out.append(Gen(p.n, p.var, tuple(bo)))
                if ends_sep:
                    # an empty repeat leaves the previous separation in place
                    if was == "yes" or self.lt(0, p.n):
                        sep = "yes"
                    else:
                        opened, sep = True, "maybe"
                else:
                    opened, sep = True, "no"
                if not started:
                    first_loose = bl
                started = True
                continue
            raise Unsupported("split of %r" % (p,))
        return out, cur, ("yes" if (sep == "yes" and started) else sep), opened, first_loose

    def lines(self, pieces):
        """text -> seq of Unit(line text incl. newline), last line may lack one"""
        out, cur = [], []
        for p in self.norm(pieces):
            if isinstance(p, str):
                parts = p.split("\n")
                for i, s in enumerate(parts):
                    if s:
                        cur.append(s)
                    if i < len(parts) - 1:
                        cur.append("\n")
                        out.append(Unit(mk_text(cur)))
                        cur = []
            elif isinstance(p, Atom):
                if not ("nonl" in p.flags or "tok" in p.flags):
                    raise Unsupported("lines of %r" % p)
                cur.append(p)
            elif isinstance(p, Gen):
                hasnl = self._has_nl(p.body)
                if not hasnl:
                    cur.append(p)
                    continue
                bl = self.lines(p.body)
                last = bl[-1]
                while isinstance(last, Gen):
                    last = last.body[-1]
                ends = text_of(last.v)
                if not (isinstance(ends[-1], str) and ends[-1].endswith("\n")):
                    raise Unsupported("repeated text breaks lines")
                if cur:
                    # first iteration continues the current line
                    raise Unsupported("repeated lines after partial line")
                out.append(Gen(p.n, p.var, bl))
            elif isinstance(p, Hole):
                if cur:
                    raise Unsupported("hole after partial line")
                out.append(Hole(("lines", p.hid), None, p.args))
            else:
                raise Unsupported("lines of %r" % (p,))
        if cur:
            out.append(Unit(mk_text(cur)))
        return self.norm(out)

    def _has_nl(self, pieces):
        for p in pieces:
            if isinstance(p, str) and "\n" in p:
                return True
            if isinstance(p, Gen) and self._has_nl(p.body):
                return True
        return False

    def join_lines(self, seq, sep=""):
        """''.join(seq)"""
        out = []
        for p in seq:
            if isinstance(p, Unit):
                out.extend(text_of(p.v))
            elif isinstance(p, Gen):
                out.append(Gen(p.n, p.var, self.join_lines(p.body)))
            elif isinstance(p, Hole):
                out.append(Hole(("joined", p.hid), None, p.args))
            else:
                raise Unsupported("join %r" % (p,))
        return tuple(out)

    def join(self, sep, seq):
        seq = self.norm(seq)
        if not sep:
            return self.join_lines(seq)
        # canonical form: every element but the last is followed by sep
        if not seq:
            return ()
        last = seq[-1]
        if isinstance(last, Gen):
            if not self.decide(as_term(last.n) >= 1):
                return self.join(sep, seq[:-1])
            h, t = self.peel_back(last)
            return self.join(sep, tuple(seq[:-1]) + (h,) + tuple(t)) if not isinstance(t[-1], Gen) else self._unsup("join nested")
        if not isinstance(last, Unit):
            raise Unsupported("join %r" % (last,))
        def addsep(ps):
            out = []
            for p in ps:
                if isinstance(p, Unit):
                    out.extend(text_of(p.v))
                    out.extend(sep)
                elif isinstance(p, Gen):
                    out.append(Gen(p.n, p.var, addsep(p.body)))
                else:
                    raise Unsupported("join %r" % (p,))
            return out
        return tuple(addsep(seq[:-1])) + text_of(last.v)

    def _unsup(self, m):
        raise Unsupported(m)

def sep_is_initial(out, cur, started):
    return not started
