"""Regular expression matching on symbolic text, by the backtracking rules of re, in priority order.
A cell is one known character, or an unknown piece (atom or repeat).  Positions strictly inside an unknown piece
are never match points here: they are skipped only when the continuation cannot start with any character of the
piece, otherwise the matching is Unsupported (the obligation stays undecided)."""
import re
import re._parser as sp
import re._constants as sc
from .core import *
from . import chars
from .chars import UNI

def node_set(op, av, flags):
    """set of universe characters a one-character node accepts, None for other nodes"""
    if op is sc.LITERAL:
        s = {chr(av)}
        return frozenset(s | ({chr(av).lower(), chr(av).upper()} if flags & re.I else set()))
    if op is sc.NOT_LITERAL:
        return UNI - {chr(av)}
    if op is sc.ANY:
        return UNI if flags & re.S else UNI - {"\n"}
    if op is sc.IN:
        s = set()
        neg = False
        for o, v in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                s.add(chr(v))
            elif o is sc.RANGE:
                s |= {c for c in UNI if v[0] <= ord(c) <= v[1]}
            elif o is sc.CATEGORY:
                pat = {sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\S", sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D",
                       sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W"}[v]
                s |= {c for c in UNI if re.match(pat, c)}
            else:
                raise Unsupported("regex class %s" % o)
        if flags & re.I:
            s |= {c for c in UNI if c.lower() in s or c.upper() in s}
        return frozenset(UNI - s) if neg else frozenset(s)
    return None

def flatten(p, flags):
    """parsed pattern -> node list: ('set', S) ('rep', lo, hi, greedy, S) ('open', g) ('close', g) ('bol',) ('eol',) ('alt', [lists])"""
    out = []
    for op, av in p:
        s = node_set(op, av, flags)
        if s is not None:
            out.append(("set", s))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            s = node_set(sub[0][0], sub[0][1], flags) if len(sub) == 1 else None
            hi = None if hi is sc.MAXREPEAT else hi
            if s is not None:
                out.append(("rep", lo, hi, op is sc.MAX_REPEAT, s))
            elif (lo, hi) == (0, 1):
                body = flatten(sub, flags)
                out.append(("alt", [body, []] if op is sc.MAX_REPEAT else [[], body]))
            else:
                out.append(("grep", lo, hi, op is sc.MAX_REPEAT, flatten(sub, flags)))
        elif op is sc.SUBPATTERN:
            g, add, rem, sub = av
            if add or rem:
                raise Unsupported("regex inline flags")
            if g is not None:
                out.append(("open", g))
            out.extend(flatten(sub, flags))
            if g is not None:
                out.append(("close", g))
        elif op is sc.AT:
            k = {sc.AT_BEGINNING: "bol", sc.AT_BEGINNING_STRING: "bol", sc.AT_END: "eol", sc.AT_END_STRING: "eos"}.get(av)
            if k is None or flags & re.M:
                raise Unsupported("regex anchor %s" % av)
            out.append((k,))
        elif op is sc.BRANCH:
            out.append(("alt", [flatten(b, flags) for b in av[1]]))
        else:
            raise Unsupported("regex node %s" % op)
    return out

_pcache = {}
def parse(pat, flags=0):
    r = _pcache.get((pat, flags))
    if r is None:
        p = sp.parse(pat, flags)
        r = _pcache[(pat, flags)] = (flatten(p, p.state.flags), p.state.groups, dict(p.state.groupdict))
    return r

def first_set(nodes):
    """(characters a match of nodes may start with, may match the empty text)"""
    S = frozenset()
    for k, n in enumerate(nodes):
        if n[0] == "set":
            return S | n[1], False
        if n[0] == "rep":
            S = S | n[4]
            if n[1] > 0:
                return S, False
        elif n[0] == "grep":
            f, e = first_set(n[4])
            S = S | f
            if n[1] > 0 and not e:
                return S, False
        elif n[0] == "alt":
            al = True
            nul = False
            for b in n[1]:
                f, e = first_set(b)
                S = S | f
                nul = nul or e
            if not nul:
                return S, False
        elif n[0] in ("bol",):
            return S, False       # never inside the text
    return S, True

class M:
    def __init__(self, I, pieces):
        self.I = I
        self.cells = []
        for p in I.norm(tuple(pieces)):
            if isinstance(p, str):
                self.cells.extend(p)
            else:
                if isinstance(p, Hole):
                    raise Unsupported("regex on unknown text")
                self.cells.append(p)
        self.infos = [None if isinstance(c, str) else chars.info(I, c) for c in self.cells]
        self.fuel = 4000

    def empty(self, k):
        """decide whether the unknown piece k is empty (forks)"""
        c = self.cells[k]
        if self.infos[k].min:
            return False
        if isinstance(c, Atom):
            return self.I.decide(self.I.atom_empty(c))
        return self.I.t_decide_empty((c,))

    def text(self, a, b):
        return mk_text(self.cells[a:b])

    def skip_inside(self, k, nodes):
        """no match of nodes can start strictly inside piece k"""
        if self.infos[k].one:
            return
        f, nul = first_set(nodes)
        if nul or f & self.infos[k].cs:
            if self.no_match_from_inside(k, nodes):
                return
            raise Unsupported("regular expression may match inside %r" % (self.cells[k],))

    def no_match_from_inside(self, k, nodes):
        """no match of nodes starting inside piece k can reach an end: all ways of matching, with the pieces over-approximated"""
        ns = [n for n in nodes if n[0] not in ("open", "close")]
        if any(n[0] not in ("set", "rep", "eol", "eos") for n in ns):
            return False
        def close(st):
            st = set(st)
            todo = list(st)
            while todo:
                i = todo.pop()
                if i < len(ns) and ns[i][0] in ("rep", "eol", "eos") and i + 1 not in st:
                    st.add(i + 1)
                    todo.append(i + 1)
            return st
        def step(st, cs):
            r = set()
            for i in st:
                if i == len(ns):
                    continue
                n = ns[i]
                if n[0] == "set" and n[1] & cs:
                    r.add(i + 1)
                elif n[0] == "rep" and n[4] & cs:
                    r.add(i)
                elif n[0] == "eol" and "\n" in cs:
                    r.add(i)
            return close(r)
        def star(st, cs):
            st = set(st)
            while True:
                n = st | step(st, cs)
                if n == st:
                    return st
                st = n
        anchored = ns and ns[-1][0] in ("eol", "eos")
        st = star(close({0}), self.infos[k].cs)
        for j in range(k + 1, len(self.cells)):
            if len(ns) in st and not anchored:
                return False
            c = self.cells[j]
            if isinstance(c, str):
                st = step(st, {c})
            elif self.infos[j].one:
                st = step(st, self.infos[j].cs)
            elif self.infos[j].min:
                st = star(step(st, self.infos[j].cs), self.infos[j].cs)
            else:
                st = star(st, self.infos[j].cs)
        return len(ns) not in st

    def run(self, nodes, pos, groups):
        """groups dict at the first match in priority order with end position, or None"""
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("regex fuel")
        while True:
            if not nodes:
                return (pos, groups)
            n, rest = nodes[0], nodes[1:]
            t = n[0]
            if t == "open":
                groups = dict(groups)
                groups[("o", n[1])] = pos
            elif t == "close":
                groups = dict(groups)
                groups[n[1]] = (groups[("o", n[1])], pos)
            elif t == "bol":
                if pos != 0:
                    return None
            elif t in ("eol", "eos"):
                k = pos
                while k < len(self.cells):
                    c = self.cells[k]
                    if isinstance(c, str):
                        if t == "eol" and c == "\n" and k == len(self.cells) - 1:
                            break
                        return None
                    if not self.empty(k):
                        if self.infos[k].first & {"\n"}:
                            raise Unsupported("line break in %r" % (c,))
                        return None
                    k += 1
            elif t == "set":
                try:
                    r = self.one(n[1], pos)
                except Unsupported:
                    k = pos
                    while isinstance(self.cells[k], str) or self.empty(k):
                        k += 1
                    if not self.no_match_from_inside(k, nodes):
                        raise
                    r = None
                if r is None:
                    return None
                pos = r
            elif t == "alt":
                for b in n[1]:
                    r = self.run(tuple(b) + tuple(rest), pos, groups)
                    if r is not None:
                        return r
                return None
            elif t == "rep":
                return self.rep(n, tuple(rest), pos, groups)
            else:
                raise Unsupported("regex group repeat")
            nodes = rest

    def one(self, S, pos):
        while pos < len(self.cells):
            c = self.cells[pos]
            if isinstance(c, str):
                return pos + 1 if c in S else None
            i = self.infos[pos]
            if self.empty(pos):
                pos += 1
                continue
            if not (i.first & S):
                return None
            if i.one and i.cs <= S:
                return pos + 1
            raise Unsupported("one character of %r" % (c,))
        return None

    def rep(self, n, rest, pos, groups):
        _, lo, hi, greedy, S = n
        # ends: positions after 0, 1, ... consumed cells; cnt: number of characters surely consumed
        ends = [(pos, 0)]
        p, cnt, unk = pos, 0, False
        stop_inside = None
        while p < len(self.cells):
            c = self.cells[p]
            if hi is not None and cnt >= hi:
                break
            if isinstance(c, str):
                if c not in S:
                    break
                p += 1
                cnt += 1
                ends.append((p, cnt))
                continue
            i = self.infos[p]
            if i.cs <= S:
                if hi is not None:
                    raise Unsupported("bounded repeat over %r" % (c,))
                p += 1
                cnt += i.min
                unk = unk or not i.min
                ends.append((p, cnt))
                continue
            if not (i.first & S):
                if self.empty(p):
                    p += 1
                    ends.append((p, cnt))
                    continue
                break
            if self.empty(p):
                p += 1
                ends.append((p, cnt))
                continue
            # may stop anywhere inside this piece: fine only if the continuation can match neither inside nor right before it
            f, nul = first_set(rest)
            if nul or f & i.cs:
                raise Unsupported("repeat ending inside %r" % (c,))
            break
        if not ends:
            return None
        if cnt < lo and unk:
            # decide whether the unknown pieces are empty
            for k in range(pos, p):
                if not isinstance(self.cells[k], str) and not self.infos[k].min and not self.empty(k):
                    cnt += 1
                    ends = [(e, c + (1 if e > k else 0)) for e, c in ends]
        order = list(reversed(ends)) if greedy else list(ends)
        prev = None
        for e, c in order:
            if prev is not None:
                k = min(e, prev)
                if not isinstance(self.cells[k], str) and (max(c, pc) >= lo):
                    self.skip_inside(k, rest)
            prev, pc = e, c
            if c < lo:
                continue
            r = self.run(rest, e, groups)
            if r is not None:
                return r
        return None

def tail_excludes(m, nodes):
    """every match must end at the end of the text with a character of C followed by characters of S only: is that impossible?"""
    ns = [n for n in nodes if n[0] not in ("open", "close")]
    if not ns or ns[-1][0] not in ("eol", "eos"):
        return False
    eol = ns[-1][0] == "eol"
    ns = ns[:-1]
    S = frozenset()
    while ns and ns[-1][0] == "rep" and ns[-1][1] == 0:
        S = S | ns[-1][4]
        ns = ns[:-1]
    if not ns or ns[-1][0] != "set" and not (ns[-1][0] == "rep" and ns[-1][1] > 0):
        return False
    C = ns[-1][1] if ns[-1][0] == "set" else ns[-1][4]
    if eol:
        S = S | {"\n"}
    for k in range(len(m.cells) - 1, -1, -1):
        c = m.cells[k]
        if isinstance(c, str):
            if c in C:
                return False
            if c not in S:
                return True
            continue
        i = m.infos[k]
        if i.last & C:
            return False
        if i.last & S:
            if i.cs & C:
                return False
            if not (i.cs <= S) and i.min:
                # its last character outside S is not in C
                return True
            continue
        if i.min:
            return True
    return True

def lead_excludes(m, nodes):
    """an anchored or unanchored pattern that must contain a character that the text cannot contain"""
    cs = set()
    for c, i in zip(m.cells, m.infos):
        cs |= {c} if i is None else i.cs
    for n in nodes:
        if n[0] == "set" and not (n[1] & cs):
            return True
        if n[0] == "rep" and n[1] > 0 and not (n[4] & cs):
            return True
    return False

def find(I, pat, t, mode="match", flags=0):
    """None or (start, end, {group: (a, b)}, M, number of groups, names)"""
    nodes, ng, names = parse(pat, flags)
    nodes = tuple(nodes)
    m = M(I, text_of(t))
    if mode == "fullmatch":
        nodes = nodes + (("eos",),)
    if tail_excludes(m, nodes) or lead_excludes(m, nodes):
        return None
    starts = [0] if mode in ("match", "fullmatch") or (nodes and nodes[0][0] == "bol") else range(len(m.cells) + 1)
    for s in starts:
        if s and m.infos[s - 1] is not None:
            m.skip_inside(s - 1, nodes)
        r = m.run(nodes, s, {})
        if r is not None:
            return (s, r[0], r[1], m, ng, names)
    return None

class MatchV:
    """a match object"""
    def __init__(self, s, e, groups, m, ng, names):
        self.s, self.e, self.g, self.m, self.ng, self.names = s, e, groups, m, ng, names
    def group(self, k=0):
        if isinstance(k, str):
            k = self.names[k]
        if k == 0:
            return self.m.text(self.s, self.e)
        if k in self.g:
            return self.m.text(*self.g[k])
        return None
    def groups(self):
        return tuple(self.group(k) for k in range(1, self.ng))

def do(I, pat, name, args, kw):
    """method `name` of the compiled pattern, on symbolic text"""
    if name in ("match", "search", "fullmatch"):
        t = args[0]
        if not isinstance(t, (str, Text)):
            raise PyRaise("TypeError", "expected string")
        r = find(I, pat, t, name)
        if r is None:
            return None
        return Opq("match", (MatchV(*r),))
    if name == "sub":
        repl, t = args[0], args[1]
        if not isinstance(repl, str) or "\\" in repl:
            raise Unsupported("regex replacement")
        if isinstance(t, str):
            return re.sub(pat, repl, t)
        r = find(I, pat, t, "search")
        if r is None:
            return t
        nodes, ng, names = parse(pat)
        # replace single-character patterns piece by piece
        if len(nodes) == 1 and nodes[0][0] in ("set", "rep"):
            raise Unsupported("regex sub with matches")
        raise Unsupported("regex sub with matches")
    raise Unsupported("regex %s" % name)

def match_getattr(I, base, name):
    m = base.args[0]
    if name in ("groups", "group", "start", "end", "groupdict"):
        return MatchMethod(m, name)
    raise Unsupported("match.%s" % name)

class MatchMethod:
    _pyvc = True
    def __init__(self, m, name):
        self.m, self.name = m, name
    def __call__(self, I, args, kw):
        if self.name == "groups":
            return self.m.groups()
        if self.name == "group":
            if len(args) > 1:
                return tuple(self.m.group(k) for k in args)
            return self.m.group(*args)
        raise Unsupported("match.%s" % self.name)
