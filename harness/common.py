"""Concrete side: generators of well-formed NASA Ames dictionaries, written from the format rules,
and helpers shared by the per-property harnesses (run with the project's own interpreter)."""
import copy, json, math, os, random, shutil, sys, tempfile, time

NIVS = {1001: 1, 1010: 1, 1020: 1, 2010: 2, 2110: 2, 2160: 2, 2310: 2, 3010: 3, 4010: 4}
FFIS = tuple(NIVS)
WORDS = ["ozone", "temp", "a b", "x (m s-1)", "T {raw} K", "100% sure", "it's", 'say "hi" now', "u", "wind  speed",
         "p/hPa", "m s**-1", "=eq", "na,me", "tail;", "0", "12.5", "-", "lat(deg)north", "{b} end", "q^2", "wind\tdir", "\u00b5g/m\u00b3",
         "1e5", "#", "\\n", "None", "nan", "a   b", "x,  y", "UPPER lower", "..", "__", "[1, 2]", "(", ")", "{", "* ?"]
FORMATS = ["%.10g", "%g", "%8.3f", "%12.5e", "%s", "%.3f", "%10.4f", "%+.4e", "%-12.4f"]
DELIMS = ["    ", " ", "\t", "  ", " \t "]

class Case(Exception):
    pass

def word(rng, empty=True):
    r = rng.random()
    if empty and r < 0.06:
        return ""
    return " ".join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 1, 2, 3]))).rstrip("}").strip()

def name(rng, empty=True):
    w = word(rng, empty)
    while w and (w[0] in "'\"" or w[-1] in "'\"" or w != w.strip() or w.endswith("}")):
        w = word(rng, empty)
    return w

def num(rng):
    r = rng.random()
    if r < 0.25:
        return float(rng.randint(-9, 9))
    if r < 0.4:
        return rng.choice([0.0, -0.0, 1e-7, 123456.0, -9999.9, 1.5e10, 0.1])
    return round(rng.uniform(-1000, 1000), rng.choice([0, 1, 3, 6]))

def cnt(rng, lo=1, hi=4):
    return rng.choice([lo, lo, lo + 1, rng.randint(lo, hi)]) if hi > lo else lo

def uniq(seq):
    "distinct values so that a misplaced item shows"
    out = []
    for k, x in enumerate(seq):
        out.append(x)
    return out

class Gen:
    def __init__(self, rng, big=False):
        self.rng = rng
        self.k = 0
        self.big = big
    def v(self):
        "data value: distinct by counter most of the time"
        self.k += 1
        if self.rng.random() < 0.85:
            return float(self.k) + self.rng.choice([0.0, 0.25, 0.5]) if self.rng.random() < 0.7 else -float(self.k)
        return num(self.rng)

def gen_dict(rng, ffi, M=None, NV=None, NAUXV=None):
    g = Gen(rng)
    niv = NIVS[ffi]
    huge = rng.random() < 0.12
    which = rng.choice(["M", "NV", "AUX", "NX", "COM", "all"]) if huge else ""
    big = lambda k, lo, hi, bhi: cnt(rng, lo, hi) if which not in (k, "all") else rng.randint(hi, bhi)
    M = big("M", 1, 6, 30 if which == "all" else 120) if M is None else M
    NV = big("NV", 1, 5, 24) if NV is None else NV
    d = {"FFI": ffi, "NIV": niv, "NV": NV, "NLHEAD": rng.randint(0, 99)}
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        d[k] = name(rng)
    d["IVOL"], d["NVOL"] = rng.randint(1, 12), rng.randint(1, 12)
    d["DATE"] = [rng.randint(1900, 2100), rng.randint(1, 12), rng.randint(1, 28)]
    d["RDATE"] = [rng.randint(1900, 2100), rng.randint(1, 12), rng.randint(1, 28)]
    d["VSCAL"] = [rng.choice([1.0, 0.1, 10.0, 1e-9, float(i + 2)]) for i in range(NV)]
    d["VMISS"] = [rng.choice([-9999.9, 9.9e99, -1e20, float(-900 - i)]) for i in range(NV)]
    d["VNAME"] = [name(rng, False) for i in range(NV)]
    d["NSCOML"], d["NNCOML"] = rng.choice([0, 0, 1, 2, 5]), rng.choice([0, 1, 1, 3])
    if which in ("COM", "all"):
        d["NSCOML"], d["NNCOML"] = rng.randint(3, 40), rng.randint(3, 40)
    d["SCOM"] = [name(rng) for i in range(d["NSCOML"])]
    d["NCOM"] = [name(rng) for i in range(d["NNCOML"])]
    d["XNAME"] = [name(rng, False) + " %d" % i for i in range(niv)]
    ndx = 1 if ffi in (2160, 2310) else niv
    d["DX"] = [round(rng.choice([0.0, 0.5, 1.0, 2.5, 10.0]) + i * 0.25, 3) for i in range(ndx)]
    if ffi == 1020:
        d["DX"] = [rng.choice([0.5, 1.0, 2.0, 0.25, 3.0])]
    nchar = 0
    if ffi != 1001:
        lo = {2110: 1, 2160: 2, 2310: 3}.get(ffi, 0)
        if NAUXV is None:
            NAUXV = big("AUX", lo, lo + 3, lo + 14)
        d["NAUXV"] = NAUXV
        if ffi == 2160:
            nchar = d["NAUXC"] = rng.randint(1, NAUXV - 1)
            d["LENX"] = float(rng.randint(10, 20))
            d["LENA"] = [None] * (NAUXV - nchar) + [rng.randint(8, 20) for i in range(nchar)]
        na = NAUXV - nchar
        d["ASCAL"] = [rng.choice([1.0, 0.5, float(i + 2)]) for i in range(na)]
        d["AMISS"] = [float(-800 - i) for i in range(na)] + [name(rng, False) for i in range(nchar)]
        d["ANAME"] = [name(rng, False) for i in range(NAUXV)]
    # data
    if ffi in (1001, 1010):
        d["X"] = [g.v() for m in range(M)]
        d["V"] = [[g.v() for m in range(M)] for n in range(NV)]
    elif ffi == 1020:
        P = d["NVPM"] = big("NX", 1, 4, 30)
        d["X"] = [g.v() for m in range(M)]
        d["V"] = [[g.v() for m in range(M * P)] for n in range(NV)]
    elif ffi in (2010, 3010, 4010):
        d["NX"] = [big("NX", 1, 4, 7 if niv == 4 else 12) for k in range(niv - 1)]
        d["NXDEF"] = [rng.choice([x, x, rng.randint(1, x)]) for x in d["NX"]]
        d["X"] = [[g.v() for m in range(M)]]
        for k in range(niv - 1):
            x0, dx = g.v(), d["DX"][k + 1]
            full = d["NXDEF"][k] == d["NX"][k]
            d["X"].append([g.v() if full else x0 + i * dx for i in range(d["NXDEF"][k])])
        def nest(k):
            return g.v() if k == niv - 1 else [nest(k + 1) for i in range(d["NX"][k])]
        d["V"] = [[nest(0) for m in range(M)] for n in range(NV)]
    elif ffi in (2110, 2160, 2310):
        d["NX"] = [big("NX", 1, 4, 30) for m in range(M)]
        if ffi == 2110:
            d["X"] = [[g.v(), [g.v() for p in range(d["NX"][m])]] for m in range(M)]
        elif ffi == 2160:
            d["X"] = [[rng.choice(["%s-%d" % (name(rng, False), m), "%d:%s" % (m, name(rng, False))]), [g.v() for p in range(d["NX"][m])]] for m in range(M)]
        else:
            d["X"] = [[g.v(), [g.v()]] for m in range(M)]
        d["V"] = [[[g.v() for p in range(d["NX"][m])] for m in range(M)] for n in range(NV)]
    if ffi != 1001:
        A = []
        for a in range(NAUXV - nchar):
            if ffi in (2110, 2160, 2310) and a == 0:
                A.append(list(d["NX"]))
            elif ffi == 2310 and a == 1:
                A.append([d["X"][m][1][0] for m in range(M)])
            else:
                A.append([g.v() for m in range(M)])
        for a in range(nchar):
            A.append([name(rng, False).rstrip(" ,") or "aux%d" % m for m in range(M)])
        d["A"] = A
    return d

def same(a, b, tol=0):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return False
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return False
        return a == b or (a != a and b != b) or (tol and abs(a - b) <= tol * max(1, abs(a), abs(b)))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    return a == b

def fmap(f, x):
    if isinstance(x, (list, tuple)):
        return [fmap(f, y) for y in x]
    return f(x)

def delim_ok(d):
    return bool(d) and not d.strip()

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="nappyharness.")
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
    def path(self, n):
        return os.path.join(self.d, n)

class Fail(Exception):
    """the property is broken: key names the failing input class or site, what says what was observed"""
    def __init__(self, key, what, inp=None):
        Exception.__init__(self, what)
        self.key, self.what, self.inp = key, what, inp

def check(cond, key, what, inp=None):
    if not cond:
        raise Fail(key, what, inp)

def first_diff(a, b, path=""):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d items, expected %d" % (path or "value", len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            r = first_diff(x, y, "%s[%d]" % (path, k))
            if r:
                return r
        return ""
    return "" if same(a, b) else "%s: %r, expected %r" % (path or "value", a, b)

def api():
    import nappy
    return nappy

def na_class(ffi):
    import importlib
    return getattr(importlib.import_module("nappy.na_file.na_file_%d" % ffi), "NAFile%d" % ffi)

def write_file(d, path, **opts):
    f = na_class(d["FFI"])(path, mode="w", na_dict=d)
    f.write(**opts)
    f.close()
    with open(path) as h:
        return h.read()

def read_file(ffi, path, **kw):
    f = na_class(ffi)(path, **kw)
    f.readData()
    f.close()
    return f
