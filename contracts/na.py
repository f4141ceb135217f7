"""Well-formed NASA Ames content dictionaries as symbolic values (the preconditions of the
write/read contracts), for every file format index, with symbolic counts."""
import z3
from pyvc.core import *
from pyvc import env, lib
from pyvc.interp import DictO, FileO, ListO, InstO, NUMFLAGS

Z = z3.IntSort()
R = z3.RealSort()
NAME = frozenset({"nonl", "stripped", "nobrace", "noquote", "noctl", "nopct"})
NAME1 = NAME | {"nonempty"}
FFIS = (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)
NIVS = {1001: 1, 1010: 1, 1020: 1, 2010: 2, 2110: 2, 2160: 2, 2310: 2, 3010: 3, 4010: 4}

def F(name, *sorts):
    return z3.Function(name, *sorts)
def gen(n, f, base="i"):
    i = fresh_int(base)
    v = f(i)
    return (Gen(n, i, v if isinstance(v, tuple) else (Unit(v),)),)
def fl(t):
    return Sc("float", simp(t))
def it(t):
    return mk_int(t)
def txt(name, args=(), flags=NAME):
    return Text((Atom(name, args, flags),))

class Dict:
    """one symbolic dictionary; `data` maps a written data number (real term) to the value expected back"""
    def __init__(self, I, ffi, **opt):
        self.I, self.ffi, self.opt = I, ffi, opt
        self.niv = NIVS[ffi]
        a = I.assume
        self.NV = z3.Int("NV")
        self.M = z3.Int("M")
        a(self.NV >= 1)
        a(self.M >= (0 if opt.get("empty_ok") else 1))
        self.NSCOML, self.NNCOML = z3.Int("NSCOML"), z3.Int("NNCOML")
        a(self.NSCOML >= 0)
        a(self.NNCOML >= 0)
        self.NAUXV = z3.Int("NAUXV")
        self.hasaux = ffi != 1001
        if self.hasaux:
            a(self.NAUXV >= {2110: 1, 2160: 1, 2310: 3}.get(ffi, 0))
        if ffi == 2160:
            self.NAUXC = z3.Int("NAUXC")
            a(self.NAUXC >= (1 if opt.get("charaux", True) else 0))
            a(self.NAUXC < self.NAUXV)
        if ffi == 1020:
            self.NVPM = z3.Int("NVPM")
            a(self.NVPM >= 1)
        if ffi in (2010, 3010, 4010):
            self.NX = [z3.Int("NX%d" % k) for k in range(self.niv - 1)]
            self.NXDEF = [z3.Int("NXDEF%d" % k) for k in range(self.niv - 1)]
            for x, y in zip(self.NX, self.NXDEF):
                a(x >= 1)
                a(y >= 1)
                a(y <= x)
        if ffi in (2110, 2160, 2310):
            self.NXf = F("NX", Z, Z)
            I.schema(self.NXf, lambda t: t >= 1)

    # ---- values; D maps a data number term to its Sc, H a header number term to its Sc
    def common(self, H):
        I = self.I
        d = {}
        mode = self.opt.get("names", "any")
        def txt(name, args=()):
            return "" if mode == "empty" else globals()["txt"](name, args, NAME1 if mode == "nonempty" else NAME)
        com = lambda name, args: globals()["txt"](name, args, NAME if mode == "any" else NAME1)
        for k in ("ONAME", "ORG", "SNAME", "MNAME"):
            d[k] = txt(k, ())
        d["IVOL"], d["NVOL"] = it(z3.Int("IVOL")), it(z3.Int("NVOL"))
        d["DATE"] = LV([Unit(it(z3.Int("DATE%d" % i))) for i in range(3)])
        d["RDATE"] = LV([Unit(it(z3.Int("RDATE%d" % i))) for i in range(3)])
        d["FFI"] = self.ffi
        d["NIV"] = self.niv
        d["NV"] = it(self.NV)
        d["VSCAL"] = LV(gen(self.NV, lambda i: H(F("VSCAL", Z, R)(i))))
        d["VMISS"] = LV(gen(self.NV, lambda i: H(F("VMISS", Z, R)(i))))
        d["VNAME"] = LV(gen(self.NV, lambda i: txt("VNAME", (i,))))
        d["NSCOML"], d["NNCOML"] = it(self.NSCOML), it(self.NNCOML)
        d["SCOM"] = LV(gen(self.NSCOML, lambda i: com("SCOM", (i,))))
        d["NCOM"] = LV(gen(self.NNCOML, lambda i: com("NCOM", (i,))))
        d["XNAME"] = LV([Unit(txt("XNAME%d" % i)) for i in range(self.niv)])
        ndx = 1 if self.ffi in (2160, 2310) else self.niv
        d["DX"] = LV([Unit(H(z3.Real("DX%d" % i))) for i in range(ndx)])
        if self.hasaux:
            d["NAUXV"] = it(self.NAUXV)
            if self.ffi != 2160:
                d["ASCAL"] = LV(gen(self.NAUXV, lambda i: H(F("ASCAL", Z, R)(i))))
                d["AMISS"] = LV(gen(self.NAUXV, lambda i: H(F("AMISS", Z, R)(i))))
                d["ANAME"] = LV(gen(self.NAUXV, lambda i: txt("ANAME", (i,))))
        return d

    def header(self, H):
        """fields of the header, as values"""
        d = self.common(H)
        f = self.ffi
        mode = self.opt.get("names", "any")
        def name(n, args=()):
            return "" if mode == "empty" else txt(n, args, NAME1 if mode == "nonempty" else NAME)
        if f == 1020:
            d["NVPM"] = it(self.NVPM)
        if f in (2010, 3010, 4010):
            d["NX"] = LV([Unit(it(x)) for x in self.NX])
            d["NXDEF"] = LV([Unit(it(x)) for x in self.NXDEF])
        if f == 2160:
            nn = nint(self.NAUXV - self.NAUXC)
            d["NAUXC"] = it(self.NAUXC)
            d["LENX"] = H(z3.Real("LENX"))
            d["ASCAL"] = LV(gen(nn, lambda i: H(F("ASCAL", Z, R)(i))))
            d["AMISS"] = LV(gen(nn, lambda i: H(F("AMISS", Z, R)(i))) + gen(self.NAUXC, lambda i: txt("AMISSC", (i,), NUMFLAGS - {"num"} | {"tok", "noctl"})))
            d["LENA"] = LV(gen(nn, lambda i: None) + gen(self.NAUXC, lambda i: it(F("LENA", Z, Z)(i))))
            d["ANAME"] = LV(gen(self.NAUXV, lambda i: name("ANAME", (i,))))
        return d

    def axis(self, k, H):
        """values of bounded axis k (0-based) as held in the header"""
        return gen(self.NXDEF[k], lambda i: H(F("X%d" % (k + 1), Z, R)(i)))

    def data(self, D, H):
        """X, V, A and (2010 family) the header axes; H maps numbers of bounded axes in the header"""
        f = self.ffi
        d = {}
        X, V, A = F("X", Z, R), F("V", Z, Z, R), F("A", Z, Z, R)
        M, NV = self.M, self.NV
        if f in (1001, 1010, 1020):
            d["X"] = LV(gen(M, lambda m: D(X(m))))
            if f == 1020:
                V3 = F("V3", Z, Z, Z, R)
                d["V"] = LV(gen(NV, lambda n: LV(gen(M, lambda m: gen(self.NVPM, lambda p: D(V3(n, m, p)))))))
            else:
                d["V"] = LV(gen(NV, lambda n: LV(gen(M, lambda m: D(V(n, m))))))
        elif f in (2010, 3010, 4010):
            d["X"] = LV([Unit(LV(gen(M, lambda m: D(X(m)))))] + [Unit(LV(self.axis(k, H))) for k in range(self.niv - 1)])
            nb = self.niv - 1
            VV = F("VN", *([Z] * (2 + nb) + [R]))
            def nest(idx, k):
                if k == nb:
                    return D(VV(*idx))
                return LV(gen(self.NX[k], lambda i: nest(idx + [i], k + 1)))
            d["V"] = LV(gen(NV, lambda n: LV(gen(M, lambda m: nest([n, m], 0)))))
        elif f in (2110, 2160):
            X2 = F("X2", Z, Z, R)
            V3 = F("V3", Z, Z, Z, R)
            x0 = (lambda m: D(X(m))) if f == 2110 else (lambda m: txt("XS", (m,), frozenset({"tok", "endok", "nobrace", "noquote", "nonl", "stripped", "nonempty", "noctl", "nopct"})))
            d["X"] = LV(gen(M, lambda m: LV((Unit(x0(m)), Unit(LV(gen(self.NXf(m), lambda p: D(X2(m, p)))))))))
            d["V"] = LV(gen(NV, lambda n: LV(gen(M, lambda m: LV(gen(self.NXf(m), lambda p: D(V3(n, m, p))))))))
            d["NX"] = LV(gen(M, lambda m: it(self.NXf(m))))
        elif f == 2310:
            V3 = F("V3", Z, Z, Z, R)
            d["X"] = LV(gen(M, lambda m: LV((Unit(D(X(m))), Unit(LV((Unit(D(A(1, m))),)))))))
            d["V"] = LV(gen(NV, lambda n: LV(gen(M, lambda m: LV(gen(self.NXf(m), lambda p: D(V3(n, m, p))))))))
            d["NX"] = LV(gen(M, lambda m: it(self.NXf(m))))
        # auxiliary variables
        if self.hasaux:
            def row(a):
                return LV(gen(M, lambda m: D(A(a, m))))
            if f in (2110, 2160, 2310):
                first = (Unit(LV(gen(M, lambda m: D(z3.ToReal(self.NXf(m)))))),)
                if f == 2310:
                    rows = first + (Unit(row(z3.IntVal(1))), Unit(row(z3.IntVal(2)))) + gen(nint(self.NAUXV - 3), lambda a: row(a + 3))
                elif f == 2110:
                    rows = first + gen(nint(self.NAUXV - 1), lambda a: row(a + 1))
                else:
                    rows = first + gen(nint(self.NAUXV - self.NAUXC - 1), lambda a: row(a + 1)) + \
                        gen(self.NAUXC, lambda a: LV(gen(M, lambda m: txt("AC", (a, m), frozenset({"stripped", "nobrace", "noquote", "nonl", "nonempty", "noctl", "nopct", "endok"})))))
            else:
                rows = gen(self.NAUXV, row)
            d["A"] = LV(rows)
        return d

def intdata(t):
    """D for dictionaries: integer valued reals are given as ints, others as floats"""
    t = simp(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return mk_int(t.arg(0))
    return Sc("float", t)

def heap_value(I, v):
    """unaliased heap object for a value: nested lists in repeats stay values"""
    if isinstance(v, LV):
        seq = []
        for p in I.norm(v.seq):
            if isinstance(p, Unit):
                seq.append(Unit(heap_value(I, p.v)))
            else:
                seq.append(p)
        return I.new_list(seq)
    return v

def make_dict(B, extra=None, D=intdata, H=fl):
    """heap dictionary for builder B"""
    I = B.I
    d = B.header(H)
    d.update(B.data(D, H))
    d["NLHEAD"] = it(z3.Int("NLHEAD_given"))
    d.update(extra or {})
    return I.alloc(DictO({k: heap_value(I, v) for k, v in d.items()}))
