"""C16: metadata accessors, splitting of names, the dictionary of contents"""
from common import *
RULE = "random well-formed dictionary of a random FFI with names text, text (units), (units) text, nested and unbalanced brackets, written and read; every accessor at every index and every list accessor compared with the items of the object by an independent splitter; the object compared with a snapshot after every call; dictionaries handed over changed by the caller afterwards."

TXT = ["ozone", "wind speed", "T", "a(b)c", "x (first)", "p/hPa", "100%", "it's", "U+V", "a  b", "Relative humidity, mean", "f(x)", ""]
UNI = ["m s-1", "K", "1", "10^3 m", "%", "m/s", "degrees north", " K ", "ug m**-3", "-"]

def split(nm):
    """the last '(' that has a non-empty text and a ')' after it opens the units; the ')' is the first one that leaves them non-empty"""
    for k in range(len(nm) - 1, -1, -1):
        if nm[k] == "(":
            j = nm.find(")", k + 2)
            if j > 0:
                return (nm[:k].lstrip() + " " + nm[j + 1:]).strip(), nm[k + 1:j]
    return nm.strip(), None

def vname(rng):
    t, u = rng.choice(TXT), rng.choice(UNI)
    r = rng.random()
    if r < 0.5:
        return (t + rng.choice([" ", "", "   "]) + "(%s)" % u).strip(), (t.strip(), u)
    if r < 0.6:
        return "(%s) %s" % (u, t or "x"), None
    if r < 0.7:
        return (t or "x") + " (" + u, None
    if r < 0.8:
        return (t or "x") + ")", None
    if r < 0.9:
        return "%s (%s) and more" % (t or "x", u), None
    return t or "x", None

def clean(n):
    return n.strip().strip("'\"") if n.strip()[:1] in ("'", '"') or n.strip()[-1:] in ("'", '"') else n.strip()

def make(rng, ffi):
    d = gen_dict(rng, ffi)
    for k in ("VNAME", "XNAME", "ANAME"):
        if k in d:
            d[k] = [clean(vname(rng)[0]) or "x" for n in d[k]]
    return d

def opened(rng, sp, ffi):
    d = make(rng, ffi)
    write_file(copy.deepcopy(d), sp.path("f"))
    f = na_class(ffi)(sp.path("f"))
    if rng.random() < 0.7:
        f.readData()
    return d, f

def state(f):
    return {k: copy.deepcopy(v) for k, v in vars(f).items() if k not in ("file", "na_dict", "_var_and_units_pattern")}

def accessors(rng, sp):
    ffi = rng.choice(FFIS)
    d, f = opened(rng, sp, ffi)
    s0 = state(f)
    def still(m):
        s = state(f)
        check(set(s) == set(s0), "changed/" + m, "attributes after %s: %s" % (m, set(s) ^ set(s0)), d)
        for k in s:
            check(same(s[k], s0[k]) and type(s[k]) is type(s0[k]), "changed/" + m, "%s changed %s" % (m, k), d)
    def get(m, want, *a):
        v = getattr(f, m)(*a)
        check(same(v, want) and type(v) is type(want), m, "%s%r gave %r, expected %r" % (m, a, v, want), d)
        still(m)
    na = f.NAUXV or 0
    nn = na - (f.NAUXC or 0)
    V = [split(f.VNAME[i]) + (f.VMISS[i], f.VSCAL[i]) for i in range(f.NV)]
    X = [split(n) for n in f.XNAME]
    A = [split(f.ANAME[i]) + (f.AMISS[i], f.ASCAL[i] if i < nn else None) for i in range(na)]
    check(len(V) == d["NV"] and len(X) == d["NIV"] and len(A) == d.get("NAUXV", 0), "counts", "%d %d %d" % (len(V), len(X), len(A)), d)
    todo = [("getVariables", V), ("getIndependentVariables", X), ("getAuxVariables", A), ("getNumHeaderLines", f.NLHEAD), ("getFFI", ffi),
            ("getOriginator", f.ONAME), ("getOrganisation", f.ORG), ("getOrg", f.ORG), ("getSource", f.SNAME), ("getMission", f.MNAME),
            ("getVolumes", (f.IVOL, f.NVOL)), ("getFileDates", (f.DATE, f.RDATE)), ("getNormalComments", f.NCOM), ("getSpecialComments", f.SCOM)]
    todo += [("getVariable", V[i], i) for i in range(len(V))] + [("getIndependentVariable", X[i], i) for i in range(len(X))]
    todo += [("getAuxVariable", A[i], i) for i in range(len(A))] + [("getMissingValue", f.VMISS[i], i) for i in range(len(V))]
    todo += [("getScaleFactor", f.VSCAL[i], i) for i in range(len(V))] + [("getAuxMissingValue", f.AMISS[i], i) for i in range(na)]
    todo += [("getAuxScaleFactor", f.ASCAL[i], i) for i in range(nn)]
    rng.shuffle(todo)
    for t in todo:
        get(t[0], t[1], *t[2:])
    for k in f.na_dictionary_keys:
        check(f[k] is getattr(f, k), "item", "item %s" % k, d)
    f.close()
    return ("%d/%d" % (ffi, na), {"dict": d})

def header_items(rng, sp):
    "the accessors give what the header was written from"
    ffi = rng.choice(FFIS)
    d, f = opened(rng, sp, ffi)
    for i, n in enumerate(d["VNAME"]):
        got = f.getVariable(i)
        check(same(got, split(n) + (d["VMISS"][i], d["VSCAL"][i])), "header/getVariable", "variable %d %r: %r" % (i, n, got), d)
    for m, k in (("getOriginator", "ONAME"), ("getOrganisation", "ORG"), ("getSource", "SNAME"), ("getMission", "MNAME"), ("getFFI", "FFI"),
                 ("getSpecialComments", "SCOM"), ("getNormalComments", "NCOM")):
        check(getattr(f, m)() == d[k], "header/" + m, "%s gave %r, header %r" % (m, getattr(f, m)(), d[k]), d)
    check(f.getVolumes() == (d["IVOL"], d["NVOL"]) and f.getFileDates() == (d["DATE"], d["RDATE"]), "header/pairs", "%r %r" % (f.getVolumes(), f.getFileDates()), d)
    f.close()
    return (str(ffi), None)

def names(rng, sp):
    "text (units) gives that text and those units; other names keep their characters"
    import nappy.na_file.na_core as c
    o = c.NACore()
    nm, want = vname(rng)
    pad = rng.choice(["", " ", "\t "])
    got = o._attemptVarAndUnitsMatch(pad + nm + pad)
    check(got == split(nm), "split", "%r split into %r, expected %r" % (nm, got, split(nm)), nm)
    if want is not None:
        check(got[1] == want[1] and got[0].split() == want[0].split(), "split/units", "%r split into %r" % (nm, got), nm)
    left = sorted((got[0] + ("(%s)" % got[1] if got[1] is not None else "")).replace(" ", ""))
    check(left == sorted(nm.replace(" ", "")), "split/lost", "%r split into %r" % (nm, got), nm)
    o.var_and_units_callback = lambda n: (n + "!", "cb")
    check(o._attemptVarAndUnitsMatch(nm) == ((nm + "!").strip(), "cb"), "callback", "callback not used", nm)
    return (nm, nm)

def contents(rng, sp):
    ffi = rng.choice(FFIS)
    d, f = opened(rng, sp, ffi)
    got = f.getNADict()
    want = {k: getattr(f, k) for k in f.na_dictionary_keys if getattr(f, k) is not None}
    check(set(got) == set(want), "contents/keys", "keys %s" % sorted(set(got) ^ set(want)), d)
    for k in want:
        check(same(got[k], want[k]), "contents/" + k, "%s: %r" % (k, got[k]), d)
    for k in d:
        if k not in ("NLHEAD", "V", "A", "X", "LENA", "DX") and k in got and k in ("NV", "NAUXV", "NIV", "FFI", "VNAME", "ONAME", "NSCOML", "NX", "NXDEF", "NVPM", "SCOM", "NCOM", "IVOL"):
            check(same(got[k], d[k]) or ffi in (2110, 2160, 2310), "contents/value/" + k, "%s is %r, written %r" % (k, got[k], d[k]), d)
    # every subset of items set by hand
    import nappy.na_file.na_core as c
    o = c.NACore()
    ks = [k for k in c.NACore.na_dictionary_keys if rng.random() < 0.4]
    vals = {k: rng.choice([0, "", [], False, 1.5, "x", [0], 0.0]) for k in ks}
    for k in ks:
        setattr(o, k, vals[k])
    got = o.getNADict()
    check(set(got) == set(ks) and all(got[k] is vals[k] for k in ks), "contents/set", "set %r, got %r" % (vals, got), vals)
    f.close()
    return (str(ffi), None)

def handed_over(rng, sp):
    ffi = rng.choice(FFIS)
    d = make(rng, ffi)
    ref = copy.deepcopy(d)
    f = na_class(ffi)(sp.path("w"), mode="w")
    f.setNADict(d)
    check(same([[k, f.na_dict[k]] for k in sorted(f.na_dict)], [[k, ref[k]] for k in sorted(ref)]), "set/equal", "copy differs", ref)
    def spoil(x):
        if isinstance(x, list):
            for y in x:
                spoil(y)
            if x and not isinstance(x[0], list):
                x[rng.randrange(len(x))] = 999
            if rng.random() < 0.5:
                x.append(777)
    for k in list(d):
        if isinstance(d[k], list):
            spoil(d[k])
        else:
            d[k] = 555
    d["EXTRA"] = 1
    check(same([[k, f.na_dict[k]] for k in sorted(f.na_dict)], [[k, ref[k]] for k in sorted(ref)]), "set/shared", "a later change by the caller changed the object", ref)
    f.write()
    f.close()
    with open(sp.path("w")) as h:
        t = h.read()
    check(t == write_file(copy.deepcopy(ref), sp.path("w2")), "set/written", "file differs from the dictionary handed over", ref)
    return (str(ffi), None)
CASES = [accessors, header_items, names, contents, handed_over]
