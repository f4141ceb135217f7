"""C07: the format index fits the dimensionality"""
from common import *
RULE = "random well-formed dictionaries of every FFI without their index (also with counts of independent variables outside 1 to 4), opened for writing, written and opened again through openNAFile; random sets of variables of one to five axes with auxiliary, singleton and regularly spaced variables converted with every index requested and with none: the index of every file must be the one asked for, fit the number of axes and be that of the class that reads it."
REQ = FFIS + (None, 1001, 1010, 1020, 2010, 2110, 2310, 9999)

def strip_ffi(rng, d):
    ffi = d.pop("FFI")
    if ffi == 1001:
        d.pop("NAUXV", None)
    return ffi

def choose(rng, sp):
    import nappy
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    want = strip_ffi(rng, d)
    if ffi == 2110 and all(len(x[1]) == 1 for x in d["X"]):
        want = 2310
    if want == 2310 and ffi == 2110:
        check(nappy.chooseFFI(d) == 2310, "choose/2310", "chosen %r" % nappy.chooseFFI(d), d)
        return ("2110 of single points", None)
    if rng.random() < 0.2:
        d["FFI"] = rng.choice(["1001", None, 3010.0])      # not an index
    ref = copy.deepcopy(d)
    f = nappy.openNAFile(sp.path("f"), "w", d)
    check(type(f).__name__ == "NAFile%d" % want, "choose/class", "class %s for FFI %d" % (type(f).__name__, want), ref)
    check(d["FFI"] == want and nappy.chooseFFI(ref) == want, "choose/index", "index %r for FFI %d" % (d["FFI"], want), ref)
    f.write()
    f.close()
    skip = rng.choice([0, 0, 1, 3])
    if skip:
        with open(sp.path("f")) as h:
            t = h.read()
        with open(sp.path("f"), "w") as h:
            h.write("ignored 12 34\n" * skip + t)
    check(nappy.readFFI(sp.path("f"), skip) == want, "read/index", "readFFI %r" % nappy.readFFI(sp.path("f"), skip), ref)
    r = nappy.openNAFile(sp.path("f"), ignore_header_lines=skip)
    check(type(r).__name__ == "NAFile%d" % want and r.FFI == want and r.NIV == NIVS[want], "read/class", "class %s index %r for FFI %d" % (type(r).__name__, r.FFI, want), ref)
    r.close()
    check(nappy.getNAFileClass(want) is type(r), "class", "getNAFileClass(%d) is %r" % (want, nappy.getNAFileClass(want)))
    return ("%d/%d" % (ffi, len(ref.get("NX", ()))), ref)

def refused(rng, sp):
    import nappy
    d = gen_dict(rng, rng.choice(FFIS))
    d.pop("FFI")
    d["NIV"] = rng.choice([0, -1, 5, 6, 7, 100])
    for fn in (lambda: nappy.chooseFFI(d), lambda: nappy.openNAFile(sp.path("refused"), "w", d)):
        try:
            r = fn()
        except Exception:
            continue
        raise Fail("refused", "%d independent variables accepted: %r" % (d["NIV"], r), d)
    check(not os.path.exists(sp.path("refused")), "refused/file", "a file was created", d)
    return (str(d["NIV"]), None)

def given(rng, sp):
    "an index given is used as it is"
    import nappy
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    f = nappy.openNAFile(sp.path("g"), "w", d)
    check(type(f).__name__ == "NAFile%d" % ffi and d["FFI"] == ffi, "given", "class %s for FFI %d" % (type(f).__name__, ffi), d)
    f.write()
    f.close()
    r = nappy.openNAFile(sp.path("g"))
    check(type(r).__name__ == "NAFile%d" % ffi and r.FFI == ffi, "given/read", "class %s for FFI %d" % (type(r).__name__, ffi), d)
    r.close()
    return (str(ffi), None)

def variables(rng):
    import ncdata
    n = rng.choice([1, 1, 1, 2, 2, 2, 3, 4, 5])
    names = ["t", "lev", "lat", "lon", "ens"][:n]
    uniform = [rng.random() < 0.5 for k in names]
    axes = [ncdata.axis(rng, nm, rng.randint(2, 4) * (2 if n == 1 else 1), u) for nm, u in zip(names, uniform)]
    uniform = [len(set(b - a for a, b in zip(x.values, x.values[1:]))) == 1 for x in axes]
    vs = [ncdata.array(rng, "v%d" % k, axes) for k in range(rng.randint(1, 2))]
    aux = ""
    r = rng.random()
    if r < 0.25 and n > 1:
        vs.append(ncdata.array(rng, "aux", axes[:1]))
        aux = "plain"
    elif r < 0.6 and n == 1:
        import xarray as xr
        sub = axes[0].values[::2]
        x = xr.DataArray(sub, dims=("t2",), name="t2", attrs=dict(axes[0].attrs))
        vs.append(ncdata.array(rng, "aux", [x]))
        aux = "subset"
    return n, uniform, aux, vs

def convert(rng, sp):
    import ncdata
    n, uniform, aux, vs = variables(rng)
    req = rng.choice(REQ)
    which = rng.choice(["convertXarrayObjectsToNA", "convertXarrayObjectsToCSV", "convertNCToNA", "convertNCToCSV"])
    what = "%s of %d axes, auxiliary %s, requested %s" % (which, n, aux or "none", req)
    kw = {"requested_ffi": req} if req else {}
    possible = {1: [1001] if not aux else [1001], 2: [2010, 2110], 3: [3010], 4: [4010], 5: []}[n]
    if n == 1 and aux == "subset":
        possible = possible + [1020]
    if n == 2 and uniform[1]:
        possible = possible + [2310]
    try:
        files = ncdata.files_of(sp, which, vs, **kw)
    except Fail:
        raise
    except Exception as e:
        if req is None:
            check(n > 4, "convert/refused", "%s: %s: %s" % (what, type(e).__name__, e))
        else:
            check(req not in possible or aux, "convert/refused", "%s: %s: %s" % (what, type(e).__name__, e))
        check(n > 4 or req not in possible or "FFI" in str(e) or "axes" in str(e), "convert/error", "%s: %s: %s" % (what, type(e).__name__, e))
        return ("refused " + what, None)
    check(n <= 4, "convert/too-many", what + " accepted")
    dl = "," if which.endswith("CSV") else None
    for f, t in files:
        ffi = int(t.splitlines()[0].split(dl)[1])
        if req is not None:
            check(ffi == req, "convert/replaced", "%s: file of FFI %d" % (what, ffi))
        check(req is None or req in possible, "convert/accepted", what + " accepted, possible are %s" % possible)
        check(ffi in FFIS, "convert/index", "%s: file of FFI %d" % (what, ffi))
    first = int(files[0][1].splitlines()[0].split(dl)[1])
    check(NIVS[first] == n, "convert/axes", "%s: file of FFI %d" % (what, first))
    if req is None:
        check(first == {1: 1001, 2: 2010, 3: 3010, 4: 4010}[n], "convert/chosen", "%s: FFI %d" % (what, first))
    if dl is None:
        import nappy
        for f, t in files:
            r = nappy.openNAFile(f)
            check(type(r).__name__ == "NAFile%s" % t.split()[1], "convert/class", what)
            r.close()
    return (what, what)
convert.iters = 120
CASES = [choose, refused, given, convert]
