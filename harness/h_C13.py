"""C13: abbreviated axes"""
from common import *
import io, ncdata, cftime
import numpy as np, xarray as xr
RULE = "random axes of 1 to 12 points (even, nearly even, uneven, constant interval of either sign; floats, integers, unsigned bytes, single precision, calendar times) in every dimension of one to four dimensional variables and as implied points of FFI 1020: dictionary entries compared with the axes, and the file written from them read back and expanded."

def points(rng, m, exact=True):
    """(values as written, coordinate values)"""
    kind = rng.choice(["even", "even", "even", "near", "nearly", "uneven", "down"])
    typ = rng.choice(["float", "float", "int", "uint8", "float32"])
    step = rng.choice([1, 2, 3]) if typ in ("int", "uint8") else rng.choice([1.0, 0.5, 0.25, 2.0])
    v = np.arange(m) * step
    if kind == "down":
        v = v[::-1]
    elif kind == "near" and m > 2:
        v = v.copy()
        v[rng.choice([1, m - 1, m // 2])] += step / 4 if "float" in typ else 1
        if len(set(v.tolist())) < m:
            v[-1] += 2 * step
    elif kind == "nearly" and typ == "float" and m > 2 and exact:
        v = v + rng.choice([0, 100, 1000])
        v[rng.choice([1, m - 1, m // 2])] += step / 2 ** rng.choice([6, 12, 18])
        return v
    elif kind == "uneven":
        v = np.cumsum([step * rng.choice([1, 2, 3]) for i in range(m)])
    v = (v + rng.choice([0, 0, 5])).astype({"float": float, "int": int, "uint8": np.uint8, "float32": np.float32}[typ])
    return v

def axis(rng, name, m):
    v = points(rng, m, name != "time")
    if name == "time" and rng.random() < 0.5:
        u = "days since 2000-01-01"
        t = cftime.num2date(v.astype(float), u, calendar="360_day")
        a = xr.DataArray(t, dims=(name,), name=name, attrs={"long_name": "time", "units": u})
        a.encoding.update(units=u, calendar="360_day")
        return a, [float(x) for x in v]
    return xr.DataArray(v, dims=(name,), name=name, attrs={"units": "1", "long_name": "axis " + name}), [float(x) for x in v.tolist()]

def even(v):
    return all(v[i] - v[i - 1] == v[1] - v[0] for i in range(1, len(v)))

def near(a, b):
    return len(a) == len(b) and all(abs(float(x) - float(y)) < 1e-6 * max(1, abs(float(y))) for x, y in zip(a, b))

def entry(what, n, nd, dx, x, v, inp):
    """what is recorded for one bounded axis"""
    check(n == len(v), "length", "%s: length %s of %s" % (what, n, v), inp)
    check(isinstance(x, list) and len(x) == nd and x == v[:nd], "first-values", "%s: NXDEF %s, X %s for %s" % (what, nd, x, v), inp)
    if nd < n or dx != 0:
        check(even(v) and dx == v[1] - v[0], "increment", "%s: DX %s (%d of %d points) for %s" % (what, dx, nd, n, v), inp)
    check(nd == n or even(v), "uneven", "%s: abbreviated although uneven: %s" % (what, v), inp)

def axes(rng, sp):
    from nappy.nc_interface.xarray_to_na import XarrayToNA
    import nappy
    r = rng.choice([1, 2, 2, 3, 4])
    req = rng.choice([None, None, None, 2110, 2310]) if r == 2 else 1020 if r == 1 and rng.random() < 0.6 else None
    dims = ["time", "z", "y", "x"][:r]
    rng.shuffle(dims)
    m = [rng.choice([1, 2, 3, 4, 5, 8, 12]) if r < 3 else rng.choice([1, 2, 3, 5, 6]) for d in dims]
    A = [axis(rng, d, k) for d, k in zip(dims, m)]
    co, V = [a for a, v in A], [v for a, v in A]
    def var(name, axes):
        s = [len(a) for a in axes]
        return xr.DataArray(np.arange(float(np.prod(s))).reshape(s), dims=[a.name for a in axes], coords={a.name: a for a in axes}, name=name, attrs={"units": "K", "long_name": name})
    vs = [var("v", co)]
    inp = {"axes": list(zip(dims, V)), "types": [str(a.dtype) for a in co], "requested_ffi": req}
    nv = 1
    if req == 1020:
        nv = rng.choice([d for d in range(1, m[0] + 1) if m[0] % d == 0])
        if nv == 1:
            return None
        vs.append(var("a", [co[0][::nv]]))
        vs[1][dims[0]].encoding.update(co[0].encoding)
    else:
        for i in range(rng.choice([0, 0, 1])):
            vs.append(var("w", co))
    try:
        res = XarrayToNA(vs, list(ncdata.GLOBALS), requested_ffi=req).convert()
    except Exception as e:
        if req and type(e) is Exception and "Cannot write" in str(e):
            if req == 1020 and m[0] > 1:
                check(not even(V[0]) or V[0][0] == V[0][1], "refused", "FFI 1020 refused for %s: %s" % (V[0], e), inp)
            return (("refused", req), None)
        raise
    d, ids = res[0]
    check(len(res) == 1, "files", "%d files" % len(res), inp)
    ffi = d["FFI"]
    if ffi in (1001, 1010):
        check(d["X"] == V[0], "axis", "X %s for %s" % (d["X"], V[0]), inp)
        check(d["DX"][0] == 0 or even(V[0]) and d["DX"][0] == V[0][1] - V[0][0], "increment", "DX %s for %s" % (d["DX"], V[0]), inp)
    elif ffi == 1020:
        check(near([x + i * d["DX"][0] for x in d["X"] for i in range(nv)], V[0]), "implied", "X %s, DX %s, NVPM %s for %s" % (d["X"], d["DX"], d["NVPM"], V[0]), inp)
    elif ffi in (2110, 2310):
        for m_, row in enumerate(d["X"]):
            check(float(row[0]) == V[0][m_] and row[1] == V[1], "row", "X[%d] %s for %s, %s" % (m_, row, V[0], V[1]), inp)
        check(d["NX"] == [len(V[1])] * len(V[0]) == d["A"][0], "row-length", "NX %s" % (d["NX"],), inp)
        if ffi == 2310:
            check(d["A"][1] == [V[1][0]] * len(V[0]) and d["A"][2] == d["DX"], "row-start", "A %s, DX %s" % (d["A"], d["DX"]), inp)
            check(near([V[1][0] + i * d["DX"][0] for i in range(len(V[1]))], V[1]), "row-increment", "DX %s for %s" % (d["DX"], V[1]), inp)
    else:
        check(d["X"][0] == V[0], "axis", "X %s for %s" % (d["X"][0], V[0]), inp)
        check(d["DX"][0] == 0 or even(V[0]) and d["DX"][0] == V[0][1] - V[0][0], "increment", "DX %s for %s" % (d["DX"], V[0]), inp)
        for k in range(1, r):
            entry("axis %d" % k, d["NX"][k - 1], d["NXDEF"][k - 1], d["DX"][k], d["X"][k], V[k], inp)
    # written, read back and expanded
    if ffi in (1020, 2010, 3010, 4010):
        p = sp.path("o.na")
        f = nappy.openNAFile(p, "w", d)
        f.write(float_format="%.10g", delimiter="    ")
        f.close()
        g = nappy.openNAFile(p)
        g.readData()
        for i in range(rng.choice([1, 1, 2])):
            g._normalizeIndVars()
        X = [g.X] if ffi == 1020 else g.X
        for k in range(r):
            check(near(X[k], V[k]), "expanded", "axis %d is read back as %s, not %s" % (k, X[k], V[k]), inp)
        check(np.array(g.V).shape[1:] == tuple(m), "shape", "shape %s" % (np.array(g.V).shape,), inp)
    return ((ffi, tuple(m), tuple(map(even, V))), None)

def expansion(rng, sp):
    """the readers' expansion of what a file of another source may declare"""
    import importlib
    ffi = rng.choice([2010, 3010, 4010, 1020])
    r = {2010: 2, 3010: 3, 4010: 4, 1020: 1}[ffi]
    K = getattr(importlib.import_module("nappy.na_file.na_file_%d" % ffi), "NAFile%d" % ffi)
    o = K.__new__(K)
    o._normalized_X, o.NIV, o.file = False, r, io.StringIO()
    if ffi == 1020:
        o.NVPM = rng.randint(1, 6)
        o.X = [float(rng.randint(0, 90)) for i in range(rng.randint(1, 6))]
        o.DX = [rng.choice([0.5, 1.0, -2.0])]
        want = [x + i * o.DX[0] for x in o.X for i in range(o.NVPM)]
        inp = {"X": list(o.X), "DX": o.DX, "NVPM": o.NVPM}
        for i in range(rng.choice([1, 1, 2])):
            o._normalizeIndVars()
        check(near(o.X, want), "expansion-1020", "%s, not %s" % (o.X, want), inp)
        return ((1020, o.NVPM, len(want)), None)
    o.NX = [rng.randint(1, 9) for k in range(r - 1)]
    o.NXDEF = [rng.randint(1, n) for n in o.NX]
    o.DX = [0.0] + [rng.choice([0.5, 1.0, -2.0, 3.0]) for k in range(r - 1)]
    first = [float(rng.randint(0, 9)) for k in range(r - 1)]
    full = [[f + i * dx for i in range(n)] for f, n, dx in zip(first, o.NX, o.DX[1:])]
    o.X = [[0.0, 1.0]] + [x[:d] for x, d in zip(full, o.NXDEF)]
    for k in range(r - 1):
        if o.NXDEF[k] == o.NX[k]:
            o.DX[k + 1] = 0.0
    inp = {"ffi": ffi, "NX": o.NX, "NXDEF": o.NXDEF, "DX": list(o.DX), "X": copy.deepcopy(o.X)}
    o._normalizeIndVars()
    for k in range(r - 1):
        check(near(o.X[k + 1], full[k]), "expansion", "axis %d: %s, not %s" % (k + 1, o.X[k + 1], full[k]), inp)
    check(o.X[0] == [0.0, 1.0], "expansion-first", "the first axis changes: %s" % (o.X[0],), inp)
    return ((ffi, tuple(o.NX), tuple(o.NXDEF)), None)

CASES = [axes, expansion]
