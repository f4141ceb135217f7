"""C12: variables in one file share their axes"""
from common import *
import ncdata
import numpy as np, xarray as xr
from grouping_gen import variables, base_axes, near, sub, coord
RULE = "pairs of random axes equal or different in one value, name, unit, length or in order (also sub-sampled, also dates): accepted only if all agree; and random collections of variables over such axes: main variables of a file agree in shape and axes, auxiliary variables in the first axis or, for index 1020, in every n-th point of it."

def agree(a, b, name=True):
    return (a.name == b.name or not name) and a.attrs.get("units") == b.attrs.get("units") and len(a) == len(b) and all(x == y for x, y in zip(a.values, b.values))

def describe(a):
    return (a.name, [str(x) for x in a.values], a.attrs.get("units"))

def pairs(rng, sp):
    from nappy.nc_interface.xarray_utils import areAxesIdentical, isAxisRegularlySpacedSubsetOf
    a = base_axes(rng)[rng.choice([0, 0, 1, 2])]
    if rng.random() < 0.2:
        a = coord("time", np.datetime64("2000-01-01") + np.cumsum([rng.choice([1, 2]) for i in range(len(a))]) * np.timedelta64(1, "D"), None).astype("datetime64[ns]")
        a.name = "time"
        b = a.copy(deep=True)
        k = "same"
        if rng.random() < 0.7:
            v = a.values.copy()
            v[rng.randrange(len(v))] += np.timedelta64(rng.choice([1, 3600 * 10 ** 9]), "ns")
            b, k = coord("time", v, None), "value"
    elif rng.random() < 0.3:
        k, b = "same", a.copy(deep=True)
    else:
        k, b = near(rng, a)
    if rng.random() < 0.5:
        a, b = b, a
    inp = {"a": describe(a), "b": describe(b)}
    r = areAxesIdentical(a, b)
    check(not r or agree(a, b), "identical-" + k, "axes that differ (%s) are taken as identical" % k, inp)
    r2 = areAxesIdentical(a, b, check_id=False)
    check(not r2 or agree(a, b, name=False), "identical-any-name-" + k, "axes that differ (%s) are taken as identical" % k, inp)
    long = a if len(a) >= len(b) else b
    spoil = rng.random() < 0.5
    s = sub(rng, long, spoil) if rng.random() < 0.7 else (b if long is a else a) if long.dtype.kind == "f" else sub(rng, long)
    n = isAxisRegularlySpacedSubsetOf(s, long)
    if n:
        ok = n * len(s) == len(long) and s.attrs.get("units") == long.attrs.get("units") and all(s.values[i] == long.values[n * i] for i in range(len(s)))
        check(ok, "subset", "taken as every %s-th point" % n, {"subset": describe(s), "of": describe(long)})
    return ((k, bool(r), bool(n), len(a), len(b)), None)

def grouping(rng, sp):
    from nappy.nc_interface.xarray_to_na import XarrayToNA
    vs, req, what = variables(rng, unique=True)
    inp = {"variables": what, "requested_ffi": req}
    try:
        r = XarrayToNA(list(vs), list(ncdata.GLOBALS), requested_ffi=req).convert()
    except Exception as e:
        return None
    by = {v.name: v for v in vs}
    axes = lambda v: [v.coords[d] for d in v.dims]
    for d, ids in r or ():
        main, aux = [by[n] for n in ids[0]], [by[n] for n in ids[1]]
        for v in main[1:]:
            ok = v.shape == main[0].shape and all(agree(a, b) for a, b in zip(axes(v), axes(main[0])))
            check(ok, "main", "%s and %s are written together, FFI %s" % (v.name, main[0].name, d["FFI"]), inp)
        for v in aux:
            a, b = axes(v)[0], axes(main[0])[0]
            ok = v.ndim == 1 and agree(a, b)
            if d["FFI"] == 1020:
                n = d["NVPM"]
                ok = v.ndim == 1 and n * len(a) == len(b) and a.attrs.get("units") == b.attrs.get("units") and all(a.values[i] == b.values[n * i] for i in range(len(a)))
            check(ok, "auxiliary", "%s is auxiliary to %s, FFI %s" % (v.name, main[0].name, d["FFI"]), inp)
    return (tuple((d["FFI"], len(i[0]), len(i[1])) for d, i in r or ()), None)

CASES = [pairs, grouping]
