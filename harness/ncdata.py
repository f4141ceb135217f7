"""random sets of DataArrays for the NetCDF side"""
import os
import numpy as np
import xarray as xr
from common import *

def axis(rng, name, m, uniform=None, units=None, first=None):
    if uniform is None:
        uniform = rng.random() < 0.5
    first = float(rng.randint(0, 5)) if first is None else first
    if uniform:
        v = first + np.arange(m) * rng.choice([1.0, 0.5, 2.0])
    else:
        v = first + np.cumsum([rng.choice([1, 2, 3.5, 0.25]) for i in range(m)])
        if m > 2 and len(set(np.diff(v))) == 1:
            v[-1] += 0.5
    return xr.DataArray(v, dims=(name,), name=name, attrs={"units": units or rng.choice(["m", "hPa", "1", "degrees_north"]), "long_name": "axis " + name})

def array(rng, name, axes, kind="float"):
    shape = [a.size for a in axes]
    n = int(np.prod(shape)) if shape else 1
    v = np.array([round(rng.uniform(-50, 50), 3) for i in range(n)]).reshape(shape)
    at = {"units": rng.choice(["K", "m s-1", "1"]), "long_name": "variable " + name}
    if rng.random() < 0.3:
        at["missing_value"] = rng.choice([-999.0, -9999.9])
    return xr.DataArray(v, dims=tuple(a.dims[0] for a in axes), coords={a.dims[0]: a for a in axes}, name=name, attrs=at)

def write_nc(vs, path, attrs=None):
    ds = xr.Dataset({v.name: v for v in vs})
    ds.attrs.update(attrs or {})
    ds.to_netcdf(path)

GLOBALS = [("title", "a title"), ("comment", "some comment"), ("source", "instrument")]

def files_of(sp, which, vs, **kw):
    """the files a conversion of vs writes, in the order returned: [(name, text)]"""
    import nappy
    d = sp.path("o%d" % len(os.listdir(sp.d)))
    while os.path.exists(d):
        d += "x"
    os.mkdir(d)
    out = os.path.join(d, "out.csv" if which.endswith("CSV") else "out.na")
    if "Objects" in which:
        r = getattr(nappy, which)(list(vs), list(GLOBALS), out, **kw)
    else:
        write_nc(vs, os.path.join(d, "src.nc"), dict(GLOBALS))
        r = getattr(nappy, which)(os.path.join(d, "src.nc"), out, **kw)
    t = []
    for f in r:
        with open(f) as h:
            t.append((f, h.read()))
    left = set(os.listdir(d)) - {os.path.basename(f) for f in r} - {"src.nc"}
    check(not left, "files/unlisted", "files %s are not in the list returned" % sorted(left))
    return t
