"""random collections of variables over axes that agree, nearly agree, or are sub-sampled"""
import numpy as np, xarray as xr

def coord(name, v, units):
    return xr.DataArray(np.array(v), dims=(name,), name=name, attrs={"units": units} if units else {})

def near(rng, a):
    """(what differs, an axis that differs from a in one respect)"""
    v, n, u = a.values.copy(), a.name, a.attrs.get("units")
    k = rng.choice(["value", "value", "first", "last", "name", "units", "no-units", "length", "order"])
    if k in ("value", "first", "last"):
        i = {"value": rng.randrange(len(v)), "first": 0, "last": len(v) - 1}[k]
        v[i] = v[i] + rng.choice([0.25, -0.25, 1e-6])
    elif k == "name":
        n = rng.choice([n + "b", n.upper(), n + n, n + "_"])
    elif k == "units":
        u = rng.choice(["km", (u or "k").upper(), (u or "k") + " ", (u or "") + "s"])
    elif k == "no-units":
        u = None if u else "km"
    elif k == "length":
        v = v[:-1] if len(v) > 1 and rng.random() < 0.5 else np.append(v, v[-1] + 1)
    else:
        v = v[::-1].copy()
        if len(v) == 1:
            v = v + 1
    return k, coord(n, v, u)

def sub(rng, a, spoil=False):
    """every n-th point of a, or nearly"""
    ds = [d for d in range(1, len(a) + 1) if len(a) % d == 0]
    n = rng.choice(ds)
    v = a.values[::n].copy()
    if spoil:
        v[rng.randrange(len(v))] += 0.5 if v.dtype.kind == "f" else np.timedelta64(1, "h")
    return coord(a.name, v, a.attrs.get("units"))

def base_axes(rng):
    m = rng.choice([1, 2, 3, 4, 6])
    def vals(n):
        return rng.randint(0, 4) + np.cumsum([rng.choice([1.0, 1.0, 2.0, 0.5]) for i in range(n)]) if rng.random() < 0.5 else rng.randint(0, 4) + np.arange(n) * rng.choice([1.0, 0.5])
    return [coord(n, vals(k), rng.choice(["s", "m", "1", None])) for n, k in zip("tzyx", [m, rng.choice([1, 2, 3, m]), rng.choice([1, 2, m]), 2])]

def variables(rng, unique=None):
    """(variables, requested index, description)"""
    A = base_axes(rng)
    style = rng.choice(["mixed", "mixed", "points", "flat", "two"])
    req = None
    if style == "points" and rng.random() < 0.7:
        req = 1020
    elif rng.random() < 0.15:
        req = rng.choice([1001, 1010, 1020, 2010, 2110, 2310, 3010])
    vs, what, at = [], [], 1.0
    for i in range(rng.randint(1, 9 if rng.random() < 0.3 else 5)):
        if style == "points":
            r = 1
        elif style == "flat":
            r = rng.choice([0, 1, 1, 1])
        elif style == "two":
            r = rng.choice([0, 1, 2, 2])
        else:
            r = rng.choice([0, 1, 1, 2, 2, 3, 3, 4])
        axes = list(A[:r])
        note = ""
        if r and rng.random() < 0.4:
            k = rng.randrange(r)
            if style == "points" or r == 1 and rng.random() < 0.4:
                axes[k] = sub(rng, axes[k], rng.random() < 0.3)
                note = "sub-sampled"
            else:
                note, axes[k] = near(rng, axes[k])
        elif r and rng.random() < 0.15:
            rng.shuffle(axes)
            note = "shuffled"
        name = "v%d" % i if unique or rng.random() < 0.95 else "v0"
        s = [len(a) for a in axes]
        n = int(np.prod(s)) if s else 1
        v = xr.DataArray((at + np.arange(float(n))).reshape(s), dims=[a.name for a in axes], coords={a.name: a for a in axes}, name=name, attrs={"units": "K"})
        at += n
        if rng.random() < 0.3:
            v.attrs["nasa_ames_var_number"] = rng.randint(0, 3)
        if rng.random() < 0.2:
            v.attrs["nasa_ames_aux_var_number"] = rng.randint(0, 3)
        vs.append(v)
        what.append((name, [(a.name, list(map(float, a.values)), a.attrs.get("units")) for a in axes], dict(v.attrs), note))
    return vs, req, what
