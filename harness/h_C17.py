"""C17: values reach NetCDF scaled, named and numbered"""
from common import *
import numpy as np
RULE = "random NASA Ames files of every format that can be converted (1001, 1010, 1020, 2010, 3010, 4010; names alike, names longer than 64 characters, missing points, abbreviated axes), written and read by nappy and converted to xarray objects and to NetCDF files with random selections (indices, digits, names), renaming maps, time units and added attributes; compared point by point with the values read from the file, and the formats without a mapping and unknown names are checked to be refused."
AXES = ["Longitude (degrees)", "latitude", "Pressure level (hPa)", "time (days since 2001-01-01 00:00:00)", "Height (km)", "Station no", "1st axis (m)", "UT time (seconds)", "x" * 70]
NAMES = ["Ozone (ppb)", "Ozone (ppm)", "Ozone", "2nd value (K)", "Wind speed + gusts (m/s)", "Temperature (K)", "temperature (C)", "latitude", "time", "height", "y" * 70 + " (K)", "z" * 64, "z" * 63, "a b  c", "P [x] (hPa)", "N2O & CO", "rate (1/s)", "12 month mean", "CO", "Co", "OZONE (ppb)", "Ozone  (ppb)", "naVariable_1"]

def content(rng):
    ffi = rng.choice([1001, 1010, 1020, 1020, 2010, 3010, 4010])
    d = gen_dict(rng, ffi, M=rng.randint(1, 5))
    if rng.random() < 0.2 and ffi != 1001:
        d.update(NAUXV=0, A=[], ANAME=[], AMISS=[], ASCAL=[])
    na = d.get("NAUXV", 0)
    d["NV"] = nv = min(d["NV"], 5)
    for k in ("V", "VNAME", "VMISS", "VSCAL"):
        d[k] = d[k][:nv]
    na = d["NAUXV"] = min(na, 5) if ffi != 1001 else None
    for k in ("A", "ANAME", "AMISS", "ASCAL"):
        if k in d:
            d[k] = d[k][:na]
    names = rng.sample(NAMES, nv + (na or 0))
    d["VNAME"] = names[:nv]
    if na is None:
        del d["NAUXV"]
    else:
        d["ANAME"] = names[nv:]
    ax = rng.sample(AXES, d["NIV"])
    while len({a for a in ax if "time" in a}) > 1:
        ax = rng.sample(AXES, d["NIV"])
    d["XNAME"] = ax
    # an axis has every value once
    up = lambda n: sorted(rng.sample(range(-50, 200), n), reverse=rng.random() < 0.4)
    if ffi == 1020:
        s = d["NVPM"] * d["DX"][0]
        d["X"] = [round(3 + m * s, 6) for m in range(len(d["X"]))]
    elif d["NIV"] == 1:
        d["X"] = [float(x) for x in up(len(d["X"]))]
    else:
        d["X"][0] = [float(x) for x in up(len(d["X"][0]))]
        for k in range(d["NIV"] - 1):
            x = d["X"][k + 1]
            if d["DX"][k + 1] == 0:
                d["NXDEF"][k] = d["NX"][k]
            d["X"][k + 1] = [float(v) for v in up(d["NXDEF"][k])]
    def holes(v, miss):
        return [holes(x, miss) for x in v] if isinstance(v, list) else miss if rng.random() < 0.15 else v
    if rng.random() < 0.15:
        d["VMISS"][0] = 0.0
    for c in "VA":
        if d.get(c):
            d[c] = [holes(v, m) for v, m in zip(d[c], d[c + "MISS"])]
    return d

def pick(rng, names):
    """a selection, and the positions it stands for"""
    n = len(names)
    every = list(range(n))
    if not n or rng.random() < 0.35:
        return rng.choice(["all", None]), every
    idx = [rng.randrange(n) for i in range(rng.randint(1, n))] if rng.random() < 0.3 else rng.sample(every, rng.randint(1, n))
    k = rng.choice(["int", "digits", "names", "names"])
    return [i if k == "int" else str(i) if k == "digits" else names[i] for i in idx], idx

def clean(name, i, what, ren):
    """the name a variable gets"""
    import re
    n = re.sub(r"[/\s\[\(\)\]=+\-?#~@&$%!*{}^]+", "_", name).lower() if len(name) < 64 else "%s_%d" % (what, i)
    return ren.get(n.lower(), n)

def expected(f, c, i):
    v = np.array(getattr(f, c)[i], dtype=float)
    miss, scal = getattr(f, c + "MISS")[i], getattr(f, c + "SCAL")[i]
    return np.where(v == miss, miss, v * scal), miss

def attributes(rng):
    g = []
    for k in rng.sample(["title", "source", "comment", "history", "institution", "mine", "total_files_in_set", "other"], rng.choice([0, 0, 1, 2, 3])):
        g.append((k, "given " + k if k != "total_files_in_set" else 42))
    return g

def converted(rng, sp):
    import nappy, netCDF4
    from nappy.nc_interface.na_to_xarray import NADictToXarrayObjects
    from nappy.nc_interface.na_to_nc import NAToNC
    d = content(rng)
    path = sp.path("in.na")
    write_file(copy.deepcopy(d), path, float_format="%.10g")
    f = read_file(d["FFI"], path)
    sv, iv = pick(rng, f.VNAME)
    sa, ia = pick(rng, f.ANAME if f.NAUXV else [])
    user = attributes(rng)
    split = lambda n: f._attemptVarAndUnitsMatch(n)
    ren = {}
    if rng.random() < 0.5:
        n = rng.choice(list(f.VNAME) + list(f.ANAME or []))
        ren[clean(split(n)[0], (f.VNAME.index(n) if n in f.VNAME else f.ANAME.index(n)), "naVariable" if n in f.VNAME else "naAuxVariable", {})] = rng.choice(["Renamed", "ozone", "renamed var"])
        if rng.random() < 0.5:
            ren = {k.title(): v for k, v in ren.items()}
    low = {k.lower(): v for k, v in ren.items()}
    units = "hours since 2003-04-30 10:00:00"
    inp = {"dictionary": d, "variables": sv, "aux_variables": sa, "global_attributes": user, "rename_variables": ren}
    kw = dict(variables=sv, aux_variables=sa, global_attributes=list(user), time_units=units, rename_variables=dict(ren))
    to_nc = rng.random() < 0.6
    source = f if rng.random() < 0.5 else nappy.openNAFile(path)
    if rng.random() < 0.2:
        NADictToXarrayObjects(source, time_warning=False).convert()
    o = (NAToNC if to_nc else NADictToXarrayObjects)(source, **kw)
    vs, avs, g = o.convert()
    if f.NAUXV and not ia:
        ia = []
    check(len(vs) == len(iv) and len(avs) == len(ia), "selected", "%d and %d variables, not %d and %d" % (len(vs), len(avs), len(iv), len(ia)), inp)
    full = read_file(d["FFI"], path)
    if not full._normalized_X:
        full._normalizeIndVars()
    X = [full.X] if full.NIV == 1 else full.X
    for c, l, idx, key, what in (("V", vs, iv, "nasa_ames_var_number", "naVariable"), ("A", avs, ia, "nasa_ames_aux_var_number", "naAuxVariable")):
        for v, i in zip(l, idx):
            w, miss = expected(f, c, i)
            nm, un = split(getattr(f, c + "NAME")[i])
            check(v.attrs.get(key) == i, "number", "%s is %s, not %d" % (key, v.attrs.get(key), i), inp)
            check(v.values.shape == w.shape and np.array_equal(v.values, w), "values", "%s %d is %s, not %s" % (what, i, v.values.tolist(), w.tolist()), inp)
            check(v.encoding.get("_FillValue") == miss, "missing", "missing value %s, not %s" % (v.encoding.get("_FillValue"), miss), inp)
            check(v.attrs.get("units") == (un if un else None), "units", "units %r, not %r" % (v.attrs.get("units"), un), inp)
            ln = clean(nm, i, what, low)
            check(v.attrs.get("long_name") == ln and v.name == ln.lower().replace(" ", "_"), "name", "%r, %r: not %r" % (v.name, v.attrs.get("long_name"), ln), inp)
            check(len(set(v.dims)) == w.ndim, "axes", "axes %s" % (v.dims,), inp)
            for k, dim in enumerate(v.dims):
                x = X[k][::f.NVPM] if c == "A" and f.FFI == 1020 else X[k]
                check(np.array_equal(v.coords[dim].values, np.array(x)), "axis", "axis %d is %s, not %s" % (k, v.coords[dim].values.tolist(), x), inp)
                xn, xu = split(f.XNAME[k])
                t = v.coords[dim]
                for word in ("longitude", "latitude", "level", "time"):
                    if word in xn.lower() and len(xn) < 64:
                        check(dim == word, "axis-name", "axis %r is named %s" % (xn, dim), inp)
                check(t.attrs.get("units") == (units if dim == "time" and "since" not in f.XNAME[k] else xu or "Not known"), "axis-units", "units of axis %r: %r" % (f.XNAME[k], t.attrs.get("units")), inp)
    got = dict(g)
    check(len(got) == len(g), "attributes", "attributes twice: %s" % [k for k, v in g], inp)
    want = {"source": f.SNAME, "title": f.MNAME, "file_number_in_set": f.IVOL, "total_files_in_set": f.NVOL, "file_format_index": f.FFI, "no_of_nasa_ames_header_lines": f.NLHEAD, "first_valid_date_of_data": f.DATE,
            "institution": "%s (ONAME from NASA Ames file); %s (ORG from NASA Ames file)." % (f.ONAME, f.ORG)}
    want.update(user)
    for k, w in want.items():
        check(k in got and (got[k] == w if not isinstance(w, list) else list(got[k]) == w), "attribute", "%s is %r, not %r" % (k, got.get(k), w), inp)
    if "history" not in want:
        check(("%.4d-%.2d-%.2d" % tuple(f.RDATE)) in got["history"], "history", got["history"], inp)
    if "comment" not in want:
        lines = [t.strip() for t in got["comment"].split("\n")]
        at = -1
        for t in [t for t in f.SCOM + f.NCOM if t.strip()]:
            k = [i for i, x in enumerate(lines) if x == t.strip() and i > at]
            check(k, "comment", "comment %r is not (in order) in %r" % (t, got["comment"]), inp)
            at = k[0]
    if to_nc:
        nc = sp.path("out.nc")
        o.writeNCFile(nc)
        with netCDF4.Dataset(nc) as ds:
            ds.set_auto_maskandscale(False)
            for key, c, idx in (("nasa_ames_var_number", "V", iv), ("nasa_ames_aux_var_number", "A", ia)):
                there = {}
                for n, v in ds.variables.items():
                    if key in v.ncattrs() and n not in ds.dimensions:
                        there.setdefault(int(v.getncattr(key)), []).append(v)
                check(sorted(k for k, l in there.items() for v in l) == sorted(idx), "written", "variables %s in the file, not %s: %s" % (sorted((k, len(l)) for k, l in there.items()), idx, list(ds.variables)), inp)
                for i, l in there.items():
                    w, miss = expected(f, c, i)
                    for v in l:
                        check(v.getncattr("_FillValue") == miss, "written-missing", "missing value of %s is %s" % (v.name, v.getncattr("_FillValue")), inp)
                        x = X[0][::f.NVPM] if c == "A" and f.FFI == 1020 else X[0]
                        at = [ds.variables[v.dimensions[0]][:].tolist().index(y) for y in x]
                        check(np.array_equal(v[:][at], w), "written-values", "%s is %s, not %s" % (v.name, v[:][at].tolist(), w.tolist()), inp)
            for k, w in dict(want).items():
                a = ds.getncattr(k) if k in ds.ncattrs() else None
                check(np.array_equal(a, w), "written-attribute", "%s is %r, not %r" % (k, a, w), inp)
    return ((d["FFI"], str(type(sv)), str(type(sa)), to_nc, len(user)), None)

def refused(rng, sp):
    from nappy.nc_interface.na_to_xarray import NADictToXarrayObjects
    if rng.random() < 0.4:
        ffi = rng.choice([2110, 2160, 2310])
        d = gen_dict(rng, ffi)
        path = sp.path("r.na")
        write_file(copy.deepcopy(d), path)
        what = lambda: NADictToXarrayObjects(read_file(ffi, path)).convert()
        inp = {"FFI": ffi}
    else:
        d = content(rng)
        path = sp.path("r.na")
        write_file(copy.deepcopy(d), path)
        f = read_file(d["FFI"], path)
        aux = bool(f.NAUXV) and rng.random() < 0.5
        names = list(f.ANAME if aux else f.VNAME)
        sel = rng.sample(names, rng.randint(0, len(names)))
        sel.insert(rng.randint(0, len(sel)), rng.choice(["no such name", "Ozon", names[0] + " ", names[0].swapcase() + "x"]))
        inp = {"dictionary": d, "aux" if aux else "variables": sel}
        what = lambda: NADictToXarrayObjects(f, time_warning=False, **{"aux_variables" if aux else "variables": sel}).convert()
    try:
        what()
    except Exception as e:
        check(type(e) is Exception, "refusal", "%s: %s" % (type(e).__name__, e), inp)
    else:
        check(False, "not-refused", "no exception", inp)
    return (("refused",), None)

CASES = [converted, converted, converted, refused]
