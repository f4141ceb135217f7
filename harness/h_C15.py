"""C15: delimiter, annotation and header suppression change the presentation only"""
import datetime, re
from common import *
RULE = "random well-formed dictionary of a random FFI written with random delimiters, annotated, without header; the text is compared with the plain file's text with separators replaced, behind the label cell, and behind the header; NASA Ames files converted to CSV and random NetCDF datasets (one to three axes, several variables, singletons, several files) converted with every combination of options and a file name given or not, compared with the plain conversion."

REFS = {"trimmed": ",,,,,", "kept": "<|>"}
KINDS = {"trimmed": ["    ", " ", "  ", ",", ", ", " ,", "        ", ",,"], "kept": ["\t", ";", "||", "|", "~", "\t\t", "::"]}

def labels():
    import nappy
    from nappy.utils import parse_config
    return list(parse_config.getAnnotationsConfigDict().values())

def unlabel(line, delim, labs):
    head, sep, rest = line.partition(delim)
    check(sep != "", "annotation/no-cell", "line %r has no label cell" % line)
    lab = head.rstrip("0123456789 ()[]#:")
    ok = any(head == l or head.startswith(l) or lab == l.strip() for l in labs)
    check(ok, "annotation/label", "line %r carries label %r" % (line, head))
    return rest

def strip_all(text, delim, labs):
    return "".join(unlabel(l, delim, labs) for l in text.splitlines(True))

def dictionary(rng):
    ffi = rng.choice(FFIS)
    return ffi, gen_dict(rng, ffi)

def delimiter(rng, sp):
    ffi, d = dictionary(rng)
    k = rng.choice(list(KINDS))
    dl = rng.choice(KINDS[k])
    if k == "kept" and dl.strip() and rng.random() < 0.5:
        # text that ends in the delimiter's own characters
        e = dl.strip()
        for n in ("VNAME", "XNAME", "ANAME", "SCOM", "NCOM"):
            if n in d:
                d[n] = [x + e for x in d[n]]
        if ffi == 2160:
            d["X"] = [[x + e, y] for x, y in d["X"]]
        for c in range(d.get("NAUXC") or 0):
            d["A"][-1 - c] = [x + e for x in d["A"][-1 - c]]
    o = {"float_format": rng.choice(FORMATS)} if rng.random() < 0.5 else {}
    if rng.random() < 0.3:
        o["annotation"] = True
    if rng.random() < 0.3:
        o["no_header"] = True
    a = write_file(copy.deepcopy(d), sp.path("a"), delimiter=REFS[k], **o)
    b = write_file(copy.deepcopy(d), sp.path("b"), delimiter=dl, **o)
    check(a.replace(REFS[k], dl) == b, "delimiter/%d" % ffi, "with delimiter %r: %s" % (dl, text_diff(a.replace(REFS[k], dl), b)), d)
    return ("%d/%r" % (ffi, dl), {"delimiter": dl, "dict": d})

def text_diff(want, got):
    w, g = want.splitlines(True), got.splitlines(True)
    for k, (x, y) in enumerate(zip(w, g)):
        if x != y:
            return "line %d is %r, expected %r" % (k + 1, y, x)
    return "%d lines, expected %d" % (len(g), len(w))

def presentation(rng, sp):
    ffi, d = dictionary(rng)
    dl = rng.choice(["    ", ",", "\t", ";", "~"])
    labs = labels()
    for l in labs:
        if dl in l:
            return ("label holds delimiter", None)
    p = write_file(copy.deepcopy(d), sp.path("p"), delimiter=dl)
    a = write_file(copy.deepcopy(d), sp.path("a"), delimiter=dl, annotation=True)
    n = write_file(copy.deepcopy(d), sp.path("n"), delimiter=dl, no_header=True)
    b = write_file(copy.deepcopy(d), sp.path("b"), delimiter=dl, no_header=True, annotation=True)
    check(strip_all(a, dl, labs) == p, "annotation/%d" % ffi, text_diff(p, strip_all(a, dl, labs)), d)
    nl = int(p.split(dl)[0])
    data = "".join(p.splitlines(True)[nl:])
    check(n == data, "no-header/%d" % ffi, text_diff(data, n), d)
    data = "".join(a.splitlines(True)[nl:])
    check(b == data, "no-header-annotated/%d" % ffi, text_diff(data, b), d)
    return ("%d/%r" % (ffi, dl), {"delimiter": dl, "dict": d})

def tame(d):
    "items that survive a comma separated file"
    def f(x):
        return x.replace(",", ";") if isinstance(x, str) else x
    return {k: fmap(f, v) if isinstance(v, list) else f(v) for k, v in d.items()}

def na_to_csv(rng, sp):
    import nappy
    from nappy.utils import parse_config
    ffi, d = dictionary(rng)
    src = sp.path(rng.choice(["in.na", "in.x.txt", "noext"]))
    write_file(copy.deepcopy(d), src, float_format="%.12g")
    o = {}
    if rng.random() < 0.5:
        o["annotation"] = True
    if rng.random() < 0.5:
        o["no_header"] = True
    named = rng.random() < 0.5
    out = sp.path("given.dat") if named else os.path.splitext(src)[0] + ".csv"
    for f in os.listdir(sp.d):
        if f.endswith((".csv", ".dat")):
            os.remove(sp.path(f))
    nappy.convertNAToCSV(src, *([out] if named else []), **o)
    check(os.path.exists(out), "csv/name", "%s not written, but %s" % (os.path.basename(out), os.listdir(sp.d)), d)
    with open(out) as h:
        got = h.read()
    r = read_file(ffi, src)
    want = write_file(r.getNADict(), sp.path("want"), delimiter=",", **o)
    check(got == want, "csv/%d" % ffi, text_diff(want, got), d)
    return ("%d/%s" % (ffi, sorted(o)), {"dict": d})

def dataset(rng):
    import numpy as np, xarray as xr
    def axis(n, m, kind):
        if kind == 0:
            return np.arange(m) * 0.5 + rng.randint(0, 5)
        return np.cumsum([rng.choice([1, 2, 3.5, 0.25]) for i in range(m)])
    n_ax = rng.choice([1, 1, 2, 2, 3, 4])
    names = ["t", "lev", "lat", "lon"][:n_ax]
    sizes = [rng.randint(2, 5) for i in names]
    coords = {}
    for k, (n, m) in enumerate(zip(names, sizes)):
        coords[n] = (n, axis(n, m, rng.randint(0, 1) if k else 1), {"units": "u%d" % k, "long_name": "axis " + n})
    vs = {}
    for k in range(rng.randint(1, 3)):
        vs["v%d" % k] = (names, np.round(np.array([rng.uniform(-50, 50) for i in range(int(np.prod(sizes)))]).reshape(sizes), 3), {"units": "K", "long_name": "variable %d" % k})
    if rng.random() < 0.4:
        coords["other"] = ("other", axis("other", 3, 1), {"units": "m", "long_name": "other axis"})
        vs["w"] = (["other"], np.round(np.array([rng.uniform(-5, 5) for i in range(3)]), 3), {"units": "m", "long_name": "another"})
    ds = xr.Dataset({k: xr.DataArray(v[1], dims=v[0], attrs=v[2]) for k, v in vs.items()}, coords={k: xr.DataArray(v[1], dims=(v[0],), attrs=v[2]) for k, v in coords.items()})
    ds.attrs.update(Conventions="CF-1.0", title="a title", history="made", comment="some comment")
    return ds

def outputs(sp, d):
    r = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f)) as h:
            r[f] = re.sub(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d - ", "NOW - ", h.read())
    return r

def nc_convert(rng, sp):
    import nappy
    from nappy.utils import parse_config
    t = datetime.datetime.now()
    if t.hour == 23 and t.minute >= 59:
        return ("near midnight the revision date changes", None)
    ds = dataset(rng)
    labs = labels()
    src = sp.path("src.nc")
    ds.to_netcdf(src)
    which = rng.choice(["convertNCToNA", "convertNCToCSV", "convertXarrayObjectsToNA", "convertXarrayObjectsToCSV"])
    csv = which.endswith("CSV")
    k = 0
    def run(fname, kw):
        nonlocal k
        k += 1
        d = sp.path("o%d-%d" % (rng.randrange(10 ** 9), k))
        os.mkdir(d)
        name = os.path.join(d, "out.csv" if csv else "out.na")
        import xarray as xr
        if "Objects" in which:
            data = xr.open_dataset(src, use_cftime=True, decode_timedelta=False)
            vs = [data[v] for v in data.data_vars]
            getattr(nappy, which)(vs, list(data.attrs.items()), name, **kw)
            data.close()
        else:
            getattr(nappy, which)(src, name, **kw)
        return outputs(sp, d)
    dl = "," if csv else rng.choice(["\t", ",", "    ", "~"])
    base = {} if csv else {"delimiter": dl}
    if rng.random() < 0.5:
        base["float_format"] = rng.choice(["%.4f", "%12.5e", "%g"])
    if rng.random() < 0.3:
        base["size_limit"] = rng.randint(1, 3)
    plain = run(which, base)
    check(len(plain) >= 1, "nc/none", "no file written")
    for n, t in plain.items():
        fl = [l for l in t.splitlines()]
        check(int(fl[0].split(dl)[0]) <= len(fl), "nc/delimiter", "first line of %s: %r" % (n, fl[0]))
    noted = run(which, dict(base, annotation=True))
    bare = run(which, dict(base, no_header=True))
    both = run(which, dict(base, no_header=True, annotation=True))
    check(set(plain) == set(noted) == set(bare) == set(both), "nc/names", "files %s %s %s %s" % (sorted(plain), sorted(noted), sorted(bare), sorted(both)))
    for n in plain:
        nl = int(plain[n].split(dl)[0])
        check(strip_all(noted[n], dl, labs) == plain[n], "nc/annotation", text_diff(plain[n], strip_all(noted[n], dl, labs)), str(ds))
        want = "".join(plain[n].splitlines(True)[nl:])
        check(bare[n] == want, "nc/no-header", text_diff(want, bare[n]), str(ds))
        want = "".join(noted[n].splitlines(True)[nl:])
        check(both[n] == want, "nc/both", text_diff(want, both[n]), str(ds))
    if not csv:
        ref = run(which, dict(base, delimiter="<|>"))
        kept = run(which, dict(base, delimiter="\t"))
        for n in plain:
            check(ref[n].replace("<|>", "\t") == kept[n], "nc/delimiter", text_diff(ref[n].replace("<|>", "\t"), kept[n]), str(ds))
    elif which == "convertNCToCSV":
        import nappy
        d = sp.path("na%d" % rng.randrange(10 ** 9))
        os.mkdir(d)
        nappy.convertNCToNA(src, os.path.join(d, "out.csv"), delimiter=",", **base)
        other = outputs(sp, d)
        for n in plain:
            check(other.get(n) == plain[n], "nc/csv", text_diff(other.get(n, ""), plain[n]), str(ds))
    return ("%s/%d" % (which, len(plain)), str(ds)[:800])

nc_convert.iters = 40
na_to_csv.iters = 100
CASES = [delimiter, presentation, na_to_csv, nc_convert]
