"""C19: command-line options, pair lists, default names"""
from common import *
import contextlib, io
RULE = "random command lines of nc2na, nc2csv and na2nc (options in random order, some repeated, separate and joined values, values full of commas, dashes, spaces and quotes) whose conversion call is recorded and compared with the documented arguments; random pair lists with odd and even counts; random names; conversions of real files with options whose effect is looked up in the files written."
NC2NA = {"-i": ("nc_file", "text"), "-o": ("na_file", "text"), "-v": ("var_ids", "list"), "--ffi": ("requested_ffi", "int"), "-f": ("float_format", "text"),
         "-d": ("delimiter", "text"), "-l": ("size_limit", "int"), "-e": ("exclude_vars", "list"), "--overwrite-metadata": ("na_items_to_override", "dict"),
         "--names-only": ("only_return_file_names", "flag"), "--no-header": ("no_header", "flag"), "--annotated": ("annotation", "flag")}
SCRIPTS = {"nc2na": NC2NA, "nc2csv": {k: v for k, v in NC2NA.items() if k != "-d"},
           "na2nc": {"-i": ("na_file", "text"), "-o": ("nc_file", "text"), "-m": ("mode", "text"), "-g": ("global_attributes", "pairs"), "-r": ("rename_variables", "dict"),
                     "-t": ("time_units", "text"), "-n": ("time_warning", "off")}}
NCDEF = {"na_file": None, "var_ids": None, "requested_ffi": None, "size_limit": None, "exclude_vars": [], "na_items_to_override": {}, "only_return_file_names": False,
         "no_header": False, "annotation": False, "delimiter": "    ", "float_format": "%.10g"}
DEF = {"nc2na": NCDEF, "nc2csv": NCDEF, "na2nc": {"mode": "w", "global_attributes": [], "rename_variables": {}, "time_units": None, "time_warning": True}}
API = {"nc2na": "convertNCToNA", "nc2csv": "convertNCToCSV", "na2nc": "convertNAToNC"}
TEXTS = ["a.nc", "dir.x/a b.nc", "x,y", "%5.2f", " ", "\t", "--ffi", "=", "-1", "'", '"q"', "%s", "hours since 2003-04-30 10:00:00", "a", "w", ",", "i", "\u00b5"]

def text(rng, script):
    t = rng.choice(TEXTS)
    return t if script != "nc2csv" or not t.startswith("-") else "x" + t

def item(rng, script):
    return rng.choice(["ONAME", "DATE", "a b", "", "x=y", "v1", "Temp", "1", " pad ", "long name here"]) if script != "nc2csv" else rng.choice(["ONAME", "x=y", "v1", "1"])

def value(rng, script, kind):
    "-> words after the option, value expected"
    if kind == "text":
        t = text(rng, script)
        return t, t
    if kind == "int":
        n = rng.choice([0, 1, 7, 1001, 2110, 99999])
        return str(n), n
    n = rng.choice([1, 1, 2, 3, 6])
    its = [item(rng, script) for k in range(n)]
    if kind == "list":
        return ",".join(its), its
    ps = [(k, item(rng, script)) for k in its]
    t = ",".join("%s,%s" % p for p in ps)
    return t, (dict(ps) if kind == "dict" else ps)

def run(script, argv):
    import nappy, importlib
    mod = importlib.import_module("nappy.script." + script)
    got = []
    old = getattr(nappy, API[script])
    setattr(nappy, API[script], lambda *a, **k: got.append((a, k)) or ["f1", "f2"])
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = getattr(mod, script)(argv)
    finally:
        setattr(nappy, API[script], old)
    return got, r

def options(rng, sp):
    script = rng.choice(sorted(SCRIPTS))
    opts = SCRIPTS[script]
    use = rng.sample(sorted(opts), rng.randint(1, len(opts)))
    if "-i" not in use:
        use.append("-i")
    if script == "na2nc" and "-o" not in use:
        use.append("-o")
    use += [rng.choice(use) for k in range(rng.choice([0, 0, 1, 2]))]
    rng.shuffle(use)
    argv, want = [], copy.deepcopy(DEF[script])
    for o in use:
        arg, kind = opts[o]
        if kind in ("flag", "off"):
            argv.append(o)
            want[arg] = kind == "flag"
            continue
        w, v = value(rng, script, kind)
        if arg in ("nc_file", "na_file") and o == "-i" and not w:
            w = v = "in"
        want[arg] = v
        joined = rng.random() < 0.4 and w
        argv += [o + ("=" if o.startswith("--") else "") + w] if joined else [o, w]
    ref = list(argv)
    got, r = run(script, argv)
    check(len(got) == 1 and not got[0][0], "options/calls", "%d conversions" % len(got), ref)
    kw = dict(got[0][1])
    if script == "nc2csv":
        kw["na_file"] = kw.pop("csv_file")
        kw.pop("delimiter", None)
        want.pop("delimiter")
    if script == "na2nc":
        kw.pop("variables", None)
        kw.pop("aux_variables", None)
        if kw["global_attributes"] == {}:
            kw["global_attributes"] = []
    for k in sorted(set(kw) | set(want)):
        check(k in kw and k in want and kw[k] == want[k] and type(kw[k]) == type(want[k]), "options/%s" % k, "%s: %s is %r, not %r" % (script, k, kw.get(k), want.get(k)), ref)
    check(r == ["f1", "f2"], "options/result", "%r is returned" % (r,), ref)
    return ("%s %d" % (script, len(use)), ref)

def bad(rng, sp):
    script = rng.choice(sorted(SCRIPTS))
    argv = rng.choice([["-o", "x"], [], ["-i"], ["-i", ""], ["-i", "a", "--nothing"], ["-i", "a", "-z"], ["-q", "-i", "a"]] + ([["-i", "a", "-d", ","]] if script == "nc2csv" else []))
    try:
        got = run(script, list(argv))
    except SystemExit:
        return (script + str(argv), argv)
    raise Fail("refused", "%s %r is accepted: %r" % (script, argv, got), argv)

def pairs(rng, sp):
    from nappy.utils import common_utils as u
    n = rng.randint(1, 12)
    its = [rng.choice(["a", "b", "", "x y", "k=v", "ONAME", "3", " ", '"', "long text"]) for k in range(n)]
    s = ",".join(its)
    for f in (u.makeListFromCommaSepString, u.makeDictFromCommaSepString):
        if n % 2:
            try:
                r = f(s)
            except Exception:
                continue
            raise Fail("pairs/odd", "%d items accepted: %r" % (n, r), s)
        ps = [(its[k], its[k + 1]) for k in range(0, n, 2)]
        r = f(s)
        if f is u.makeListFromCommaSepString:
            check(r == ps, "pairs/list", "%r instead of %r" % (r, ps), s)
        else:
            check(r == dict(ps) and list(r) == list(dict(ps)), "pairs/dict", "%r" % (r,), s)
    return (str(n), s)

def names(rng, sp):
    import nappy
    from nappy.utils import common_utils as u
    from nappy.nc_interface.xarray_to_na import XarrayToNA
    d = rng.choice(["", "/", "a.b/", "/x.na/y/", "./", "../"])
    stem = rng.choice(["file", "a.b", "x.na", "20200101-v1.2", "f o o", "abc.def.gh", "my.nc.data"])
    ext = rng.choice([".na", ".nc", ".nas", ".txt", ".NA", ".longextension"])
    for new in ("na", "nc", "csv"):
        r = u.getFileNameWithNewExtension(d + stem + ext, new)
        check(r == d + stem + "." + new, "names/extension", "%r for %r" % (r, d + stem + ext), d + stem + ext)
    n = rng.choice([1, 2, 3, 10, 12])
    x = XarrayToNA([])
    x.converted = True
    x.na_dict_list = [({}, ([], [], []))] * n
    r = x.constructNAFileNames(d + stem + ext)
    want = [d + stem + ext] if n == 1 else ["%s_%d%s" % (d + stem, k + 1, ext) for k in range(n)]
    check(r == want, "names/files", "%r" % (r,), (d + stem + ext, n))
    x.nc_file = d + stem + ".nc"
    r = x.constructNAFileNames()
    want = [d + stem + ".na"] if n == 1 else ["%s_%d.na" % (d + stem, k + 1) for k in range(n)]
    check(r == want, "names/default-files", "%r" % (r,), (x.nc_file, n))
    got, _ = run("na2nc", ["-i", d + stem + ext])
    want = d + stem + (".nc" if ext == ".na" else ext + ".nc")
    check(got[0][1]["nc_file"] == want, "names/na2nc", "%r" % (got[0][1]["nc_file"],), d + stem + ext)
    return (d + stem + ext, None)

def effect(rng, sp):
    "options of real conversions, looked up in the files written"
    import nappy, ncdata, importlib
    import xarray as xr
    t = ncdata.axis(rng, "t", rng.randint(2, 6))
    vs = [ncdata.array(rng, n, [t]) for n in ("temp", "wind_speed", "o3", "flag")]
    d = sp.path("e%d" % rng.randrange(10 ** 9))
    os.mkdir(d)
    src = os.path.join(d, "in.v1.nc")
    ncdata.write_nc(vs, src, dict(ncdata.GLOBALS))
    argv, want = ["-i", src], {v.name for v in vs}
    if rng.random() < 0.6:
        sel = rng.sample(sorted(want), rng.randint(1, 4))
        argv += ["-v", ",".join(sel)]
        want &= set(sel)
    if rng.random() < 0.6:
        ex = rng.sample(["temp", "o3", "flag"], rng.randint(1, 2))
        if want - set(ex):
            argv += ["-e", ",".join(ex)]
            want -= set(ex)
    over = {}
    if rng.random() < 0.5:
        over = {"ONAME": "me " + str(rng.randrange(9)), "MNAME": "mission"}
        argv += ["--overwrite-metadata", ",".join("%s,%s" % p for p in over.items())]
    out = os.path.join(d, "in.v1.na")
    if rng.random() < 0.5:
        out = os.path.join(d, "other.x.na")
        argv += ["-o", out]
    names_only = rng.random() < 0.3
    if names_only:
        argv.append("--names-only")
    if rng.random() < 0.3:
        argv += ["--ffi", "1001"]
    if rng.random() < 0.3:
        argv += ["-l", "1000"]
    mod = importlib.import_module("nappy.script.nc2na")
    with contextlib.redirect_stdout(io.StringIO()):
        r = mod.nc2na(argv)
    check(r == [out], "effect/names", "%r for %r" % (r, argv), argv)
    check(os.path.exists(out) != names_only, "effect/written", "file written: %s" % os.path.exists(out), argv)
    if names_only:
        return ("names only", argv)
    f = nappy.openNAFile(out)
    f.readData()
    got = {v.split(" (")[0] for v in f.VNAME}
    check(got == {"variable " + w for w in want} or {g.replace("variable ", "") for g in got} == want, "effect/variables", "%s instead of %s" % (sorted(got), sorted(want)), argv)
    for k, v in over.items():
        check(getattr(f, k) == v, "effect/override", "%s is %r" % (k, getattr(f, k)), argv)
    f.close()
    # and back, into a new file or onto an existing one
    nc = os.path.join(d, "back.nc")
    mode = rng.choice(["w", "a", None])
    xr.Dataset({"kept_before": ("z", [1.0, 2.0])}).to_netcdf(nc)
    argv = ["-i", out, "-o", nc, "-n", "-g", "att one,value one,b,2"] + (["-m", mode] if mode else [])
    with contextlib.redirect_stdout(io.StringIO()):
        importlib.import_module("nappy.script.na2nc").na2nc(argv)
    with xr.open_dataset(nc, decode_times=False) as ds:
        check(("kept_before" in ds.variables) == (mode == "a"), "effect/mode", "mode %r: earlier variable kept: %s" % (mode, "kept_before" in ds.variables), argv)
        check(ds.attrs.get("att one") == "value one" and str(ds.attrs.get("b")) == "2", "effect/global-attributes", "%r" % (dict(ds.attrs),), argv)
        check(len([v for v in ds.data_vars if v != "kept_before"]) == len(want), "effect/back", "%s" % list(ds.data_vars), argv)
    return ("%d %s" % (len(want), mode), argv)
effect.iters = 40

def shape(rng, sp):
    "no option but --ffi chooses the format"
    import nappy, ncdata
    axes = [ncdata.axis(rng, n, rng.randint(2, 4)) for n in "tzy"[:rng.randint(1, 3)]]
    vs = [ncdata.array(rng, n, axes) for n in ("temp", "o3")]
    ffis = lambda fs: [t.split()[1] for n, t in fs]
    which = rng.choice(["convertNCToNA", "convertXarrayObjectsToNA"])
    want = ffis(ncdata.files_of(sp, which, vs))
    kw = rng.choice([{"size_limit": 1000}, {"float_format": "%.4f"}, {"delimiter": " "}, {"na_items_to_override": {"ONAME": "x"}}, {"size_limit": 1000, "delimiter": "\t"}])
    got = ffis(ncdata.files_of(sp, which, vs, **kw))
    check(got == want, "shape", "formats %s instead of %s with %s" % (got, want, sorted(kw)), kw)
    return ("%s %s" % (want, sorted(kw)), None)
shape.iters = 40
CASES = [options, bad, pairs, names, effect, shape]
