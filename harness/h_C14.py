"""C14: the dictionary built from variables is self-consistent"""
from common import *
import ncdata, math
import numpy as np, xarray as xr
from grouping_gen import variables
RULE = "random collections of 1 to 9 in-memory variables (own missing values, gaps, attributes) with random global attributes (plain and NASA Ames comments, organisation, dates, numbers, a source file's format index): the dictionaries built are checked for counts, for lists in step and for name, missing value and data of the same variable, with an oracle working from the variables given; and files written with overriding items (text or list, any permitted key, local attributes) are read back and compared with what was given."

MARK = {"sc0": "==== Special Comments follow ====", "sc1": "==== Special Comments end ====", "nc0": "==== Normal Comments follow ====", "nc1": "==== Normal Comments end ====", "next": "=== Data Section begins on the next line ==="}

def words(rng, k=None):
    return " ".join(rng.choice(["alpha", "beta", "gamma", "a=b", "(x)", "1 2", "==", "end"]) for i in range(k or rng.randint(1, 4)))

def text_lines(rng, tag, n=None):
    return ["%s %d %s" % (tag, i, words(rng)) for i in range(rng.choice([1, 1, 2, 3]) if n is None else n)]

def globals_(rng):
    """(attributes, special comment lines, normal comment lines, header items expected)"""
    g, sc, nc, want = [], [], [], {}
    if rng.random() < 0.7:
        k = rng.choice(["plain", "plain", "na", "na-special", "na-normal"])
        sc = text_lines(rng, "special") if k in ("na", "na-special") else []
        nc = text_lines(rng, "normal") if k != "na-special" else []
        if k == "plain":
            t = nc[:]
        else:
            t = ([MARK["sc0"]] + sc + [MARK["sc1"]] if sc else []) + ([MARK["nc0"]] + nc + [MARK["nc1"]] if nc else [])
        if k != "plain" and rng.random() < 0.4:
            more = text_lines(rng, "more")
            t, nc = (t + more, nc + more) if rng.random() < 0.5 else (more + t, more + nc)
        if rng.random() < 0.3:
            t.insert(rng.randrange(len(t) + 1), "")
        g.append(("comment", "\n".join(t)))
    if rng.random() < 0.5:
        if rng.random() < 0.5:
            g.append(("institution", "An Org"))
            want.update(ONAME="An Org", ORG="An Org")
        else:
            g.append(("institution", "Someone (ONAME from NASA Ames file); Some Place (ORG from NASA Ames file)."))
            want.update(ONAME="Someone", ORG="Some Place")
    for a, k in (("source", "SNAME"), ("title", "MNAME")):
        if rng.random() < 0.6:
            t = words(rng)
            g.append((a, t))
            want[k] = t
    if rng.random() < 0.3:
        want["DATE"] = [rng.randint(1900, 2100), rng.randint(1, 12), rng.randint(1, 28)]
        g.append(("first_valid_date_of_data", list(want["DATE"])))
    for a in ("file_format_index", "no_of_nasa_ames_header_lines", "total_files_in_set"):
        if rng.random() < 0.2:
            g.append((a, rng.choice([1001, 2010, 7])))
    for a in ("Conventions", "references", "extra_thing", "history"):
        if rng.random() < 0.3:
            t = [words(rng) for k in range(rng.choice([1, 1, 1, 2, 3]))]
            g.append((a, "\n".join(t)))
            nc = nc + t
    if rng.random() < 0.2:
        g.append(("an_array", np.arange(3)))
    rng.shuffle(g)
    return g, sc, nc, want

def dress(rng, vs):
    for v in vs:
        # two variables may be described alike
        v.attrs["long_name"] = "name of " + (v.name if rng.random() < 0.6 else "something")
        if v.ndim and rng.random() < 0.4:
            v.encoding[rng.choice(["_FillValue", "missing_value"])] = rng.choice([-999.0, 1e30, -1.0, np.float64(-77.5), np.array(-66.5), [-55.5]])
        if v.ndim and rng.random() < 0.3:
            v.values.ravel()[rng.randrange(v.size)] = math.nan
        for k in range(rng.choice([0, 0, 1, 2])):
            v.attrs["att%d" % k] = rng.choice(["text", 4, 2.5, [1, 2], ["one"], ""])

def missing(v):
    for k in ("_FillValue", "missing_value", "_fill_value"):
        if k in v.encoding:
            return float(np.array(v.encoding[k]).ravel()[0])
    return -1e20

def filled(v):
    a = np.array(v.values, dtype=float)
    return np.where(np.isnan(a), missing(v), a)

def inside(some, lines, what, inp):
    """some lines are among the lines, in order"""
    at = -1
    for t in some:
        k = [i for i, x in enumerate(lines) if t in x and i > at]
        check(k, "comment", "%s %r is not (in order) in %s" % (what, t, lines), inp)
        at = k[0]

def consistent(d, inp):
    check(d["NSCOML"] == len(d["SCOM"]) and d["NNCOML"] == len(d["NCOM"]), "comment-count", "NSCOML %s of %d, NNCOML %s of %d" % (d["NSCOML"], len(d["SCOM"]), d["NNCOML"], len(d["NCOM"])), inp)
    for n, l in (("NV", ("V", "VNAME", "VMISS", "VSCAL")), ("NAUXV", ("A", "ANAME", "AMISS", "ASCAL"))):
        check([len(d[k]) for k in l] == [d[n]] * 4, "count", "%s %s, %s" % (n, d[n], {k: len(d[k]) for k in l}), inp)
    check(all(isinstance(t, str) and "\n" not in t and t.strip() for k in ("SCOM", "NCOM") for t in d[k]), "comment-lines", "%s %s" % (d["SCOM"], d["NCOM"]), inp)

def same(d, inp, names, c, vs, skip=0):
    by = {v.name: v for v in vs}
    check(len(names) == len(d[c]) - skip, "per-variable", "%s for %d" % (names, len(d[c])), inp)
    for i, n in enumerate(names):
        v, j = by[n], i + skip
        check(d[c + "NAME"][j] == "%s (K)" % v.attrs["long_name"], "name", "%s at %d for %s" % (d[c + "NAME"][j], j, n), inp)
        check(float(d[c + "MISS"][j]) == missing(v), "missing", "%s: missing value %s of %s" % (n, d[c + "MISS"][j], missing(v)), inp)
        check(d[c + "SCAL"][j] == 1, "scale", "%s" % d[c + "SCAL"], inp)
        check(np.array_equal(np.array(d[c][j], dtype=float), filled(v)), "data", "%s: %s for %s" % (n, d[c][j], filled(v).tolist()), inp)

def made(rng):
    vs, req, what = variables(rng, unique=True)
    dress(rng, vs)
    g, sc, nc, want = globals_(rng)
    return vs, req, g, sc, nc, want, {"variables": [w + (dict(v.encoding),) for w, v in zip(what, vs)], "requested_ffi": req, "global_attributes": [(k, v if isinstance(v, str) else repr(v)) for k, v in g]}

RANKS = {1001: 1, 1010: 1, 1020: 1, 2010: 2, 2110: 2, 2310: 2, 3010: 3, 4010: 4}
def convert(x, inp):
    try:
        return x.convert()
    except Exception as e:
        check(type(e) is Exception and "Cannot write" in str(e), "raises", "%s: %s" % (type(e).__name__, e), inp)

def built(rng, sp):
    from nappy.nc_interface.xarray_to_na import XarrayToNA
    vs, req, g, sc, nc, want, inp = made(rng)
    r = convert(XarrayToNA(list(vs), list(g) or None, requested_ffi=req), inp)
    if not r:
        return None
    for d, ids in r:
        consistent(d, inp)
        check(RANKS[d["FFI"]] == [v for v in vs if v.name == ids[0][0]][0].ndim, "format", "FFI %s for %s" % (d["FFI"], ids), inp)
        same(d, inp, ids[0], "V", vs)
        same(d, inp, ids[1], "A", vs, {2110: 1, 2310: 3}.get(d["FFI"], 0))
        for k in want:
            check(list(d[k]) == want[k] if k == "DATE" else d[k] == want[k], "item", "%s is %r, not %r" % (k, d.get(k), want[k]), inp)
        if nc or sc:
            for t in nc:
                inside([t], d["NCOM"], "normal comment", inp)
            inside(sc, d["SCOM"], "special comment", inp)
    return ((tuple(d["FFI"] for d, i in r), len(sc), len(nc)), None)

def given_items(rng):
    o = {}
    for k in rng.sample(["DATE", "RDATE", "MNAME", "ONAME", "ORG", "SNAME", "SCOM", "NCOM", "VNAME", "OTHER"], rng.choice([0, 1, 1, 2, 3])):
        if k in ("DATE", "RDATE"):
            v = [rng.randint(1900, 2100), rng.randint(1, 12), rng.randint(1, 28)]
            o[k] = (v if rng.random() < 0.5 else " ".join(map(str, v)), v)
        elif k in ("SCOM", "NCOM"):
            v = text_lines(rng, "given " + k)
            o[k] = ("\n".join(v) if rng.random() < 0.4 else list(v), v)
        elif k != "VNAME":
            v = words(rng)
            o[k] = (v, v)
        else:
            o[k] = (None, None)
    return o

def written(rng, sp):
    import nappy
    from nappy.nc_interface.xarray_to_na import XarrayToNA
    vs, req, g, sc, nc, want, inp = made(rng)
    o = given_items(rng)
    x = XarrayToNA(list(vs), list(g), requested_ffi=req)
    r = convert(x, inp)
    if not r:
        return None
    if "VNAME" in o:
        names = ["var%d" % i for i in range(r[0][0]["NV"])]
        if len(r) > 1:
            del o["VNAME"]
        else:
            o["VNAME"] = (" ".join(names) if rng.random() < 0.5 else list(names), names)
    x.na_items_to_override = {k: a for k, (a, b) in o.items()}
    inp["items"] = x.na_items_to_override
    local = {}
    if rng.random() < 0.4:
        local = {"SNAME": "local source", "ORG": "local org"}
    import nappy.utils.parse_config as pc
    was = pc.attributes_config_dict
    pc.getLocalAttributesConfigDict()
    pc.attributes_config_dict = {"nc_attributes": {}, "na_attributes": dict(local)}
    inp["local"] = dict(local)
    before = copy.deepcopy([d for d, i in r])
    d0 = sp.path("w%d" % rng.randint(0, 10 ** 9))
    os.mkdir(d0)
    try:
        ext, dl = rng.choice([("na", "    "), ("csv", ",")])
        x.writeNAFiles(os.path.join(d0, "o." + ext), float_format="%.10g", delimiter=dl)
    finally:
        pc.attributes_config_dict = was
    told = dict(local)
    told.update({k: b for k, (a, b) in o.items() if k != "OTHER"})
    for (d, ids), old, name in zip(r, before, x.output_files_written):
        consistent(d, inp)
        check("OTHER" not in d, "not-permitted", "item OTHER", inp)
        head = d["FFI"] in (1001, 1010, 2110) and d["NAUXV"] == 0
        for k in set(old) | set(d):
            if k in ("NNCOML", "NSCOML", "NCOM", "SCOM", "NLHEAD"):
                continue
            w = told.get(k, old.get(k))
            check(repr(d.get(k)) == repr(w), "item", "%s is %r, not %r" % (k, d.get(k), w), inp)
        for k, n in (("SCOM", "NSCOML"), ("NCOM", "NNCOML")):
            new, l = told.get(k, []), d[k]
            if k == "NCOM" and head:
                cols = l[-1]
                l = l[:-1]
                check(all(v in cols for v in d["VNAME"]), "headers", "column headers %r for %s" % (cols, d["VNAME"]), inp)
            check(sorted(l) == sorted(list(new) + old[k]), "comments", "%s is %s; given %s; before %s" % (k, l, new, old[k]), inp)
            inside(new, l, k, inp)
            inside(old[k], l, k, inp)
            if new and old[k]:
                at = l.index(new[0])
                check(l[at:at + len(new)] == list(new) and at <= 1, "inserted", "%s: %s in %s" % (k, new, l), inp)
                if old[k][0].startswith("===="):
                    check(l[0] == old[k][0] and l[-1] == old[k][-1], "marks", "%s: %s" % (k, l), inp)
        if ext == "csv":
            continue
        f = nappy.openNAFile(name)
        f.readData()
        for k in ("NSCOML", "NNCOML", "NV"):
            check(getattr(f, k) == d[k], "read-back", "%s is read as %s, not %s" % (k, getattr(f, k), d[k]), inp)
        for k in ("SCOM", "NCOM", "ONAME", "SNAME", "MNAME", "ORG"):
            w = told.get(k) if k not in ("SCOM", "NCOM") else None
            if w is not None:
                check(getattr(f, k) == w, "read-back", "%s is read as %r, not %r" % (k, getattr(f, k), w), inp)
    return ((tuple(d["FFI"] for d, i in r), tuple(sorted(o))), None)

CASES = [built, written]
