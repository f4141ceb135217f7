"""C10: files split on a size limit"""
from common import *
import ncdata
import numpy as np
RULE = "random one-dimensional dictionaries (lists and numpy arrays) of 1 to 120 rows, now and then more than 999 volumes, and random sets of in-memory variables, written with limits around every divisor of the number of rows; the volumes are read back with an independent reader: rows concatenated in volume order, sizes, numbers, totals, names, the other header items, the list returned and the files left in the folder."

def rows_of(path):
    """independent reader of FFI 1001 text: (ivol, nvol, header lines that do not depend on the volume, rows)"""
    with open(path) as h:
        t = h.read().splitlines()
    n, ffi = (int(x) for x in t[0].replace(",", " ").split())
    iv, nv = (int(x) for x in t[5].replace(",", " ").split())
    return ffi, iv, nv, t[:5] + t[6:n], [[float(x) for x in l.replace(",", " ").split()] for l in t[n:]]

def limit(rng, m):
    return max(1, rng.choice([1, 2, 3, m, m - 1, m + 1, m // 2, m // 2 + 1, m // 3, m // 3 + 1, rng.randint(1, m), rng.randint(1, m), 2 * m]))

def volumes(files, want, lim, inp, what):
    """the files of one dictionary, in the order returned"""
    got, head, tot = [], None, len(files)
    check(len(set(files)) == tot, "names-repeat", "%s: names repeat in %s" % (what, files), inp)
    for j, f in enumerate(files):
        ffi, iv, nv, h, rows = rows_of(f)
        check(ffi == 1001, "format", "%s: file %s has index %s" % (what, f, ffi), inp)
        check(len(rows) <= lim or tot == 1 and lim >= len(want), "limit", "%s: volume %d has %d rows, limit %d" % (what, j + 1, len(rows), lim), inp)
        check(j == tot - 1 or len(rows) == lim, "not-full", "%s: volume %d of %d has %d rows, limit %d" % (what, j + 1, tot, len(rows), lim), inp)
        check(rows, "empty-volume", "%s: volume %d of %d holds no rows" % (what, j + 1, tot), inp)
        if len(want) > lim:
            check((iv, nv) == (j + 1, tot), "numbering", "%s: volume %d of %d says %d of %d" % (what, j + 1, tot, iv, nv), inp)
        head = h if head is None else head
        check(h == head, "header", "%s: header of volume %d differs: %s" % (what, j + 1, first_diff(h, head)), inp)
        got += rows
    check(same(got, want), "rows", "%s: %s" % (what, first_diff(got, want)), inp)

def plain(d):
    "values that survive the formatting"
    k = [0]
    def v(x):
        k[0] += 1
        return float(k[0])
    d["X"] = [v(x) for x in d["X"]]
    d["V"] = [[v(x) for x in r] for r in d["V"]]
    for n in ("ONAME", "ORG", "SNAME", "MNAME"):
        d[n] = d[n] or "x"
    return d

def dictionaries(rng, sp):
    from nappy.nc_interface.xarray_to_na import XarrayToNA
    kind = rng.choice(["lists", "lists", "arrays"])
    many = rng.random() < 0.02
    ds = []
    for j in range(1 if many else rng.choice([1, 1, 2, 3])):
        d = plain(gen_dict(rng, 1001, M=rng.randint(1000, 1030) if many else rng.choice([1, 2, 3, 7, 10, 12, rng.randint(1, 40), rng.randint(1, 120)])))
        d["NAUXV"] = 0
        ds.append(d)
    lim = 1 if many else limit(rng, len(rng.choice(ds)["X"]))
    inp = {"dicts": copy.deepcopy(ds), "limit": lim, "kind": kind}
    X = XarrayToNA([])
    used = copy.deepcopy(ds)
    if kind == "arrays":
        for d in used:
            d["X"] = np.array(d["X"])
            d["V"] = [np.array(r) for r in d["V"]]
    before = copy.deepcopy(used)
    X.converted = True
    X.na_dict_list = [(d, [list(d["VNAME"]), [], []]) for d in used]
    name = rng.choice(["out.na", "a.b.na", "plain", "o-001.na"])
    dr = sp.path("v%d" % len(os.listdir(sp.d)))
    os.mkdir(dr)
    X.writeNAFiles(os.path.join(dr, name), delimiter=rng.choice(["    ", ",", "\t"]), float_format="%.10g", size_limit=lim)
    files = list(X.output_files_written)
    left = sorted(os.path.join(dr, f) for f in os.listdir(dr))
    check(sorted(files) == left, "listed", "returned %s, written %s" % (files[:5], left[:5]), inp)
    at = 0
    for j, d in enumerate(ds):
        m = len(d["X"])
        n = -(-m // lim) if m > lim else 1
        want = [[d["X"][i]] + [r[i] for r in d["V"]] for i in range(m)]
        volumes(files[at:at + n], want, lim, inp, "dictionary %d (%d rows, limit %d)" % (j + 1, m, lim))
        at += n
    check(at == len(files), "count", "%d files for %s rows, limit %d" % (len(files), [len(d["X"]) for d in ds], lim), inp)
    for a, b in zip(used, before):
        check(all(same(np.asarray(a[k]).tolist(), np.asarray(b[k]).tolist()) for k in ("X", "V")), "changed", "the dictionary given was changed", inp)
    shutil.rmtree(dr)
    return ("%d/%s/%s" % (min(len(ds), 3), kind, "split" if any(len(d["X"]) > lim for d in ds) else "whole"), {"limit": lim, "rows": [len(d["X"]) for d in ds]})

def conversion(rng, sp):
    import nappy
    m = rng.choice([2, 3, 6, 10, rng.randint(2, 60)])
    ax = ncdata.axis(rng, "time_", m)
    vs = [ncdata.array(rng, "v%d" % k, [ax]) for k in range(rng.randint(1, 4))]
    other = []
    if rng.random() < 0.4:
        b = ncdata.axis(rng, "lat", rng.randint(2, 4))
        other = [ncdata.array(rng, "w", [b, ncdata.axis(rng, "alt", 3)])]
    lim = limit(rng, m)
    inp = {"rows": m, "variables": len(vs), "limit": lim, "other": len(other)}
    fs = ncdata.files_of(sp, rng.choice(["convertXarrayObjectsToNA", "convertXarrayObjectsToCSV"]), vs + other, size_limit=lim, float_format="%.10g")
    one = [f for f, t in fs if t.splitlines()[0].replace(",", " ").split()[1] == "1001"]
    check(one and len(fs) - len(one) == len(other), "files", "%d one-dimensional files of %d" % (len(one), len(fs)), inp)
    want = [[float(ax.values[i])] + [float(v.values[i]) for v in vs] for i in range(m)]
    volumes(one, want, lim, inp, "%d rows, limit %d" % (m, lim))
    return ("conv/%s" % ("split" if m > lim else "whole"), inp)

CASES = [dictionaries, conversion]
