"""C01: written data come back at the same positions, as the numbers their text denotes"""
from common import *
RULE = "random well-formed dictionary of a random FFI (all nine), random counts, delimiter and number format; written by the real writer, read by the real reader; every X, A, V value compared by position with float(format % value). Non-trivial: more than one record or variable or point."

def expect(d, fmt):
    f = lambda v: v if isinstance(v, str) else float(fmt % v)
    h = lambda v: float("%s" % v)
    e = {}
    ffi = d["FFI"]
    if ffi in (2010, 3010, 4010):
        e["X"] = fmap(f, d["X"])
    else:
        e["X"] = fmap(f, d["X"])
    e["V"] = fmap(f, d["V"])
    if "A" in d:
        e["A"] = fmap(f, d["A"])
    if ffi in (2110, 2160, 2310):
        e["NX"] = list(d["NX"])
    return e

def one(rng, sp, ffi, fmt, delim, M=None, NV=None, NAUXV=None):
    d = gen_dict(rng, ffi, M, NV, NAUXV)
    if ffi in (2110, 2160, 2310) and fmt == "%.3f":
        pass
    e = expect(d, fmt)
    p = sp.path("a.na")
    inp = {"dict": copy.deepcopy(d), "format": fmt, "delimiter": delim}
    write_file(copy.deepcopy(d), p, delimiter=delim, float_format=fmt)
    r = read_file(ffi, p)
    for k in ("X", "A", "V", "NX"):
        if k in e:
            df = first_diff(getattr(r, k), e[k], k)
            check(not df, "ffi%d/%s" % (ffi, k), "FFI %d: after writing and reading, %s" % (ffi, df), inp)
    nt = len(d["V"]) > 1 or len(d["V"][0]) > 1
    return ("%d/%d/%d/%s" % (ffi, len(d["V"]), len(d["V"][0]), d.get("NX")) if nt else None, inp)

def roundtrip(rng, sp):
    ffi = rng.choice(FFIS)
    return one(rng, sp, ffi, rng.choice(FORMATS), rng.choice(DELIMS))
def small_counts(rng, sp):
    "every FFI at its smallest counts"
    ffi = rng.choice(FFIS)
    lo = {2110: 1, 2160: 2, 2310: 3}.get(ffi, 0)
    return one(rng, sp, ffi, "%.10g", "    ", rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([lo, lo + 1]))
def large_counts(rng, sp):
    ffi = rng.choice(FFIS)
    return one(rng, sp, ffi, rng.choice(FORMATS), rng.choice(DELIMS), rng.choice([1, 12, 40]), rng.choice([11, 23]), rng.randint(3, 14))
large_counts.iters = 30
def through_api(rng, sp):
    "openNAFile, default options"
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    e = expect(d, api().nappy_api.default_float_format)
    p = sp.path("a.na")
    f = api().openNAFile(p, "w", na_dict=copy.deepcopy(d))
    f.write()
    r = api().openNAFile(p)
    r.readData()
    n = r.getNADict()
    for k in ("X", "A", "V", "NX"):
        if k in e:
            df = first_diff(n.get(k), e[k], k)
            check(not df, "api/ffi%d/%s" % (ffi, k), "FFI %d through openNAFile: %s" % (ffi, df), d)
    return ("api%d" % ffi, None)
CASES = [roundtrip, small_counts, large_counts, through_api]
