"""C09: the caller's dictionary is not changed"""
import subprocess
from common import *
RULE = "random well-formed dictionary of a random FFI (claimed header length, counts and format index as given, also NumPy arrays for data), written once or several times by every route (class, openNAFile, with and without header, annotation, delimiter); the dictionary is compared with a deep copy, value by value and type by type, and the files of the writes are compared byte for byte."

def deep(a, b, path=""):
    if type(a) is not type(b):
        return "%s: type %s became %s" % (path, type(b).__name__, type(a).__name__)
    if isinstance(a, dict):
        if list(a) != list(b):
            return "%s: keys %s, were %s" % (path, sorted(set(a) - set(b)), sorted(set(b) - set(a)))
        for k in a:
            r = deep(a[k], b[k], "%s[%r]" % (path, k))
            if r:
                return r
        return ""
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d items, were %d" % (path, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            r = deep(x, y, "%s[%d]" % (path, k))
            if r:
                return r
        return ""
    if hasattr(a, "dtype"):
        return "" if a.shape == b.shape and a.dtype == b.dtype and (a == b).all() else path + ": array changed"
    return "" if a == b or (a != a and b != b) else "%s: %r was %r" % (path, a, b)

def opts(rng):
    o = {"delimiter": rng.choice(DELIMS + [",", ";"])}
    if rng.random() < 0.4:
        o["no_header"] = True
    if rng.random() < 0.4:
        o["annotation"] = True
    if rng.random() < 0.4:
        o["float_format"] = rng.choice(["%g", "%8.3f", "%12.5e"])
    return o

def awkward(rng, d):
    "values the writer may be tempted to normalise"
    r = rng.random()
    if r < 0.3:
        for k in ("NSCOML", "NNCOML"):
            d[k] = rng.randint(0, 9)          # claimed counts that are wrong
    if rng.random() < 0.3:
        d["ONAME"], d["SCOM"], d["NCOM"] = " %s " % d["ONAME"], [c + " " for c in d["SCOM"]], [" " + c for c in d["NCOM"]]
    if rng.random() < 0.2:
        d["DATE"] = tuple(d["DATE"])
    if rng.random() < 0.2 and d["FFI"] in (1001, 1010, 1020):
        import numpy
        d["V"] = numpy.array(d["V"])
    if rng.random() < 0.2:
        d["EXTRA"] = ["x", [1, 2]]
    return d

def twice(rng, sp):
    ffi = rng.choice(FFIS)
    d = awkward(rng, gen_dict(rng, ffi))
    ref = copy.deepcopy(d)
    kw = opts(rng)
    via = rng.choice(["class", "open", "openNoFFI"])
    if via == "openNoFFI":
        if ffi in (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010):
            from nappy.utils.common_utils import chooseFFI
            x = copy.deepcopy(d)
            del x["FFI"]
            try:
                if chooseFFI(x) != ffi:
                    via = "open"
            except Exception:
                via = "open"
            check(not deep(x, {k: v for k, v in ref.items() if k != "FFI"}), "chooseFFI", "chooseFFI changed the dictionary", ref)
    if via == "openNoFFI":
        del d["FFI"]
    out = []
    first_error = None
    for k in range(rng.randint(2, 3)):
        p = sp.path("f%d" % k)
        try:
            o = api().openNAFile(p, "w", d) if via != "class" else na_class(ffi)(p, mode="w", na_dict=d)
            o.write(**kw)
            o.close()
        except Exception as e:
            if k == 0:
                first_error = e
            if first_error is None:
                raise Fail("second/ffi%d" % ffi, "write number %d raised %r, the first did not" % (k + 1, e), ref)
        want = dict(ref)
        got = dict(d)
        if via == "openNoFFI":
            check(first_error is not None or got.get("FFI") == ffi, "FFI/ffi%d" % ffi, "the format index became %r" % got.get("FFI"), ref)
            got.pop("FFI", None)
            want.pop("FFI")
            got = {x: got[x] for x in got}
        r = deep(got, want)
        check(not r, "changed/ffi%d" % ffi, "after write %d (%s): %s" % (k + 1, via, r), {"dict": ref, "options": kw})
        if os.path.exists(p):
            with open(p, "rb") as f:
                out.append(f.read())
    check(len(set(out)) <= 1, "differs/ffi%d" % ffi, "writes of the same dictionary gave different files", {"dict": ref, "options": kw})
    if first_error is not None:
        return None
    return ("%d/%s/%s" % (ffi, via, sorted(kw)), {"dict": ref, "options": kw, "route": via})

def other_options(rng, sp):
    "different options in between leave the next plain write as it was"
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    ref = copy.deepcopy(d)
    a = write_file(d, sp.path("a"))
    for k in range(rng.randint(1, 3)):
        write_file(d, sp.path("b"), **opts(rng))
        r = deep(d, ref)
        check(not r, "changed/ffi%d" % ffi, r, ref)
    c = write_file(d, sp.path("c"))
    check(a == c, "differs/ffi%d" % ffi, "the file changed after other writes", ref)
    return (str(ffi), None)

def header_read_back(rng, sp):
    "a dictionary obtained from a reader and written again is not changed, nor is the reader"
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    write_file(copy.deepcopy(d), sp.path("a"))
    r = read_file(ffi, sp.path("a"))
    n = r.getNADict()
    ref = copy.deepcopy(n)
    t1 = write_file(n, sp.path("b"))
    x = deep(n, ref)
    check(not x, "changed/ffi%d" % ffi, x, ref)
    t2 = write_file(n, sp.path("b"))
    check(t1 == t2, "differs/ffi%d" % ffi, "second file differs", ref)
    return (str(ffi), None)
CASES = [twice, other_options, header_read_back]
