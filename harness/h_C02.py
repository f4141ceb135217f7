"""C02: header fields come back unchanged"""
from common import *
RULE = "random well-formed dictionary of a random FFI with distinct axis lengths, awkward names and comments, random whitespace delimiter; written by the real writer and re-read; every header field compared. Non-trivial: at least two variables or comment lines."
FIELDS = ["ONAME", "ORG", "SNAME", "MNAME", "IVOL", "NVOL", "DATE", "RDATE", "DX", "NX", "NXDEF", "NVPM", "LENX", "LENA", "NAUXC",
          "XNAME", "NV", "VSCAL", "VMISS", "VNAME", "NAUXV", "ASCAL", "AMISS", "ANAME", "NSCOML", "SCOM", "NNCOML", "NCOM", "FFI", "NIV"]

def compare(d, r, ffi, inp, fmt="%.10g"):
    for k in FIELDS:
        if k not in d or (k == "NX" and ffi in (2110, 2160, 2310)):
            continue
        if k in ("ASCAL", "AMISS", "ANAME") and not d["NAUXV"]:
            check(not getattr(r, k), "ffi%d/%s" % (ffi, k), "%s is %r without auxiliary variables" % (k, getattr(r, k)), inp)
            continue
        want, got = d[k], getattr(r, k)
        df = first_diff(got, want, k)
        check(not df, "ffi%d/%s" % (ffi, k), "FFI %d: after writing and reading the header, %s" % (ffi, df), inp)
    if ffi in (2010, 3010, 4010):
        want = [[float(fmt % v) for v in ax] for ax in d["X"][1:]]
        df = first_diff(r.X[1:], want, "bounded axes")
        check(not df, "ffi%d/axes" % ffi, "FFI %d: %s" % (ffi, df), inp)

def roundtrip(rng, sp):
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    delim = rng.choice(DELIMS)
    p = sp.path("a.na")
    inp = {"dict": copy.deepcopy(d), "delimiter": delim}
    write_file(copy.deepcopy(d), p, delimiter=delim, float_format="%.10g")
    r = na_class(ffi)(p)
    compare(d, r, ffi, inp)
    r.close()
    return ("%d/%d/%d/%d" % (ffi, d["NV"], d["NSCOML"], d["NNCOML"]) if d["NV"] > 1 or d["NSCOML"] + d["NNCOML"] > 1 else None, inp)

def ignored_lines(rng, sp):
    "header preceded by lines to ignore"
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    p = sp.path("a.na")
    t = write_file(copy.deepcopy(d), p)
    k = rng.randint(1, 4)
    pre = [name(rng) for i in range(k)]
    with open(p, "w") as f:
        f.write("".join(x + "\n" for x in pre) + t)
    r = api().openNAFile(p, ignore_header_lines=k)
    compare(d, r, ffi, {"dict": d, "ignored": pre})
    check(list(r.ignored_header_lines) == pre, "ignored", "ignored header lines %r, expected %r" % (r.ignored_header_lines, pre), d)
    r.close()
    return ("%d/%d" % (ffi, k), None)

def quoted_names(rng, sp):
    "one layer of quotes around the four common names is removed, nothing else"
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    e = copy.deepcopy(d)
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        if rng.random() < 0.7:
            q = rng.choice("'\"")
            d[k] = q + d[k] + q
    p = sp.path("a.na")
    write_file(d, p)
    r = na_class(ffi)(p)
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        check(getattr(r, k) == e[k], "quotes/" + k, "%s read as %r, written %r" % (k, getattr(r, k), d[k]), d)
    r.close()
    return ("q%d" % ffi, None)
CASES = [roundtrip, ignored_lines, quoted_names]
