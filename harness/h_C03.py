"""C03: the first number is the number of header lines"""
from common import *
from nappy.utils import parse_config
RULE = "random well-formed dictionary of a random FFI, any delimiter (also commas), annotation on or off; the file with and without header is compared: the header is what no_header leaves out, and its number of lines must be the first number on its first line."

def one(rng, sp, ffi, delim, ann):
    d = gen_dict(rng, ffi)
    inp = {"dict": copy.deepcopy(d), "delimiter": delim, "annotation": ann}
    full = write_file(copy.deepcopy(d), sp.path("a"), delimiter=delim, annotation=ann)
    body = write_file(copy.deepcopy(d), sp.path("b"), delimiter=delim, annotation=ann, no_header=True)
    check(full.endswith(body), "body/ffi%d" % ffi, "the file does not end with its data section", inp)
    nhead = full[:len(full) - len(body)].count("\n")
    top = full.split("\n", 1)[0]
    if ann:
        label = parse_config.getAnnotationsConfigDict()["NLHEAD_FFI"] + delim
        check(top.startswith(label), "ffi%d/label" % ffi, "first line %r does not start with %r" % (top, label), inp)
        top = top[len(label):]
    got = int(top.split(delim)[0])
    check(got == nhead, "ffi%d/count" % ffi, "declared %d header lines, the header has %d" % (got, nhead), inp)
    check(top == "%d%s%d" % (nhead, delim, ffi), "ffi%d/top" % ffi, "first line %r" % top, inp)
    if not ann and not delim.strip():
        r = na_class(ffi)(sp.path("a"))
        check(r.NLHEAD == nhead, "ffi%d/NLHEAD" % ffi, "NLHEAD %r read, %d lines" % (r.NLHEAD, nhead), inp)
        r.close()
    return ("%d/%d/%s" % (ffi, nhead, ann), inp)

def true_length(rng, sp):
    return one(rng, sp, rng.choice(FFIS), rng.choice(DELIMS + [",", ", ", ";"]), rng.random() < 0.4)

def skip_lines(rng, sp):
    "reading skips exactly the header, also after ignored lines"
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    p = sp.path("a")
    t = write_file(copy.deepcopy(d), p)
    k = rng.randint(0, 3)
    with open(p, "w") as f:
        f.write("".join("ignored %d\n" % i for i in range(k)) + t)
    r = api().openNAFile(p, ignore_header_lines=k)
    r.readData()
    r.close()
    x = r.X[0] if ffi in (2010, 3010, 4010) else r.X
    want = len(d["X"][0]) if ffi in (2010, 3010, 4010) else len(d["X"])
    check(len(x) == want, "skip/ffi%d" % ffi, "%d records read, %d written after %d ignored lines" % (len(x), want, k), d)
    v = r.X[0][0] if ffi in (2010, 3010, 4010) else (r.X[0][0] if ffi in (2110, 2160, 2310) else r.X[0])
    w = d["X"][0][0] if ffi in (2010, 3010, 4010) else (d["X"][0][0] if ffi in (2110, 2160, 2310) else d["X"][0])
    check(same(v, w if isinstance(w, str) else float("%.10g" % w)), "skipx/ffi%d" % ffi, "first record %r, expected %r" % (v, w), d)
    return ("s%d/%d" % (ffi, k), None)
CASES = [true_length, skip_lines]
