"""C05: trailing blank lines are ignored, blank lines before data are errors"""
from common import *
RULE = "a file of a random FFI written by the real writer; blank lines (empty or of random blanks) added at the end, and in other runs at a random place before a data line; the first must read as the file without them, the second must raise. Non-trivial: at least two records or blank lines."
BL = ["", " ", "\t", "   \t", "  ", "\x0b", "\x0c "]

def tidy(d, ffi):
    return d

def with_blanks(rng, sp):
    ffi = rng.choice(FFIS)
    d = tidy(gen_dict(rng, ffi), ffi)
    p = sp.path("a.na")
    t = write_file(copy.deepcopy(d), p, delimiter=rng.choice(DELIMS), float_format="%.10g")
    whole = read_file(ffi, p)
    want = {k: copy.deepcopy(getattr(whole, k)) for k in ("X", "V", "A", "NX") if hasattr(whole, k)}
    ls = t.split("\n")[:-1]
    nh = int(ls[0].split()[0])
    kind = rng.choice(["trailing", "inside", "stray"])
    n = rng.choice([0, 1, 1, 2, 3, rng.randint(1, 40)])
    bl = [rng.choice(BL) for _ in range(n)]
    if kind == "trailing":
        new = "\n".join(ls + bl) + rng.choice(["\n", ""])
    elif kind == "stray":
        new = "\n".join(ls + ["%d" % rng.randint(0, 99)] + bl) + "\n"
    else:
        bl = bl or [rng.choice(BL)]
        k = rng.randint(nh, len(ls) - 1)
        tail = [rng.choice(BL) for _ in range(rng.choice([0, 0, 2]))]
        new = "\n".join(ls[:k] + bl + ls[k:] + tail) + "\n"
    with open(p, "w") as f:
        f.write(new)
    inp = {"text": new[:6000], "kind": kind, "ffi": ffi}
    try:
        g = read_file(ffi, p)
        err = None
    except Exception as e:
        err = e
    if kind == "inside":
        check(err is not None, "inside/accepted", "FFI %d: %d blank line(s) before data line %d of %d read without an error" % (ffi, len(bl), k - nh + 1, len(ls) - nh), inp)
    elif kind == "stray":
        check(err is not None, "stray/accepted", "FFI %d: a last line that is no record was dropped without an error" % ffi, inp)
    else:
        check(err is None, "trailing/refused", "FFI %d: %d trailing blank lines: %r" % (ffi, n, err), inp)
        for k in want:
            df = first_diff(getattr(g, k), want[k], k)
            check(not df, "trailing/%s" % k, "FFI %d: with %d trailing blank lines %s" % (ffi, n, df), inp)
    return ("%s/%d/%d/%d" % (kind, ffi, n, len(ls) - nh) if n > 1 or len(ls) - nh > 1 else None, inp)

def checker(rng, sp):
    "_checkForBlankLines on random lines"
    f = na_class(1001)(sp.path("x.na"), mode="w")
    ls = []
    for _ in range(rng.choice([0, 1, 2, 5, rng.randint(0, 60)])):
        ls.append(rng.choice(BL) if rng.random() < 0.2 else rng.choice(["1 2 3", " 5", "x y ", "0", "{c}"]))
        ls[-1] += "\n"
    r = rng.random()
    if r < 0.6:
        ls = sorted(ls, key=lambda x: x.strip() == "")
    keep = list(ls)
    body = [x for x in ls if x.strip()]
    ok = all(x.strip() for x in ls[:len(body)])
    try:
        got = f._checkForBlankLines(ls)
        err = None
    except Exception as e:
        err = e
    f.close()
    if not ok:
        check(err is not None, "checker/accepted", "blank line before data accepted", keep)
    else:
        check(err is None, "checker/refused", "refused: %r" % err, keep)
        check(list(got) == body, "checker/lines", "lines %r, expected %r" % (got, body), keep)
        check(ls == keep, "checker/argument", "the list of lines given was changed", keep)
    return ("%s/%d/%d" % (ok, len(ls), len(body)), keep)
CASES = [with_blanks, checker]
