"""C06: trailing {annotation}s never change what is read"""
from common import *
RULE = "rightStripCurlyBraces on random text over an alphabet of braces, blanks and letters against an independent scanner; parser results with and without an annotation; whole files of every FFI whose header and data lines (comment lines excepted) get random annotations read as the plain file. Non-trivial: text with a brace."
ALPHA = "{}{} \tab1^$.*\\(["

def model(t):
    "the text without its last {group} when that group ends the line"
    body = t.rstrip()
    if body.endswith("}"):
        k = max(body.rfind("{"), body[:-1].rfind("}"))
        if k >= 0 and body[k] == "{":
            return t[:k]
    return t

def strip(rng, sp):
    from nappy.utils.right_strip import rightStripCurlyBraces
    n = rng.choice([0, 1, 2, 3, 5, 8, rng.randint(0, 40)])
    t = "".join(rng.choice(ALPHA) for _ in range(n))
    if rng.random() < 0.6:
        t += "{" + "".join(rng.choice("ab ^{}1") for _ in range(rng.randint(0, 4))) + "}"
    t += rng.choice(["", "", " ", "\n", " \t\n"])
    got = rightStripCurlyBraces(t)
    check(got == model(t), "strip", "rightStripCurlyBraces(%r) is %r, expected %r" % (t, got, model(t)), t)
    return (t if "{" in t or "}" in t else None, t)

def ann(rng):
    return rng.choice([" ", "", "\t", "   "]) + "{" + rng.choice(["NLHEAD FFI", "m s^-1", "", "x", "1 2 3", "a, b", "'", "*+?"]) + "}" + rng.choice(["", " ", "\t"])

def parsers(rng, sp):
    from nappy.utils import text_parser as tp
    ty = rng.choice([int, float, str])
    k = rng.randint(1, 5)
    its = [str(rng.randint(-99, 99)) if ty is not str else word(rng, False).replace(" ", "_").replace("\t", "_") or "x" for _ in range(k)]
    plain = rng.choice(["", " "]) + rng.choice([" ", "  "]).join(its)
    line = plain + ann(rng)
    inp = {"plain": plain, "line": line}
    if model(plain) != plain:
        return (None, None)
    a, b = tp.readItemsFromLine(plain, k, ty), tp.readItemsFromLine(line, k, ty)
    check(same(a, b), "items", "%r read as %r, without annotation as %r" % (line, b, a), inp)
    a, b = tp.readItemsFromUnknownLines([plain], k, ty), tp.readItemsFromUnknownLines([line + "\n"], k, ty)
    check(same(a, b), "unknown", "%r read as %r, without annotation as %r" % (line, b, a), inp)
    p1 = its[0] if ty is not str else name(rng)
    if model(p1) == p1 or rng.random() < 0.3:
        keep = p1 if model(p1) == p1 else p1.strip()
        l1 = p1 + ann(rng)
        a, b = keep if ty is str else ty(keep), tp.readItemFromLine(l1, ty)
        check(same(a, b), "item", "%r read as %r, without annotation as %r" % (l1, b, a), l1)
        b = tp.readItemsFromLines([l1], 1, ty)
        check(same([a], b), "lines", "%r read as %r, without annotation as %r" % (l1, b, [a]), l1)
    return (line, inp)

def group_kept(rng, sp):
    "a name that itself ends in a group keeps it when an annotation follows"
    from nappy.utils import text_parser as tp
    n = rng.choice(["T ", "x", "a {b} "]) + "{%s}" % rng.choice(["raw", "", "1 2"])
    line = n + ann(rng)
    for f, got in (("item", tp.readItemFromLine(line)), ("lines", tp.readItemsFromLines([line], 1)[0])):
        check(got == n.strip(), "group-kept/" + f, "%r read as %r, expected %r" % (line, got, n), line)
    return (line, line)

def files(rng, sp):
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    p = sp.path("a.na")
    t = write_file(copy.deepcopy(d), p, delimiter=rng.choice(DELIMS), float_format="%.10g")
    plain = read_file(ffi, p)
    keys = [k for k in vars(plain) if k.isupper()]
    want = {k: copy.deepcopy(getattr(plain, k)) for k in keys}
    ls = t.split("\n")[:-1]
    nh = int(ls[0].split()[0])
    sc = nh - 1 - d["NNCOML"] - 1 - d["NSCOML"]
    new = []
    prob = rng.choice([1.0, 0.5, 0.1])
    for k, l in enumerate(ls):
        comment = sc < k <= sc + d["NSCOML"] or sc + d["NSCOML"] + 1 < k < nh
        new.append(l if comment or rng.random() > prob else l + ann(rng))
    with open(p, "w") as f:
        f.write("\n".join(new) + "\n")
    inp = {"lines": new[:60], "ffi": ffi}
    g = read_file(ffi, p)
    for k in keys:
        df = first_diff(getattr(g, k), want[k], k)
        check(not df, "file/%d/%s" % (ffi, k), "FFI %d with annotated lines: %s" % (ffi, df), inp)
    return ("%d/%d/%s" % (ffi, len(ls), prob), None)
CASES = [strip, parsers, group_kept, files]
