"""C18: the comparison tool"""
from common import *
import contextlib, io, math, re
RULE = "a random file of a random FFI (and files with nan, inf, text and delimiters in the data) compared with itself, with copies differing in spacing, number formatting, case, one digit, one character, one sign, values around the tolerance, lines added or missing in header or body, for every combination of options, through compNAFiles, compareNA and compareSections; the verdict compared with an independent oracle."

def num(t):
    try:
        return float(t)
    except ValueError:
        return None

def close(x, y):
    x, y = x or 1e-9, y or 1e-9
    if any(v != v or v in (math.inf, -math.inf) for v in (x, y)):
        return False
    if x * y < 0 or (x < 0) != (y < 0):
        return False
    lo, hi = sorted((abs(x), abs(y)))
    return hi - lo <= 0.01 * lo

def items_same(a, b, clever, approx):
    if len(a) != len(b):
        return False
    for s, t in zip(a, b):
        if s == t:
            continue
        x, y = num(s), num(t)
        if not clever or x is None or y is None or not (x == y or approx and close(x, y)):
            return False
    return True

def line_same(s, t, clever, approx, d1, d2):
    s, t = s.strip(), t.strip()
    if s == t and re.search("[a-zA-Z]", s):
        return True
    a, b = s.split(d1), t.split(d2)
    if len(a) != len(b):
        return len(a) == 1 and a[0].split() == b or len(b) == 1 and b[0].split() == a
    return items_same(a, b, clever, approx)

def section_same(p, q, o):
    return len(p) == len(q) and all(line_same(s, t, *o) for s, t in zip(p, q))

def edited(rng, text):
    """a version of one line: the same, equal by value, or different"""
    k = rng.choice(["space", "format", "near", "far", "char", "digit", "item", "nan", "sign", "case", "swap", "lead"])
    w = text.split(" ")
    at = [i for i, x in enumerate(w) if num(x) is not None]
    i = rng.choice(at) if at else None
    if k == "space":
        return text.replace(" ", "  ", 1) + rng.choice(["", " ", "\t"])
    if k == "lead":
        return " " + text
    if k == "char":
        j = rng.randrange(len(text) + 1)
        return text[:j] + rng.choice("abcX5,. -") + text[j:]
    if k == "case":
        return text.swapcase()
    if k == "item":
        return text + " " + rng.choice(["1", "x", "0.0"])
    if i is None:
        return text[::-1] if k == "swap" else text
    v = num(w[i])
    if k == "format":
        w[i] = rng.choice(["%.12g", "%.14e", "%+.10f"]) % v
    elif k == "near":
        w[i] = "%.12g" % (v * rng.choice([1.005, 0.995, 1.0095, 1.011, 0.98]))
    elif k == "far":
        w[i] = "%.12g" % (v + rng.choice([1, -1, 100, 1e-9, 1e-7, -v]))
    elif k == "digit":
        w[i] = w[i] + rng.choice("0123")
    elif k == "sign":
        w[i] = w[i][1:] if w[i].startswith("-") else "-" + w[i]
    elif k == "nan":
        w[i] = rng.choice(["nan", "inf", "-inf", "x", "1e5", "NaN"])
    elif k == "swap":
        w = w[::-1]
    return " ".join(w)

def file_text(rng, sp):
    if rng.random() < 0.3:
        h = ["%d 1001" % 4, "name, of it", "1.0 2", rng.choice(["nan 3", "- -", ""])]
        b = [" ".join(rng.choice(["1", "2.50", "nan", "inf", "-inf", "0", "0.0", "1e-9", "3e2", "text", "-4"]) for k in range(rng.randint(1, 4))) for m in range(rng.randint(0, 6))]
        return h, b
    d = gen_dict(rng, rng.choice(FFIS))
    t = write_file(d, sp.path("w")).splitlines()
    n = int(re.match(r"\d+", t[0]).group())
    return t[:n], t[n:]

def variant(rng, h, b):
    h, b = list(h), list(b)
    for k in range(rng.choice([0, 1, 1, 1, 2])):
        part = rng.choice([h, b, b])
        lo = 1 if part is h else 0
        if len(part) <= lo:
            continue
        j = rng.randrange(lo, len(part))
        r = rng.random()
        if r < 0.1 and part is b:
            del b[rng.choice([j, -1, -1])]
        elif r < 0.2 and part is b:
            b.insert(rng.choice([j, len(b), len(b)]), rng.choice(["", b[j], "9 9"]))
        elif r < 0.25 and part is h:
            h.append("another line")
        else:
            part[j] = edited(rng, part[j])
    h[0] = h[0].replace(h[0].split()[0], "%d" % len(h), 1) if h[0].split() else h[0]
    return h, b

def quietly(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)

def options(rng):
    d1 = rng.choice([None, None, None, " ", ",", "\t", ";"])
    d2 = rng.choice([d1, d1, None, ","])
    return rng.random() < 0.7, rng.random() < 0.5, d1, d2

def relimit(h, d):
    """the first line splits at the delimiter so that its first item is a number"""
    return [re.sub(" +", d, h[0].strip(), count=1)] + h[1:] if d and d != " " else h

def boundary(h, b, h2, b2, o):
    """a number pair so close to the tolerance that rounding decides"""
    for s, t in zip(h + b, h2 + b2):
        for x, y in zip(s.replace(",", " ").split(), t.replace(",", " ").split()):
            x, y = num(x), num(y)
            if x and y and x == x and y == y and abs(x) != math.inf and abs(y) != math.inf:
                lo, hi = sorted((abs(x), abs(y)))
                if abs(hi / lo - 1.01) < 1e-9:
                    return True
    return False

def verdicts(rng, sp):
    from nappy.utils import compare_na
    h, b = file_text(rng, sp)
    h2, b2 = variant(rng, h, b)
    clever, approx, d1, d2 = o = options(rng)
    h, h2 = relimit(h, d1), relimit(h2, d2)
    if d1 and d1.strip() and rng.random() < 0.7:
        b = [re.sub(r" +", d1, l.strip()) for l in b]
        if d2 == d1:
            b2 = [re.sub(r" +", d2, l.strip()) for l in b2]
    if boundary(h, b, h2, b2, o):
        return ("boundary", {})
    if rng.random() < 0.3:
        h, b, h2, b2 = h2, b2, h, b
        o = (clever, approx, d2, d1)
    inp = {"first": h + b, "second": h2 + b2, "options": o}
    for n, t in (("a.na", h + b), ("b.na", h2 + b2)):
        with open(sp.path(n), "w") as f:
            f.write("".join(l + "\n" for l in t))
    hs, bs = section_same(h, h2, o), section_same(b, b2, o)
    kw = dict(number_clever=o[0], approx_equal=o[1], delimiter_1=o[2], delimiter_2=o[3])
    fn = getattr(compare_na, rng.choice(["compNAFiles", "compareNA"]))
    for hd, bd in ((True, True), (True, False), (False, True)):
        want = (hs or not hd) and (bs or not bd)
        got = quietly(fn, sp.path("a.na"), sp.path("b.na"), header=hd, body=bd, **kw)
        check(got is want, "verdict/%s" % ("masked" if got else "alarm"), "header=%s body=%s: reported %s, expected %s (headers %s, bodies %s)" % (hd, bd, got, want, hs, bs), inp)
    return ("%s%s/%s%s" % (hs, bs, o[0], o[1]), inp)

def sections(rng, sp):
    from nappy.utils.compare_na import compareSections
    h, b = file_text(rng, sp)
    b = b or ["1 2"]
    b2 = list(b)
    for k in range(rng.choice([0, 1, 1, 2])):
        j = rng.randrange(len(b2))
        b2[j] = edited(rng, b2[j])
    o = options(rng)
    if boundary([], b, [], b2, o):
        return ("boundary", {})
    want = section_same(b, b2, o)
    inp = {"first": list(b), "second": list(b2), "options": o}
    got = quietly(compareSections, list(b), list(b2), *o)
    check(got is want, "section/%s" % ("masked" if got else "alarm"), "reported %s, expected %s" % (got, want), inp)
    return ("section/%s/%s%s" % (want, o[0], o[1]), inp)

def itself(rng, sp):
    from nappy.utils import compare_na
    h, b = file_text(rng, sp)
    for n in ("a.na", "b.na"):
        with open(sp.path(n), "w") as f:
            f.write("".join(l + "\n" for l in h + b))
    c, a = rng.random() < 0.5, rng.random() < 0.5
    got = quietly(compare_na.compareNA, sp.path("a.na"), sp.path("b.na"), number_clever=c, approx_equal=a)
    check(got is True, "itself", "a file differs from its copy (number_clever=%s, approx_equal=%s)" % (c, a), {"file": h + b})
    return ("itself", {})

def command(rng, sp):
    "the options of the command reach the comparison"
    from nappy.utils import compare_na
    want = {"header": True, "body": True, "number_clever": True, "approx_equal": False, "delimiter_1": None, "delimiter_2": None}
    argv = []
    todo = [("-n", "--number-strict", "number_clever", False), ("-a", "--approx-equal", "approx_equal", True), ("-1", "--delimiter-1", "delimiter_1", None), ("-2", "--delimiter-2", "delimiter_2", None),
            rng.choice([("-h", "--header-only", "body", False), ("-b", "--body-only", "header", False)])]
    rng.shuffle(todo)
    for s, l, k, v in todo[:rng.randint(0, 5)]:
        long = rng.random() < 0.5
        if v is None:
            v = rng.choice([",", ";", " ", "ab"])
            argv += ["%s=%s" % (l, v)] if long else [s, v] if rng.random() < 0.5 else [s + v]
        else:
            argv.append(l if long else s)
        want[k] = v
    got = []
    keep = compare_na.compareNA
    compare_na.compareNA = lambda *a, **k: got.append((a, k))
    try:
        quietly(compare_na.main, argv + ["x/one", "x/two"])
    finally:
        compare_na.compareNA = keep
    check(len(got) == 1 and tuple(got[0][0]) == ("x/one", "x/two"), "command/files", "compared %r" % (got,), {"argv": argv})
    k = dict(want, **got[0][1])
    check(k == want, "command/options", "%s: %r, expected %r" % (argv, k, want), {"argv": argv})
    return ("command/%d" % len(argv), {"argv": argv})

CASES = [verdicts, sections, itself, command]
