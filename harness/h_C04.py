"""C04: asking for n items consumes exactly the lines that hold them"""
from common import *
import io, signal
RULE = "random lines of 0..12 items with random blanks and optional trailing annotations; n taken at a line end (exact), inside a line (surplus) or past the end; list, StringIO and file sources; int, float and text items; also one line, one item per line, header lines, and real NASA Ames files cut short or with a surplus item. Every result compared with an independent model. Non-trivial: at least two lines and two items."
WS = [" ", "  ", "\t", "    ", " \t "]

class Hang(Exception):
    pass

def guarded(f):
    "run f, turning a run of more than 10 s into Hang"
    def h(*a):
        raise Hang("still running after 10 s")
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(10)
    try:
        return ("value", f())
    except Hang:
        return ("hang", None)
    except Exception as e:
        return ("error", e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)

def item(rng, ty):
    if ty is int:
        return str(rng.randint(-10 ** rng.randint(0, 9), 10 ** rng.randint(0, 9)))
    if ty is float:
        return rng.choice(["%g", "%.10g", "%12.5e", "%.3f", "%d"]).strip() % num(rng)
    t = "".join(rng.choice("abcXYZ019.-+_*/()[]^%,;:#!?&=<>|~\u00b5") for _ in range(rng.randint(1, 6)))
    return t

def line(rng, ty, w):
    its = [item(rng, ty).strip() for _ in range(w)]
    t = rng.choice(["", "", " ", "\t"])
    for k, x in enumerate(its):
        t += x + (rng.choice(WS) if k + 1 < w else rng.choice(["", "", " ", "\t "]))
    if rng.random() < 0.25 and its:
        t += rng.choice([" ", "", "  "]) + "{" + rng.choice(["m", "note 5 6", "", "x y", "[7]", "^"]) + "}" + rng.choice(["", " "])
    return t, its

def unknown_lines(rng, sp):
    from nappy.utils import text_parser as tp
    ty = rng.choice([int, float, str])
    N = rng.choice([0, 1, 2, 3, rng.randint(1, 60)])
    ls = [line(rng, ty, rng.choice([0, 1, 1, 2, 3, rng.randint(1, 12)])) for _ in range(N)]
    tot = [0]
    for t, its in ls:
        tot.append(tot[-1] + len(its))
    flat = [x for t, its in ls for x in its]
    n = rng.choice([0, tot[-1], tot[-1] + rng.randint(1, 3), rng.choice(tot), rng.randint(0, tot[-1] + 1)])
    how = rng.choice(["list", "StringIO", "file"])
    text = "".join(t + "\n" for t, _ in ls)
    inp = {"lines": [t for t, _ in ls], "n": n, "type": ty.__name__, "source": how}
    if n in tot:
        K = tot.index(n)
        want = [ty(x) for x in flat[:n]]
    else:
        want = None
    if how == "list":
        src = [t + rng.choice(["\n", ""]) for t, _ in ls]
        keep = list(src)
        st, r = guarded(lambda: tp.readItemsFromUnknownLines(src, n, ty))
        check(src == keep, "unknown/argument", "the list of lines given was changed", inp)
        if want is not None and st == "value":
            check(type(r) is tuple and len(r) == 2, "unknown/list-result", "returned %r for a list source" % (r,), inp)
            r, rest = r
            check(rest == keep[K:], "unknown/rest", "%d lines left over, expected %d" % (len(rest), N - K), inp)
    else:
        if how == "StringIO":
            src = io.StringIO(text)
        else:
            with open(sp.path("t"), "w") as f:
                f.write(text)
            src = open(sp.path("t"))
        st, r = guarded(lambda: tp.readItemsFromUnknownLines(src, n, ty))
        if want is not None and st == "value":
            rest = src.read()
            src.close()
            check(rest == "".join(t + "\n" for t, _ in ls[K:]), "unknown/rest", "text left over is %r" % rest[:80], inp)
    check(st != "hang", "unknown/hang", "did not return within 10 s", inp)
    if want is None:
        check(st == "error", "unknown/accepted", "%d items asked for, line ends at %r: returned %r" % (n, tot, r), inp)
    else:
        check(st == "value", "unknown/refused", "raised %r reading %d items, line ends at %r" % (r, n, tot), inp)
        df = first_diff(r, want, "items")
        check(not df, "unknown/items", df, inp)
    return ("%s/%s/%d/%d" % (how, ty.__name__, N, n) if N > 1 and n > 1 else None, inp)

def one_line(rng, sp):
    from nappy.utils import text_parser as tp
    ty = rng.choice([int, float, str])
    t, its = line(rng, ty, rng.randint(1, 8))
    n = max(1, len(its) + rng.choice([0, 0, 0, 1, -1, 3]))
    inp = {"line": t, "n": n, "type": ty.__name__}
    st, r = guarded(lambda: tp.readItemsFromLine(t, n, ty))
    if n != len(its):
        check(st == "error", "line/accepted", "%d items asked of a line with %d: %r" % (n, len(its), r), inp)
    else:
        check(st == "value" and not first_diff(r, [ty(x) for x in its]), "line/items", "read %r, expected %r" % (r, its), inp)
    return ("%d/%d" % (n, len(its)), inp)

def item_per_line(rng, sp):
    from nappy.utils import text_parser as tp
    ty = rng.choice([int, float, str])
    ls, want = [], []
    for _ in range(rng.randint(0, 8)):
        t, its = line(rng, ty, 1)
        ls.append(t + rng.choice(["", "\n"]))
        want.append(ty(its[0]))
    n = max(0, len(ls) + rng.choice([0, 0, 1, -1]))
    inp = {"lines": ls, "n": n, "type": ty.__name__}
    st, r = guarded(lambda: tp.readItemsFromLines(list(ls), n, ty))
    if n != len(ls):
        check(st == "error", "lines/accepted", "%d items asked of %d lines: %r" % (n, len(ls), r), inp)
    else:
        check(st == "value" and not first_diff(r, want), "lines/items", "read %r, expected %r" % (r, want), inp)
    if ls:
        st, r = guarded(lambda: tp.readItemFromLine(ls[0], ty))
        check(st == "value" and same(r, want[0]), "item", "read %r, expected %r" % (r, want[0]), inp)
    return ("%d/%d" % (n, len(ls)), inp)

def spoiled_file(rng, sp):
    "a file cut inside its header or data, or with a surplus number in a data record, raises; the whole file reads"
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    if ffi == 2160:
        d["X"] = [["id%d" % m, x[1]] for m, x in enumerate(d["X"])]
        d["A"][-d["NAUXC"]:] = [["c%d" % m for m in range(len(d["X"]))] for a in range(d["NAUXC"])]
    p = sp.path("a.na")
    t = write_file(copy.deepcopy(d), p, delimiter=rng.choice(DELIMS), float_format="%.10g")
    ls = t.split("\n")[:-1]
    nh = int(ls[0].split()[0])
    kind = rng.choice(["header", "header", "surplus", "none", "data", "data"])
    if kind == "header":
        k = rng.randint(1, nh - 1)
        new = ls[:k]
    elif kind == "surplus":
        k = rng.randrange(nh, len(ls))
        if ffi == 2160:
            k = len(ls) - 1     # the last line of a record holds numbers
        new = list(ls)
        new[k] = new[k] + "   4444"
    elif kind == "data":
        new = ls[:rng.randint(nh, len(ls))]
    else:
        new = ls
    with open(p, "w") as f:
        f.write("".join(x + "\n" for x in new))
    inp = {"lines": new[:80], "kind": kind, "ffi": ffi, "nlhead": nh}
    st, r = guarded(lambda: read_file(ffi, p))
    check(st != "hang", "file/hang", "FFI %d, %s: did not return within 10 s" % (ffi, kind), inp)
    if kind == "none":
        check(st == "value", "file/refused", "FFI %d: %r" % (ffi, r), inp)
    elif kind == "data":
        # either the missing items are reported, or the file was cut between records: then writing what was read gives the text back
        if st == "value":
            e = r.getNADict()
            f = na_class(ffi)(sp.path("b.na"), mode="w", na_dict=e)
            f.write(delimiter="    ", float_format="%.10g", no_header=True)
            f.close()
            back = open(sp.path("b.na")).read().split()
            check(back == " ".join(new[nh:]).split(), "file/cut", "FFI %d: data cut after %d of %d lines read without an error, but not as those lines" % (ffi, len(new) - nh, len(ls) - nh), inp)
    elif kind == "header":
        check(st == "error", "file/header", "FFI %d: header cut after %d of %d lines read without an error" % (ffi, len(new), nh), inp)
    else:
        check(st == "error", "file/surplus", "FFI %d: surplus item on line %d of the file read without an error" % (ffi, k + 1), inp)
    return ("%d/%s" % (ffi, kind), None)
CASES = [unknown_lines, one_line, item_per_line, spoiled_file]
