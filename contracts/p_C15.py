"""C15: delimiter, annotation column and header suppression change the presentation only."""
import z3
from pyvc.core import *
from pyvc import env, lib
from pyvc.interp import DictO, InstO, Opq
from . import na, roundtrip, record
from .record import calls, stub, given
from .roundtrip import Setup

# a delimiter that occurs nowhere else, one of blanks and commas (trimmed at line ends like the default) and one that is not trimmed
REF = {"trimmed": ",,,,,", "kept": "<|>"}
DELIMS = {"default": ("trimmed", "    "), "comma": ("trimmed", ","), "space": ("trimmed", " "), "comma-space": ("trimmed", ", "),
          "tab": ("kept", "\t"), "semicolon": ("kept", ";"), "bars": ("kept", "||")}

def replace(pieces, old, new):
    """the text with every separator `old` written as `new`; text that comes from the content (atoms) is kept"""
    out = []
    for p in pieces:
        if isinstance(p, str):
            out.append(p.replace(old, new))
        elif isinstance(p, Gen):
            out.append(Gen(p.n, p.var, replace(p.body, old, new)))
        elif isinstance(p, Hole):
            raise Unsupported("hole")
        else:
            out.append(p)
    return tuple(out)

def content(I, o):
    return I.obj(I.getattr_(o, "file")).content

def seps(pieces, d):
    return sum(p.count(d) if isinstance(p, str) else seps(p.body, d) if isinstance(p, Gen) else 0 for p in pieces)

def delimiter(ffi, nm):
    def fn(S):
        cls, d = DELIMS[nm]
        R = Setup(S, ffi, REF[cls])
        I = R.I
        def run():
            a = content(I, R.write("ref.na"))
            b = content(I, R.write("out.na", delimiter=d))
            return a, b
        for a, b in S.returns(I, "write", run):
            S.holds(I, "separators-used", seps(a, REF[cls]) > 0, "the delimiter given does not occur in the file")
            S.eq(I, "same-but-separators", mk_text(b), mk_text(replace(a, REF[cls], d)))
    return fn

def unlabel(p, delim, labels):
    """a line without its label cell"""
    if isinstance(p, Gen):
        return Gen(p.n, p.var, tuple(unlabel(q, delim, labels) for q in p.body))
    if not isinstance(p, Unit):
        raise Unsupported("lines %r" % (p,))
    t = list(text_of(p.v))
    for k, q in enumerate(t):
        if isinstance(q, str) and delim in q:
            head, tail = q.split(delim, 1)
            cell = t[:k] + [head]
            lit = "".join(x if isinstance(x, str) else "0" for x in cell)
            ok = any(lit == l or (lit.startswith(l + " ") and len(lit) > len(l) + 1) or (lit.startswith(l) and lit[len(l):].strip(" ()[]#:0123456789") == "") for l in labels)
            if not ok or "\n" in lit or any(not isinstance(x, (str, Sc)) and not (isinstance(x, Atom) and (x.has("num") or x.fn == "tok")) for x in cell):
                raise Mislabelled("label %r of line %r" % (cell, t))
            return Unit(mk_text((tail,) + tuple(t[k + 1:])))
    raise Mislabelled("no label cell in line %r" % (t,))

class Mislabelled(Exception):
    pass

def annotated(ffi, delim):
    def fn(S):
        R = Setup(S, ffi, delim)
        I = R.I
        labels = list(env.native_config().getAnnotationsConfigDict().values())
        def run():
            a = content(I, R.write("ref.na"))
            b = content(I, R.write("out.na", annotation=True))
            return I.lines(a), I.lines(b)
        for a, b in S.returns(I, "write", run):
            try:
                u = tuple(unlabel(p, delim, labels) for p in I.norm(b))
            except Mislabelled as e:
                S.add("every-line-labelled", "failed", e)
                continue
            S.add("every-line-labelled", "discharged")
            S.eq(I, "same-behind-the-label", LV(u), LV(a))
    return fn

def no_header(ffi, ann, delim):
    """only the data section, as it would be written behind the header"""
    def fn(S):
        ghost = {}
        def at_data(I, f, args, kw):
            ghost["head"] = I.obj(I.getattr_(args[0], "file")).content
            return NotImplemented
        con = dict(roundtrip.CONTRACTS)
        for f in na.FFIS:
            con["nappy.na_file.na_file_%d.NAFile%d.writeData" % (f, f)] = at_data
        R = Setup(S, ffi, delim, con)
        I = R.I
        def run():
            ghost.clear()
            a = content(I, R.write("ref.na", annotation=ann))
            head = ghost.get("head")
            b = content(I, R.write("out.na", annotation=ann, no_header=True))
            return a, head, b
        for a, head, b in S.returns(I, "write", run):
            if head is None:
                S.add("data-section", "failed", "writeData is not called")
                continue
            S.holds(I, "header-written", len(head) > 0, "no header in the full file")
            S.eq(I, "data-only", mk_text(tuple(head) + tuple(b)), mk_text(a))
    return fn

# ---------------------------------------------------------------- conversions
API = "nappy.nappy_api."
OPTIONS = {"plain": {}, "annotated": {"annotation": True}, "no-header": {"no_header": True}, "both": {"annotation": True, "no_header": True}}

def value_read(I, t):
    t = simp(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return na.fl(t)
    return na.fl(lib.denote(I, "%s", t))

def na_to_csv(ffi, opts, named):
    """the CSV file is what writing the file's contents with commas (and these options) gives"""
    def fn(S):
        R = Setup(S, ffi)
        I = R.I
        again = na.make_dict(R.B, D=lambda t: value_read(I, t), H=lambda t: value_read(I, t))    # what reading the file gives (C01, C02)
        def run():
            R.write("dir.x/in.na", float_format="%s")
            args = ["dir.x/in.na"] + (["other.txt"] if named else [])
            I.call(env.func(I, API + "convertNAToCSV"), args, dict(OPTIONS[opts]))
            out = [p.v for p in I.filelog if p.v[0] != "dir.x/in.na"]
            o = I.call(roundtrip.cls(I, ffi), ["ref"], {"mode": "w", "na_dict": again})
            I.call(I.getattr_(o, "write"), [], dict(OPTIONS[opts], delimiter=","))
            return out, content(I, o)
        for out, want in S.returns(I, "convert", run):
            S.holds(I, "one-file", len(out) == 1, "%d files are written" % len(out))
            if not out:
                continue
            n, f = out[0]
            S.eq(I, "file-name", n, "other.txt" if named else "dir.x/in.csv")
            S.holds(I, "flushed", bool(I.obj(f).flushed), "the file may not be complete")
            S.eq(I, "content", mk_text(I.obj(f).content), mk_text(want))
    return fn

PROOFS = [("ffi%d/delimiter-%s" % (f, n), delimiter(f, n)) for f in na.FFIS for n in DELIMS]
PROOFS += [("ffi%d/annotated-%s" % (f, n), annotated(f, d)) for f in na.FFIS for n, d in (("spaces", "    "), ("comma", ","), ("tab", "\t"))]
PROOFS += [("ffi%d/no-header-%s" % (f, n), no_header(f, a, d)) for f in na.FFIS for n, a, d in (("plain", False, "    "), ("comma", False, ","), ("annotated", True, ","))]
PROOFS += [("ffi%d/na-to-csv-%s" % (f, o), na_to_csv(f, o, o != "plain")) for f in na.FFIS for o in OPTIONS]

# the NetCDF side: the options reach the writer of every file
NCI = "nappy.nc_interface."
def set_files(I, e):
    I.obj(e["self"]).attrs["output_files_written"] = Opq("value", ("files written",))
    return I.new_list(())
NC_STUBS = {NCI + "nc_to_na.NCToNA._readXarrayFile": stub("read", lambda I, e: (I.new_list((Unit(Opq("value", ("a variable",))),)), I.alloc(DictO({})))),
            NCI + "xarray_to_na.XarrayToNA.convert": stub("convert"),
            NCI + "xarray_to_na.XarrayToNA.constructNAFileNames": stub("names", lambda I, e: Opq("value", ("file names",))),
            NCI + "xarray_to_na.XarrayToNA.writeNAFiles": stub("write", set_files)}
WRITE_DEFAULTS = ("delimiter", "float_format", "size_limit", "annotation", "no_header")

def nc_options(which, present):
    """which: convertNCToNA ...; present: the options given"""
    def fn(S):
        I = S.interp(dict(NC_STUBS))
        src = mk_text((Atom("SOURCE", (), frozenset({"nonl", "nonempty", "no:./"})), ".nc"))
        opt = {}
        for k in present:
            opt[k] = {"annotation": True, "no_header": True, "size_limit": mk_int(z3.Int("SIZE_LIMIT"))}.get(k) if k in ("annotation", "no_header", "size_limit") else given(k)
        csv = which.endswith("CSV")
        outkey = "csv_file" if csv else "na_file"
        def run():
            kw = dict(opt)
            if which.startswith("convertNC"):
                args = [src]
            else:
                args = [I.new_list((Unit(Opq("value", ("a variable",))),)), I.alloc(DictO({})), given("output")]
            if "output" in kw:
                kw[outkey] = kw.pop("output")
            return I.call(env.func(I, API + which), args, kw)
        W = env.func(I, NCI + "xarray_to_na.XarrayToNA.writeNAFiles")
        for v in S.returns(I, "convert", run):
            w = calls(I, "write")
            S.holds(I, "written-once", len(w) == 1, "writeNAFiles is called %d times" % len(w))
            if not w:
                continue
            e = w[0]
            dflt = I.bind(W, [None], {})
            if which.startswith("convertNC") and "output" not in present:
                S.eq(I, "name", e["na_file"], mk_text(text_of(src)[:1] + (".csv" if csv else ".na",)))
            else:
                S.eq(I, "name", e["na_file"], given("output"))
            for k in WRITE_DEFAULTS:
                want = "," if csv and k == "delimiter" else opt.get(k, dflt[k])
                S.eq(I, k, e[k], want)
            S.eq(I, "returned", v, Opq("value", ("files written",)))
    return fn

def nc_files(k, ffi, lim, opts):
    """every file of k dictionaries is written with the options given; lim: a size limit that is not exceeded"""
    def fn(S):
        con = {NCI + "xarray_to_na.XarrayToNA.constructNAFileNames": stub("names", lambda I, e: I.new_list([Unit(given("NAME%d" % j)) for j in range(k)])),
               "nappy.nappy_api.openNAFile": stub("open", lambda I, e: I.alloc(InstO(env.func(I, "nappy.na_file.na_file.NAFile"), {"at": len(calls(I, "open")) - 1}))),
               "nappy.na_file.na_file.NAFile.write": watch_self("write"),
               "nappy.na_file.na_file.NAFile.close": watch_self("close")}
        I = S.interp(con)
        env.func(I, NCI + "xarray_to_na.XarrayToNA")
        B = na.Dict(I, ffi)
        S.cover(I, "dictionary")
        kw = {}
        for o in opts:
            kw[o] = True if o in ("annotation", "no_header") else given(o)
        if lim:
            L = z3.Int("SIZE_LIMIT")
            kw["size_limit"] = mk_int(L)
            I.assume(L >= B.M)
        def run():
            X = I.call(env.func(I, NCI + "xarray_to_na.XarrayToNA"), [I.new_list(())])
            ds = [na.make_dict(B, {} if B.hasaux else {"NAUXV": 0}) for j in range(k)]
            none = lambda: I.new_list(())
            I.obj(X).attrs.update(converted=True, na_dict_list=I.new_list([Unit((d, I.new_list([Unit(none()), Unit(none()), Unit(none())]))) for d in ds]))
            I.call(I.getattr_(X, "writeNAFiles"), [given("output")], kw)
            return X, ds
        W = env.func(I, "nappy.na_file.na_file.NAFile.write")
        for X, ds in S.returns(I, "write", run):
            op, w, c = calls(I, "open"), calls(I, "write"), calls(I, "close")
            S.holds(I, "one-write-per-file", len(op) == k == len(w), "%d files opened, %d written" % (len(op), len(w)))
            for j, e in enumerate(op[:k]):
                S.eq(I, "name%d" % j, e["filename"], given("NAME%d" % j))
                S.eq(I, "mode%d" % j, e["mode"], "w")
                S.holds(I, "dictionary%d" % j, e["na_dict"] is ds[j] or e["na_dict"] == ds[j], "another dictionary")
            dflt = I.bind(env.func(I, NCI + "xarray_to_na.XarrayToNA.writeNAFiles"), [None], {})
            for j, (n, e) in enumerate(w):
                S.holds(I, "file%d" % j, n == j, "file %s written as number %d" % (n, j))
                for o in ("delimiter", "float_format", "annotation", "no_header"):
                    S.eq(I, "%s%d" % (o, j), e[o], kw.get(o, dflt[o]))
            S.holds(I, "closed", [n for n, e in c] == list(range(k)), "not every file is closed")
            S.eq(I, "files-written", LV(I.list_seq(I.getattr_(X, "output_files_written"))), LV([Unit(given("NAME%d" % j)) for j in range(k)]))
    return fn

def nc_volumes(opts):
    """more rows than the limit: the options reach the writer of the volumes"""
    def fn(S):
        names = [given("VOLUME%d" % j) for j in range(2)]
        con = {NCI + "xarray_to_na.XarrayToNA.constructNAFileNames": stub("names", lambda I, e: I.new_list([Unit(given("NAME"))])),
               NCI + "xarray_to_na.XarrayToNA._writeNAFileSubsetsWithinSizeLimit": stub("split", lambda I, e: I.new_list([Unit(n) for n in names]))}
        I = S.interp(con)
        env.func(I, NCI + "xarray_to_na.XarrayToNA")
        B = na.Dict(I, 1001)
        S.cover(I, "dictionary")
        L = z3.Int("SIZE_LIMIT")
        I.assume(z3.And(L >= 1, L < B.M))
        kw = {"size_limit": mk_int(L)}
        for o in opts:
            kw[o] = True if o in ("annotation", "no_header") else given(o)
        def run():
            X = I.call(env.func(I, NCI + "xarray_to_na.XarrayToNA"), [I.new_list(())])
            d = na.make_dict(B, {"NAUXV": 0})
            none = lambda: I.new_list(())
            I.obj(X).attrs.update(converted=True, na_dict_list=I.new_list([Unit((d, I.new_list([Unit(none()), Unit(none()), Unit(none())])))]))
            I.call(I.getattr_(X, "writeNAFiles"), [given("output")], kw)
            return X, d
        for X, d in S.returns(I, "write", run):
            c = calls(I, "split")
            S.holds(I, "split-once", len(c) == 1 and not I.filelog, "%d calls" % len(c))
            dflt = I.bind(env.func(I, NCI + "xarray_to_na.XarrayToNA.writeNAFiles"), [None], {})
            for e in c:
                S.eq(I, "name", e["file_name"], given("NAME"))
                S.holds(I, "dictionary", e["this_na_dict"] == d, "another dictionary")
                for o in WRITE_DEFAULTS:
                    S.eq(I, o, e[o], kw.get(o, dflt[o]))
            S.eq(I, "files-written", LV(I.list_seq(I.getattr_(X, "output_files_written"))), LV([Unit(n) for n in names]))
    return fn

def watch_self(name):
    def h(I, fn, args, kw):
        record.record(I, name, (I.obj(args[0]).attrs["at"], I.bind(fn, args, kw)))
        return None
    return h

for K, F, L, O in ((1, 1001, False, ()), (1, 1001, True, ("annotation", "no_header", "delimiter", "float_format")), (2, 1001, False, ("annotation", "delimiter")), (3, 2010, False, ("no_header", "float_format")),
                   (2, 1010, False, ("delimiter", "no_header")), (2, 2110, False, ("annotation",)), (1, 3010, True, ("delimiter",)), (1, 4010, False, ("annotation", "no_header", "delimiter", "float_format"))):
    PROOFS.append(("files/%d-of-%d-%s%s" % (K, F, "+".join(O) or "none", "-limit" if L else ""), nc_files(K, F, L, O)))
for O in ((), ("annotation",), ("no_header",), ("delimiter", "float_format"), ("annotation", "no_header", "delimiter", "float_format")):
    PROOFS.append(("files/volumes-%s" % ("+".join(O) or "none"), nc_volumes(O)))
OPTS = [()] + [(k,) for k in WRITE_DEFAULTS] + [("output",), WRITE_DEFAULTS + ("output",)]
for W in ("convertNCToNA", "convertNCToCSV", "convertXarrayObjectsToNA", "convertXarrayObjectsToCSV"):
    for o in OPTS:
        o = tuple(k for k in o if not (W.endswith("CSV") and k == "delimiter") and not ("Objects" in W and k == "output"))
        PROOFS.append(("options/%s-%s" % (W, "+".join(k for k in o) or "none"), nc_options(W, o)))
seen = set()
PROOFS = [p for p in PROOFS if not (p[0] in seen or seen.add(p[0]))]
