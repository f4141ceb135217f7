"""C19: each option sets its own argument; pair lists give the pairs written; default names change the extension."""
import z3
from pyvc.core import *
from pyvc import chars, env, lib
from pyvc.interp import DictO, InstO, Opq
from . import record
from .record import calls, stub, given

UT = "nappy.utils.common_utils."
API = "nappy.nappy_api."
NCI = "nappy.nc_interface."
ITEM = frozenset({"no:,", "nonl"})

# ---------------------------------------------------------------- unknown values
# nc2csv looks for -d among all words: its values are taken not to begin with a dash
NODASH = ("first", chars.UNI - {"-"})
def own(name, nodash):
    return mk_text((Atom("GIVEN_" + name, (), frozenset({"nonempty", "nonl"} | ({NODASH} if nodash else set()))),))

def number(I, name):
    return mk_int(z3.Int(name))

def number_text(I, name):
    return mk_text(text_of(I.to_str(number(I, name))))

def items_text(name, K, nodash):
    """item 0 , item 1 , ... , item K"""
    i = fresh_int("i")
    at = lambda k: Atom(name, (as_term(k),), ITEM | ({NODASH, "nonempty"} if nodash else set()))
    return mk_text((at(0), Gen(K, i, (",", at(i + 1))))), LV((Unit(mk_text((at(0),))), Gen(K, i, (Unit(mk_text((at(i + 1),))),))))

def pairs_text(name, K, nodash=False):
    """key 0 , value 0 , ... , key K , value K"""
    i = fresh_int("i")
    a = lambda k: Atom(name + "_key", (as_term(k),), ITEM | ({NODASH, "nonempty"} if nodash else set()))
    b = lambda k: Atom(name + "_value", (as_term(k),), ITEM)
    t = mk_text((a(0), ",", b(0), Gen(K, i, (",", a(i + 1), ",", b(i + 1)))))
    p = lambda k: Unit((mk_text((a(k),)), mk_text((b(k),))))
    return t, (p(0), Gen(K, i, (p(i + 1),)))

def count(I, name):
    K = z3.Int(name)
    I.assume(K >= 0)
    return K

# ---------------------------------------------------------------- the documented options
# option -> (argument, kind of value)
NC2NA = {"-i": ("nc_file", "text"), "-o": ("na_file", "text"), "-v": ("var_ids", "list"), "--ffi": ("requested_ffi", "int"), "-f": ("float_format", "text"),
         "-d": ("delimiter", "text"), "-l": ("size_limit", "int"), "-e": ("exclude_vars", "list"), "--overwrite-metadata": ("na_items_to_override", "dict"),
         "--names-only": ("only_return_file_names", "flag"), "--no-header": ("no_header", "flag"), "--annotated": ("annotation", "flag")}
NC2CSV = {k: v for k, v in NC2NA.items() if k != "-d"}
NA2NC = {"-i": ("na_file", "text"), "-o": ("nc_file", "text"), "-m": ("mode", "text"), "-g": ("global_attributes", "pairs"), "-r": ("rename_variables", "dict"),
         "-t": ("time_units", "text"), "-n": ("time_warning", "off")}
SCRIPTS = {"nc2na": NC2NA, "nc2csv": NC2CSV, "na2nc": NA2NC}
DEFAULTS = {"nc2na": {"na_file": None, "var_ids": None, "requested_ffi": None, "size_limit": None, "exclude_vars": (), "na_items_to_override": (),
                      "only_return_file_names": False, "no_header": False, "annotation": False, "delimiter": "    ", "float_format": "%.10g"},
            "na2nc": {"mode": "w", "global_attributes": (), "rename_variables": (), "time_units": None, "time_warning": True, "variables": "all", "aux_variables": "all"}}
DEFAULTS["nc2csv"] = {k: v for k, v in DEFAULTS["nc2na"].items() if k != "delimiter"}
INPUT = {"nc2na": "nc_file", "nc2csv": "nc_file", "na2nc": "na_file"}
STANDS_FOR = {"nc2na": "convertNCToNA", "nc2csv": "convertNCToCSV", "na2nc": "convertNAToNC"}

class Given:
    """one use of an option with an unknown value: the words of the command line and what must arrive"""
    def __init__(self, I, script, opt, tag, joined=False):
        self.arg, kind = SCRIPTS[script][opt]
        self.kind = kind
        t = None
        n = tag + self.arg
        nodash = script == "nc2csv"
        if kind == "text":
            t = self.want = own(n, nodash)
        elif kind == "int":
            t, self.want = number_text(I, n), number(I, n)
        elif kind == "list":
            t, self.want = items_text(n, count(I, "N_" + n), nodash)
        elif kind in ("dict", "pairs"):
            t, self.want = pairs_text(n, count(I, "N_" + n), nodash)
        elif kind == "flag":
            self.want = True
        else:
            self.want = False
        if t is None:
            self.words = [opt]
        elif joined:
            self.words = [mk_text((opt + ("=" if opt.startswith("--") else ""),) + text_of(t))]
        else:
            self.words = [opt, t]

def check(S, I, name, kind, got, want):
    if kind == "dict":
        # the same pairs assigned in the same order
        o = I.obj(got) if isinstance(got, Ref) else None
        if not isinstance(o, DictO):
            S.add(name, "failed", "not a dictionary: %r" % (got,))
            return
        seq = o.log or tuple(Unit((k, v)) for k, v in o.known.items())
        S.eq(I, name, LV(seq), LV(tuple(want)))
    elif kind == "pairs":
        if isinstance(got, Ref) and isinstance(I.obj(got), DictO):
            S.holds(I, name, not want and not I.obj(got).known and not I.obj(got).log, "the pairs are not in a list")
        else:
            S.eq(I, name, got, LV(tuple(want)))
    elif kind == "list" and isinstance(want, tuple):
        S.eq(I, name, got, LV(want))
    elif want is None or isinstance(want, bool):
        S.holds(I, name, got is want, "%r is given for %r" % (got, want))
    else:
        S.eq(I, name, got, want)

KIND = {s: {a: k for a, k in o.values()} for s, o in SCRIPTS.items()}

def options(script, words):
    """words: [(option, tag, joined)] in the order given"""
    def fn(S):
        res = Opq("value", ("result",))
        con = {API + STANDS_FOR[script]: stub("convert", lambda I, e: I.new_list((Unit(given("name of a file")),)) if script != "na2nc" else res)}
        I = S.interp(con)
        uses = [Given(I, script, *w) for w in words]
        S.cover(I, "command-line")
        argv = [x for u in uses for x in u.words]
        want = dict(DEFAULTS[script])
        kinds = dict(KIND[script], variables="text", aux_variables="text")
        for u in uses:
            want[u.arg] = u.want
        for v in S.returns(I, "run", lambda: I.call(env.func(I, "nappy.script.%s.%s" % (script, script)), [I.new_list([Unit(a) for a in argv])])):
            c = calls(I, "convert")
            S.holds(I, "one-conversion", len(c) == 1, "%d conversions" % len(c))
            if not c:
                continue
            e = dict(c[0])
            if script == "nc2csv":
                # the CSV conversion takes everything but the file names by keyword
                kw = e.pop("arg_dict")
                e.update(I.obj(kw).items)
                if want.get("na_file") is None:
                    S.holds(I, "csv_file", e["csv_file"] is None, "a name is given")
                else:
                    S.eq(I, "csv_file", e["csv_file"], want["na_file"])
                e.pop("delimiter", None)
            for k, w in want.items():
                if script == "nc2csv" and k == "na_file":
                    continue
                if k not in e:
                    S.add(k, "failed", "not handed over")
                    continue
                check(S, I, k, kinds[k], e[k], w)
            if script == "na2nc":
                S.eq(I, "result", v, res)
            else:
                S.eq(I, "result", v, LV((Unit(given("name of a file")),)))
    return fn

PROOFS = []
for s, opts in SCRIPTS.items():
    names = list(opts)
    base = [("-i", "", False)] + ([("-o", "", False)] if s == "na2nc" else [])
    PROOFS.append(("%s/defaults" % s, options(s, base)))
    for o in names:
        if (o, "", False) in base:
            continue
        PROOFS.append(("%s/%s" % (s, o), options(s, base + [(o, "", False)])))
        PROOFS.append(("%s/%s-first-joined" % (s, o), options(s, [(o, "", True)] + base)))
    every = [(o, "", False) for o in names]
    PROOFS.append(("%s/all" % s, options(s, every)))
    PROOFS.append(("%s/all-reversed" % s, options(s, [(o, "", True) for o in reversed(names)])))
    for o in names:
        PROOFS.append(("%s/all-then-%s" % (s, o), options(s, every + [(o, "again ", False)])))

def refused(script, argv):
    def fn(S):
        con = {API + STANDS_FOR[script]: stub("convert")}
        I = S.interp(con)
        S.raises(I, "refuse", lambda: I.call(env.func(I, "nappy.script.%s.%s" % (script, script)), [I.new_list([Unit(a) for a in argv])]), ("SystemExit",),
                 lambda I: S.holds(I, "no-conversion", not calls(I), "something is converted"))
    return fn
for s in SCRIPTS:
    PROOFS.append(("%s/no-input" % s, refused(s, ["-o", given("output")])))
    PROOFS.append(("%s/empty-input" % s, refused(s, ["-i", ""])))
    PROOFS.append(("%s/unknown-option" % s, refused(s, ["-i", given("input"), "--no-such-option"])))
    PROOFS.append(("%s/unknown-letter" % s, refused(s, ["-z", "-i", given("input")])))
PROOFS.append(("nc2csv/delimiter", refused("nc2csv", ["-i", own("input", True), "-d", given("delimiter")])))

# ---------------------------------------------------------------- pair lists
def pairs(what):
    def fn(S):
        I = S.interp()
        t, want = pairs_text("P", count(I, "K"))
        S.cover(I, "count")
        for v in S.returns(I, "read", lambda: I.call(env.func(I, UT + what), [t])):
            check(S, I, "pairs", "dict" if "Dict" in what else "pairs", v, want)
    return fn

def odd(what):
    def fn(S):
        I = S.interp()
        K = count(I, "K")
        i = fresh_int("i")
        a = lambda n, k: Atom(n, (as_term(k),), ITEM)
        t = mk_text((a("first", 0), Gen(K, i, (",", a("one", i), ",", a("two", i)))))
        S.cover(I, "count")
        S.raises(I, "read", lambda: I.call(env.func(I, UT + what), [t]))
    return fn

def known_keys(n, same):
    """concrete keys, possibly repeated (the last value counts), unknown values"""
    def fn(S):
        I = S.interp()
        keys = ["KEY%d" % (0 if same else j) for j in range(n)]
        vals = [mk_text((Atom("VALUE", (z3.IntVal(j),), ITEM),)) for j in range(n)]
        t = []
        for k, v in zip(keys, vals):
            t += ([","] if t else []) + [k + ","] + list(text_of(v))
        want = dict(zip(keys, vals))
        for v in S.returns(I, "read", lambda: I.call(env.func(I, UT + "makeDictFromCommaSepString"), [mk_text(t)])):
            o = I.obj(v)
            S.holds(I, "keys", list(o.items) == list(want), "keys %s" % list(o.items))
            for k in want:
                if k in o.items:
                    S.eq(I, "value-" + k, o.items[k], want[k])
    return fn

for w in ("makeDictFromCommaSepString", "makeListFromCommaSepString"):
    PROOFS.append(("pairs/" + w, pairs(w)))
    PROOFS.append(("odd/" + w, odd(w)))
for n in (1, 2, 3, 5):
    for same in (False, True):
        PROOFS.append(("pairs/known-keys-%d%s" % (n, "-repeated" if same else ""), known_keys(n, same)))

# ---------------------------------------------------------------- default names
def name_parts():
    d = Atom("DIRECTORY", (), frozenset({"nonl", "nonempty", "no:/"}))
    b = Atom("STEM", (), frozenset({"nonl", "nonempty", "no:./"}))
    e = Atom("EXTENSION", (), frozenset({"nonl", "no:./"}))
    return d, b, e

def new_extension(shape, ext):
    def fn(S):
        I = S.interp()
        d, b, e = name_parts()
        stem = {"plain": (b,), "dotted": (b, ".", b), "dir": (d, "/", b), "dotdir": ("/a.b/", d, ".c/", b)}[shape]
        for had in (True, False):
            if had is False and shape == "dotted":
                continue
            t = mk_text(stem + ((".", e) if had else ()))
            for v in S.returns(I, "name", lambda: I.call(env.func(I, UT + "getFileNameWithNewExtension"), [t, ext])):
                S.eq(I, "only-the-extension%s" % ("" if had else "-added"), v, mk_text(stem + ("." + ext,)))
    return fn
for sh in ("plain", "dotted", "dir", "dotdir"):
    for x in ("na", "nc", "csv"):
        PROOFS.append(("names/extension-%s-%s" % (sh, x), new_extension(sh, x)))

def na2nc_name(tail, want):
    def fn(S):
        con = {API + "convertNAToNC": stub("convert", lambda I, e: e["nc_file"])}
        I = S.interp(con)
        d, b, e = name_parts()
        stem = (d, "/", b)
        for v in S.returns(I, "run", lambda: I.call(env.func(I, "nappy.script.na2nc.na2nc"), [I.new_list([Unit("-i"), Unit(mk_text(stem + (tail,)))])])):
            S.eq(I, "default-name", v, mk_text(stem + (want,)))
    return fn
for t, w in ((".na", ".nc"), (".nas", ".nas.nc"), (".dat", ".dat.nc"), (".na.na", ".na.nc"), ("-na", "-na.nc")):
    PROOFS.append(("names/na2nc%s" % t, na2nc_name(t, w)))

X2NA = NCI + "xarray_to_na.XarrayToNA"
def file_names(n, shape, given_name=True):
    def fn(S):
        I = S.interp()
        d, b, e = name_parts()
        stem = {"plain": (b,), "dotted": (b, ".", b), "dotdir": ("/a.b/", d, ".c/", b)}[shape]
        I.call(env.func(I, X2NA), [I.new_list(())])
        def run():
            X = I.call(env.func(I, X2NA), [I.new_list(())])
            I.obj(X).attrs.update(converted=True, na_dict_list=I.new_list([Unit("d")] * n))
            if not given_name:
                I.obj(X).attrs["nc_file"] = mk_text(stem + (".nc",))
            return I.call(I.getattr_(X, "constructNAFileNames"), [mk_text(stem + (".", e))] if given_name else [])
        x = (".", e) if given_name else (".na",)
        want = [mk_text(stem + x)] if n == 1 else [mk_text(stem + ("_%d" % (j + 1),) + x) for j in range(n)]
        for v in S.returns(I, "names", run):
            S.eq(I, "names", v, LV([Unit(w) for w in want]))
    return fn
for n in (1, 2, 3, 11):
    for sh in ("plain", "dotted", "dotdir"):
        PROOFS.append(("names/%d-files-%s" % (n, sh), file_names(n, sh)))
        PROOFS.append(("names/%d-files-default-%s" % (n, sh), file_names(n, sh, False)))

# ---------------------------------------------------------------- from the conversion functions on
NC_STUBS = {NCI + "nc_to_na.NCToNA._readXarrayFile": stub("read", lambda I, e: (I.new_list((Unit(Opq("value", ("a variable",))),)), I.alloc(DictO({})))),
            NCI + "xarray_to_na.XarrayToNA.convert": stub("convert"),
            NCI + "xarray_to_na.XarrayToNA.constructNAFileNames": stub("names", lambda I, e: Opq("value", ("file names",))),
            NCI + "xarray_to_na.XarrayToNA.writeNAFiles": stub("write", lambda I, e: I.obj(e["self"]).attrs.__setitem__("output_files_written", Opq("value", ("files written",))))}
NC_ARGS = ("var_ids", "exclude_vars", "na_items_to_override", "requested_ffi", "only_return_file_names")

PRESENTATION = ("delimiter", "float_format", "size_limit", "annotation", "no_header")
def nc_api(which, present, others=()):
    """others: options that must leave these arguments alone"""
    def fn(S):
        I = S.interp(dict(NC_STUBS))
        src = given("input")
        opt = {}
        for k in present:
            opt[k] = {"var_ids": I.new_list((Unit(given("v1")), Unit(given("v2")))), "exclude_vars": I.new_list((Unit(given("x1")),)),
                      "na_items_to_override": I.alloc(DictO({"ONAME": given("me")})), "requested_ffi": mk_int(z3.Int("FFI_WANTED")), "only_return_file_names": True}[k]
        if "requested_ffi" in opt:
            I.assume(z3.Int("FFI_WANTED") > 0)
        out = {"csv_file" if which.endswith("CSV") else "na_file": given("output")}
        for k in others:
            out[k] = mk_int(z3.Int("LIMIT")) if k == "size_limit" else True if k in ("annotation", "no_header") else given(k)
        for v in S.returns(I, "convert", lambda: I.call(env.func(I, API + which), [src], dict(opt, **out))):
            r, w, n = calls(I, "read"), calls(I, "write"), calls(I, "names")
            S.holds(I, "file-read-once", len(r) == 1, "%d reads" % len(r))
            if not r:
                continue
            me = r[0]["self"]
            X = I.obj(me).attrs
            S.eq(I, "input", X["nc_file"], src)
            if "var_ids" in opt:
                S.eq(I, "var_ids", r[0]["var_ids"], opt["var_ids"])
            else:
                S.holds(I, "var_ids", r[0]["var_ids"] is None, "variables are selected")
            ex = r[0]["exclude_vars"]
            S.eq(I, "exclude_vars", LV(I.list_seq(ex)) if ex is not None else LV(()), LV(I.list_seq(opt["exclude_vars"])) if "exclude_vars" in opt else LV(()))
            ov = I.obj(X["na_items_to_override"]).items
            S.holds(I, "overrides", list(ov) == (["ONAME"] if "na_items_to_override" in opt else []), "%s" % list(ov))
            if "ONAME" in ov:
                S.eq(I, "override", ov["ONAME"], given("me"))
            if "requested_ffi" in opt:
                S.eq(I, "requested_ffi", X["requested_ffi"], opt["requested_ffi"])
            else:
                S.holds(I, "requested_ffi", X["requested_ffi"] is None, "a format is requested")
            if "only_return_file_names" in opt:
                S.holds(I, "nothing-written", not w and not I.filelog, "files are written")
                S.eq(I, "names", v, Opq("value", ("file names",)))
                for e in n[-1:]:
                    S.eq(I, "name", e["na_file"], given("output"))
            else:
                S.holds(I, "written-once", len(w) == 1, "%d writes" % len(w))
                S.eq(I, "written", v, Opq("value", ("files written",)))
    return fn
for W in ("convertNCToNA", "convertNCToCSV"):
    for o in [()] + [(k,) for k in NC_ARGS] + [NC_ARGS[:-1], NC_ARGS]:
        PROOFS.append(("api/%s-%s" % (W, "+".join(o) or "none"), nc_api(W, o)))
    P = [k for k in PRESENTATION if not (W.endswith("CSV") and k == "delimiter")]
    for o in [(k,) for k in P] + [tuple(P)]:
        for mine in ((), NC_ARGS):
            PROOFS.append(("api/%s-%s-besides-%s" % (W, "all" if mine else "none", "+".join(o)), nc_api(W, mine, o)))

NA_STUBS = {API + "openNAFile": stub("open", lambda I, e: I.alloc(InstO(env.func(I, "nappy.na_file.na_file.NAFile"), {"FFI": 1001}))),
            NCI + "na_to_xarray.NADictToXarrayObjects.convert": stub("convert"),
            NCI + "na_to_nc.NAToNC.writeNCFile": stub("write")}
NA_ARGS = {"mode": ("a", "w"), "time_units": (None, None), "time_warning": (False, True), "variables": (None, None), "aux_variables": (None, None), "global_attributes": (None, None), "rename_variables": (None, None)}

def na_api(present, named):
    def fn(S):
        I = S.interp(dict(NA_STUBS))
        d, b, e = name_parts()
        src = mk_text((d, "/", b, ".", e))
        opt = {}
        pair = (given("name"), given("value"))
        for k in present:
            opt[k] = {"mode": given("mode"), "time_units": given("units"), "time_warning": False, "variables": I.new_list((Unit(given("v")),)), "aux_variables": I.new_list((Unit(given("w")),)),
                      "global_attributes": I.new_list((Unit(pair),)), "rename_variables": I.alloc(DictO({"old": given("new")}))}[k]
        if named:
            opt["nc_file"] = given("output")
        for v in S.returns(I, "convert", lambda: I.call(env.func(I, API + "convertNAToNC"), [src], dict(opt))):
            w, c, o = calls(I, "write"), calls(I, "convert"), calls(I, "open")
            S.holds(I, "written-once", len(w) == 1 and len(o) == 1, "%d writes, %d files opened" % (len(w), len(o)))
            if not w or not o:
                continue
            S.eq(I, "input", o[0]["filename"], src)
            X = I.obj(w[0]["self"]).attrs
            out = given("output") if named else mk_text((d, "/", b, ".nc"))
            S.eq(I, "output", w[0]["file_name"], out)
            S.eq(I, "returned", v, out)
            S.eq(I, "mode", w[0]["mode"], opt.get("mode", "w"))
            for k in ("time_units", "variables", "aux_variables"):
                if k in opt:
                    S.eq(I, k, X[k], opt[k])
                else:
                    S.holds(I, k, X[k] is None, "%r" % (X[k],))
            S.holds(I, "time_warning", X["time_warning"] is ("time_warning" not in opt), "the warning is switched the other way")
            S.eq(I, "global_attributes", X["global_attributes"], LV((Unit(pair),)) if "global_attributes" in opt else LV(()))
            rn = I.obj(X["rename_variables"]).items
            S.holds(I, "renamed", list(rn) == (["old"] if "rename_variables" in opt else []), "%s" % list(rn))
            if "old" in rn:
                S.eq(I, "rename", rn["old"], given("new"))
    return fn
for o in [()] + [(k,) for k in NA_ARGS] + [tuple(NA_ARGS)]:
    PROOFS.append(("api/convertNAToNC-%s" % ("+".join(o) or "none"), na_api(o, o in ((), tuple(NA_ARGS)) and bool(o))))

# ---------------------------------------------------------------- the mode reaches the NetCDF library
def write_mode(mode):
    def fn(S):
        I = S.interp()
        done = []
        def dataset(I, args, kw):
            return Opq("dataset", ())
        def to_netcdf(I, args, kw):
            record.record(I, "to_netcdf", {"args": list(args), "kw": dict(kw)})
        I.ext_handlers["call:xarray.Dataset"] = dataset
        I.ext_handlers["getattr:dataset"] = lambda I, v, name: I.alloc(DictO({})) if name == "attrs" else Opq("ext:to_netcdf", ())
        I.ext_handlers["call:ext:to_netcdf"] = lambda I, fn, args, kw: to_netcdf(I, args, kw)
        con = {}
        m = given("mode")
        def run():
            X = I.alloc(InstO(env.func(I, NCI + "na_to_nc.NAToNC"), {"converted": True, "xr_variables": I.new_list(()), "xr_aux_variables": I.new_list(()), "global_attributes": I.new_list(())}))
            return I.call(I.getattr_(X, "writeNCFile"), [given("output")], {"mode": m} if mode else {})
        for v in S.returns(I, "write", run):
            c = calls(I, "to_netcdf")
            S.holds(I, "written-once", len(c) == 1, "%d writes" % len(c))
            for e in c:
                a = dict(zip(("path", "mode"), e["args"]), **e["kw"])
                S.eq(I, "name", a.get("path"), given("output"))
                S.eq(I, "mode", a.get("mode", "w"), m if mode else "w")
    return fn
PROOFS.append(("write/mode-given", write_mode(True)))
PROOFS.append(("write/mode-default", write_mode(False)))
