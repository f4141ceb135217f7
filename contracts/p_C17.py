"""C17: what reaches NetCDF is the file's values, scaled, named, numbered and selected.

An array is known by its element at one arbitrary point: numpy's elementwise operations act on that element,
so what is shown of it holds of every point of arrays of any shape."""
import z3
from pyvc.core import *
from pyvc import env
from pyvc.interp import DictO, InstO, Opq, PyRaise
from . import na, roundtrip
from .record import calls, stub, given, val, record

NX = "nappy.nc_interface.na_to_xarray.NADictToXarrayObjects"
NC = "nappy.nc_interface.na_to_nc.NAToNC"
XU = "nappy.nc_interface.xarray_utils"
CORE = "nappy.na_file.na_core.NACore"
Z, R = z3.IntSort(), z3.RealSort()
fl = na.fl
P = z3.Int("POINT")
PROOFS = []

def real(v):
    t = v.t if isinstance(v, Sc) else as_term(v)
    return z3.ToReal(t) if z3.is_int(t) else t

def point(v):
    """the element, of an array or of a number that stands for one everywhere"""
    return v.args[0] if isinstance(v, Opq) and v.fn == "array" else real(v)

def element(name, n, p=P):
    return z3.Function(name + "_value", Z, Z, R)(as_term(n), p)

def conv(I):
    """numpy and xarray, and how names and units are told apart (C16)"""
    H = I.ext_handlers
    H["getitem:columns"] = lambda I, v, i: Opq("column", (v.args[0], as_term(i)))
    H["isnone:array"] = H["isnone:column"] = lambda I, v: False
    def np_(I, name, args, kw):
        n = name.split(".")[-1]
        if n in ("array", "asarray", "masked_array"):
            a = args[0]
            return Opq("array", (element(*a.args),)) if a.fn == "column" else a
        if n == "where" and len(args) == 3 and isinstance(args[0], Opq) and args[0].fn == "mask":
            return Opq("array", (simp(z3.If(args[0].args[0], point(args[1]), point(args[2]))),))
        raise Unsupported(name)
    H["extern:numpy"] = np_
    def eq(I, x, y):
        return Opq("mask", (simp(point(x) == point(y)),)) if any(isinstance(v, Opq) and v.fn == "array" for v in (x, y)) else NotImplemented
    H["eq"] = eq
    def binop(I, op, x, y):
        f = {"Mult": lambda a, b: a * b, "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Div": lambda a, b: a / b}.get(op)
        if f is None or not any(isinstance(v, Opq) and v.fn == "array" for v in (x, y)):
            raise Unsupported("array %s" % op)
        return Opq("array", (simp(f(point(x), point(y))),))
    H["binop"] = binop
    data_array(I)

def data_array(I):
    H = I.ext_handlers
    def xr_(I, name, args, kw):
        if not name.endswith("DataArray"):
            raise Unsupported(name)
        kw = dict(zip(("data", "coords", "dims", "name", "attrs"), args), **kw)
        at = kw.get("attrs")
        return I.alloc(InstO(None, {"<data>": kw["data"], "<coords>": kw.get("coords"), "name": kw.get("name"), "dims": ("dim_0",),
                                    "attrs": I.alloc(DictO(dict(I.obj(at).items) if at is not None else {})), "encoding": I.alloc(DictO({}))}, "DataArray"))
    H["extern:xarray"] = xr_
    def rename(I, f, args, kw):
        o = I.obj(f.args[0])
        names = I.obj(args[0]).items
        r = InstO(None, dict(o.attrs), "DataArray")
        r.attrs["dims"] = tuple(names.get(d, d) for d in o.attrs["dims"])
        r.attrs["attrs"] = I.alloc(DictO(dict(I.obj(o.attrs["attrs"]).items)))
        return I.alloc(r)
    H["call:rename"] = rename
    def attr(I, v, n):
        at = I.obj(I.obj(v).attrs["attrs"]).items
        if n in at:
            return at[n]
        if n == "rename":
            return Opq("rename", (v,))
        raise PyRaise("AttributeError", n)
    H["getattr:DataArray"] = attr
    # an axis of an array, and every n-th point of it
    H["getslice:axis"] = lambda I, v, a, b, s=None: v if a is None and b is None and s is None else Opq("every", (v, as_term(s))) if a is None and b is None else nope("slice")

def same(a, b):
    return type(a) is type(b) and repr(a) == repr(b)

def nope(n):
    raise Unsupported(n)

def converter(I, attrs, cls=NX):
    """an instance in the middle of converting: what it was made with, and any number of variables converted before"""
    some = lambda n: I.new_list(na.gen(z3.Int(n), lambda i: Opq("earlier", (z3.IntVal(len(n)), i))))
    I.assume(z3.And(z3.Int("DONE") >= 0, z3.Int("AUX_DONE") >= 0))
    d = {"variables": "all", "aux_variables": "all", "global_attributes": I.new_list(()), "time_units": None, "time_warning": True, "rename_variables": I.alloc(DictO({})), "output_message": I.new_list(()), "converted": False}
    if "xr_axes" in attrs:
        d.update(xr_variables=some("DONE"), xr_aux_variables=some("AUX_DONE"))
    d.update(attrs)
    return I.alloc(InstO(env.func(I, cls), d))

def name_list(name, n):
    return na.gen(n, lambda i: mk_text((Atom(name, (i,), frozenset({"nonempty", "nonl", "stripped"})),)))

def na_file(I, ffi, nv, naux, more=()):
    r = lambda nm, n: I.new_list(na.gen(n, lambda i: fl(z3.Function(nm, Z, R)(i))))
    d = {"FFI": ffi, "NIV": na.NIVS[ffi], "NV": mk_int(nv), "NAUXV": mk_int(naux), "NAUXC": None, "VNAME": I.new_list(name_list("VNAME", nv)), "ANAME": I.new_list(name_list("ANAME", naux)),
         "VMISS": r("VMISS", nv), "VSCAL": r("VSCAL", nv), "AMISS": r("AMISS", naux), "ASCAL": r("ASCAL", naux), "V": Opq("columns", ("V",)), "A": Opq("columns", ("A",))}
    if ffi == 1020:
        d["NVPM"] = mk_int(z3.Int("NVPM"))
        I.assume(z3.Int("NVPM") >= 1)
    d.update(more)
    return I.alloc(InstO(roundtrip.cls(I, ffi), d))

NAMES = {"plain": "Temperature of air", "units": "Wind (east) + speed", "long": "x" * 64}
CLEAN = {"plain": "temperature_of_air", "units": "wind_east_speed"}
UNITS = {"plain": None, "units": "m/s", "long": "K"}

def variable(aux, ffi, kind, renamed=False):
    c = "A" if aux else "V"
    def fn(S):
        def parts(I, fn, args, kw):
            e = I.bind(fn, args, kw)
            record(I, "named", e["item"])
            return (NAMES[kind], UNITS[kind])
        I = S.interp({CORE + "._attemptVarAndUnitsMatch": parts})
        conv(I)
        nv, naux, n = z3.Int("NV"), z3.Int("NAUXV"), z3.Int("N")
        I.assume(z3.And(nv >= 1, naux >= 0, n >= 0, n < (naux if aux else nv)))
        f = na_file(I, ffi, nv, naux)
        axes = [Opq("axis", (k,)) for k in range(na.NIVS[ffi])]
        S.cover(I, "file")
        NUM = "%s_%s" % ("naAuxVariable" if aux else "naVariable", "N")
        def run():
            ren = {CLEAN[kind]: "Better Name"} if renamed else {"other": "x"}
            o = converter(I, {"na_file_obj": f, "xr_axes": I.new_list([Unit(a) for a in axes]), "rename_variables": I.alloc(DictO(ren)), "output_message": I.new_list(())})
            return o, I.call(I.getattr_(o, "_convertNAAuxToXarrayVariable" if aux else "_convertNAToXarrayVariable"), [mk_int(n)])
        for o, v in S.returns(I, "variable", run):
            at = I.obj(v).attrs
            miss, scal = (z3.Function(c + k, Z, R)(n) for k in ("MISS", "SCAL"))
            x = element(c, n)
            data = at["<data>"]
            ok = isinstance(data, Opq) and data.fn == "array"
            S.holds(I, "array", ok, "%r" % (data,))
            if ok:
                S.holds(I, "scaled", z3.Implies(x != miss, data.args[0] == x * scal))
                S.holds(I, "missing-kept", z3.Implies(x == miss, data.args[0] == miss))
            S.eq(I, "missing-value", I.obj(at["encoding"]).items.get("_FillValue"), fl(miss))
            att = I.obj(at["attrs"]).items
            S.eq(I, "number", att.get("nasa_ames_aux_var_number" if aux else "nasa_ames_var_number"), mk_int(n))
            S.holds(I, "one-number", ("nasa_ames_var_number" if aux else "nasa_ames_aux_var_number") not in att)
            S.holds(I, "units", att.get("units") == UNITS[kind], "%r" % (att.get("units"),))
            S.eq(I, "name-of-this-variable", calls(I, "named")[0], mk_text((Atom(c + "NAME", (n,), frozenset({"nonempty", "nonl", "stripped"})),)))
            if kind != "long":
                S.holds(I, "long-name", att.get("long_name") == ("Better Name" if renamed else CLEAN[kind]), "%r" % (att.get("long_name"),))
                S.holds(I, "name", at["name"] == ("better_name" if renamed else CLEAN[kind]), "%r" % (at["name"],))
            else:
                S.eq(I, "numbered-name", att.get("long_name"), mk_text(("naAuxVariable_" if aux else "naVariable_",) + tuple(text_of(I.to_str(mk_int(n))))))
            cs = I.seq_of(at["<coords>"])
            S.holds(I, "axes", len(cs) == (1 if aux else len(axes)), "%r" % (cs,))
            for k, u in enumerate(cs[:1] if aux else cs):
                a = u.v
                if aux and ffi == 1020:
                    S.holds(I, "every-nth-point", isinstance(a, Opq) and a.fn == "every" and same(a.args[0], axes[0]) and z3.is_true(simp(a.args[1] == z3.Int("NVPM"))), "%r" % (a,))
                else:
                    S.holds(I, "axis-%d" % k, same(a, axes[k]), "%r" % (a,))
    return fn

for FFI in (1001, 1010, 1020, 2010, 3010, 4010):
    for KIND in NAMES:
        for AUX in (False, True):
            if FFI != 1001 or not AUX:
                PROOFS.append(("variable/%d-%s-%s" % (FFI, "aux" if AUX else "main", KIND), variable(AUX, FFI, KIND)))
for AUX in (False, True):
    PROOFS.append(("variable/renamed-%s" % ("aux" if AUX else "main"), variable(AUX, 1010, "units", True)))

# ---------------------------------------------------------------- selection
def selection(aux, how):
    c = "A" if aux else "V"
    meth = "_convertNAAuxToXarrayVariable" if aux else "_convertNAToXarrayVariable"
    par = "avar_number" if aux else "var_number"
    def fn(S):
        I = S.interp({NX + "." + meth: lambda I, fn, args, kw: Opq("converted", (as_term(I.bind(fn, args, kw)[par]),))})
        nv, k = z3.Int("N" + ("AUXV" if aux else "V")), z3.Int("K")
        I.assume(z3.And(nv >= 1, k >= 1, z3.Int("NV") >= 1, z3.Int("NAUXV") >= 0))
        sel = z3.Function("SELECTED", Z, Z)
        j = z3.Int("J")
        ranged = lambda t: z3.And(sel(t) >= 0, sel(t) < nv)
        H = I.ext_handlers
        # the names in the file are distinct, and none is a number
        nm = lambda i: mk_text((Atom("NAME", (as_term(i),), frozenset({"nonempty", "nonl", "stripped"})),))
        which = lambda v: v.pieces[0].args[0] if isinstance(v, Text) and len(v.pieces) == 1 and getattr(v.pieces[0], "fn", "") == "NAME" else None
        def inside(I, v, cont=None):
            if isinstance(cont, Text) or isinstance(v, Opq):
                v, cont = cont, v
            t = which(v)
            return False if t is None else mk_bool(z3.And(t >= 0, t < nv))
        H["contains:names"] = inside
        def at(I, f, args, kw):
            t = which(args[0])
            if t is None or not I.decide(z3.And(t >= 0, t < nv)):
                raise PyRaise("ValueError", "not in list")
            return mk_int(t)
        H["call:names.index"] = at
        H["getattr:names"] = lambda I, v, n: Opq("names." + n, v.args)
        def match(I, args, kw):
            if isinstance(args[0], str) and args[0] in (r"\d+$", r"^\d+$") and isinstance(args[1], Text):
                return None
            return NotImplemented
        H["call:re.match"] = match
        given = {"all": lambda: "all", "none": lambda: None,
                 "indices": lambda: I.new_list(na.gen(k, lambda i: mk_int(sel(i)))),
                 "texts": lambda: I.new_list([Unit("2"), Unit("0")]),
                 "names": lambda: I.new_list(na.gen(k, lambda i: nm(sel(i)))),
                 "unknown": lambda: I.new_list(na.gen(k, lambda i: nm(sel(i))) + (Unit(mk_text((Atom("NOT_THERE", (), frozenset({"nonempty", "nonl", "stripped"})),))),))}[how]
        I.assume(z3.ForAll([j], ranged(j)))
        f = I.alloc(InstO(roundtrip.cls(I, 1010), {"FFI": 1010, "NIV": 1, "NV": mk_int(z3.Int("NV")), "NAUXV": mk_int(z3.Int("NAUXV")), c + "NAME": Opq("names", ())}))
        S.cover(I, "selection")
        out = "xr_aux_variables" if aux else "xr_variables"
        def run():
            o = converter(I, {"na_file_obj": f, "aux_variables" if aux else "variables": given(), "output_message": I.new_list(())})
            I.call(I.getattr_(o, "_convertXarrayAuxVariables" if aux else "_convertXarrayVariables"), [])
            return I.obj(o).attrs[out]
        if how == "unknown":
            S.raises(I, "unknown-name", run)
            return
        w = lambda t: Opq("converted", (simp(as_term(t)),))
        want = {"all": na.gen(nv, w), "none": na.gen(nv, w), "texts": (Unit(w(2)), Unit(w(0)))}.get(how) or na.gen(k, lambda i: w(sel(i)))
        for v in S.returns(I, "selected", run):
            S.eq(I, "exactly-those", v, LV(want))
    return fn
for AUX in (False, True):
    for HOW in ("all", "none", "indices", "texts", "names", "unknown"):
        PROOFS.append(("select/%s-%s" % ("aux" if AUX else "main", HOW), selection(AUX, HOW)))

# ---------------------------------------------------------------- axes
def axes(kind):
    """a name, the name it becomes, attributes expected"""
    nm, un, name, want = {"plain": ("Some Thing", "m", "some_thing", {}), "longitude": ("Longitude of station", "degrees", "longitude", {"standard_name": "longitude", "axis": "X"}),
        "latitude": ("LATITUDE", "degrees", "latitude", {"standard_name": "latitude", "axis": "Y"}), "level": ("Model level", "1", "level", {"standard_name": "level", "axis": "Z"}),
        "nounits": ("Some Thing", None, "some_thing", {"units": "Not known"}),
        "time": ("Time", "days since 2001-01-01 00:00:00", "time", {"standard_name": "time", "axis": "T"}), "time-given": ("Time of day", "seconds", "time", {"units": "hours since 2003-04-30 10:00:00", "axis": "T"})}[kind]
    def fn(S):
        def parts(I, fn, args, kw):
            record(I, "named", I.bind(fn, args, kw)["item"])
            return (nm, un)
        def is_time(I, fn, args, kw):
            at = I.obj(I.obj(args[0]).attrs["attrs"]).items
            return at.get("axis") == "T" or at.get("standard_name") == "time"
        I = S.interp({CORE + "._attemptVarAndUnitsMatch": parts, XU + ".is_time": is_time})
        data_array(I)
        H = I.ext_handlers
        H["getitem:columns"] = lambda I, v, i: Opq("column", (v.args[0], as_term(i)))
        k = z3.Int("K")
        I.assume(z3.And(k >= 0, k < 3))
        names = I.new_list([Unit(mk_text((Atom("XNAME", (z3.IntVal(i),), frozenset({"nonempty", "nonl"})),))) for i in range(3)])
        S.cover(I, "axes")
        for ffi in (1001, 1020, 3010):
            f = I.alloc(InstO(roundtrip.cls(I, ffi), {"FFI": ffi, "NIV": na.NIVS[ffi], "X": Opq("columns", ("X",)), "XNAME": names, "_normalized_X": True}))
            for i in range(na.NIVS[ffi]):
                def run():
                    o = converter(I, {"na_file_obj": f, "time_units": "hours since 2003-04-30 10:00:00" if kind == "time-given" else None, "time_warning": True, "output_message": I.new_list(())})
                    return I.call(I.getattr_(o, "_convertNAIndVarToXarrayAxis"), [i])
                n = "%d-%d-" % (ffi, i)
                for v in S.returns(I, n + "axis", run):
                    at = I.obj(v).attrs
                    d = at["<data>"]
                    S.holds(I, n + "values", same(d, Opq("columns", ("X",)) if na.NIVS[ffi] == 1 else Opq("column", ("X", as_term(i)))), "%r" % (d,))
                    S.eq(I, n + "name-of-this-axis", calls(I, "named")[0], I.getitem(names, i))
                    S.holds(I, n + "name", at["name"] == name, "%r" % (at["name"],))
                    S.holds(I, n + "dimension", at["dims"] == (name,), "%r" % (at["dims"],))
                    att = I.obj(at["attrs"]).items
                    for a, w in dict({"units": un}, **want).items():
                        S.holds(I, n + a, att.get(a) == w, "%r" % (att.get(a),))
                    if kind != "time-given":
                        S.eq(I, n + "long-name", att.get("long_name"), I.getitem(names, i))
    return fn
for KIND in ("plain", "longitude", "latitude", "level", "nounits", "time", "time-given"):
    PROOFS.append(("axis/" + KIND, axes(KIND)))

# ---------------------------------------------------------------- global attributes
LINE = frozenset({"nonempty", "nonl", "stripped", "notspecial"})
def globals_(case, sc, nc):
    def fn(S):
        I = S.interp({"nappy.utils.getVersion": lambda I, fn, a, k: "1.2", "nappy.utils.common_utils.getVersion": lambda I, fn, a, k: "1.2"})
        H = I.ext_handlers
        H["extern:time"] = lambda I, name, args, kw: "2001 02 03" if name.endswith("strftime") else Opq("now", ())
        T = lambda nm: mk_text((Atom(nm, (), LINE),))
        ns, nn = z3.Int("NS"), z3.Int("NN")
        I.assume(z3.And(ns >= 1, nn >= 1))
        hp = lambda k: I.getitem(env.func(I, NX.rsplit(".", 1)[0] + ".hp"), k)
        line = lambda nm: (lambda i: mk_text((Atom(nm, (i,), LINE),)))
        s0 = na.gen(ns, line("special")) if sc else ()
        n0 = na.gen(nn, line("normal")) if nc else ()
        mark = lambda a, s, b: (Unit(hp(a)),) + s + tuple(Unit(hp(x)) for x in b)
        s1 = mark("sc_start", s0, ("sc_end",)) if sc == "marked" else s0
        n1 = mark("nc_start", n0, ("nc_end", "data_next")) if nc == "marked" else n0
        S.cover(I, "header")
        user = {"none": [], "new": [("mine", T("MINE")), ("also", T("ALSO"))], "same": [("title", T("MINE")), ("history", T("HIST")), ("comment", T("COM")), ("institution", T("INST")), ("file_format_index", 7)]}[case]
        def run():
            f = I.alloc(InstO(roundtrip.cls(I, 1001), {"NLHEAD": mk_int(z3.Int("NLHEAD")), "FFI": 1001, "ONAME": T("ONAME"), "ORG": T("ORG"), "SNAME": T("SNAME"), "MNAME": T("MNAME"), "IVOL": mk_int(z3.Int("IVOL")), "NVOL": mk_int(z3.Int("NVOL")),
                 "RDATE": I.new_list([Unit(2001), Unit(2), Unit(3)]), "DATE": I.new_list([Unit(mk_int(z3.Int("D%d" % i))) for i in range(3)]),
                 "SCOM": I.new_list(s1), "NCOM": I.new_list(n1), "NSCOML": mk_int(I.seq_len(s1)), "NNCOML": mk_int(I.seq_len(n1))}))
            o = converter(I, {"na_file_obj": f, "global_attributes": I.new_list([Unit(u) for u in user]), "output_message": I.new_list(())})
            I.call(I.getattr_(o, "_mapNACommentsToGlobalAttributes"), [])
            return f, I.seq_of(I.obj(o).attrs["global_attributes"])
        for f, v in S.returns(I, "globals", run):
            keys = [u.v[0] for u in v]
            got = {u.v[0]: u.v[1] for u in v}
            S.holds(I, "each-once", len(keys) == len(set(keys)), "%r" % keys)
            at = I.obj(f).attrs
            mine = dict(user)
            for k, w in user:
                S.eq(I, "added-" + k, got.get(k), w)
            for k, w in (("no_of_nasa_ames_header_lines", "NLHEAD"), ("file_format_index", "FFI"), ("source", "SNAME"), ("title", "MNAME"), ("file_number_in_set", "IVOL"), ("total_files_in_set", "NVOL"), ("first_valid_date_of_data", "DATE")):
                if k not in mine:
                    S.eq(I, "header-" + w, got.get(k), at[w])
            if "institution" not in mine:
                S.eq(I, "institution", got.get("institution"), mk_text(text_of(at["ONAME"]) + (" (ONAME from NASA Ames file); ",) + text_of(at["ORG"]) + (" (ORG from NASA Ames file).",)))
            if "history" not in mine:
                h = text_of(got.get("history"))
                S.holds(I, "history", bool(h) and isinstance(h[0], str) and h[0].startswith("2001-02-03 "), "%r" % (h,))
            if "comment" not in mine:
                nl = lambda s: tuple(Gen(p.n, p.var, ("\n",) + text_of(p.body[0].v)) for p in s)
                w = ()
                if sc:
                    w += (hp("sc_start"),) + nl(s0) + ("\n", hp("sc_end"), "\n")
                if nc:
                    w += (hp("nc_start"),) + nl(n0) + ("\n", hp("nc_end"))
                S.eq(I, "comment", got.get("comment"), mk_text(w))
    return fn
for CASE, SC, NCC in (("none", "", ""), ("none", "plain", ""), ("none", "", "plain"), ("none", "plain", "plain"), ("none", "marked", "marked"), ("new", "", "plain"), ("same", "", "plain")):
    PROOFS.append(("globals/%s-%s-%s" % (CASE, SC or "no", NCC or "no"), globals_(CASE, SC, NCC)))

# ---------------------------------------------------------------- writing
def writing(names, naux):
    def fn(S):
        I = S.interp({})
        H = I.ext_handlers
        # a fixed-width integer is the same number
        H["extern:numpy"] = lambda I, name, args, kw: args[0] if name.split(".")[-1].startswith("int") else nope(name)
        def xr_(I, name, args, kw):
            if not name.endswith("Dataset"):
                raise Unsupported(name)
            e = dict(zip(("data_vars", "coords", "attrs"), args), **kw)
            r = I.alloc(InstO(None, {"attrs": I.alloc(DictO(dict(I.obj(e["attrs"]).items))), "data_vars": e["data_vars"]}, "Dataset"))
            record(I, "dataset", r)
            return r
        H["extern:xarray"] = xr_
        H["getattr:Dataset"] = lambda I, v, n: Opq("dataset." + n, (v,))
        def put(I, f, args, kw):
            record(I, "written", dict(zip(("path", "mode"), args), **dict(kw, dataset=f.args[0])))
        H["call:dataset.to_netcdf"] = put
        n = len(names)
        das = lambda: [I.alloc(InstO(None, {"name": x, "dims": ("time", "level"), "attrs": I.alloc(DictO({"nasa_ames_var_number": mk_int(z3.Int("N") + k), "units": given("U")}))}, "DataArray")) for k, x in enumerate(names)]
        S.cover(I, "variables")
        def run():
            d = das()
            g = [("title", given("T")), ("mine", given("M")), ("empty", ""), ("number", mk_int(z3.Int("G"))), ("numbers", LV((Unit(1), Unit(mk_int(z3.Int("G2")))))), ("texts", LV((Unit(given("T1")), Unit(given("T2"))))), ("real", fl(z3.Real("GR")))]
            o = I.alloc(InstO(env.func(I, NC), {"converted": True, "xr_variables": I.new_list([Unit(x) for x in d[:n - naux]]), "xr_aux_variables": I.new_list([Unit(x) for x in d[n - naux:]]), "global_attributes": I.new_list([Unit((k, I.new_list(x.seq) if isinstance(x, LV) else x)) for k, x in g])}))
            I.call(I.getattr_(o, "writeNCFile"), [given("FILE"), "a"])
            return d, dict(g)
        for d, g in S.returns(I, "written", run):
            ds, w = calls(I, "dataset"), calls(I, "written")
            S.holds(I, "once", len(ds) == 1 and len(w) == 1)
            S.holds(I, "that-one", w[0]["dataset"] == ds[0])
            o = I.obj(ds[0]).attrs
            it = I.obj(o["data_vars"]).items
            S.holds(I, "every-variable", list(it.values()) == d, "%r of %r" % (it, d))
            S.holds(I, "none-named-as-an-axis", not {"time", "level"} & set(it), "%r" % (it,))
            for x in names:
                if names.count(x) == 1 and x not in ("time", "a_2"):
                    S.holds(I, "own-name-" + x, it.get(x) == d[names.index(x)])
            for k, x in enumerate(d):
                S.eq(I, "number-%d" % k, I.obj(I.obj(x).attrs["attrs"]).items.get("nasa_ames_var_number"), mk_int(z3.Int("N") + k))
            at = I.obj(o["attrs"]).items
            for k in g:
                S.eq(I, "attribute-" + k, at.get(k), g[k])
            S.eq(I, "file", w[0]["path"], given("FILE"))
            S.holds(I, "mode", w[0]["mode"] == "a")
    return fn
for k, (NS, NA) in enumerate(((("a",), 0), (("a", "b", "c"), 1), (("a", "a"), 0), (("a", "a"), 1), (("a", "b", "a", "a_2", "a"), 2), (("time", "b"), 0), (("a_2", "a", "a"), 1))):
    PROOFS.append(("write/%s" % "-".join(NS) + ("-aux%d" % NA if NA else ""), writing(NS, NA)))

def refused(ffi):
    def fn(S):
        I = S.interp({})
        S.cover(I, "file")
        def run():
            f = I.alloc(InstO(roundtrip.cls(I, ffi), {"FFI": ffi}))
            return I.call(env.func(I, NX), [f])
        S.raises(I, "no-mapping", run, ("Exception",))
    return fn
for FFI in (2110, 2160, 2310):
    PROOFS.append(("refused/%d" % FFI, refused(FFI)))
