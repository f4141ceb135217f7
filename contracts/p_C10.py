"""C10: output split on a size limit consists of complete, numbered volumes."""
import z3
from pyvc.core import *
from pyvc import env, lib
from pyvc.interp import DictO, InstO, Opq
from . import na, record
from .record import calls, stub, given

Z, R = z3.IntSort(), z3.RealSort()
X2N = "nappy.nc_interface.xarray_to_na.XarrayToNA"

def log(I, k, e):
    l = I.fs[k]
    I.call_method(l, "append", [e], {})

def values(I, v):
    """the value of a list, with the lists in it"""
    q = I.list_seq(v)
    if q is None:
        return v
    return LV(deep(I, q))

def deep(I, q):
    return tuple(Unit(values(I, p.v)) if isinstance(p, Unit) else Gen(p.n, p.var, deep(I, p.body)) if isinstance(p, Gen) else p for p in q)

def opened(I, e):
    """openNAFile(name, mode, dictionary): the file that gets written"""
    o = I.alloc(InstO(env.func(I, "nappy.na_file.na_file.NAFile"), {"<e>": e}))
    return o

def written(I, e):
    o = I.obj(e["self"]).attrs["<e>"]
    d = I.obj(o["na_dict"]).items
    base = I.fs["<dict>"]
    kept = tuple(sorted(k for k in base if k not in ("X", "V", "IVOL", "NVOL") and k in d and same(I, base[k], d[k])))
    log(I, "<log>", (o["filename"], o["mode"], values(I, d["X"]), values(I, d["V"]), d["IVOL"], d["NVOL"], kept, tuple(sorted(set(d) ^ set(base))),
                     e["delimiter"], e["float_format"], e["annotation"], e["no_header"]))

def same(I, a, b):
    return a is b or a == b or same_val(I, a, b)

def same_val(I, a, b):
    try:
        return bool(I.eq_val(values(I, a), values(I, b)))
    except Unsupported:
        return False

def closed(I, e):
    log(I, "<closed>", I.obj(e["self"]).attrs["<e>"]["filename"])

def quiet(f):
    def h(I, fn, args, kw):
        return f(I, I.bind(fn, args, kw))
    return h
STUBS = {"nappy.nappy_api.openNAFile": quiet(opened), "nappy.na_file.na_file.NAFile.write": quiet(written),
         "nappy.na_file.na_file.NAFile.close": quiet(closed)}

def name_of(base, ext, j):
    j = simp(as_term(j))
    if z3.is_int_value(j):
        return "dir/%s-%03d%s" % (base, j.as_long(), ext)
    return mk_text(("dir/" + base + "-", Atom("tok", ("%03d", j)), ext))

FIELDS = ("name", "mode", "X", "V", "IVOL", "NVOL", "other-items", "keys", "delimiter", "float_format", "annotation", "no_header")

def volume(B, kept, base, ext, j, L, size, total):
    """what the j-th (from 0) volume has to be: `size` rows from row j*L on"""
    i, v = fresh_int("i"), fresh_int("v")
    row = lambda: LV((Gen(size, i, (Unit(Sc("float", na.F("V", Z, Z, R)(v, L * j + i))),)),))
    return (name_of(base, ext, j + 1), "w", LV((Gen(size, i, (Unit(Sc("float", na.F("X", Z, R)(L * j + i))),)),)), LV((Gen(B.NV, v, (Unit(row()),)),)),
            mk_int(j + 1), mk_int(total), kept, (), given("delimiter"), given("float_format"), True, True)

def volumes(base, ext, case):
    """case: `exact` (the last volume is full too), `rest` (it is not) or `one` (fewer rows than the limit)"""
    def fn(S):
        I = S.interp(dict(STUBS))
        B = na.Dict(I, 1001)
        d = na.make_dict(B, {"NAUXV": 0, "OTHER": given("OTHER")})
        L, q, r = z3.Int("LIMIT"), z3.Int("FULL"), z3.Int("REST")
        I.assume(L >= 1)
        I.assume(q == 0 if case == "one" else q >= 1)
        I.assume(r == 0 if case == "exact" else z3.And(r >= 1, r < L))
        I.assume(B.M == (q * L + r if case == "rest" else q * L if case == "exact" else r))
        total = q if case == "exact" else q + 1
        # every number of rows is q*L + r, and that is what divmod() finds
        I.assume(B.M / L == q)
        I.assume(B.M % L == r)
        if case != "one":
            I.ghost_ints = [q]
            I.factors = [L]
        I.partial_loops = True
        S.cover(I, "dictionary")
        def run():
            for k in ("<log>", "<closed>"):
                I.fs[k] = I.new_list(())
            I.fs["<dict>"] = dict(I.obj(d).items)
            o = I.alloc(InstO(env.func(I, X2N), {"output_message": I.new_list(())}))
            names = I.call(I.getattr_(o, "_writeNAFileSubsetsWithinSizeLimit"), [d, "dir/" + base + ext],
                          {"delimiter": given("delimiter"), "float_format": given("float_format"), "size_limit": mk_int(L), "annotation": True, "no_header": True})
            after = dict(I.obj(d).items)
            return names, after
        for names, after in S.returns(I, "write", run):
            kept = tuple(sorted(k for k in after if k not in ("X", "V", "IVOL", "NVOL")))
            j = fresh_int("j")
            def spec(f):
                """f(j, size) for every volume, in order"""
                full = () if case == "one" else (Gen(q, j, (Unit(f(j, L)),)),)
                return full + (() if case == "exact" else (Unit(f(q if case == "rest" else z3.IntVal(0), r)),))
            want = lambda k: LV(spec(lambda j, n: volume(B, kept, base, ext, simp(as_term(j)), L, n, total)[k]))
            got = I.norm(I.list_seq(I.fs["<log>"]))
            for k, f in enumerate(FIELDS):
                have = LV(field(got, k))
                S.eq(I, "volume-" + f, have, want(k))
            S.eq(I, "returned-names", names, want(0))
            S.eq(I, "closed", LV(I.list_seq(I.fs["<closed>"])), want(0))
            S.holds(I, "dictionary-kept", all(after[k] is I.fs["<dict>"].get(k) or after[k] == I.fs["<dict>"].get(k) for k in after) and set(after) == set(I.fs["<dict>"]), "the dictionary given was changed")
    return fn

def field(q, k):
    return tuple(Unit(p.v[k]) if isinstance(p, Unit) else Gen(p.n, p.var, field(p.body, k)) for p in q)

PROOFS = []
for BASE, EXT in (("out", ".na"), ("a.b", ".nas"), ("plain", "")):
    for C in ("exact", "rest", "one"):
        PROOFS.append(("volumes/%s%s-%s" % (BASE, EXT, C), volumes(BASE, EXT, C)))

# ------------------------------------------------------------------ which files are split, and the names of all of them
def dispatch(formats, limit):
    """one dictionary per format; `limit`: whether more rows than the limit ("over") or no more ("within")"""
    def fn(S):
        K = len(formats)
        part = lambda n, j: given("VOLUME%d-of-%s" % (j, n))
        ns = ["NAME%d" % j for j in range(K)]
        def split(I, e):
            n = [k for k in ns if same(I, e["file_name"], given(k))]
            return I.new_list([Unit(part(n[0] if n else "?", j)) for j in range(2)])
        con = {X2N + ".constructNAFileNames": stub("names", lambda I, e: I.new_list([Unit(given(n)) for n in ns])),
               X2N + "._writeNAFileSubsetsWithinSizeLimit": stub("split", split)}
        con.update(STUBS)
        I = S.interp(con)
        env.func(I, X2N)
        Bs = [na.Dict(I, f) for f in formats]
        S.cover(I, "dictionary")
        L = z3.Int("LIMIT")
        I.assume(L >= 1)
        if limit != "none":
            I.assume(Bs[0].M > L if limit == "over" else Bs[0].M <= L)
        def run():
            for k in ("<log>", "<closed>"):
                I.fs[k] = I.new_list(())
            X = I.call(env.func(I, X2N), [I.new_list(())])
            ds = [na.make_dict(b, {} if b.hasaux else {"NAUXV": 0}) for b in Bs]
            I.fs["<dict>"] = dict(I.obj(ds[0]).items)
            none = lambda: I.new_list(())
            I.obj(X).attrs.update(converted=True, na_dict_list=I.new_list([Unit((d, I.new_list([Unit(none()), Unit(none()), Unit(none())]))) for d in ds]))
            I.call(I.getattr_(X, "writeNAFiles"), [given("output")], {"size_limit": None if limit == "none" else mk_int(L)})
            return X, ds
        for X, ds in S.returns(I, "write", run):
            sp = calls(I, "split")
            listed, whole = [], []
            for d, b, n in zip(ds, Bs, ns):
                mine = [e for e in sp if e["this_na_dict"] == d]
                if mine:
                    S.eq(I, "name-%s" % n, mine[0]["file_name"], given(n))
                    S.eq(I, "limit-%s" % n, mine[0]["size_limit"], mk_int(L))
                    S.holds(I, "split-once-%s" % n, len(mine) == 1, "%d times" % len(mine))
                    S.holds(I, "split-format-%s" % n, b.ffi == 1001, "FFI %s is split" % b.ffi)
                    listed += [Unit(part(n, j)) for j in range(2)]
                else:
                    if limit == "over" and b.ffi == 1001:
                        S.holds(I, "limit-kept-%s" % n, False, "a file of more rows than the limit")
                    listed.append(Unit(given(n)))
                    whole.append(Unit(given(n)))
            S.holds(I, "split-own", len(sp) == len([e for e in sp if e["this_na_dict"] in ds]), "another dictionary is split")
            names = LV(field(I.norm(I.list_seq(I.fs["<log>"])), 0))
            S.eq(I, "whole-files", names, LV(whole))
            S.eq(I, "returned-names", LV(I.list_seq(I.getattr_(X, "output_files_written"))), LV(listed))
    return fn

def filenames(given_name, src, many):
    """the names of the files of K dictionaries are all different"""
    def fn(S):
        I = S.interp({})
        env.func(I, X2N)
        K = z3.Int("K")
        I.assume(K >= 2 if many else K == 1)
        def run():
            X = I.alloc(InstO(env.func(I, X2N), {"nc_file": src, "converted": True,
                                                 "na_dict_list": I.new_list((Gen(K if many else 1, fresh_int("k"), (Unit(Opq("value", ("dictionary",))),)),))}))
            return I.call(I.getattr_(X, "constructNAFileNames"), [given_name] if given_name else [])
        for v in S.returns(I, "names", run):
            base, ext = (given_name or src[:-3] if src.endswith(".nc") else given_name or src), ".na"
            if given_name:
                base, ext = given_name.rsplit(".", 1) if "." in given_name else (given_name, "")
                ext = "." + ext if ext else ""
            k = fresh_int("k")
            if many:
                S.eq(I, "names", v, LV((Gen(K, k, (Unit(mk_text((base + "_", Atom("tok", ("%d", simp(k + 1))), ext))),)),)))
            else:
                S.eq(I, "names", v, LV((Unit(base + ext),)))
    return fn

for FS in ((1001,), (1001, 1001), (1010,), (2010,), (2110,), (1001, 2010), (1001, 3010), (1001, 4010)):
    for LIM in ("over", "within", "none"):
        PROOFS.append(("dispatch/%s-%s" % ("+".join(map(str, FS)), LIM), dispatch(FS, LIM)))
for G, SRC in ((None, "dir/in.nc"), (None, "in"), ("dir/a.b.na", "in.nc"), ("plain", "in.nc")):
    for MANY in (False, True):
        PROOFS.append(("names/%s-%s" % (G or SRC, "many" if MANY else "one"), filenames(G, SRC, MANY)))
