"""C11: no variable lost or duplicated on conversion"""
from common import *
import ncdata
import numpy as np, xarray as xr
from grouping_gen import variables
RULE = "random collections of 1 to 9 in-memory variables of rank 0 to 4 over shared, different, one-value-different and sub-sampled axes, some with earlier NASA Ames numbers and some sharing a name, with and without an index requested; the names over all files the conversion produces are compared with those given, and the variables in the files written with an independent count from their headers."

def names(vs, written):
    """names written, with those of variables without dimensions as given"""
    zero = {"%s (%s)" % (v.name, v.attrs.get("units")): v.name for v in vs if v.ndim == 0}
    return [zero.get(n, n) for n in written]

def collections(rng, sp):
    from nappy.nc_interface.xarray_to_na import XarrayToNA
    vs, req, what = variables(rng)
    x = XarrayToNA(list(vs), list(ncdata.GLOBALS), requested_ffi=req)
    inp = {"variables": what, "requested_ffi": req}
    try:
        r = x.convert()
    except Exception as e:
        check(type(e) is Exception and "Cannot write" in str(e), "raises", "%s: %s" % (type(e).__name__, e), inp)
        return (("refused", req), None)
    if all(v.ndim == 0 for v in vs):
        check(r is None, "singletons", "only singletons: %r" % (r,), inp)
        return None
    got = names(vs, [n for d, ids in r for l in ids for n in l])
    check(sorted(got) == sorted(v.name for v in vs), "names", "variables given %s; in the files %s" % (sorted(v.name for v in vs), [ids for d, ids in r]), inp)
    for d, ids in r:
        check(ids[0], "empty-file", "a file without variables: %s" % (ids,), inp)
    one = {v.name for v in vs}
    if len(one) == len(vs):
        # numbers tell variables apart: every value of every variable is its own
        for d, ids in r:
            for n, V in zip(ids[0], d["V"]):
                v = [v for v in vs if v.name == n][0]
                check(np.array_equal(np.array(V, dtype=float).ravel(), v.values.ravel()), "values", "values of %s are those of another variable" % n, inp)
    return ((len(vs), len(r), tuple(sorted(v.ndim for v in vs))), {"names": got})

def left_over(rng, sp):
    """one pass: written once or left over once"""
    from nappy.nc_interface.na_content_collector import NAContentCollector
    vs, req, what = variables(rng)
    c = NAContentCollector(list(vs), list(ncdata.GLOBALS), requested_ffi=req)
    inp = {"variables": what, "requested_ffi": req}
    try:
        c.collectNAContent()
    except Exception as e:
        check(type(e) is Exception and "Cannot write" in str(e), "raises", "%s: %s" % (type(e).__name__, e), inp)
        return None
    if not c.found_na:
        check(all(v.ndim == 0 for v in vs), "nothing", "nothing found", inp)
        return None
    got = names(vs, [n for l in c.var_ids for n in l]) + [v.name for v in c.unused_vars]
    check(sorted(got) == sorted(v.name for v in vs), "one-pass", "given %s; used %s; left over %s" % ([v.name for v in vs], c.var_ids, [v.name for v in c.unused_vars]), inp)
    check(len(c.unused_vars) < len(vs), "no-progress", "all left over", inp)
    return ((len(vs), len(c.unused_vars)), None)

CASES = [collections, left_over]
