import runpy, os
COMMON = runpy.run_path(os.path.join(os.path.dirname(__file__), "b1.py"))["COMMON"]
BUGS = {}
XR = COMMON + '''
import nappy, numpy as np, xarray as xr
def ax(n, v): return xr.DataArray(np.array(v, dtype=float), dims=(n,), name=n, attrs={"units": "m", "long_name": n})
def arr(name, *axes):
    s = [a.size for a in axes]
    return xr.DataArray(np.arange(float(np.prod(s))).reshape(s) + 1, dims=[a.dims[0] for a in axes], coords={a.dims[0]: a for a in axes}, name=name, attrs={"units": "K", "long_name": name})
def conv(vs, out="o.na", **kw):
    return nappy.convertXarrayObjectsToNA(vs, [("title", "x")], out, **kw)
def ffis(fs): return [int(open(f).readline().split()[1]) for f in fs]
'''
CC = "nappy/nc_interface/na_content_collector.py"
BUGS["c07-2310-forced"] = dict(property="C07", file=CC,
    edits=[("""            if self.requested_ffi not in ffis_limited:
                raise Exception(f"Cannot write this data to FFI '{self.requested_ffi}', can only write to: {ffis_limited}.")
            else:
                return self.requested_ffi
""", """            if self.requested_ffi in ffis_limited:
                return self.requested_ffi
""")],
    needs="FFI 2310 requested for variables whose second axis is not evenly spaced",
    breaks="data that does not fit FFI 2310 is written to it",
    demo=XR + '''
v = arr("v", ax("t", [0, 1, 2]), ax("z", [0, 1, 5]))
try:
    conv([v], requested_ffi=2310)
except Exception as e:
    assert "2310" in str(e), e
else:
    sys.exit("accepted")
assert ffis(conv([v], requested_ffi=2110)) == [2110]
''')
BUGS["c07-1001-replaced"] = dict(property="C07", file=CC,
    edits=[("        if self.requested_ffi and ffi != self.requested_ffi:", "        if self.requested_ffi and ffi < self.requested_ffi:")],
    needs="a request for a lower index than the one that fits (1001 for three-dimensional data)",
    breaks="the index requested is silently replaced",
    demo=XR + '''
v = arr("v", ax("t", [0, 1, 2]), ax("z", [0, 1, 5]), ax("y", [1, 2]))
try:
    r = conv([v], requested_ffi=1001)
except Exception as e:
    pass
else:
    sys.exit("written as %s" % ffis(r))
''')
BUGS["c07-second-pass"] = dict(property="C07", file="nappy/nc_interface/xarray_to_na.py",
    edits=[("""NAContentCollector(collector.unused_vars, 
                                        self.global_attributes, requested_ffi=self.requested_ffi,
                                        )""", """NAContentCollector(collector.unused_vars, 
                                        self.global_attributes, 
                                        )""")],
    needs="variables that need several files and an index requested",
    breaks="the index requested is silently replaced in all files but the first",
    demo=XR + '''
a, b = arr("a", ax("t", [0, 1, 2]), ax("z", [0, 1, 5])), arr("b", ax("t", [0, 1, 2, 4]), ax("z", [0, 1, 5]))
assert ffis(conv([a, b], requested_ffi=2110)) == [2110, 2110]
''')
BUGS["c07-ignored-lines"] = dict(property="C07", file="nappy/utils/common_utils.py",
    edits=[("        for i in range(ignore_header_lines):\n            fin.readline()\n        topline = fin.readline()", "        for i in range(min(ignore_header_lines, 1)):\n            fin.readline()\n        topline = fin.readline()")],
    needs="a file with two or more lines to ignore before its header",
    breaks="the index is read from one of the lines to be ignored",
    demo=COMMON + '''
import nappy
from nappy.na_file.na_file_1001 import NAFile1001
d = base(1001, X=[1.0, 2.0], V=[[3.0, 4.0]], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"])
f = NAFile1001("x.na", mode="w", na_dict=d); f.write(); f.close()
t = open("x.na").read()
open("y.na", "w").write("12 2010\\n7 1010\\n" + t)
assert nappy.readFFI("y.na", 2) == 1001
r = nappy.openNAFile("y.na", ignore_header_lines=2)
assert type(r).__name__ == "NAFile1001" and r.FFI == 1001, r
''')
BUGS["c07-1020-index"] = dict(property="C07", file="nappy/utils/common_utils.py",
    edits=[('        elif "NVPM" in d:', '        elif d.get("NVPM", 1) > 1:')],
    needs="a dictionary of implied values with one value per mark (NVPM 1) and no index",
    breaks="FFI 1010 is chosen for data whose structure is that of FFI 1020",
    demo=COMMON + '''
import nappy
d = base(1020, X=[1.0, 2.0], V=[[3.0, 4.0]], DX=[1.0], NVPM=1, XNAME=["t (s)"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"], NAUXV=0, ASCAL=[], AMISS=[], ANAME=[], A=[])
d.pop("FFI")
assert nappy.chooseFFI(d) == 1020, nappy.chooseFFI(d)
''')
