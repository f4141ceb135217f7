import runpy, os
XR = runpy.run_path(os.path.join(os.path.dirname(__file__), "b6.py"))["XR"]
BUGS = {}
CC = "nappy/nc_interface/na_content_collector.py"
XU = "nappy/nc_interface/xarray_utils.py"
F2, F1 = "nappy/na_file/na_file_2010.py", "nappy/na_file/na_file_1020.py"
DEF = XR + '''
from nappy.nc_interface.xarray_to_na import XarrayToNA
def dic(vs, **kw): return XarrayToNA(list(vs), [("title", "x")], **kw).convert()[0][0]
def readback(d):
    f = nappy.openNAFile("o.na", "w", d)
    f.write(float_format="%.10g", delimiter="    ")
    f.close()
    g = nappy.openNAFile("o.na")
    g.readData()
    g._normalizeIndVars()
    return g.X
def even1020(n, k):
    t = ax("t", np.arange(n) * 2.0)
    return [arr("v", t), arr("a", ax("t", np.arange(n)[::k] * 2.0))]
'''
BUGS["c13-last-interval"] = dict(property="C13", file=CC,
    edits=[("        for i in range(1, length):\n", "        for i in range(1, min(length, 4)):\n")],
    needs="a second axis of more than four points that is even over its first four",
    breaks="an uneven axis is abbreviated",
    demo=DEF + '''
t = ax("t", [0, 1, 2])
d = dic([arr("v", t, ax("z", [0, 2, 4, 7]))])
assert d["NXDEF"] == [4] and d["DX"][1] == 0
assert readback(dic([arr("v", t, ax("z", [0, 2, 4, 6, 9]))]))[1] == [0, 2, 4, 6, 9]
''')
BUGS["c13-other-increment"] = dict(property="C13", file=F2,
    edits=[("                    nextx = self.X[i + 1][count] + self.DX[i + 1]", "                    nextx = self.X[i + 1][count] + self.DX[-1]")],
    needs="three or more dimensions whose second and last axes are abbreviated with different increments",
    breaks="an axis is expanded with another axis' increment",
    demo=DEF + '''
t, z, y = ax("t", [0, 1, 2]), ax("z", [0, 2, 4, 6, 8]), ax("y", [5, 6, 7, 8])
assert readback(dic([arr("v", t, z)]))[1] == [0, 2, 4, 6, 8]
assert readback(dic([arr("v", t, z, y)]))[1] == [0, 2, 4, 6, 8]
''')
BUGS["c13-expanded-twice"] = dict(property="C13", file=F1,
    edits=[("        if self._normalized_X: return\n", "        if self._normalized_X and self.NVPM == 1: return\n")],
    needs="an FFI 1020 file whose axis is expanded a second time",
    breaks="an axis grows beyond its declared length",
    demo=DEF + '''
d = dic(even1020(6, 3), requested_ffi=1020)
assert readback(d) == [0, 2, 4, 6, 8, 10]
g = nappy.openNAFile("o.na")
g.readData()
g._normalizeIndVars(); g._normalizeIndVars()
assert g.X == [0, 2, 4, 6, 8, 10], g.X
''')
BUGS["c13-first-axis-end"] = dict(property="C13", file=CC,
    edits=[("                    for i in range(1, len(self.ax0)):\n", "                    for i in range(1, len(self.ax0) - 1):\n")],
    needs="a first axis whose last interval alone differs",
    breaks="an increment is recorded for an uneven axis",
    demo=DEF + '''
assert dic([arr("v", ax("t", [0, 1, 2]))])["DX"] == [1]
assert dic([arr("v", ax("t", [0, 1, 3, 4]))])["DX"] == [0]
assert dic([arr("v", ax("t", [0, 1, 2, 4]))])["DX"] == [0]
''')
BUGS["c13-nearly-uniform"] = dict(property="C13", file=XU,
    edits=[("    return all(np.linspace(start, end, length) == arr)", "    return np.allclose(np.linspace(start, end, length), arr)")],
    needs="FFI 2310 requested for a second axis that is nearly, but not exactly, even",
    breaks="an axis that is not even is written as first value and increment",
    demo=DEF + '''
t = ax("t", [0, 1, 2])
assert dic([arr("v", t, ax("z", [1000, 1001, 1002]))], requested_ffi=2310)["FFI"] == 2310
try:
    dic([arr("v", t, ax("z", [1000, 1001.001, 1002]))], requested_ffi=2310)
except Exception as e:
    assert "Cannot write" in str(e)
else:
    sys.exit("accepted")
''')
BUGS["c13-1020-first"] = dict(property="C13", file=CC,
    edits=[("""                    self.na_dict["X"] = vals[0:len(vals):self.na_dict["NVPM"]] """, """                    self.na_dict["X"] = vals[0:len(vals) // self.na_dict["NVPM"] * 2:2] """)],
    needs="FFI 1020 with three or more implied points per record",
    breaks="the points recorded are not those the records start at",
    demo=DEF + '''
assert readback(dic(even1020(6, 2), requested_ffi=1020)) == [0, 2, 4, 6, 8, 10]
assert readback(dic(even1020(6, 3), requested_ffi=1020)) == [0, 2, 4, 6, 8, 10]
''')
