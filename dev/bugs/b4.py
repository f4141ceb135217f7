import runpy, os
COMMON = runpy.run_path(os.path.join(os.path.dirname(__file__), "b1.py"))["COMMON"]
BUGS = {}
NC = "nappy/na_file/na_core.py"
BUGS["c16-2160-char-scale"] = dict(property="C16", file=NC,
    edits=[("        if self.NAUXC is None or avar_number < (self.NAUXV - self.NAUXC):", "        if self.NAUXC is None or avar_number < self.NAUXC:")],
    needs="an FFI 2160 object with more numeric than character auxiliary variables",
    breaks="getAuxVariable gives no scale factor for numeric auxiliary variables",
    demo=COMMON + '''
X = [["STN A", [1.0, 2.0]], ["STN B", [5.0]]]
V = [[[10.0, 11.0], [12.0]]]
def d(na, nc):
    n = na - nc
    return base(2160, X=X, DX=[0], LENX=5, XNAME=["h (m)", "station"], NV=1, VSCAL=[1], VMISS=[-9], VNAME=["a"], NAUXV=na, NAUXC=nc, NX=[2, 1],
         ASCAL=[1] * n, AMISS=[-9] * n + ["zz"] * nc, ANAME=["n (m)"] * na, LENA=[None] * n + [8] * nc, A=[[2, 1]] * n + [["ab", "e"]] * nc, V=V)
g = rt(d(2, 1))
assert [a[3] for a in g.getAuxVariables()] == [1, None], g.getAuxVariables()
g = rt(d(4, 1))
assert [a[3] for a in g.getAuxVariables()] == [1, 1, 1, None], g.getAuxVariables()
''')
BUGS["c16-zero-items"] = dict(property="C16", file=NC,
    edits=[("            if dct[key] is not None:", "            if dct[key] not in (None, []):")],
    needs="a file with an empty list among its contents (no comments)",
    breaks="the dictionary of contents lacks items that are defined",
    demo=COMMON + '''
d = base(1001, X=[1.0, 2.0, 3.0], V=[[3.0, 4.0, 5.0]], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"])
g = rt(d)
n = g.getNADict()
assert n["SCOM"] == [] and n["NCOM"] == [] and n["NSCOML"] == 0, n
''')
BUGS["c16-shallow-copy"] = dict(property="C16", file=NC,
    edits=[("        self.na_dict = copy.deepcopy(na_dict)", "        self.na_dict = dict((key, list(value) if isinstance(value, list) else value) for (key, value) in na_dict.items())")],
    needs="the caller changing a nested list (the values of one variable) after setNADict",
    breaks="the object shares the inner lists with the caller",
    demo=COMMON + '''
from nappy.na_file.na_core import NACore
d = base(1001, X=[1.0], V=[[3.0], [4.0]], NV=2)
o = NACore()
o.setNADict(d)
d["V"][1][0] = 99.0
d["V"].append(1)
assert o.na_dict["V"] == [[3.0], [4.0]], o.na_dict["V"]
''')
BUGS["c16-dates-sorted"] = dict(property="C16", file=NC,
    edits=[("        return (self.DATE, self.RDATE)", "        return tuple(sorted((self.DATE, self.RDATE)))")],
    needs="a revision date before the date of the data",
    breaks="getFileDates gives the revision date as date of the data",
    demo=COMMON + '''
d = base(1001, X=[1.0, 2.0, 3.0], V=[[3.0, 4.0, 5.0]], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"], DATE=[2010, 1, 1])
g = rt(d)
assert g.getFileDates() == ([2010, 1, 1], [2004, 5, 6]), g.getFileDates()
''')
BUGS["c16-comments-trimmed"] = dict(property="C16", file=NC,
    edits=[("        return self.NCOM\n", "        while self.NCOM and not self.NCOM[-1]:\n            self.NCOM.pop()\n        return self.NCOM\n")],
    needs="a file whose last normal comment line is blank",
    breaks="asking for the comments changes the object, whose NNCOML no longer agrees",
    demo=COMMON + '''
d = base(1001, X=[1.0, 2.0, 3.0], V=[[3.0, 4.0, 5.0]], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"], NNCOML=2, NCOM=["x", ""])
g = rt(d)
assert len(g.getNormalComments()) == 2 and len(g.NCOM) == g.NNCOML == 2, g.NCOM
''')
