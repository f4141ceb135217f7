COMMON = '''
import nappy
def base(ffi, **kw):
    d = {"FFI": ffi, "NLHEAD": 1, "ONAME": "o n", "ORG": "org", "SNAME": "s", "MNAME": "m", "IVOL": 1, "NVOL": 1,
         "DATE": [2001, 2, 3], "RDATE": [2004, 5, 6], "NIV": ffi // 1000, "NSCOML": 0, "SCOM": [], "NNCOML": 0, "NCOM": []}
    d.update(kw)
    return d
def rt(d, cls=None, **kw):
    import importlib
    m = getattr(importlib.import_module("nappy.na_file.na_file_%d" % d["FFI"]), "NAFile%d" % d["FFI"])
    f = m("t.na", mode="w", na_dict=d); f.write(**kw); f.close()
    g = m("t.na", mode="r"); g.readData(); return g
'''
BUGS = {}
BUGS["c01-2160-char-aux"] = dict(property="C01", file="nappy/na_file/na_file_2160.py",
    edits=[("auxc) = nappy.utils.text_parser.readItemsFromLines(datalines[:self.NAUXC], self.NAUXC, str)\n",
            "auxc) = nappy.utils.text_parser.readItemsFromLines(datalines[:self.NAUXC], self.NAUXC, str)\n        auxc = [item.split('  ')[0] for item in auxc]\n")],
    needs="an FFI 2160 character auxiliary value containing two consecutive blanks",
    breaks="the rest of the character value is lost",
    demo=COMMON + '''
X = [["STN A", [1.0, 2.0]], ["STN B", [5.0]]]
V = [[[10.0, 11.0], [12.0]]]
d = base(2160, X=X, DX=[0], LENX=5, XNAME=["h (m)", "station"], NV=1, VSCAL=[1], VMISS=[-9], VNAME=["a"], NAUXV=3, NAUXC=2, NX=[2, 1],
         ASCAL=[1], AMISS=[-9, "zz", "yy"], ANAME=["n", "c1", "c2"], LENA=[None, 8, 8], A=[[2, 1], ["ab  cd", "e"], ["f", "g  h"]], V=V)
g = rt(d)
assert g.A == d["A"], g.A
''')
BUGS["c01-4010-order"] = dict(property="C01", file="nappy/utils/list_manipulator.py",
    edits=[("        if len(dimlist[1:]) > 0:\n            for i in range(dimlist[0]):\n                self.writeLines(inlist[i], dimlist[1:],",
            "        if len(dimlist[1:]) > 0:\n            for i in (range(dimlist[0]) if len(dimlist) != 3 or dimlist[0] < 4 else range(dimlist[0] - 1, -1, -1)):\n                self.writeLines(inlist[i], dimlist[1:],")],
    needs="an FFI 4010 file with four or more values on its second axis",
    breaks="the order of the second axis is reversed in the data",
    demo=COMMON + '''
X = [[0.0, 1.0], [1.0, 2.0, 3.0, 4.0], [10.0, 20.0], [1.0, 2.0]]
k = [0.0]
def nest(dims):
    if not dims:
        k[0] += 1.0
        return k[0]
    return [nest(dims[1:]) for i in range(dims[0])]
V = [nest([2, 4, 2, 2])]
d = base(4010, X=X, DX=[0, 0, 0, 0], NX=[4, 2, 2], NXDEF=[4, 2, 2], XNAME=["t (s)", "h (m)", "l (m)", "k"], NV=1, VSCAL=[1], VMISS=[-9], VNAME=["a"], NAUXV=0,
         ASCAL=[], AMISS=[], ANAME=[], A=[], V=V)
g = rt(d)
assert g.X == X and g.V == V, (g.X, g.V)
''')
BUGS["c01-2310-nx"] = dict(property="C01", file="nappy/na_file/na_file_2310.py",
    edits=[("            for i in range(self.NX[ivar_count]):\n                self.V[n][ivar_count].append(v[count])",
            "            for i in range(self.NX[ivar_count]):\n                count = n * self.NX[0] + i if self.NX[0] < self.NX[ivar_count] else count\n                self.V[n][ivar_count].append(v[count])")],
    needs="an FFI 2310 file with two or more variables and a record with more points than the first record",
    breaks="values of the second variable are taken from the first",
    demo=COMMON + '''
X = [[0.0, [1.0]], [1.0, [2.0]]]
V = [[[10.0, 11.0], [12.0, 13.0, 14.0]], [[20.0, 21.0], [22.0, 23.0, 24.0]]]
d = base(2310, X=X, DX=[0, 1.0, 1.0], XNAME=["t (s)", "h (m)"], NV=2, VSCAL=[1, 1], VMISS=[-9, -9], VNAME=["a", "b"], NAUXV=3, NX=[2, 3],
         ASCAL=[1] * 3, AMISS=[-9] * 3, ANAME=["n", "x", "dx"], A=[[2, 3], [1.0, 2.0], [1.0, 1.0]], V=V)
g = rt(d)
assert g.V == V, (g.V)
''')
BUGS["c02-aux-miss-scale"] = dict(property="C02", file="nappy/na_file/na_file.py",
    edits=[("self.ASCAL = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXV, float)\n            self.AMISS = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXV, float)\n            self.ANAME",
            "(self.ASCAL, self.AMISS) = (self._readAux(), self._readAux())\n            if self.NAUXV > 3: self.AMISS = self.AMISS[:1] + self.AMISS[2:3] + self.AMISS[1:2] + self.AMISS[3:]\n            self.ANAME"),
           ("    def _readCharAuxVariablesHeaderSection(self):", "    def _readAux(self):\n        return nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXV, float)\n\n    def _readCharAuxVariablesHeaderSection(self):")],
    needs="a file with four or more auxiliary variables with different missing values",
    breaks="two auxiliary missing values are exchanged when the header is read",
    demo=COMMON + '''
d = base(1010, X=[0.0, 1.0], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1], VMISS=[-9], VNAME=["a"], NAUXV=4,
         ASCAL=[1, 2, 3, 4], AMISS=[-1, -2, -3, -4], ANAME=["p", "q", "r", "s"], A=[[1.0, 2.0]] * 4, V=[[5.0, 6.0]])
g = rt(d)
assert g.AMISS == [-1, -2, -3, -4] and g.ASCAL == [1, 2, 3, 4], g.AMISS
''')
BUGS["c02-2010-nxdef-order"] = dict(property="C02", file="nappy/na_file/na_file_2010.py",
    edits=[("X_lines.append((self.format * self.NXDEF[i] % tuple(self.X[i + 1][0:self.NXDEF[i]])).rstrip(\" ,\") + \"\\n\")\n\n        X_lines.reverse()",
            "X_lines.append((self.format * self.NXDEF[i] % tuple(self.X[i + 1][0:self.NXDEF[i]])).rstrip(\" ,\") + \"\\n\")\n\n        X_lines.sort(key=len)\n        X_lines.reverse()")],
    needs="an FFI 3010 or 4010 file whose axis definition lines have different lengths in the unusual order",
    breaks="axis definitions are written in an order that is not that of their axes",
    demo=COMMON + '''
X = [[0.0, 1.0], [1.0, 2.0, 3.0], [10.0, 20.0]]
V = [[[[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]], [[7.0, 8.0], [9.0, 10.0], [11.0, 12.0]]]]
d = base(3010, X=X, DX=[0, 0, 0], NX=[3, 2], NXDEF=[3, 2], XNAME=["t (s)", "h (m)", "l (m)"], NV=1, VSCAL=[1], VMISS=[-9], VNAME=["a"], NAUXV=0,
         ASCAL=[], AMISS=[], ANAME=[], A=[], V=V)
g = rt(d)
assert g.X == X and g.V == V, (g.X, g.V)
X = [[0.0, 1.0], [1.0, 2.0], [10.0, 20.0, 30.0]]
V = [[[[1.0, 2.0, 3.0], [3.0, 4.0, 9.0]], [[7.0, 8.0, 9.0], [9.0, 10.0, 11.0]]]]
d = base(3010, X=X, DX=[0, 0, 0], NX=[2, 3], NXDEF=[2, 3], XNAME=["t (s)", "h (m)", "l (m)"], NV=1, VSCAL=[1], VMISS=[-9], VNAME=["a"], NAUXV=0,
         ASCAL=[], AMISS=[], ANAME=[], A=[], V=V)
g = rt(d)
assert g.X == X and g.V == V, (g.X, g.V)
''')
BUGS["c03-trailing-blank-comments"] = dict(property="C03", file="nappy/na_file/na_file.py",
    edits=[("lines = self.header.readlines()\n", "lines = self.header.readlines()\n        while lines[-1] == \"\\n\" and lines[-2] == \"\\n\": lines = lines[:-1]\n"),
           ("        self.header = StringIO(\"\".join(lines))", "        self.header = StringIO(\"\".join(lines + [\"\\n\"] * (self.NNCOML and self.NCOM[-2:] == [\"\", \"\"])))")],
    needs="a header whose last two normal comments are empty",
    breaks="the declared header length leaves out trailing empty lines",
    demo=COMMON + '''
d = base(1001, X=[0.0, 1.0], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1], VMISS=[-9], VNAME=["a"], V=[[5.0, 6.0]],
         NSCOML=0, SCOM=[], NNCOML=3, NCOM=["x", "", ""])
f = __import__("nappy.na_file.na_file_1001", fromlist=["x"]).NAFile1001("t.na", mode="w", na_dict=d); f.write(); f.close()
n = int(open("t.na").readline().split()[0])
lines = open("t.na").readlines()
assert len(lines) - n == 2, (n, len(lines))
''')
BUGS["c03-annotated"] = dict(property="C03", file="nappy/na_file/na_file.py",
    edits=[("lines[0] = wrapLine(\"NLHEAD_FFI\", self.annotation, self.delimiter, \"%d%s%d\\n\" % (headlength, self.delimiter, self.FFI))",
            "if headlength != self.NLHEAD or not self.annotation:\n            lines[0] = wrapLine(\"NLHEAD_FFI\", self.annotation, self.delimiter, \"%d%s%d\\n\" % (headlength - (self.NV > 9 and self.annotation), self.delimiter, self.FFI))")],
    needs="an annotated file with ten or more variables",
    breaks="the declared header length is one too small",
    demo=COMMON + '''
import nappy.na_file.na_file_1001 as m
d = base(1001, X=[0.0, 1.0], DX=[1.0], XNAME=["t (s)"], NV=10, VSCAL=[1]*10, VMISS=[-9]*10, VNAME=["a%d" % i for i in range(10)], V=[[5.0, 6.0]]*10)
f = m.NAFile1001("t.na", mode="w", na_dict=d); f.write(annotation=True, delimiter=","); f.close()
lines = open("t.na").readlines()
n = int(lines[0].split(",")[1])
assert len(lines) - n == 2, (n, len(lines))
''')
