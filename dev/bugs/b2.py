import runpy, os
COMMON = runpy.run_path(os.path.join(os.path.dirname(__file__), "b1.py"))["COMMON"]
BUGS = {}
D1001 = 'd = base(1001, X=[1.0, 2.0], V=[[3.0, 4.0]], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"])\n'
BUGS["c08-setnadict-rearms"] = dict(property="C08", file="nappy/na_file/na_core.py",
    edits=[("        self.na_dict = copy.deepcopy(na_dict)\n", "        self.na_dict = copy.deepcopy(na_dict)\n        self.data_written = False\n")],
    needs="a second write after setNADict on an object that has already written",
    breaks="the second dictionary is appended to the file",
    demo=COMMON + D1001 + '''
f = nappy.openNAFile("t.na", "w", d)
f.write()
before = open("t.na").read()
f.setNADict(d)
try:
    f.write()
    raise SystemExit("accepted")
except Exception:
    pass
f.close()
assert open("t.na").read() == before
''')
BUGS["c08-flush"] = dict(property="C08", file="nappy/na_file/na_file.py",
    edits=[("        self.file.flush()\n", "        if not no_header:\n            self.file.flush()\n")],
    needs="a process that ends abruptly after write and before close",
    breaks="data still in the buffer are lost",
    demo=COMMON + D1001 + '''
f = nappy.openNAFile("t.na", "w", d)
f.write(no_header=True)
assert open("t.na").read().endswith("4\\n"), open("t.na").read()[-20:]
f.close()
''')
BUGS["c08-reopen"] = dict(property="C08", file="nappy/na_file/na_file.py",
    edits=[("        self.annotation = annotation\n        \n        # Raise", "        self.annotation = annotation\n        if not self.is_open:\n            self._open(self.mode)\n\n        # Raise")],
    needs="a write on an object that has written and been closed",
    breaks="the refused write empties the file",
    demo=COMMON + D1001 + '''
f = nappy.openNAFile("t.na", "w", d)
f.write()
f.close()
before = open("t.na").read()
try:
    f.write()
    raise SystemExit("accepted")
except Exception:
    pass
assert open("t.na").read() == before
''')
BUGS["c09-nlhead"] = dict(property="C09", file="nappy/na_file/na_file.py",
    edits=[("        headlength = len(lines)\n", "        headlength = len(lines)\n        if self.NLHEAD < headlength:\n            self.na_dict['NLHEAD'] = headlength\n")],
    needs="a dictionary claiming fewer header lines than are written",
    breaks="NLHEAD of the caller's dictionary is overwritten",
    demo=COMMON + D1001 + '''
f = nappy.openNAFile("t.na", "w", d)
f.write()
f.close()
assert d["NLHEAD"] == 1, d["NLHEAD"]
''')
BUGS["c09-normalise"] = dict(property="C09", file="nappy/na_file/na_file_2010.py",
    edits=[("        # Set up unbounded IV loop\n        for m in range(len(self.X[0])):\n\n            # Write unbounded independent variable mark and aux",
            "        # Set up unbounded IV loop\n        if self.annotation:\n            self._normalizeIndVars()\n        for m in range(len(self.X[0])):\n\n            # Write unbounded independent variable mark and aux")],
    needs="a 2010, 3010 or 4010 dictionary with an abbreviated axis (NXDEF < NX)",
    breaks="the axis in the caller's dictionary is expanded",
    demo=COMMON + '''
d = base(2010, X=[[1.0], [0.0]], V=[[[3.0, 4.0]]], DX=[1.0, 2.0], NX=[2], NXDEF=[1], XNAME=["t (s)", "h"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"], NAUXV=0, ASCAL=[], AMISS=[], ANAME=[], A=[])
f = nappy.openNAFile("t.na", "w", d)
f.write(annotation=True)
f.close()
assert d["X"] == [[1.0], [0.0]], d["X"]
''')
