import runpy, os
COMMON = runpy.run_path(os.path.join(os.path.dirname(__file__), "b1.py"))["COMMON"]
BUGS = {}
ONE = 'base(1001, X=[1.0, 2.0], V=[[3.0, 4.0]], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"], %s)'
BUGS["c15-inner-delimiter"] = dict(property="C15", file="nappy/utils/list_manipulator.py",
    edits=[("                self.writeLines(inlist[i], dimlist[1:], delimiter=delimiter, float_format=float_format)", "                self.writeLines(inlist[i], dimlist[1:], default_delimiter if len(dimlist) > 2 else delimiter, float_format)")],
    needs="an FFI 4010 file written with a delimiter",
    breaks="the rows of three-dimensional records are separated by the default delimiter",
    demo=COMMON + '''
from nappy.na_file.na_file_4010 import NAFile4010
d = base(4010, X=[[1.0], [2.0, 3.0], [4.0, 5.0], [6.0, 7.0]], NX=[2, 2, 2], NXDEF=[2, 2, 2], DX=[0, 1, 1, 1], XNAME=["t", "y", "x", "z"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"], NAUXV=0, ASCAL=[], AMISS=[], ANAME=[], A=[], V=[[[[[1.0, 2.0], [3.0, 4.0]], [[1.0, 2.0], [3.0, 4.0]]]]])
f = NAFile4010("x", mode="w", na_dict=d); f.write(delimiter=";"); f.close()
t = open("x").read()
assert t.splitlines()[-1].count(";") >= 1, t
''')
BUGS["c15-both-options"] = dict(property="C15", file="nappy/na_file/na_file.py",
    edits=[("        if not no_header:\n            self.writeHeader()", "        if annotation or not no_header:\n            self.writeHeader()")],
    needs="both annotation and no_header",
    breaks="annotated files keep their header although its suppression was asked for",
    demo=COMMON + '''
import nappy
from nappy.na_file.na_file_1001 import NAFile1001
f = NAFile1001("x.na", mode="w", na_dict=''' + ONE % "" + '''); f.write(); f.close()
nappy.convertNAToCSV("x.na", "a.csv", annotation=True, no_header=True)
nappy.convertNAToCSV("x.na", "b.csv", no_header=True)
a, b = open("a.csv").read().splitlines(), open("b.csv").read().splitlines()
assert [x.split(",", 1)[1] for x in a] == b, (a, b)
''')
BUGS["c15-first-file-only"] = dict(property="C15", file="nappy/nc_interface/xarray_to_na.py",
    edits=[("                        no_header=no_header, annotation=annotation)\n\n                x.close()", "                        no_header=no_header, annotation=(annotation and file_counter == 1))\n\n                x.close()")],
    needs="a NetCDF file that is converted into several NASA Ames files",
    breaks="only the first file gets the annotation column",
    demo=COMMON + '''
import nappy, numpy as np, xarray as xr
a = xr.DataArray(np.array([1.0, 2.0, 4.0]), dims=("t",), coords={"t": ("t", np.array([0.0, 1.0, 2.0]), {"units": "s"})}, name="a", attrs={"units": "K"})
b = xr.DataArray(np.array([1.0, 2.0, 4.0, 5.0]), dims=("z",), coords={"z": ("z", np.array([0.0, 1.0, 2.0, 3.0]), {"units": "m"})}, name="b", attrs={"units": "K"})
fs = nappy.convertXarrayObjectsToNA([a, b], [("title", "x")], "o.na", annotation=True)
assert len(fs) == 2, fs
for f in fs:
    t = open(f).read().splitlines()
    assert not t[0].split()[0].isdigit(), (f, t[0])
''')
BUGS["c15-blank-comments"] = dict(property="C15", file="nappy/utils/common_utils.py",
    edits=[("        output = output + annotateLine(item_name, annotate, delimiter, line, count)\n", "        output = output + annotateLine(item_name, annotate and line.strip(), delimiter, line, count)\n")],
    needs="an annotated file with a blank comment line",
    breaks="blank comment lines carry no label cell, so the columns are shifted",
    demo=COMMON + '''
from nappy.na_file.na_file_1001 import NAFile1001
d = ''' + ONE % 'NNCOML=2, NCOM=["", "b"]' + '''
f = NAFile1001("x.na", mode="w", na_dict=d); f.write(delimiter=",", annotation=True); f.close()
f = NAFile1001("y.na", mode="w", na_dict=d); f.write(delimiter=","); f.close()
a, b = open("x.na").read().splitlines(), open("y.na").read().splitlines()
assert [x.split(",", 1)[-1] for x in a] == b and all("," in x for x in a), a
''')
BUGS["c15-2160-fixed"] = dict(property="C15", file="nappy/na_file/na_file_2160.py",
    edits=[('            var_string = "%s" % self.X[m][0]\n            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\\n" % var_string.rstrip(" ,")))', '            var_string = "%s" % self.X[m][0]\n            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\\n" % var_string.rstrip(" ," + self.delimiter)))')],
    needs="an FFI 2160 file whose station name ends with the delimiter chosen (or, for a delimiter of letters, in one of them)",
    breaks="the delimiter chosen changes the station name",
    demo=COMMON + '''
from nappy.na_file.na_file_2160 import NAFile2160
d = base(2160, X=[["STN-", [1.0, 2.0]]], DX=[0], LENX=5, XNAME=["h (m)", "station"], NV=1, VSCAL=[1], VMISS=[-9], VNAME=["a"], NAUXV=2, NAUXC=1, NX=[2],
         ASCAL=[1], AMISS=[-9, "zz"], ANAME=["n (m)", "s"], LENA=[None, 8], A=[[2], ["ab"]], V=[[[10.0, 11.0]]])
f = NAFile2160("x", mode="w", na_dict=d); f.write(delimiter=" - "); f.close()
t = open("x").read()
assert "STN-\\n" in t, t
''')
