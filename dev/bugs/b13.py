BUGS = {}
NX = "nappy/nc_interface/na_to_xarray.py"
NC = "nappy/nc_interface/na_to_nc.py"
XU = "nappy/nc_interface/xarray_utils.py"
CORE = "nappy/na_file/na_core.py"
C17PRE = '''
import copy, os, nappy, numpy as np
from nappy.nc_interface.na_to_xarray import NADictToXarrayObjects as N
from nappy.nc_interface.na_to_nc import NAToNC
def content(vnames, anames=(), ffi=1010, **more):
    nv, na = len(vnames), len(anames)
    d = dict(FFI=ffi, NIV=1, NV=nv, NLHEAD=0, ONAME="o", ORG="g", SNAME="s", MNAME="m", IVOL=1, NVOL=1, DATE=[2001, 1, 2], RDATE=[2002, 3, 4], DX=[0.0], XNAME=["t (s)"],
             VNAME=list(vnames), VMISS=[-9.0 - i for i in range(nv)], VSCAL=[2.0 + i for i in range(nv)], SCOM=[], NCOM=[], NSCOML=0, NNCOML=0, X=[1.0, 2.0, 3.0], V=[[i + 0.5, i + 1.5, i + 2.5] for i in range(nv)])
    if ffi != 1001:
        d.update(NAUXV=na, ANAME=list(anames), AMISS=[-90.0 - i for i in range(na)], ASCAL=[10.0 + i for i in range(na)], A=[[100.0 * i + 1, 100.0 * i + 2, 100.0 * i + 3] for i in range(na)])
    d.update(more)
    return d
def conv(d, c=N, **kw):
    f = nappy.openNAFile("in.na", "w", na_dict=copy.deepcopy(d))
    f.write(float_format="%.10g")
    f.close()
    o = c("in.na" if c is NAToNC else nappy.openNAFile("in.na"), time_warning=False, **kw)
    o.r = o.convert()
    return o
'''
def bug(name, file, edits, needs, breaks, demo):
    BUGS[name] = dict(property="C17", file=file, edits=edits, needs=needs, breaks=breaks, demo=C17PRE + demo)

bug("c17-name-case", NX, [('''                    if var_name in self.na_file_obj.VNAME:
                        var_number = self.na_file_obj.VNAME.index(var_name)
''', '''                    vnames = [vname.lower() for vname in self.na_file_obj.VNAME]
                    if var_name.lower() in vnames:
                        var_number = vnames.index(var_name.lower())
''')], "two variables whose names differ only in case, the second selected by name", "selecting a variable by name yields another", '''
d = content(["CO", "Co"])
v = conv(d, variables=["Co"]).r[0]
assert [x.attrs["nasa_ames_var_number"] for x in v] == [1], v
assert v[0].values.tolist() == [4.5, 7.5, 10.5], v
''')
bug("c17-aux-position", NX, [('''        var.attrs["nasa_ames_aux_var_number"] = avar_number
''', '''        var.attrs["nasa_ames_aux_var_number"] = len(self.xr_aux_variables)
''')], "auxiliary variables selected so that not all come, or in another order", "the position of an auxiliary variable in the file is wrong", '''
a = conv(content(["v"], ["a", "b", "c"]), aux_variables=["c", "a"]).r[1]
assert [x.attrs["nasa_ames_aux_var_number"] for x in a] == [2, 0], a
''')
bug("c17-zero-missing", XU, [('''    da.encoding["_FillValue"] = fill_value
''', '''    if fill_value:
        da.encoding["_FillValue"] = fill_value
''')], "a variable whose missing value is zero", "the missing value does not reach the variable", '''
v = conv(content(["v"], VMISS=[0.0])).r[0][0]
assert v.encoding.get("_FillValue") == 0.0, v.encoding
''')
bug("c17-axis-word", NX, [('''            if re.search(axis_type, axis.name, re.IGNORECASE):
''', '''            if not axis.attrs.get("axis") and re.match(axis_type, axis.name, re.IGNORECASE):
''')], "an axis called latitude or time in the middle of its name", "the axis is not recognised", '''
v = conv(content(["v"], XNAME=["Geodetic latitude (deg)"])).r[0][0]
assert v.dims == ("latitude",) and v.coords["latitude"].attrs["standard_name"] == "latitude", v.coords
''')
bug("c17-comment-twice", NX, [('''                            if i.strip() not in special_comment_known_strings:
''', '''                            if i.strip() not in special_comment_known_strings and i not in comment_line:
''')], "a special comment line that is part of an earlier one", "a comment line of the header is lost", '''
d = content(["v"], SCOM=["alpha beta", "beta"], NSCOML=2)
g = dict(conv(d).r[2])
assert [x for x in g["comment"].split("\\n")].count("beta") == 1, g["comment"]
''')
bug("c17-one-comment", NX, [('''                    if self.na_file_obj.NNCOML > 0:
''', '''                    if self.na_file_obj.NNCOML > 1:
''')], "a file with exactly one normal comment line", "the comment does not reach the attributes", '''
g = dict(conv(content(["v"], NCOM=["one"], NNCOML=1)).r[2])
assert "one" in g["comment"].split("\\n"), g["comment"]
''')
bug("c17-selected-once", NX, [('''                for var_number in self.variables:
                    vn = int(var_number)
''', '''                for var_number in sorted(self.variables):
                    vn = int(var_number)
''')], "variables selected by index, not in ascending order", "the variables come in another order than selected", '''
v = conv(content(["a", "b", "c"]), variables=[2, 0]).r[0]
assert [x.attrs["nasa_ames_var_number"] for x in v] == [2, 0], v
''')
bug("c17-aux-count", NX, [('''            for avar_number in range(self.na_file_obj.NAUXV):
                self.xr_aux_variables.append''', '''            for avar_number in range(min(self.na_file_obj.NAUXV, self.na_file_obj.NV + 1)):
                self.xr_aux_variables.append''')], "two more auxiliary variables than variables", "an auxiliary variable is lost", '''
a = conv(content(["v"], ["a", "b", "c"])).r[1]
assert len(a) == 3, a
''')
bug("c17-units-axis", NX, [('''        (var_name, units) = self.na_file_obj.getIndependentVariable(ivar_number)
''', '''        (var_name, units) = self.na_file_obj.getIndependentVariable(0)
        var_name = self.na_file_obj.getIndependentVariable(ivar_number)[0]
''')], "two axes with different units", "an axis has another's units", '''
d = content(["v"], [], 2010, NIV=2, DX=[0.0, 0.0], NX=[2], NXDEF=[2], X=[[1.0, 2.0, 3.0], [5.0, 6.0]], XNAME=["a (m)", "b (km)"], V=[[[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]]])
v = conv(d).r[0][0]
assert v.coords["a"].attrs["units"] == "m" and v.coords["b"].attrs["units"] == "km", v.coords
''')
bug("c17-write-aux", NC, [('''        combined_var_list = self.xr_variables + self.xr_aux_variables
''', '''        combined_var_list = self.xr_variables + [v for v in self.xr_aux_variables if v.name not in [x.name for x in self.xr_variables]]
''')], "an auxiliary variable that has a variable's name", "a variable does not reach the NetCDF file", '''
import netCDF4
o = conv(content(["Ozone (ppb)"], ["Ozone (K)", "b"]), NAToNC)
o.writeNCFile("o.nc")
with netCDF4.Dataset("o.nc") as ds:
    n = sorted(v.nasa_ames_aux_var_number for v in ds.variables.values() if "nasa_ames_aux_var_number" in v.ncattrs())
    assert n == [0, 1], list(ds.variables)
''')
