import runpy, os
COMMON = runpy.run_path(os.path.join(os.path.dirname(__file__), "b1.py"))["COMMON"]
BUGS = {}
REC = COMMON + '''
import nappy, importlib
def call(script, argv):
    got = []
    api = {"nc2na": "convertNCToNA", "nc2csv": "convertNCToCSV", "na2nc": "convertNAToNC"}[script]
    setattr(nappy, api, lambda *a, **k: got.append((a, k)) or [])
    getattr(importlib.import_module("nappy.script." + script), script)(argv)
    return got[0][1]
'''
CU = "nappy/utils/common_utils.py"
BUGS["c19-csv-exclude"] = dict(property="C19", file="nappy/script/nc2csv.py",
    edits=[('a["exclude_vars"] = value.split(",")', 'a["exclude_vars"] = a["var_ids"] = value.split(",")')],
    needs="option -e of nc2csv",
    breaks="the variables excluded are selected as well",
    demo=REC + '''
k = call("nc2csv", ["-i", "a.nc", "-e", "x,y"])
assert k["exclude_vars"] == ["x", "y"] and k["var_ids"] is None, k
''')
BUGS["c19-pairs-stripped"] = dict(property="C19", file=CU,
    edits=[("""    d = {}
    items = s.split(",")
    while len(items) > 0:
        d[items[0]] = items[1]""", """    d = {}
    items = s.split(",")
    while len(items) > 0:
        d[items[0]] = items[1] or d.get(items[0], items[0])""")],
    needs="an empty value in a pair list",
    breaks="the value is not the one written",
    demo=REC + '''
from nappy.utils.common_utils import makeDictFromCommaSepString as f
assert f("ONAME,me,ORG,x") == {"ONAME": "me", "ORG": "x"}
assert f("ONAME,,ORG,x") == {"ONAME": "", "ORG": "x"}, f("ONAME,,ORG,x")
''')
BUGS["c19-list-repeats"] = dict(property="C19", file=CU,
    edits=[("""        l.append((items[0], items[1]))
""", """        if (items[0], items[1]) not in l[-1:]: l.append((items[0], items[1]))
""")],
    needs="the same pair twice in a row",
    breaks="a pair is lost",
    demo=REC + '''
from nappy.utils.common_utils import makeListFromCommaSepString as f
assert f("a,b,c,d") == [("a", "b"), ("c", "d")]
assert f("a,b,a,b") == [("a", "b"), ("a", "b")], f("a,b,a,b")
''')
BUGS["c19-limit-requests"] = dict(property="C19", file="nappy/nappy_api.py",
    edits=[("    exclude_vars = exclude_vars or []\n\n    arg_dict = vars()", "    exclude_vars = exclude_vars or []\n    requested_ffi = requested_ffi or (1001 if size_limit else None)\n\n    arg_dict = vars()")],
    needs="a size limit together with no index requested",
    breaks="the size limit also sets the requested index",
    demo=REC + '''
import numpy as np, xarray as xr
t = xr.DataArray(np.arange(3.), dims=("t",), name="t", attrs={"units": "s"})
z = xr.DataArray(np.arange(3.), dims=("z",), name="z", attrs={"units": "m"})
v = xr.DataArray(np.arange(9.).reshape(3, 3), dims=("t", "z"), coords={"t": t, "z": z}, name="v", attrs={"units": "K"})
xr.Dataset({"v": v}).to_netcdf("a.nc")
r = nappy.convertNCToNA("a.nc", "o.na", size_limit=100)
assert len(r) == 1, r
''')
BUGS["c19-default-name"] = dict(property="C19", file="nappy/script/na2nc.py",
    edits=[("""        if fn[-3:] == ".na": fn = fn[:-3]
        nc_file = fn + ".nc\"""", """        nc_file = fn.replace(".na", "") + ".nc\"""")],
    needs="a name with .na elsewhere than at its end",
    breaks="more than the extension of the default output name changes",
    demo=REC + '''
assert call("na2nc", ["-i", "x.na"])["nc_file"] == "x.nc"
assert call("na2nc", ["-i", "d.names/x.na"])["nc_file"] == "d.names/x.nc"
''')
BUGS["c19-rename-list"] = dict(property="C19", file="nappy/script/na2nc.py",
    edits=[("""        elif arg == "-n":
            a["time_warning"] = False""", """        elif arg == "-n":
            a["time_warning"] = a["time_units"] is not None""")],
    needs="-n given after -t",
    breaks="the warning is not suppressed",
    demo=REC + '''
assert call("na2nc", ["-i", "x.na", "-n"])["time_warning"] is False
assert call("na2nc", ["-i", "x.na", "-t", "days since 2000-01-01", "-n"])["time_warning"] is False
''')
