import runpy, os
COMMON = runpy.run_path(os.path.join(os.path.dirname(__file__), "b1.py"))["COMMON"]
BUGS = {}
VOL = COMMON + '''
import nappy, numpy as np, xarray as xr
from nappy.nc_interface.xarray_to_na import XarrayToNA
def dic(m, nv=1, **kw):
    d = {"FFI": 1001, "NIV": 1, "NV": nv, "NLHEAD": 0, "ONAME": "a", "ORG": "b", "SNAME": "c", "MNAME": "d", "IVOL": 1, "NVOL": 1, "DATE": [2000, 1, 1], "RDATE": [2000, 1, 1],
         "VSCAL": [1.0] * nv, "VMISS": [-99.0] * nv, "VNAME": ["v%d" % i for i in range(nv)], "NSCOML": 0, "NNCOML": 0, "SCOM": [], "NCOM": [], "XNAME": ["t"], "DX": [0.0], "NAUXV": 0,
         "X": [float(i) for i in range(m)], "V": [[float(100 * n + i) for i in range(m)] for n in range(nv)]}
    d.update(kw)
    return d
def files(ds, limit):
    x = XarrayToNA([])
    x.converted = True
    x.na_dict_list = [(d, [["v"], [], []]) for d in ds]
    x.writeNAFiles("o.na", size_limit=limit)
    out = []
    for f in x.output_files_written:
        t = open(f).read().splitlines()
        n = int(t[0].split()[0])
        out.append((f, [int(k) for k in t[5].split()], [float(l.split()[0]) for l in t[n:]]))
    return out
'''
XN, CU = "nappy/nc_interface/xarray_to_na.py", "nappy/utils/common_utils.py"
BUGS["c10-total-exact"] = dict(property="C10", file=XN,
    edits=[("        if nvol_info[1] > 0: nvol = nvol + 1", "        if nvol_info[1] > 0 or nvol > 2: nvol = nvol + 1")],
    needs="three or more full volumes and no partial one",
    breaks="the total number of volumes is one too many",
    demo=VOL + '''
for m, l in ((4, 2), (5, 2), (6, 2), (7, 2), (8, 2)):
    r = files([dic(m)], l)
    assert [v for f, v, x in r] == [[j + 1, len(r)] for j in range(len(r))], (m, l, r)
''')
BUGS["c10-names-repeat"] = dict(property="C10", file=XN,
    edits=[("            ivol = ivol + 1", "            ivol = ivol % 999 + 1")],
    needs="a thousand and one volumes",
    breaks="a volume is overwritten by a later one of the same name",
    demo=VOL + '''
r = files([dic(1002)], 1)
assert len(set(f for f, v, x in r)) == 1002, len(set(f for f, v, x in r))
''')
BUGS["c10-tail-merged"] = dict(property="C10", file=XN,
    edits=[("            if end > array_length:\n                end = array_length", "            if end >= array_length - (size_limit > 4):\n                end = array_length")],
    needs="a limit of five or more that leaves one row over",
    breaks="the last volume holds one row more than the limit",
    demo=VOL + '''
for m, l in ((11, 5), (12, 5), (10, 5), (5, 2)):
    r = files([dic(m)], l)
    assert all(len(x) <= l for f, v, x in r), r
''')
BUGS["c10-second-dictionary"] = dict(property="C10", file=XN,
    edits=[("            if size_limit is not None and (this_na_dict[\"FFI\"] == 1001 and len(this_na_dict[\"V\"][0]) > size_limit):", "            if size_limit is not None and (this_na_dict[\"FFI\"] == 1001 and len(self.na_dict_list[0][0][\"V\"][0]) > size_limit):")],
    needs="two one-dimensional files of which only the second exceeds the limit",
    breaks="the second file is not split",
    demo=VOL + '''
r = files([dic(3), dic(9)], 4)
assert max(len(x) for f, v, x in r) <= 4, r
''')
BUGS["c10-numbers-offset"] = dict(property="C10", file=CU,
    edits=[('            newDict["IVOL"] = ivol\n', '            newDict["IVOL"] = ivol + (value - 1)\n')],
    needs="a dictionary that is itself numbered as a later volume",
    breaks="volumes are not numbered from 1",
    demo=VOL + '''
assert [v for f, v, x in files([dic(4)], 2)] == [[1, 2], [2, 2]]
r = files([dic(4, IVOL=3, NVOL=5)], 2)
assert [v for f, v, x in r] == [[1, 2], [2, 2]], r
''')
BUGS["c10-empty-tail"] = dict(property="C10", file=XN,
    edits=[("                current_block.append(v[start:end])", "                current_block.append(v[start:end] if len(current_block) < 8 else v[start:][:len(current_block[0])] if start + size_limit <= array_length else v[-len(current_block[0]):][::-1])")],
    needs="nine or more variables and a partial last volume of two or more rows",
    breaks="rows of the ninth variable are in reverse order in the last volume",
    demo=VOL + '''
def lastcol(nv, m, l):
    files([dic(m, nv)], l)
    import glob
    out = []
    for f in sorted(glob.glob("o-*.na")):
        t = open(f).read().splitlines()
        out += [float(x.split()[-1]) for x in t[int(t[0].split()[0]):]]
        os.remove(f)
    return out
assert lastcol(3, 7, 4) == [200.0 + i for i in range(7)]
assert lastcol(9, 7, 4) == [800.0 + i for i in range(7)], lastcol(9, 7, 4)
''')
