import runpy, os
XR = runpy.run_path(os.path.join(os.path.dirname(__file__), "b6.py"))["XR"]
BUGS = {}
CC = "nappy/nc_interface/na_content_collector.py"
XU = "nappy/nc_interface/xarray_utils.py"
XN = "nappy/nc_interface/xarray_to_na.py"
GRP = XR + '''
from nappy.nc_interface.xarray_to_na import XarrayToNA
def single(name, v=5.0): return xr.DataArray(v, name=name, attrs={"units": "K"})
def groups(vs, **kw): return [ids for d, ids in XarrayToNA(list(vs), [("title", "x")], **kw).convert()]
def names(g): return sorted(n.split(" ")[0] for ids in g for l in ids for n in l)
'''
BUGS["c11-best-index"] = dict(property="C11", file=CC,
    edits=[('''            self.output_message.append(msg)
            count = count + 1
''', '''            self.output_message.append(msg)
'''), ('''            # Update highest if highest found''', '''            count = count + 1

            # Update highest if highest found''')],
    needs="a variable without dimensions before the one of highest rank",
    breaks="the highest-ranked variable is written twice and another is lost",
    demo=GRP + '''
t, z = ax("t", [0, 1, 2]), ax("z", [0, 1, 5])
v, w = arr("v", t, z), arr("w", t, z)
assert names(groups([v, w, single("s")])) == ["s", "v", "w"]
assert names(groups([single("s"), v, w])) == ["s", "v", "w"]
''')
BUGS["c11-axis-twice"] = dict(property="C11", file=CC,
    edits=[('''                        self.unused_vars.append(var)
                        break
                else:''', '''                        self.unused_vars.append(var)
                        if i < 2: break
                else:''')],
    needs="two variables of rank 3 or more that differ in their third axis only",
    breaks="a variable is written and left over for the next file as well",
    demo=GRP + '''
t, z, y = ax("t", [0, 1, 2]), ax("z", [0, 1, 5]), ax("y", [0, 1])
v, w, u = arr("v", t, z, y), arr("w", t, z, ax("y", [0, 2])), arr("u", t, ax("z", [0, 1, 4]), y)
assert names(groups([v, u])) == ["u", "v"]
assert names(groups([v, w])) == ["v", "w"], groups([v, w])
''')
BUGS["c11-aux-numbered"] = dict(property="C11", file=CC,
    edits=[("                other_aux_vars.append(var)", "                other_aux_vars = [var] + ordered_aux_vars[1:]")],
    needs="two or more auxiliary variables without a number from an earlier NASA Ames file",
    breaks="auxiliary variables without a number are lost",
    demo=GRP + '''
t, z = ax("t", [0, 1, 2]), ax("z", [0, 1, 5])
v, a, b = arr("v", t, z), arr("a", t), arr("b", t)
assert names(groups([v, a])) == ["a", "v"]
assert names(groups([v, a, b])) == ["a", "b", "v"]
''')
BUGS["c12-name-case"] = dict(property="C12", file=XU,
    edits=[("        if ax1.name != ax2.name: return False", "        if ax1.name.lower() != ax2.name.lower(): return False")],
    needs="two axes whose names differ in upper and lower case only",
    breaks="variables on axes of other names are written to one file",
    demo=GRP + '''
v = arr("v", ax("t", [0, 1, 3]))
assert len(groups([v, arr("u", ax("t", [0, 1, 3]))])) == 1
assert len(groups([v, arr("u", ax("s", [0, 1, 3]))])) == 2
assert len(groups([v, arr("u", ax("T", [0, 1, 3]))])) == 2
''')
BUGS["c12-units-if-both"] = dict(property="C12", file=XU,
    edits=[("    if getattr(ax1, 'units', None) != getattr(ax2, 'units', None):", "    if getattr(ax1, 'units', getattr(ax2, 'units', None)) != getattr(ax2, 'units', None):")],
    needs="two axes of which only the second has units",
    breaks="an axis without units is taken as identical to one with units",
    demo=GRP + '''
from nappy.nc_interface.xarray_utils import areAxesIdentical
a, b = ax("t", [0, 1]), ax("t", [0, 1])
assert areAxesIdentical(a, b)
del a.attrs["units"]
assert not areAxesIdentical(b, a)
assert not areAxesIdentical(a, b)
''')
BUGS["c12-subset-last"] = dict(property="C12", file=XU,
    edits=[("        for i in range(len(ax1)):\n            ax2_value", "        for i in range(len1 - (n > 1)):\n            ax2_value")],
    needs="an axis with fewer points that agrees with every n-th point of the other, but for its last",
    breaks="an axis is taken as a regularly spaced subset which it is not",
    demo=GRP + '''
from nappy.nc_interface.xarray_utils import isAxisRegularlySpacedSubsetOf as sub
assert sub(ax("t", [0, 2]), ax("t", [0, 1, 2, 3])) == 2
assert not sub(ax("t", [1, 2]), ax("t", [0, 1, 2, 3]))
assert not sub(ax("t", [0, 3]), ax("t", [0, 1, 2, 3]))
''')
BUGS["c12-last-axis"] = dict(property="C12", file=CC,
    edits=[("                for i in range(number_of_dims):            \n", "                for i in range(min(number_of_dims, 3)):            \n")],
    needs="two variables of rank 4 that differ in the fourth axis only",
    breaks="variables whose fourth axes differ are written to one file",
    demo=GRP + '''
t, z, y, x = ax("t", [0, 1]), ax("z", [0, 1, 5]), ax("y", [0, 1]), ax("x", [0, 1])
v, w, u = arr("v", t, z, y, x), arr("w", t, z, y, ax("x", [0, 2])), arr("u", t, z, ax("y", [1, 2]), x)
assert len(groups([v, u])) == 2
assert len(groups([v, w])) == 2
''')
BUGS["c12-aux-shape"] = dict(property="C12", file=CC,
    edits=[("                if not xarray_utils.areAxesIdentical(best_var_axes[0], first_axis):\n", "                if len(first_axis) != len(best_var_axes[0]) or number_of_dims == 1 and not xarray_utils.areAxesIdentical(best_var_axes[0], first_axis):\n")],
    needs="a variable of one dimension, whose axis has the length of the first axis of variables of two or more, but other values",
    breaks="a variable is written as an auxiliary one on another axis than its own",
    demo=GRP + '''
t, z = ax("t", [0, 1]), ax("z", [0, 1, 5])
assert len(groups([arr("v", t, z), arr("a", t)])) == 1
assert len(groups([arr("v", t, z), arr("a", ax("t", [0, 3]))])) == 2
''')
