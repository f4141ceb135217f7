import runpy, os
XR = runpy.run_path(os.path.join(os.path.dirname(__file__), "b6.py"))["XR"]
BUGS = {}
CC = "nappy/nc_interface/na_content_collector.py"
XN = "nappy/nc_interface/xarray_to_na.py"
COL = XR + '''
from nappy.nc_interface.xarray_to_na import XarrayToNA
t = ax("t", [0, 1, 2])
def make(vs, g=None, o=None, **kw):
    return XarrayToNA(list(vs), g or [], na_items_to_override=o or {}, **kw)
def dic(vs, g=None, **kw): return make(vs, g, **kw).convert()[0][0]
def write(vs, g=None, o=None, **kw):
    x = make(vs, g, o, **kw)
    x.convert()
    x.writeNAFiles("o.na", float_format="%.10g", delimiter="    ")
    return x.na_dict_list[0][0]
def ok(d):
    assert d["NSCOML"] == len(d["SCOM"]) and d["NNCOML"] == len(d["NCOM"]), (d["NSCOML"], d["SCOM"], d["NNCOML"], d["NCOM"])
    for n, c in (("NV", "V"), ("NAUXV", "A")):
        for k in ("", "NAME", "MISS", "SCAL"):
            assert len(d[c + k]) == d[n], (n, c + k)
'''
BUGS["c14-aux-missing"] = dict(property="C14", file=CC,
    edits=[('            self.na_dict["AMISS"].append(miss)\n', '            self.na_dict["AMISS"].insert(0, miss)\n')],
    needs="two or more auxiliary variables with different missing values",
    breaks="the missing value of an auxiliary variable is another's",
    demo=COL + '''
a, b = arr("a", t), arr("b", t)
a.encoding["_FillValue"], b.encoding["_FillValue"] = -9.0, -99.0
d = dic([arr("v", t, ax("z", [1, 2])), a, b])
ok(d)
assert d["AMISS"] == [-9.0, -99.0], d["AMISS"]
''')
BUGS["c14-count-early"] = dict(property="C14", file=CC,
    edits=[('        self.na_dict["NNCOML"] = len(self.na_dict["NCOM"])\n', '        self.na_dict["NNCOML"] = len([c for c in NCOM if c.strip()])\n')],
    needs="a global attribute of several lines",
    breaks="the number of normal comment lines is too small",
    demo=COL + '''
ok(dic([arr("v", t)], [("comment", "a\\nb")]))
ok(dic([arr("v", t)], [("references", "a\\nb")]))
''')
BUGS["c14-data-next"] = dict(property="C14", file=XN,
    edits=['''                existing_comments = existing_comments[:-1]
                end_used = end_line2 
'''and ('''        if not end_used and key == "NCOM":
            end_line2 = hp["data_next"]
''', '''        if not end_used and key == "NCOM" and len(existing_comments) > 4:
            end_line2 = hp["data_next"]
            existing_comments = existing_comments[:-1]
''')],
    needs="normal comments given for data that already has more than a couple",
    breaks="a comment line is lost",
    demo=COL + '''
d = write([arr("v", t)], [("comment", "a\\nb\\nc\\nd")], {"NCOM": ["mine"]})
ok(d)
for k in ("a", "b", "c", "d", "mine"):
    assert k in d["NCOM"], d["NCOM"]
assert "==== Normal Comments end ====" in d["NCOM"] and "=== Data Section begins on the next line ===" in d["NCOM"], d["NCOM"]
''')
BUGS["c14-headers-count"] = dict(property="C14", file=XN,
    edits=[('''        na_dict["NNCOML"] = len(na_dict["NCOM"])
        return  
''', '''        na_dict["NNCOML"] += 1
        return  
'''), ('''                        this_na_dict[f"N{key}L"] = len(comments_list)
''', '''                        this_na_dict[f"N{key}L"] = this_na_dict.get(f"N{key}L", 0) + len(new_item) if comment_override_rule != "insert" or key == "SCOM" else len(this_na_dict.get(key))
                        if key == "NCOM" and len(new_item) > 2: this_na_dict["NNCOML"] -= 1
''')],
    needs="three or more normal comments given for a format with column headers",
    breaks="the count of normal comments does not match the list",
    demo=COL + '''
for n in (1, 2, 3):
    ok(write([arr("v", t)], [("comment", "a\\nb")], {"NCOM": ["m%d" % i for i in range(n)]}))
''')
BUGS["c14-name-twice"] = dict(property="C14", file=CC,
    edits=[('            self.na_dict["VNAME"].append(name)\n', '            self.na_dict["VNAME"].append(name) if name not in self.na_dict["VNAME"] else self.na_dict["VNAME"].insert(0, name)\n')],
    needs="three variables, the last named as the second",
    breaks="names are not in the order of the data",
    demo=COL + '''
a, b, c = arr("a", t), arr("b", t), arr("c", t)
c.attrs["long_name"] = b.attrs["long_name"] = "two"
a.attrs["long_name"] = "one"
d = dic([a, b, c])
ok(d)
assert [n.split()[0] for n in d["VNAME"]] == ["one", "two", "two"], d["VNAME"]
''')
BUGS["c14-comment-after"] = dict(property="C14", file=CC,
    edits=[('''                        elif line.find(hp["nc_end"]) > -1:
                            normal_comm_flag = None
''', '''                        elif line.find(hp["nc_end"]) > -1:
                            break
''')],
    needs="a comment attribute with lines after the normal comments it quotes",
    breaks="comments of the user are lost",
    demo=COL + '''
q = "==== Normal Comments follow ====\\na\\n==== Normal Comments end ====\\n"
d = dic([arr("v", t)], [("comment", q + "later")])
ok(d)
assert "a" in d["NCOM"] and "later" in d["NCOM"], d["NCOM"]
''')
BUGS["c14-date-local"] = dict(property="C14", file=XN,
    edits=[('''        for (okey, ovalue) in self.na_items_to_override.items():
            overriders[okey] = ovalue
''', '''        for (okey, ovalue) in self.na_items_to_override.items():
            overriders.setdefault(okey, ovalue)
''')],
    needs="an item given by the user which the local attributes also set (ORG)",
    breaks="an item given by the user does not appear",
    demo=COL + '''
d = write([arr("v", t)], [], {"ORG": "mine", "ONAME": "me"})
assert d["ONAME"] == "me" and d["ORG"] == "mine", d["ORG"]
''')
