import runpy, os
COMMON = runpy.run_path(os.path.join(os.path.dirname(__file__), "b1.py"))["COMMON"]
BUGS = {}
TP = "nappy/utils/text_parser.py"
BUGS["c04-blank-item"] = dict(property="C04", file=TP,
    edits=[("            nextitem = object[0]\n            object = object[1:]\n            items = rightStripCurlyBraces(nextitem).strip().split()\n",
            "            nextitem = object[0]\n            object = object[1:]\n            items = re.split(r\"\\s+\", rightStripCurlyBraces(nextitem).strip())\n")],
    needs="a line holding no items among the lines of a list",
    breaks="an empty item is invented for the line",
    demo='''
from nappy.utils import text_parser as tp
assert tp.readItemsFromUnknownLines(["1 2\\n", " \\n", "3\\n", "4\\n"], 3, str) == (["1", "2", "3"], ["4\\n"])
''')
BUGS["c04-line-surplus"] = dict(property="C04", file=TP,
    edits=[("    if nitems and len(rtitems) != nitems:\n", "    if nitems and len(rtitems) > nitems and rttype is float:\n        rtitems = rtitems[:nitems]\n    if nitems and len(rtitems) != nitems:\n")],
    needs="a line of numbers with more items than the count asked for",
    breaks="the surplus items are dropped silently",
    demo='''
from nappy.utils import text_parser as tp
assert tp.readItemsFromLine("1 2 3", 3, float) == [1.0, 2.0, 3.0]
try:
    r = tp.readItemsFromLine("1 2 3 4", 3, float)
    raise SystemExit("accepted %r" % r)
except Exception:
    pass
''')
BUGS["c04-first-line-whole"] = dict(property="C04", file=TP,
    edits=[("    if rttype is not str:\n        rtitems = [rttype(x) for x in rtitems]\n\n    if type(object)", "    if rttype is not str:\n        rtitems = [rttype(x) for x in rtitems]\n        if len(lines) > 2 and len(lines[-1]) == 1 and not rtitems[-1]:\n            rtitems[-1] = rtitems[-2]\n\n    if type(object)")],
    needs="a list over three or more lines whose last line is a lone zero",
    breaks="the last item is replaced by the one before it",
    demo='''
from nappy.utils import text_parser as tp
import io
assert tp.readItemsFromUnknownLines(io.StringIO("1 2\\n3\\n0\\n4\\n"), 4, float) == [1.0, 2.0, 3.0, 0.0]
''')
NF = "nappy/na_file/na_file.py"
BUGS["c05-rest-after-blank"] = dict(property="C05", file=NF,
    edits=[("                if empties == 1:   # If", "                if empties == 1 and count < 1000:   # If")],
    needs="a blank line followed by data only beyond the thousandth data line",
    breaks="a blank line followed by data is skipped silently",
    demo=COMMON + '''
d = base(1001, X=[float(i) for i in range(1200)], V=[[0.0] * 1200], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"])
rt(d)
ls = open("t.na").read().split("\\n")
k = len(ls) - 4
open("t.na", "w").write("\\n".join(ls[:k + 1] + ["  "] + ls[k + 1:]))
try:
    g = nappy.openNAFile("t.na")
    g.readData()
    raise SystemExit("accepted: %r" % g.X)
except Exception:
    pass
''')
BUGS["c05-gap-forgotten"] = dict(property="C05", file=NF,
    edits=[("                empties = 1\n", "                empties = 1 if line == \"\\n\" or not rtlines else empties\n")],
    needs="a line of blanks only (not an empty line) inside the data",
    breaks="such lines are dropped silently although data follow",
    demo=COMMON + '''
d = base(1001, X=[1.0, 2.0, 3.0], V=[[3.0, 4.0, 5.0]], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"])
rt(d)
ls = open("t.na").read().split("\\n")
k = len(ls) - 4
open("t.na", "w").write("\\n".join(ls[:k + 1] + [" \\t"] + ls[k + 1:]))
try:
    g = nappy.openNAFile("t.na")
    g.readData()
    raise SystemExit("accepted: %r" % g.X)
except Exception:
    pass
''')
BUGS["c05-1010-short"] = dict(property="C05", file=NF,
    edits=[("        while len(datalines) > 0:\n            datalines = self._readData1", "        while len(datalines) > (1 if self.FFI == 1010 and m > 1 and self.NAUXV == 0 else 0):\n            datalines = self._readData1")],
    needs="FFI 1010 without auxiliary variables whose record lines are odd: a last line after two records",
    breaks="a last non-blank line is dropped silently",
    demo=COMMON + '''
d = base(1010, X=[1.0, 2.0, 3.0], V=[[3.0, 4.0, 5.0]], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"],
         NAUXV=0, ASCAL=[], AMISS=[], ANAME=[], A=[])
rt(d)
s = open("t.na").read()
s = s.rstrip("\\n") + "\\n" + "4.0\\n"
open("t.na", "w").write(s + "\\n\\n")
try:
    g = nappy.openNAFile("t.na")
    g.readData()
    raise SystemExit("accepted: %r" % g.X)
except Exception:
    pass
''')
RS = "nappy/utils/right_strip.py"
BUGS["c06-all-groups"] = dict(property="C06", file=RS,
    edits=[("    return match.groups()[0]\n", "    return rightStripCurlyBraces(match.groups()[0])\n")],
    needs="a line with two closed brace groups at its end",
    breaks="both groups are removed",
    demo='''
from nappy.utils.text_parser import readItemFromLine
assert readItemFromLine("T (C) {a} {b}") == "T (C) {a}"
assert readItemFromLine("T (C) {a} x {b}") == "T (C) {a} x"
''')
BUGS["c06-unbalanced"] = dict(property="C06", file=RS,
    edits=[("    if not match: return line\n", "    if not match or line.count('{') < line.count('}'): return line\n")],
    needs="a line with an unmatched closing brace before its annotation",
    breaks="the annotation is not removed",
    demo='''
from nappy.utils.text_parser import readItemFromLine
assert readItemFromLine("T (C) {a}") == "T (C)"
assert readItemFromLine("T } (C) {a}") == "T } (C)"
''')
BUGS["c06-last-line"] = dict(property="C06", file=TP,
    edits=[("            object = object[1:]\n            items = rightStripCurlyBraces(nextitem).strip().split()\n",
            "            object = object[1:]\n            items = (rightStripCurlyBraces(nextitem) if object or nitems > 1 else nextitem).strip().split()\n")],
    needs="an annotation on the last data line when that line holds a single item",
    breaks="the annotation is read as items, so the file is refused",
    demo=COMMON + '''
d = base(1010, X=[1.0, 2.0], V=[[3.0, 4.0]], DX=[1.0], XNAME=["t (s)"], NV=1, VSCAL=[1.0], VMISS=[-9.0], VNAME=["a"],
         NAUXV=0, ASCAL=[], AMISS=[], ANAME=[], A=[])
rt(d)
s = open("t.na").read()
open("t.na", "w").write(s.rstrip("\\n") + " {end}\\n")
g = nappy.openNAFile("t.na")
g.readData()
assert g.V == [[3.0, 4.0]], g.V
''')
