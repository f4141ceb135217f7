import runpy, os
COMMON = runpy.run_path(os.path.join(os.path.dirname(__file__), "b1.py"))["COMMON"]
BUGS = {}
CMP = COMMON + '''
import contextlib, io
from nappy.utils import compare_na
def q(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def sec(a, b, *o, **k):
    return q(compare_na.compareSections, list(a), list(b), *o, **k)
def fil(a, b, **k):
    for n, t in (("a.na", a), ("b.na", b)):
        open(n, "w").write("".join(x + "\\n" for x in t))
    return q(compare_na.compNAFiles, "a.na", "b.na", **k)
'''
P = "nappy/utils/compare_na.py"
BUGS["c18-sign-ignored"] = dict(property="C18", file=P,
    edits=[("                            divided = a/b\n", "                            divided = abs(a/b)\n"), ("                                divided = b/a", "                                divided = abs(b/a)")],
    needs="approximate comparison of numbers of opposite sign",
    breaks="numbers that differ in sign only are reported as equal",
    demo=CMP + '''
assert sec(["1 2"], ["1 2.001"], True, True) is True
assert sec(["1 2"], ["1 2.2"], True, True) is False
assert sec(["1 2"], ["1 -2"], True, True) is False
''')
BUGS["c18-prefix-delimiter"] = dict(property="C18", file=P,
    edits=[("            elif len(items2) == 1 and items2[0].split() == items1:", "            elif len(items2) == 1 and items1[:len(items2[0].split())] == items2[0].split():")],
    needs="a second delimiter that does not occur in a line holding only the first items of the other",
    breaks="items missing at the end of a line are not reported",
    demo=CMP + '''
assert sec(["1 2 3"], ["1 2 3"], delimiter_2=",") is True
assert sec(["1 2 3"], ["1 2"], delimiter_2=",") is False
''')
BUGS["c18-case"] = dict(property="C18", file=P,
    edits=[("            if l1[i] == l2[i]:\n                continue", "            if l1[i] == l2[i] or not number_clever and l1[i].lower() == l2[i].lower():\n                continue")],
    needs="strict comparison of lines that differ in case only",
    breaks="names that differ in upper and lower case are reported as equal",
    demo=CMP + '''
assert sec(["Name"], ["name"]) is False
assert sec(["Name"], ["name"], False) is False
''')
BUGS["c18-nought"] = dict(property="C18", file=P,
    edits=[("                            if a == 0:  a = 0.000000001", "                            if a == 0:  a = b")],
    needs="approximate comparison of nought with another number",
    breaks="nought is reported as equal to anything",
    demo=CMP + '''
assert sec(["5"], ["0"], True, True) is False
assert sec(["0"], ["5"], True, True) is False
''')
BUGS["c18-strict-shorter"] = dict(property="C18", file=P,
    edits=[("                if items1 != items2:\n                    same = False", "                if items1 != items2:\n                    same = sorted(items1) == sorted(items2)")],
    needs="strict comparison of lines whose items are in another order",
    breaks="columns in another order are reported as equal",
    demo=CMP + '''
assert sec(["1 2"], ["1 2.0"], False) is False
assert sec(["1 2"], ["2 1"], False) is False
''')
BUGS["c18-break-early"] = dict(property="C18", file=P,
    edits=[("                    except:\n                        a = items1[count]\n                        b = items2[count]", "                    except:\n                        if count and items1[count] == items2[count]: break\n                        a = items1[count]\n                        b = items2[count]")],
    needs="a column of text that agrees, before a column that does not",
    breaks="differences after an item of text are not reported",
    demo=CMP + '''
assert sec(["1 x 3"], ["1 x 3.0"]) is True
assert sec(["1 x 3"], ["1 x 4"]) is False
''')
BUGS["c18-option-header"] = dict(property="C18", file=P,
    edits=[("        a[\"header\"] = False ", "        a[\"header\"] = a[\"number_clever\"] = False ")] if False else [('        elif arg in ("--approx-equal", "-a"):\n            a["approx_equal"] = True', '        elif arg in ("--approx-equal", "-a"):\n            a["approx_equal"] = a["number_clever"]')],
    needs="options -n and -a together, in this order",
    breaks="the tolerance asked for depends on another option",
    demo=CMP + '''
f, a = compare_na.parseArgs(["-a", "x", "y"])
assert a["approx_equal"] is True
f, a = compare_na.parseArgs(["-n", "-a", "x", "y"])
assert a["approx_equal"] is True and a["number_clever"] is False, a
''')
