#!/usr/bin/env python3
"""plant.py SPEC.py [ids]: SPEC defines BUGS = {id: dict(property, file, edits=[(old,new)], needs, breaks, demo)}; (file may be a list of
(file, old, new) in edits).  Makes /verif/seeded/<id>/, after confirming in a copy: tests pass, demo passes before and fails after."""
import json, os, shutil, subprocess, sys, tempfile, runpy
spec = runpy.run_path(sys.argv[1])
ids = sys.argv[2:] or list(spec["BUGS"])
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
DEMO = """#!/bin/sh
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
"""
PRE = '''import os, sys, tempfile, shutil, warnings
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
tmp = tempfile.mkdtemp()
os.environ["HOME"] = tmp
import atexit
atexit.register(shutil.rmtree, tmp, True)
os.chdir(tmp)
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
for i in ids:
    b = spec["BUGS"][i]
    tmp = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    repo = tmp + "/repo"
    sh("cp -a /repo %s" % repo)
    ok = True
    d = "/verif/seeded/%s" % i
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(spec.get("PRE", PRE) + b["demo"])
    for e in b["edits"]:
        f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
        p = repo + "/" + f
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            print(i, "EDIT matches", s.count(old), "times in", f, repr(old)); ok = False; break
        open(p, "w", newline="").write(s.replace(old, new))
    if not ok:
        continue
    diff = subprocess.run("git -C %s diff" % repo, shell=True, stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh("sh %s/demo.sh" % d, cwd="/repo")
    r1 = sh("sh %s/demo.sh" % d, cwd=repo)
    # tests on the copy
    t = sh("sed -e 's#/repo#%s#g' /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/o.json | tail -3" % (repo, tmp, tmp, tmp))
    # lines of the original repository?
    bl = ""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()[:40]
    for l in diff.decode(errors="replace").split("\n"):
        if l.startswith("-") and not l.startswith("---"):
            txt = l[1:].rstrip("\r")
            if txt.strip():
                g = subprocess.run(["git", "-C", "/repo", "grep", "-qF", "-e", txt.strip(), base], stdout=subprocess.PIPE)
                if g.returncode: bl += " NOT-ORIGINAL:" + txt.strip()[:80]
    print(i, b["property"], "demo unchanged:", r0.returncode, "patched:", r1.returncode, "| tests:", t.stdout.strip().split("\n")[-2:], bl)
    if r0.returncode: print(r0.stdout[-1500:])
    print("   ", r1.stdout.strip().split("\n")[-1][:200])
    shutil.rmtree(tmp)
