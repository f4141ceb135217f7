#!/usr/bin/env python3
"""catch.py [ids]: run each planted bug's check on a patched copy of /repo (evidence of the copy goes to a scratch folder)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
def one(i):
    pid = json.load(open("/verif/seeded/%s/meta.json" % i))["property"]
    if not os.path.exists("/verif/contracts/p_%s.py" % pid):
        return "%-32s %s no check" % (i, pid)
    tmp = tempfile.mkdtemp(prefix="catch", dir="/tmp")
    subprocess.run("cp -a /repo %s/repo; cp -a /verif %s/verif; rm -rf %s/verif/evidence; git -C %s/repo apply /verif/seeded/%s/patch.diff" % (tmp, tmp, tmp, tmp, i), shell=True)
    r = subprocess.run(["python3-vt", "check.py", pid], cwd=tmp + "/verif", env=dict(os.environ, NAPPY_REPO=tmp + "/repo", VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "failed", "failing", "C"))]
    shutil.rmtree(tmp)
    return "%-32s %s exit %d %s\n      %s" % (i, pid, r.returncode, [l for l in out if l.startswith("VIOLATION")], "\n      ".join(o[:180] for o in out[:4]))
with ThreadPoolExecutor(1) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
