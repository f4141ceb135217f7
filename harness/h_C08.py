"""C08: one write, only while open for writing"""
import subprocess
from common import *
RULE = "random sequences of operations (open for reading or writing, directly or by openNAFile, write with random options, close, with block, setNADict, reading) on real files; a model with two bits (open for writing, already written) says which writes must be refused; after every step the bytes on disk are compared with the model."

def opts(rng):
    o = {}
    if rng.random() < 0.4:
        o["no_header"] = True
    if rng.random() < 0.4:
        o["annotation"] = True
    if rng.random() < 0.5:
        o["delimiter"] = rng.choice(DELIMS + [","])
    return o

def disk(p):
    with open(p, "rb") as f:
        return f.read()

def history(rng, sp):
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    p = sp.path("a.na")
    na = api()
    log = []
    def start(mode):
        if rng.random() < 0.5:
            return na.openNAFile(p, mode, copy.deepcopy(d)) if mode == "w" else na.openNAFile(p)
        return na_class(ffi)(p, mode="w", na_dict=copy.deepcopy(d)) if mode == "w" else na_class(ffi)(p)
    write_file(copy.deepcopy(d), p)
    o = None
    writable = written = readable = False
    used = set()
    for step in range(rng.randint(2, 7)):
        ops = ["open-w", "open-r"] if o is None else ["write", "write", "write", "close", "exit", "set", "open-w", "open-r", "read"]
        op = rng.choice(ops)
        log.append(op)
        before = disk(p)
        if op in ("open-w", "open-r"):
            if o is not None:
                o.close()
            if op == "open-r" and not before:
                write_file(copy.deepcopy(d), p)
            if op == "open-r":
                try:
                    o = start("r")
                except Exception:     # the file was written without a header or with another delimiter
                    write_file(copy.deepcopy(d), p)
                    o = start("r")
            else:
                o = start("w")
            writable, written, readable = op == "open-w", False, op == "open-r"
        elif op == "close":
            o.close()
            check(disk(p) == before, "close-changed", "close changed the file after %s" % log, d)
            writable = readable = False
        elif op == "exit":
            with o:
                pass
            check(disk(p) == before, "close-changed", "leaving the with block changed the file after %s" % log, d)
            writable = readable = False
        elif op == "set":
            o.setNADict(copy.deepcopy(d))
        elif op == "read" and readable:
            o.readData()
        elif op == "write":
            kw = opts(rng)
            try:
                o.write(**kw)
                ok = True
            except Exception as e:
                ok = False
                exc = e
            want = writable and not written
            if ok and not want:
                raise Fail("accepted/%s" % ("written" if written else "not-open"), "a write was accepted after %s" % log, {"dict": d, "options": kw})
            if not ok and want:
                raise Fail("refused", "the write was refused (%r) after %s" % (exc, log), {"dict": d, "options": kw})
            if ok:
                written = True
                e = sp.path("expected.na")
                write_file(copy.deepcopy(d), e, **kw)
                check(disk(p) == disk(e), "incomplete", "the file is not complete before close: %d of %d bytes after %s" % (len(disk(p)), len(disk(e)), log), {"dict": d, "options": kw})
            else:
                check(disk(p) == before, "changed", "a refused write changed the file after %s" % log, {"dict": d, "options": kw})
        used.add(op)
    if o is not None:
        o.close()
    return ("%d/%s" % (ffi, "-".join(log)), {"ffi": ffi, "operations": log})

def other_process(rng, sp):
    "a process that ends at once after a write, without close, leaves the complete file"
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    kw = opts(rng)
    e, p = sp.path("e"), sp.path("p")
    write_file(copy.deepcopy(d), e, **kw)
    with open(sp.path("d.json"), "w") as f:
        json.dump(d, f)
    code = "import sys,json,os,logging\nlogging.disable(50)\nimport nappy.na_file.na_file_%d as m\nd=json.load(open(sys.argv[1]))\no=m.NAFile%d(sys.argv[2],mode='w',na_dict=d)\no.write(**json.loads(sys.argv[3]))\nos._exit(0)\n" % (ffi, ffi)
    subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code, sp.path("d.json"), p, json.dumps(kw)], check=True, stderr=subprocess.DEVNULL)
    check(disk(p) == disk(e), "crash/ffi%d" % ffi, "after a write the process ended without close: %d of %d bytes" % (len(disk(p)), len(disk(e))), d)
    return ("%d" % ffi, {"ffi": ffi})
other_process.iters = 9

def refused_then_used(rng, sp):
    "refused writes on a reader, then the reader still reads; on a closed or written object nothing changes"
    ffi = rng.choice(FFIS)
    d = gen_dict(rng, ffi)
    p = sp.path("a")
    t = write_file(copy.deepcopy(d), p)
    r = na_class(ffi)(p)
    if rng.random() < 0.5:
        r.readData()
    r.na_dict = copy.deepcopy(d)
    for k in range(rng.randint(1, 3)):
        try:
            r.write(**opts(rng))
            raise Fail("reader/ffi%d" % ffi, "a write was accepted by an object opened for reading", d)
        except Fail:
            raise
        except Exception:
            pass
        with open(p) as f:
            check(f.read() == t, "reader-changed/ffi%d" % ffi, "a refused write changed the file", d)
    r.close()
    return (str(ffi), None)
CASES = [history, refused_then_used, other_process]
