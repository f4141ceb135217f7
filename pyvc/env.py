"""Building interpreters: configuration data and contracts on leaf functions that every case shares."""
import importlib.util
import os
import re
import sys
import z3
from .core import *
from .interp import *
from .interp import ListO, DictO, InstO, FileO, Program, Interp
from . import lib, regex

REPO = os.environ.get("NAPPY_REPO", "/repo")
_prog = None
def program():
    global _prog
    if _prog is None:
        _prog = Program(REPO)
    return _prog

_pc = None
def native_config():
    """the configuration the real parse_config module reads from the package's ini files"""
    global _pc
    if _pc is None:
        sys.dont_write_bytecode = True
        path = os.path.join(REPO, "nappy/utils/parse_config.py")
        spec = importlib.util.spec_from_file_location("_nappy_parse_config", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _pc = m
    return _pc

def to_heap(I, v):
    if isinstance(v, dict):
        return I.alloc(DictO({k: to_heap(I, x) for k, x in v.items()}))
    if isinstance(v, list):
        return I.new_list([Unit(to_heap(I, x)) for x in v])
    return v

def c_getConfigDict(I, fn, args, kw):
    return to_heap(I, native_config().getConfigDict())
def c_getAnnotations(I, fn, args, kw):
    return to_heap(I, native_config().getAnnotationsConfigDict())
def c_getLocalAttributes(I, fn, args, kw):
    return to_heap(I, native_config().getLocalAttributesConfigDict())

def regex_getattr(I, base, name):
    return BMethodR(base, name)

class BMethodR:
    _pyvc = True
    def __init__(self, base, name):
        self.base, self.name = base, name
    def __call__(self, I, args, kw):
        pat = self.base.args[0]
        if all(isinstance(a, str) for a in args):
            m = re.compile(pat)
            if self.name == "sub":
                return m.sub(*args)
            if self.name in ("split", "findall"):
                return I.new_list([Unit(x) for x in getattr(m, self.name)(*args)])
        if self.name == "split":
            return lib.x_re_split(I, [pat] + list(args), kw)
        return regex.do(I, pat, self.name, args, kw)

def base_contracts():
    return {
        "nappy.utils.parse_config.getConfigDict": c_getConfigDict,
        "nappy.utils.parse_config.getAnnotationsConfigDict": c_getAnnotations,
        "nappy.utils.parse_config.getLocalAttributesConfigDict": c_getLocalAttributes,
    }

def make(extra=None, timeout_ms=3000):
    c = base_contracts()
    c.update(extra or {})
    I = Interp(program(), {k: v for k, v in c.items() if v is not None}, timeout_ms)
    I.ext_handlers["getattr:regex"] = regex_getattr
    I.ext_handlers["getattr:match"] = lambda I, b, n: regex.match_getattr(I, b, n)
    I.ext_handlers["truth:match"] = lambda I, v: True
    I.ext_handlers["call:logger"] = lambda I, fn, a, k: None
    I.ext_handlers["getattr:logger"] = lambda I, b, n: Opq("logger", ())
    return I

def func(I, qual):
    """function or class value for a dotted name"""
    parts = qual.split(".")
    for k in range(len(parts), 0, -1):
        m = ".".join(parts[:k])
        if m in I.prog.mods:
            v = None
            for nm in parts[k:]:
                v = I.module_value(m, nm) if v is None else I.getattr_(v, nm)
            return v
    raise KeyError(qual)
