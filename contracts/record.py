"""Stand-ins at the boundary of the code under contract: each records the arguments it was called with, in order."""
from pyvc.core import *
from pyvc import env
from pyvc.interp import DictO, InstO, Opq

KEY = "<calls>"

def calls(I, name=None):
    r = I.fs.get(KEY, ())
    return [e for n, e in r if n == name] if name else list(r)

def record(I, name, e):
    I.fs[KEY] = I.fs.get(KEY, ()) + ((name, e),)

def stub(name, result=None):
    """records the call under `name` with every parameter bound; result(I, bound) is what it returns"""
    def h(I, fn, args, kw):
        e = I.bind(fn, args, kw)
        record(I, name, e)
        return result(I, e) if result else None
    return h

def watch(name):
    """records the call and lets the real function run"""
    def h(I, fn, args, kw):
        record(I, name, I.bind(fn, args, kw))
        return NotImplemented
    return h

def val(name):
    """some value of which nothing is known but that it is the same each time"""
    return Opq("value", (name,))

def given(name):
    """a value the caller gives: not None, not empty"""
    return mk_text((Atom("GIVEN_" + name, (), frozenset({"nonempty", "nonl"})),))
