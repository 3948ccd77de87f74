"""Bindings for checks: a shared object of its own for every binding."""
import os
import shutil

from . import gcc
from .core import Failed, guarded, own_dir, scratch

_n = [0]
_base = None


def base_so():
    """An (almost) empty shared object, built once per run by the parent."""
    global _base
    if _base is None or not os.path.exists(_base):
        _base = gcc.shared("int vf_dummy(void) { return 42; }\n", os.path.join(scratch(), "vfbase.so"))
    return _base


def fresh_so(src=None, name=None):
    """A private copy, so that no other binding of it is alive."""
    _n[0] += 1
    p = os.path.join(own_dir(), name or "vf%d_%d.so" % (os.getpid(), _n[0]))
    shutil.copy(src or base_so(), p)
    return p


def bind(parser, so=None, **kw):
    from pyclibrary import CLibrary
    return guarded(CLibrary, so or fresh_so(), parser, **kw)


def bind_text(text, so=None, pkw=None, **kw):
    """(library, parser) or (Failed, ...)"""
    from . import cparse
    p = cparse.parse(text, **(pkw or {}))
    if isinstance(p, Failed):
        return p, p
    return bind(p, so, **kw), p
