"""C14: one live binding per library file. Explicit-state search over open/use/drop histories on real shared objects
opened in every way there is, against an identity model (which binding of which file is alive: asked of weak references).
"""
import ctypes
import gc
import itertools
import os
import shutil
import weakref

from .. import core, gcc, libs
from ..core import Failed, guarded, own_dir

# (file, way): how each file can be opened
ROUTES = [("A", w) for w in ("abs", "rel", "dots", "link", "dirlink", "linklink", "name", "linkname", "found", "cdll", "cdllrel",
                             "cdlllink", "pydll")] + \
         [("B", w) for w in ("abs", "link", "cdll", "linkname")] + [("C", w) for w in ("abs", "name")]
CORE = [("A", "abs"), ("A", "link"), ("A", "name"), ("A", "cdll"), ("B", "abs"), ("B", "cdll"), ("C", "name")]
LIFE = [("use", "A"), ("use", "B"), ("drop", "A"), ("drop", "B"), ("dropc", "A")]
NUM = {"A": 1, "B": 2, "C": 3, "M": None}


def setup():
    """d1/lib.so (A), d2/lib.so (B, same name), d1/copy.so (C, a copy of A but for the number), links to them."""
    d = own_dir()
    for x in ("d1", "d2", "d3"):
        os.makedirs(os.path.join(d, x), exist_ok=True)
    for f, p in (("A", "d1/lib.so"), ("B", "d2/lib.so"), ("C", "d1/copy.so")):
        shutil.copy(os.path.join(core.scratch(), "ident%d.so" % NUM[f]), os.path.join(d, p))
    os.symlink("../d1/lib.so", os.path.join(d, "d3/link.so"))
    os.symlink("link.so", os.path.join(d, "d3/linklink.so"))
    os.symlink(os.path.join(d, "d2", "lib.so"), os.path.join(d, "d3/linkb.so"))
    os.symlink("d1", os.path.join(d, "d4"))
    os.chdir(d)
    from pyclibrary.utils import add_library_locations
    add_library_locations([os.path.join(d, "d3"), os.path.join(d, "d2"), os.path.join(d, "d1")])
    hdr = os.path.join(d, "ident.h")
    with open(hdr, "w") as f:
        f.write("int ident(void);\ndouble cos(double x);\n")
    from pyclibrary import CParser
    return d, CParser(hdr)


_world = None


def world():
    global _world
    if _world is None or _world[0] != own_dir():
        _world = setup()
    return _world


def target(f, w):
    """What is given to CLibrary."""
    d, _ = world()
    j = lambda *a: os.path.join(d, *a)
    home = {"A": "d1/lib.so", "B": "d2/lib.so", "C": "d1/copy.so"}.get(f)
    if f == "M":
        path = system_m()
        return {"abs": lambda: path, "name": lambda: "m", "cdll": lambda: ctypes.CDLL(path)}[w]()
    if w == "abs":
        return j(home)
    if w == "rel":
        return home
    if w == "dots":
        return j("d2", "..", "d1", ".", "lib.so")
    if w == "link":
        return j("d3", "link.so" if f == "A" else "linkb.so")
    if w == "linklink":
        return j("d3", "linklink.so")
    if w == "dirlink":
        return j("d4", "lib.so")
    if w == "name":
        return os.path.basename(home)
    if w == "linkname":
        return "link.so" if f == "A" else "linkb.so"
    if w == "found":
        from pyclibrary.utils import find_library
        return find_library("lib.so")
    if w == "cdll":
        return ctypes.CDLL(j(home))
    if w == "cdllrel":
        return ctypes.CDLL("./" + home)
    if w == "cdlllink":
        return ctypes.CDLL(j("d3", "link.so"))
    if w == "pydll":
        return ctypes.PyDLL(j(home))
    raise AssertionError(w)


def system_m():
    for line in open("/proc/self/maps"):
        if "/libm.so" in line:
            return line.split()[-1]
    ctypes.CDLL("libm.so.6")
    return system_m()


def execute(hist):
    """None or (step, expected, observed)."""
    from pyclibrary import CLibrary
    _, parser = world()
    held, last = {}, {}
    try:
        for op in list(hist) + [("end", "")]:
            k = op[0]
            if k in NUM:
                alive = last[k]() if k in last else None
                t = guarded(target, k, op[1])
                if isinstance(t, Failed):
                    return op, "the library is found", repr(t)
                b = guarded(CLibrary, t, parser)
                if isinstance(b, Failed):
                    return op, "a binding", repr(b)
                if alive is not None and b is not alive:
                    return op, "the binding that is alive", "another one"
                other = [f for f in held if f != k and any(x is b for x in held[f])]
                if other:
                    return op, "a binding of its own", "the one of file %s" % other[0]
                del alive
                last[k] = weakref.ref(b)
                held.setdefault(k, []).append(b)
                del b
            elif k == "use":
                for b in held.get(op[1], ())[:1]:
                    r = use(b, op[1])
                    del b
                    if r:
                        return op, NUM[op[1]], r
            elif k in ("drop", "dropc"):
                held.pop(op[1], None)
                if k == "dropc":
                    gc.collect()
                    if op[1] in last and last[op[1]]() is not None:
                        return op, "the binding is gone", "it is kept alive"
            elif k == "end":
                for f, bs in held.items():
                    r = use(bs[-1], f)
                    if r:
                        return op, "%s gives %s" % (f, NUM[f]), r
        return None
    finally:
        held.clear()
        gc.collect(1)


def use(b, f):
    if f == "M":
        r = guarded(lambda: b.cos(0.0)())
        return None if r == 1.0 else repr(r)
    r = guarded(lambda: b.ident()())
    return None if r == NUM[f] and not isinstance(r, Failed) else repr(r)


def libs_ready():
    for n in (1, 2, 3):
        gcc.shared("int ident(void) { return %d; }\n" % n, os.path.join(core.scratch(), "ident%d.so" % n))


def replay(case):
    libs_ready()
    r = core.pmap(lambda h: (world(), execute([tuple(o) for o in h]))[1], [case["hist"]])[0]
    return ("no crash", repr(r)) if isinstance(r, core.Crash) else r and r[1:]


def run_chunk(hists):
    bad = []
    world()             # here: the parser keeps exceptions, hence the frames (and their variables) below this one
    gc.collect()
    gc.freeze()         # what is there already is no business of the collections to come
    for h in hists:
        core.mark(str(h))
        r = execute(h)
        if r:
            bad.append((" ".join("%s:%s" % o for o in h), {"hist": h}, r[1], r[2], "at %s:%s" % r[0]))
            if len(bad) >= 8:
                break
    gc.unfreeze()
    gc.collect()
    return len(hists), bad


def space(ctx):
    ops = ROUTES + LIFE
    for n in range(1, 3):
        yield from itertools.product(ops, repeat=n)
    for n in range(3, ctx.pick(3, 4) + 1):
        for h in itertools.product(ops, repeat=n):
            if h[0][0] in NUM and useful(h):
                yield h
    for n in range(4, ctx.pick(4, 5) + 1):
        for h in itertools.product(CORE + LIFE, repeat=n):
            if h[0][0] in NUM and useful(h):
                yield h
    m = [("M", "abs"), ("M", "name"), ("M", "cdll"), ("drop", "M"), ("use", "M"), ("A", "abs")]
    for h in itertools.product(m, repeat=ctx.pick(2, 3)):
        yield h


def useful(h):
    """use and drop only make sense of a file that is open; nothing is done twice in a row."""
    op = set()
    for i, (k, v) in enumerate(h):
        if k in NUM:
            op.add(k)
        elif v not in op:
            return False
        elif k.startswith("drop"):
            op.discard(v)
        elif i and h[i - 1] == (k, v):
            return False
    return True


def run(ctx):
    libs_ready()
    hists = list(space(ctx))
    parts = core.chunks(hists, 150)
    for part, r in zip(parts, core.pmap(run_chunk, parts)):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, {"hist": part[0]}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        for b in r[1]:
            ctx.violation(*b)
    states = set()
    for h in hists:
        s = frozenset()
        states.add(s)
        for k, v in h:
            s = s | {k} if k in NUM else s | {"used" + v} if k == "use" else s - {v, "used" + v}
            states.add(s)
            ctx.transitions += 1
    ctx.nstates = len(states)
    ctx.outcomes |= states
    for h in hists[::max(1, len(hists) // 5)]:
        ctx.sample(" ".join("%s:%s" % o for o in h), 6)
    ctx.note(histories=len(hists), ways_to_open=len(ROUTES) + 3)
    ctx.assumptions.append("library objects are loaded by path, and relative paths used in the directory they were loaded from; "
                           "hard links and files replaced on disk while bound are not covered")
