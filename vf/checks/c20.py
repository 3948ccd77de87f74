"""C20: finding headers and libraries. Explicit-state search over registration / file-operation / search histories (a fresh
process for each) against a path model; after every history all searches over names placed in every combination of ways.
"""
import itertools
import os
import shutil

from .. import core, gcc
from ..core import Failed, guarded

DIRS = ["d1", "d two", "d3é"]
KINDS = ["-", "file", "dir", "dangling", "link"]
COMBOS = list(itertools.product(range(len(KINDS)), repeat=3))
SYS = ["/usr/local/include", "/usr/target/include", "/usr/include"]


def base():
    return os.path.join(core.scratch(), "c20")


def D(i):
    return os.path.join(base(), DIRS[i]) if isinstance(i, int) else os.path.join(base(), i)


def setup():
    """All the names, placed in all ways; made once by the parent."""
    b = base()
    if os.path.isdir(b):
        return
    os.makedirs(os.path.join(b, "target"))
    os.makedirs(os.path.join(b, "cwd"))
    for i in range(3):
        os.makedirs(os.path.join(D(i), "sub"))
    for ext in (".h", ".so"):
        for c in COMBOS:
            for i, k in enumerate(c):
                place(i, "n%d%d%d%s" % (*c, ext), KINDS[k])
    for i in range(3):
        for n in ("stdio.h", "WinDefs.cache", "sub/s.h", "where%d.h" % i):
            place(i, n, "file") if n != "sub/s.h" or i != 1 else None
    for i in (1, 2):
        place(i, "where.h", "file")
        gcc.shared("int ident(void) { return %d; }\n" % i, os.path.join(core.scratch(), "c20-%d.so" % i))
        shutil.copy(os.path.join(core.scratch(), "c20-%d.so" % i), os.path.join(D(i), "where.so"))
    with open(os.path.join(b, "cwd", "where2.h"), "w") as f:
        f.write("#define WHERE 77\n")
    with open(os.path.join(b, "cwd", "n000.so"), "w") as f:
        f.write("not searched\n")
    with open(os.path.join(b, "cwd", "n000.h"), "w") as f:
        f.write("not searched by find_header\n")


def place(i, name, kind):
    p = os.path.join(D(i), name)
    if kind == "file":
        with open(p, "w") as f:
            f.write("#define WHERE %d\n" % i)
    elif kind == "dir":
        os.mkdir(p)
    elif kind == "dangling":
        os.symlink("nowhere", p)
    elif kind == "link":
        t = os.path.join(base(), "target", "t%d%s" % (i, name))
        with open(t, "w") as f:
            f.write("#define WHERE %d\n" % i)
        os.symlink(t, p)


# how a list of directories is handed to a search
DIROPTS = [None, [], [0], [1], [1, 0], [2, 1, 0], ["missing"], ["missing", 2], (1, 2)]
ADDS = [[0], [1], [2], [0, 1], [2, 0], ["missing"], ["missing", 1], []]
H_OPS = [("addh", a) for a in ADDS]
L_OPS = [("addl", a) for a in ADDS]
F_OPS = [("put", 0), ("put", 1), ("del", 0), ("search",), ("mutate",)]


class Model:
    """Registered directories, and where the file that comes and goes is."""

    def __init__(self):
        self.h, self.l, self.dyn = [], [], set()

    def do(self, op):
        if op[0] in ("addh", "addl"):
            (self.h if op[0] == "addh" else self.l).extend(i for i in op[1] if i != "missing")
        elif op[0] == "put":
            self.dyn.add(op[1])
        elif op[0] == "del":
            self.dyn.discard(op[1])

    def order(self, kind, dirs):
        return [D(i) for i in list(dirs or []) + (self.h if kind == "h" else self.l)[::-1]]

    def holds(self, d, name):
        i = [D(k) for k in range(3)].index(d) if d in [D(k) for k in range(3)] else None
        if i is None:
            return False
        if name.startswith("dyn"):
            return i in self.dyn
        if name[0] == "n":
            return KINDS[int(name[1 + i])] in ("file", "link")
        if name == "sub/s.h":
            return i != 1
        return True     # stdio.h, WinDefs.cache

    def find(self, kind, name, dirs, pkg):
        for d in self.order(kind, dirs):
            if self.holds(d, name):
                return os.path.join(d, name)
        if kind == "h":
            for d in [pkg] + SYS:
                if os.path.isfile(os.path.join(d, name)):
                    return os.path.join(d, name)
        return None


def dynfile(i, ext, mine):
    return os.path.join(D(i), "dyn%d%s" % (mine, ext))


def search(u, m, kind, name, dirs, pkg):
    """None or (expected, observed) for one search."""
    exp = m.find(kind, name, dirs, pkg)
    arg = None if dirs is None else type(dirs)(D(i) for i in dirs)
    keep = None if arg is None else type(arg)(arg)
    r = guarded(u.find_header if kind == "h" else u.find_library, name, arg)
    if arg != keep:
        return "list of the caller as it was", "changed"
    got = r if isinstance(r, Failed) else str(r)
    if exp is None:
        if not (isinstance(r, Failed) and r.isa("OSError")):
            return "OSError", repr(got)
    elif got != exp or isinstance(got, Failed):
        return exp, repr(got)
    elif kind == "l" and r.path != exp:
        return exp, "path %r" % r.path
    return None


def run_history(ops, full, mine):
    """None or (expected, observed, what). Runs in a process of its own."""
    import pyclibrary
    from pyclibrary import utils as u
    pkg = os.path.join(os.path.dirname(pyclibrary.__file__), "headers")
    os.chdir(os.path.join(base(), "cwd"))
    m, lists = Model(), []
    n = 0
    hnames = ["n%d%d%d.h" % c for c in COMBOS] + ["stdio.h", "WinDefs.cache", "sub/s.h", "dyn%d.h" % mine]
    lnames = ["n%d%d%d.so" % c for c in COMBOS] + ["dyn%d.so" % mine]

    def look(hn, ln, opts):
        nonlocal n
        for d in opts:
            for name in hn:
                n += 1
                b = search(u, m, "h", name, d, pkg)
                if b:
                    return b + ("find_header(%r, %r)" % (name, d),)
            for name in ln:
                if m.find("l", name, d, pkg) is not None:       # otherwise the system is asked, which takes long
                    n += 1
                    b = search(u, m, "l", name, d, pkg)
                    if b:
                        return b + ("find_library(%r, %r)" % (name, d),)
        return None

    try:
        for op in ops:
            m.do(op)
            if op[0] in ("addh", "addl"):
                arg = [D(i) for i in op[1]]
                keep = list(arg)
                r = guarded(u.add_header_locations if op[0] == "addh" else u.add_library_locations, arg)
                if isinstance(r, Failed):
                    return n, ("directories registered", repr(r), str(op))
                if arg != keep:
                    return n, (keep, arg, "list given to %s" % (op,))
                lists.append(arg)
            elif op[0] == "mutate":         # what the caller does with the lists later does not matter
                for x in lists:
                    x[:] = [D(2)]
            elif op[0] == "put":
                for ext in (".h", ".so"):
                    with open(dynfile(op[1], ext, mine), "w") as f:
                        f.write("#define WHERE %d\n" % op[1])
            elif op[0] == "del":
                for ext in (".h", ".so"):
                    if os.path.exists(dynfile(op[1], ext, mine)):
                        os.unlink(dynfile(op[1], ext, mine))
            elif op[0] == "search":
                b = look(hnames[::7] + hnames[-4:], lnames[::7], [None, [1], (1, 2)])
                if b:
                    return n, b
        b = look(hnames if full else hnames[::3] + hnames[-4:], lnames if full else lnames[::3], DIROPTS if full else DIROPTS[::2])
        if b:
            return n, b
        if full == 2:
            return n, through(m, pkg)
        return n, None
    finally:
        for i in range(3):
            for ext in (".h", ".so"):
                if os.path.exists(dynfile(i, ext, mine)):
                    os.unlink(dynfile(i, ext, mine))


def through(m, pkg):
    """The same by way of CParser and CLibrary."""
    from pyclibrary import CLibrary, CParser
    from ..cparse import write
    cwd = os.path.join(base(), "cwd")
    for name, here in (("where.h", (1, 2)), ("where0.h", (0,)), ("where1.h", (1,)), ("where2.h", (2,))):
        exp = next((i for i in m.h[::-1] if i in here), None)
        if name == "where2.h":      # an existing path as it is
            exp = 77
        for files in ([name], name):
            p = guarded(CParser, files)
            if exp is None:
                if not (isinstance(p, Failed) and p.isa("OSError")):
                    return "OSError", repr(p if isinstance(p, Failed) else p.defs["values"]), "CParser(%r)" % (files,)
            else:
                got = repr(p) if isinstance(p, Failed) else p.defs["values"].get("WHERE")
                if got != exp:
                    return exp, got, "CParser(%r)" % (files,)
    for path in (os.path.join(D(0), "where0.h"), os.path.join("..", DIRS[0], "where0.h")):
        p = guarded(CParser, [path])
        if isinstance(p, Failed) or p.defs["values"].get("WHERE") != 0:
            return "the file itself", repr(p), "CParser(%r)" % path
    h = write("int ident(void);\n")
    exp = next((i for i in m.l[::-1] if i in (1, 2)), None)
    lib = guarded(CLibrary, "where.so", guarded(CParser, h))
    if exp is None:
        if not (isinstance(lib, Failed) and lib.isa("OSError")):
            return "OSError", repr(lib), "CLibrary('where.so')"
    else:
        got = guarded(lambda: lib.ident()())
        if got != exp:
            return exp, repr(got), "CLibrary('where.so')"
    for i in (1, 2):
        lib2 = guarded(CLibrary, os.path.join("..", DIRS[i], "where.so"), guarded(CParser, h))
        got = guarded(lambda: lib2.ident()())
        if got != i:
            return i, repr(got), "CLibrary(path)"
    return None


def job(args):
    import pyclibrary  # noqa
    n, bad, outs = 0, [], set()
    for k, (ops, full, mine) in args:
        core.mark(repr(ops))
        r = core.pmap(lambda _: run_history(ops, full, mine), [0], nproc=1, timeout=200)[0]
        if isinstance(r, core.Crash):
            r = (0, ("no crash", repr(r), "crash"))
        n += r[0]
        outs.add((tuple(o[0] for o in ops), r[1] is None))
        if r[1]:
            bad.append((k, r[1]))
            if len(bad) > 5:
                break
    return n, bad, outs


def histories(ctx):
    res = []
    allops = H_OPS + L_OPS + F_OPS
    for n in range(0, ctx.pick(2, 3) + 1):
        res += [(list(h), 1) for h in itertools.product(allops, repeat=n)]
    few = [("addh", [0]), ("addh", [0, 1]), ("addh", [2, 0]), ("addl", [1]), ("addl", [2, 1]), ("put", 0), ("put", 1), ("del", 0), ("search",),
           ("mutate",)]
    res += [(list(h), 0) for h in itertools.product(few, repeat=ctx.pick(3, 4))]
    res += [(list(h), 1) for n in (3, 4) for h in itertools.product(H_OPS[:3], repeat=n)]
    res += [(list(h), 1) for n in (3, 4) for h in itertools.product(L_OPS[:3], repeat=n)]
    pairs = [(a, b) for a in H_OPS for b in L_OPS]
    res += [([a, b], 2) for a, b in pairs] + [([H_OPS[1], L_OPS[1], H_OPS[2], L_OPS[2]], 2), ([H_OPS[2], L_OPS[2], H_OPS[1], L_OPS[1]], 2),
                                              ([], 2)]
    return res


def system(_):
    """Libraries found by the system alone: loadable, and nowhere means OSError. The same whatever else was asked before."""
    from pyclibrary import utils as u
    import ctypes
    bad = []
    names = ["m", "c", "dl"]
    first = {}
    for rep in range(2):
        for n in names:
            r = guarded(u.find_library, n)
            if isinstance(r, Failed):
                bad.append((n, "found", repr(r)))
            else:
                if isinstance(guarded(ctypes.CDLL, str(r)), Failed):
                    bad.append((n, "a library", str(r)))
                if first.setdefault(n, str(r)) != str(r):
                    bad.append((n, first[n], str(r)))
        for n in ("vf_no_such_library", "libvfnone.so"):
            r = guarded(u.find_library, n)
            if not (isinstance(r, Failed) and r.isa("OSError")):
                bad.append((n, "OSError", repr(r)))
        u.add_library_locations([D(0)])
    return bad


def run(ctx):
    setup()
    hs = [(k, (ops, full, k)) for k, (ops, full) in enumerate(histories(ctx))]
    chunks = [hs[i::96] for i in range(96)]
    for c, r in zip(chunks, core.pmap(job, chunks, timeout=800)):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, {"ops": c[0][1][0], "full": 1}, "no crash", repr(r))
            continue
        ctx.transitions += r[0]
        ctx.outcomes |= r[2]
        for k, (e, o, w) in r[1]:
            ops, full, _ = hs[k][1]
            ctx.violation("%s, then %s" % (ops, w), {"ops": ops, "full": full}, e, o, w)
    r = core.pmap(system, [0])[0]
    if isinstance(r, core.Crash):
        ctx.violation("crash", {"system": True}, "no crash", repr(r))
    else:
        for n, e, o in r:
            ctx.violation("system library %s" % n, {"system": True}, e, o)
    ctx.traces = len(hs)
    for _, (ops, _, _) in hs:
        for i in range(len(ops) + 1):
            ctx.state(repr(ops[:i]))
    for _, (ops, _, _) in hs[::len(hs) // 5]:
        ctx.sample("history %s" % ops)
    ctx.note(searches=ctx.transitions, placements=len(COMBOS))
    ctx.assumptions.append("directories exist when registered; names without shell metacharacters; the search in the system itself is "
                           "delegated to the platform; transitions = searches compared")


def replay(case):
    setup()
    if case.get("system"):
        r = core.pmap(system, [0])[0]
        return r[0][1:] if r else None
    ops = [tuple(o) for o in case["ops"]]
    r = core.pmap(lambda _: run_history(ops, case["full"], 0), [0])[0]
    if isinstance(r, core.Crash):
        return "no crash", repr(r)
    return r[1] and r[1][:2]
