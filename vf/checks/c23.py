"""C23: the word size of a library decides, before loading, whether it is opened - and nothing else about the file does.

Kinds of content (ELF of every class, byte order, type and machine, every truncation of an ELF header, other formats) x
names (of file and directories) x ways to reach the file. What the code attempts to load is observed through the audit
event of dlopen, so that nothing has to be loadable. Histories replace the content between openings."""
import itertools
import os
import shutil
import struct
import subprocess
import sys

from .. import core
from ..core import Failed, guarded

PY = 64 if sys.maxsize > 2 ** 32 else 32
OTHER = 96 - PY


def D(*p):
    return os.path.join(core.scratch(), "c23", *p)


# ------------------------------------------------------------------ content
def elf(cls, data=1, typ=3, machine=62, size=None):
    """Just a header (and zeros)."""
    e = "<" if data == 1 else ">"
    ident = b"\x7fELF" + bytes([cls, data, 1, 0]) + b"\0" * 8
    if cls == 2:
        h = ident + struct.pack(e + "HHIQQQIHHHHHH", typ, machine, 1, 0, 0, 0, 0, 64, 56, 0, 64, 0, 0)
    else:
        h = ident + struct.pack(e + "HHIIIIIHHHHHH", typ, machine, 1, 0, 0, 0, 0, 52, 32, 0, 40, 0, 0)
    return h if size is None else (h + b"\0" * size)[:size]


def build():
    """Real libraries, made once by the parent."""
    os.makedirs(D("src"), exist_ok=True)
    with open(D("src", "l.c"), "w") as f:
        f.write("int vf_three(void) { return 3; }\nint vf_v = 7;\n")
    with open(D("src", "i.c"), "w") as f:
        f.write("const char i[] __attribute__((section(\".interp\"))) = \"/opt/32-bit/64-bit/ld.so\";\nint vf_three(void) { return 3; }\n")
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", D("src", "l.so"), D("src", "l.c")], check=True, capture_output=True)
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", D("src", "i.so"), D("src", "i.c")], check=True, capture_output=True)
    subprocess.run(["gcc", "-shared", "-fPIC", "-g", "-Wl,-soname,32-bit.so", "-o", D("src", "g.so"), D("src", "l.c")], check=True,
                   capture_output=True)
    for f in ("l", "i"):
        subprocess.run(["gcc", "-m32", "-shared", "-nostdlib", "-fPIC", "-o", D("src", f + "32.so"), D("src", f + ".c")], capture_output=True)
    with open(D("h.h"), "w") as f:
        f.write("int vf_three(void);\n")


def real(n):
    with open(D("src", n), "rb") as f:
        return f.read()


def contents(ctx):
    """(name, bytes, word size or 0 when it has none, loadable)"""
    import gzip
    import io
    l64 = real("l.so")
    res = [("lib", l64, 64, True), ("lib with interpreter", real("i.so"), 64, True), ("lib with debug information", real("g.so"), 64, True)]
    for f in ("l32.so", "i32.so"):
        if os.path.exists(D("src", f)):
            res.append((f, real(f), 32, False))
    for cls, data, typ, mach in itertools.product((1, 2), (1, 2), ctx.pick((1, 2, 3), (0, 1, 2, 3, 4)),
                                                  ctx.pick((3, 62, 183), (0, 2, 3, 8, 20, 21, 22, 40, 43, 50, 62, 183, 243))):
        res.append(("elf class %d data %d type %d machine %d" % (cls, data, typ, mach), elf(cls, data, typ, mach), 32 * cls, False))
    for cls in (0, 3, 255):
        res.append(("elf class %d" % cls, elf(1)[:4] + bytes([cls]) + elf(1)[5:], 0, False))
    for n in ctx.pick((0, 1, 3, 4, 16, 17, 18, 20, 40, 51, 52), range(0, 53)):
        # what still has a whole identification has a class
        res.append(("elf 32 cut to %d" % n, elf(1)[:n], 32 if n >= 16 else 0 if n < 4 else None, False))
    for n in ctx.pick((5, 8, 16, 17, 40, 63), range(0, 64)):      # (longer ones crash the loader itself)
        res.append(("elf 64 cut to %d" % n, l64[:n], 64 if n >= 16 else 0 if n < 4 else None, False))
    z = io.BytesIO()
    with gzip.GzipFile("my 32-bit.so", "wb", fileobj=z, mtime=0) as g:
        g.write(elf(1))
    pe = b"MZ" + b"\0" * 58 + struct.pack("<I", 64) + b"PE\0\0" + struct.pack("<HHIIIHH", 0x14c, 0, 0, 0, 0, 0xe0, 0x2102) + \
        struct.pack("<H", 0x10b) + b"\0" * 300
    pe64 = pe.replace(struct.pack("<H", 0x14c), struct.pack("<H", 0x8664), 1).replace(struct.pack("<H", 0x10b), struct.pack("<H", 0x20b), 1)
    res += [("script", b"#!/opt/32-bit/python\nprint(1)\n", 0, False), ("script of ELF 32-bit", b"#!/x/ELF 32-bit LSB\n", 0, False),
            ("text", b"ELF 32-bit LSB shared object, 32-bit\n", 0, False), ("linker script", b"/* GNU ld script */\nGROUP ( /lib32/libc.so.6 )\n", 0, False),
            ("gzip of a 32-bit one", z.getvalue(), 0, False), ("archive", b"!<arch>\n32-bit/         0           0     0     644     4         `\n\0\0\0\0", 0, False),
            ("pe32", pe, 0, False), ("pe32+", pe64, 0, False), ("zeros", b"\0" * 100, 0, False), ("late elf", b"x" + elf(1), 0, False),
            ("32-bit magic of others", b"\xce\xfa\xed\xfe" + b"\0" * 28, None, False), ("latin text", "32-bit é\n".encode("latin-1"), 0, False),
            ("python", b"# 32-bit\nimport os\ndef f(): pass\n", 0, False), ("html", b"<!DOCTYPE html><title>32-bit</title>", 0, False),
            ("core-like text", b"core file of 'x32-bit' from '64-bit'", 0, False)]
    return res


NAMES = ["plain.so", "lib 32-bit.so", "64-bit.so", "32-bit", "-dash.so", "--version", "a'b.so", 'q"uo.so', "$(touch x).so", "pct%s.so", "nl\n.so", "tab\t.so",
         "ELF 32-bit LSB shared object.so", "ünï.so", "a:b.so", ";x.so", "*.so", "x.so.1.2", "ELF 64-bit, x.so", "bad\udcff.so"]
DIRS = ["d", "ELF 32-bit d", "64-bit/32-bit"]
ROUTES = ["abs", "rel", "link", "chain", "dirlink", "name", "libpath", "hard", "dots"]


def place(dirname, name, data, k):
    d = D("p%d" % k, dirname)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name)
    with open(path, "wb") as f:
        f.write(data)
    return path


def reach(path, route, k):
    """The way to give the file."""
    from pyclibrary import utils as u
    d, name = os.path.split(path)
    top = D("p%d" % k)
    if route == "abs":
        return path
    if route == "rel":
        os.chdir(d)
        return "./" + name
    if route == "link":
        os.symlink(path, os.path.join(top, "32-bit link.so"))
        return os.path.join(top, "32-bit link.so")
    if route == "chain":
        os.symlink(path, os.path.join(top, "64-bit one.so"))
        os.symlink("64-bit one.so", os.path.join(top, "ELF 32-bit two.so"))
        return os.path.join(top, "ELF 32-bit two.so")
    if route == "dirlink":
        os.symlink(d, os.path.join(top, "32-bit dir"))
        return os.path.join(top, "32-bit dir", name)
    if route == "name":
        u.LIBRARY_DIRS[:] = []
        u.add_library_locations([d])
        return name
    if route == "libpath":
        return u.LibraryPath(path)
    if route == "hard":
        os.link(path, os.path.join(top, "32-bit hard.so"))
        return os.path.join(top, "32-bit hard.so")
    return os.path.join(d, "..", os.path.basename(d), name)


_loads = []


def _hook(event, args):
    if event == "ctypes.dlopen":
        _loads.append(args[0])


_hooked = []


def loads():
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked.append(1)
    return _loads


def arch_of(path):
    """What a path says about itself: everything derived from the architecture."""
    from pyclibrary.utils import LibraryPath
    p = LibraryPath(path)
    return tuple(p.arch), p.is_32bit, p.is_64bit, p.bitness


def arch_model(size):
    if not size:
        return (), "n/a", "n/a", "n/a"
    return (size,), size == 32, size == 64, str(size)


def attempt(given, path, size, loadable, head):
    """(expected, observed) or None. `path`: the real file."""
    from pyclibrary import CLibrary
    lo = loads()
    del lo[:]
    r = guarded(CLibrary, given, head)
    tried = any(x is not None and os.path.exists(x) and os.path.samefile(x, path) for x in lo)
    if size is None:        # either way is fine, provided it does not crash
        return None if isinstance(r, Failed) and r.isa("OSError") else ("OSError", repr(r))
    if size == OTHER:
        if not (isinstance(r, Failed) and r.isa("OSError")) or tried:
            return "OSError before loading", "%r, load attempted: %s" % (r, tried)
        return None
    if not tried:
        return "load attempted", "%r, not loaded" % (r,)
    if loadable:
        v = guarded(lambda: r.vf_three()())
        if v != 3:
            return "a working library", "%r %r" % (r, v)
        return None
    # (whatever exception ctypes makes of it: not an OSError for names which are not UTF-8)
    return None if isinstance(r, Failed) else ("an error of the loader", repr(r))


def head():
    from pyclibrary import CParser
    return CParser(D("h.h"))


def job(cases):
    bad, n, outs = [], 0, set()
    h = head()
    for k, (cname, data, size, loadable, dirname, name, route) in cases:
        core.mark("%s as %r in %r by %s" % (cname, name, dirname, route))
        path = place(dirname, name, data, k)
        given = reach(path, route, k)
        n += 1
        if size is not None:
            os.chdir(os.path.dirname(path))
            for what, g in (("file", path), ("bare name", name), ("given", os.path.join(os.path.dirname(path), given)
                             if os.sep not in given else given)):
                a = guarded(arch_of, g)
                outs.add(repr(a))
                if a != arch_model(size):
                    bad.append((k, repr(arch_model(size)), repr(a), "architecture of the " + what))
                    break
            if not given.startswith("./"):
                os.chdir("/")
        r = attempt(given, path, size, loadable, h)
        outs.add(repr((size, r)))
        if r:
            bad.append((k, r[0], r[1], "opening"))
        os.chdir("/")
        shutil.rmtree(D("p%d" % k), ignore_errors=True)
    return n, bad, outs


# ------------------------------------------------------------------ histories
H_OPS = ["put64", "put32", "putjunk", "path", "link", "copy", "drop"]


def history(args):
    """Content changes between openings of one path, a link to it and a copy taken just then."""
    ops, k = args
    import gc
    from pyclibrary import CLibrary
    lo = loads()
    h = head()
    d = D("h%d" % k)
    os.makedirs(d, exist_ok=True)
    path, link = os.path.join(d, "x.so"), os.path.join(d, "y.so")
    os.symlink(path, link)
    data = {64: real("l.so"), 32: elf(1), 0: b"junk"}
    live, n, size, r = {}, 0, 64, None
    with open(path, "wb") as f:
        f.write(data[64])
    try:
        for i, op in enumerate(ops):
            if op.startswith("put"):
                size = {"put64": 64, "put32": 32, "putjunk": 0}[op]
                with open(path + ".t", "wb") as f:
                    f.write(data[size])
                os.replace(path + ".t", path)
                continue
            if op == "drop":
                live.clear()
                r = None
                gc.collect()
                continue
            given = {"path": path, "link": link}.get(op)
            if op == "copy":
                given = os.path.join(d, "c%d.so" % i)
                shutil.copy(path, given)
            n += 1
            del lo[:]
            r = guarded(CLibrary, given, h)
            tried = bool(lo)
            a = guarded(arch_of, given)
            if a != arch_model(size):
                return n, (i, repr(arch_model(size)), repr(a))
            key = os.path.realpath(given)
            if size == OTHER:
                if not (isinstance(r, Failed) and r.isa("OSError")) or tried:
                    return n, (i, "OSError before loading", "%r, load attempted: %s" % (r, tried))
            elif key in live:
                if r is not live[key]:
                    return n, (i, "the live binding", repr(r))
            elif size == 0:
                # (the loader knows by name what it once loaded, and answers with that)
                if not tried:
                    return n, (i, "load attempted", "%r, not loaded" % (r,))
                if not isinstance(r, Failed):
                    live[key] = r
            elif isinstance(r, Failed) or not tried or guarded(lambda: r.vf_three()()) != 3:
                return n, (i, "a working library", "%r, load attempted: %s" % (r, tried))
            else:
                live[key] = r
        return n, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def hist_job(items):
    res = []
    for k, ops in items:
        core.mark("history %s" % (ops,))
        r = history((ops, k))
        res.append((k, r))
        if r[1]:
            import gc
            gc.collect()
    return res


def no_file(_):
    """Without file(1) nothing is known, hence nothing is refused."""
    os.environ["PATH"] = D("empty")
    h, bad = head(), []
    for k, (name, data, size, loadable) in enumerate([("lib", real("l.so"), 64, True), ("32", elf(1), None, False), ("junk", b"x", 0, False)]):
        p = place("d", "n.so", data, 900000 + k)
        r = attempt(p, p, size, loadable, h)
        if r:
            bad.append((name,) + r)
    return bad


def cases(ctx):
    cs = contents(ctx)
    main = [c for c in cs if c[0] in ("lib", "lib with interpreter", "l32.so", "i32.so", "text", "gzip of a 32-bit one",
                                      "elf class 1 data 1 type 3 machine 3", "elf class 2 data 1 type 3 machine 62", "script")]
    res = []
    for c in cs:
        for r in ctx.pick(ROUTES[:3], ROUTES):
            res.append(c + (DIRS[0], NAMES[0], r))
    for c, n, d, r in itertools.product(main, NAMES, DIRS, ROUTES):
        if ctx.quick and (len(n) + len(d) + ROUTES.index(r) + main.index(c)) % 3:
            continue
        res.append(c + (d, n, r))
    return res


def run(ctx):
    build()
    cs = list(enumerate(cases(ctx)))
    chunks = [cs[i::64] for i in range(64)]
    for c, r in zip(chunks, core.pmap(job, chunks)):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, {"marker": r.marker, "case": _case(c[0][1])}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.outcomes |= r[2]
        for k, e, o, w in r[1]:
            x = cs[k][1]
            ctx.violation("%s as %r in %r by %s" % (x[0], x[5], x[4], x[6]), {"case": _case(x)}, e, o, w)
    for _, x in cs:
        ctx.state(repr((x[0], x[4:])))
    ctx.note(placements=len(cs))
    hs = [h for n in range(1, ctx.pick(5, 6)) for h in itertools.product(H_OPS, repeat=n)
          if h[-1] in ("path", "link", "copy") and not any(a.startswith("put") and b.startswith("put") for a, b in zip(h, h[1:]))
          and not any(a == b == "drop" for a, b in zip(h, h[1:]))]
    hs = list(enumerate(hs))
    n = 0
    parts = [hs[i::64] for i in range(64)]
    for c, res in zip(parts, core.pmap(hist_job, parts)):
        if isinstance(res, core.Crash):
            ctx.violation("crash " + res.marker, {"history": list(c[0][1])}, "no crash", repr(res))
            continue
        for k, (cnt, r) in res:
            n += cnt
            if r:
                ctx.violation("history %s, step %d" % (list(hs[k][1]), r[0]), {"history": list(hs[k][1])}, r[1], r[2])
    for _, h in hs:
        for i in range(len(h) + 1):
            ctx.state(repr(h[:i]))
    ctx.note(histories=len(hs), openings_in_histories=n)
    ctx.transitions = ctx.traces + n
    ctx.traces += len(hs)
    r = core.pmap(no_file, [0])[0]
    for name, e, o in ([("crash", "no crash", repr(r))] if isinstance(r, core.Crash) else r):
        ctx.violation("without file(1): " + name, {"no_file": True}, e, o)
    for _, x in cs[:: len(cs) // 4]:
        ctx.sample("%s as %r in %r by %s" % (x[0], x[5], x[4], x[6]))
    ctx.assumptions.append("Linux; the description of a format is taken from file(1); headers cut inside their identification "
                           "are only required not to be accepted")


def _case(x):
    return [x[0], x[1].hex() if len(x[1]) < 3000 else x[0], x[2], x[3], x[4], ascii(x[5]), x[6]]


def replay(case):
    build()

    def go(_):
        if "history" in case:
            r = history((case["history"], 0))[1]
            return r and r[1:]
        if "no_file" in case:
            r = no_file(0)
            return r[0][1:] if r else None
        import ast
        x = case["case"]
        data = {"lib": "l.so", "lib with interpreter": "i.so", "lib with debug information": "g.so", "l32.so": "l32.so", "i32.so": "i32.so"}.get(x[0])
        if data:
            data = real(data)
        else:
            try:
                data = bytes.fromhex(x[1])
            except ValueError:
                data = real("l.so")[:int(x[0].split()[-1])]
        r = job([(0, (x[0], data, x[2], x[3], x[4], ast.literal_eval(x[5]), x[6]))])
        return r[1][0][1:3] if r[1] else None
    r = core.pmap(go, [0])[0]
    return ("no crash", repr(r)) if isinstance(r, core.Crash) else r
