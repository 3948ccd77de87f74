"""C12: crash points of the cache write. A real parse that writes its cache is killed (or its write fails) after every
number of bytes, by a file size limit of the operating system; then the path is used again. Also: every zero-filled
tail, foreign contents, pairs of crashes. Oracle: the same parse without cache.
"""
import os
import pickle
import resource
import shutil
import signal
import tempfile

from .. import core
from ..core import Failed, guarded, own_dir
from .c11 import view

LEVEL = "fault_enumeration"
TINY = "#define N 3\nint v = N;\n"
RICH = ("#define N 3\n#define F(x) ((x) + N)\nstruct S { const char *s; int a[N]; };\ntypedef struct S *Sp;\n"
        "union U { float f; struct S s; };\nenum E { E0, E1 = F(1) };\nint f(Sp p, int (*cb)(char, double), ...);\n"
        "int g(int);\nint v = N;\nvolatile int * const w;\n")
BIG = "".join("struct Big%d { int a%d[%d]; char *b; };\nint fun%d(struct Big%d *x, double y);\n" % (i, i, i + 1, i, i)
              for i in range(400))
OLD = "#define N 77\nint old_v = N;\nstruct S { double other; };\nint f(void);\n"
HEADERS = {"tiny": TINY, "rich": RICH, "big": BIG}


def parse(h, cache=None, **kw):
    from pyclibrary import CParser
    p = guarded(CParser, h, cache=cache, **kw)
    return p if isinstance(p, Failed) else guarded(view, p)


class W:
    """A directory with a header and the path of its cache."""

    def __init__(self, name):
        self.d = tempfile.mkdtemp(dir=own_dir())
        self.h, self.c = os.path.join(self.d, "h.h"), os.path.join(self.d, "c.cache")
        self.put(HEADERS[name])

    def put(self, text, t=1000.0):
        with open(self.h, "w") as f:
            f.write(text)
        os.utime(self.h, (t, t))

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


_fresh = {}


def fresh(name):
    if name not in _fresh:
        w = W(name)
        _fresh[name] = parse(w.h)
        w.close()
    return _fresh[name]


def crash(w, n, mode):
    """A process parses and writes its cache, and gets n bytes into a file at most."""
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if mode == "kill" else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            parse(w.h, w.c)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


def judge(w, name):
    """Use the path again, twice; the second time without the header."""
    exp = fresh(name)
    for step in ("parse", "next parse", "next parse without the header"):
        before = os.stat(w.c).st_mtime_ns if os.path.exists(w.c) else None
        if step.endswith("header"):
            os.unlink(w.h)
        got = parse(w.h, w.c)
        if isinstance(got, Failed) or isinstance(exp, Failed):
            if not (isinstance(exp, Failed) and isinstance(got, Failed) and exp.type == got.type):
                return step, "definitions" if not isinstance(exp, Failed) else repr(exp), str(got)[:300]
            continue
        if got != exp:
            from .c11 import short
            return (step, *short(exp, got))
        if step != "parse" and (before is None or os.stat(w.c).st_mtime_ns != before):
            return step, "uses the cache left behind", "writes it again" if before else "no cache left behind"
    return None


def build(case):
    """The world before the judged parse."""
    name = case["header"]
    w = W(name)
    if case.get("old"):
        w.put(OLD)
        parse(w.h, w.c)
        if os.path.exists(w.c):
            os.utime(w.c, (2000.0, 2000.0))
        w.put(HEADERS[name], 3000.0)
    k = case["kind"]
    if k == "crash":
        for n in case["points"]:
            crash(w, n, case["mode"])
    elif k == "bytes":
        data = whole(name, w)
        cut = case["at"]
        data = data[:cut] + b"\0" * (len(data) - cut) if case["fill"] == "zero" else data[:cut]
        with open(w.c, "wb") as f:
            f.write(data)
    else:
        with open(w.c, "wb") as f:
            f.write(foreign(w, name)[case["name"]])
    return w


_whole = {}


def whole(name, w):
    """The complete cache; it mentions the path of the header, hence one per directory (of the same length)."""
    if name not in _whole:
        v = W(name)
        parse(v.h, v.c)
        with open(v.c, "rb") as f:
            _whole[name] = (f.read(), v.d)
        v.close()
    data, d = _whole[name]
    return data.replace(d.encode(), w.d.encode())


def foreign(w, name):
    """Contents that are no cache of this parse."""
    data = whole(name, w)
    res = {"empty": b"", "newline": b"\n", "zeros": b"\0" * 4096, "text": HEADERS[name].encode(), "json": b'{"opts": {}}',
           "stop": b".", "proto": b"\x80\x04", "header bytes": b"\x80\x04\x95" + b"\xff" * 8, "random": bytes(range(256)) * 3,
           "twice cut": data[:len(data) // 2] * 2, "reversed": data[::-1], "shifted": data[1:], "elf": b"\x7fELF" + b"\0" * 60,
           "unknown module": b"cno_such_module\nThing\n.", "unknown attribute": b"cpyclibrary.c_parser\nNoSuch\n.",
           "recursion": b"(" * 100000 + b"."}
    for i, v in enumerate([None, 0, 1.5, "x", b"y", [], {}, (), set(), {"a": 1}, [{}], True, {"opts": None},
                           {"file_defs": {}}, {"version": 1}]):
        res["pickle %d %r" % (i, v)] = pickle.dumps(v)
    try:
        full = pickle.loads(data)
    except Exception:
        full = None
    if isinstance(full, dict):
        bogus = {"types": {"Bogus": ("int",)}, "macros": {"BOGUS": "1"}}
        for k in list(full):
            x = dict(full)
            del x[k]
            if k not in ("defs", "imported", "encoding"):   # absent in caches of earlier releases, which stay valid
                res["without %s" % k] = pickle.dumps(x)
        for k in ("opts", "version", "file_defs", "defs"):
            if k not in full:
                continue
            for i, v in enumerate([None, 0, "x", [], [1], {"x": 1}, {"x": {}}, {"x": {"macros": 3}}]):
                if k in ("version",) and isinstance(v, int):
                    v = -1
                x = dict(full)
                x[k] = v
                res["%s = %r" % (k, v)] = pickle.dumps(x)
        # entries of a definition table missing, as a release with fewer kinds would leave them
        x = dict(full)
        x.pop("defs", None)
        x["file_defs"] = {w.h: dict(bogus)}
        res["few kinds in file_defs"] = pickle.dumps(x)
        if "defs" in full:
            x = dict(full)
            x["defs"] = dict(bogus)
            x["file_defs"] = {w.h: dict(bogus)}
            res["few kinds in defs"] = pickle.dumps(x)
            x = dict(full)
            x["defs"] = dict(bogus)
            x["file_defs"] = None
            res["few kinds in defs, no file_defs"] = pickle.dumps(x)
        x = dict(full)
        x["opts"] = dict(full["opts"], files=["other.h"])
        x["file_defs"] = {w.h: dict(bogus)}
        res["other options"] = pickle.dumps(x)
    return res


def replay(case):
    w = build(case)
    try:
        r = judge(w, case["header"])
    finally:
        w.close()
    return r and r[1:]


def run_chunk(cases):
    bad, states = [], set()
    for case in cases:
        core.mark(str(case))
        w = build(case)
        if os.path.exists(w.c):
            with open(w.c, "rb") as f:
                states.add(core.digest(f.read().replace(w.d.encode(), b"@")))
        else:
            states.add("no file")
        try:
            r = judge(w, case["header"])
        finally:
            w.close()
        if r:
            key = {k: v for k, v in case.items()}
            bad.append((str(key), case, r[1], r[2], r[0]))
            if len(bad) >= 8:
                break
    return len(cases), bad, states


def space(ctx, sizes):
    c = []
    for name in ("tiny", "rich"):
        n = sizes[name]
        for i in range(n + 1):
            c.append(dict(kind="crash", header=name, points=[i], mode="kill"))
            if name == "tiny" or not ctx.quick:
                c.append(dict(kind="crash", header=name, points=[i], mode="fail"))
                c.append(dict(kind="crash", header=name, points=[i], mode="kill", old=True))
            c.append(dict(kind="bytes", header=name, at=i, fill="zero"))
        for i in range(n) if not ctx.quick else ():
            c.append(dict(kind="bytes", header=name, at=i, fill="cut"))
        step = max(1, n // ctx.pick(8, 25))
        pts = list(range(0, n + 1, step))
        for i in pts:
            for j in pts:
                c.append(dict(kind="crash", header=name, points=[i, j], mode="kill", old=(i + j) % 2 == 1))
    n = sizes["big"]
    pts = sorted({p + o for p in range(0, n + 4096, ctx.pick(16384, 4096)) for o in (-1, 0, 1) if 0 <= p + o <= n})
    for i in pts:
        c.append(dict(kind="bytes", header="big", at=i, fill="cut"))
    for i in pts[::ctx.pick(4, 1)]:
        c.append(dict(kind="crash", header="big", points=[i], mode="kill"))
    w = W("rich")
    for f in foreign(w, "rich"):
        c.append(dict(kind="foreign", header="rich", name=f))
        c.append(dict(kind="foreign", header="rich", name=f, old=True))
    w.close()
    return c


def measure(_):
    res = {}
    for n in HEADERS:
        w = W(n)
        r = parse(w.h, w.c)
        if isinstance(r, Failed) or not os.path.exists(w.c):
            return "%s: %r, cache %s" % (n, r if isinstance(r, Failed) else "parsed", os.path.exists(w.c))
        res[n] = len(whole(n, w))
        w.close()
    return res


def run(ctx):
    sizes = core.pmap(measure, [0])[0]
    if not isinstance(sizes, dict):
        ctx.violation("first parse", {"kind": "foreign", "header": "tiny", "name": "empty"}, "a cache is written", repr(sizes))
        return
    cases = core.pmap(lambda _: space(ctx, sizes), [0])[0]
    if isinstance(cases, core.Crash):
        ctx.violation("crash", {"kind": "foreign", "header": "tiny", "name": "empty"}, "no crash", repr(cases))
        return
    big = [c for c in cases if c["header"] == "big"]
    rest = [c for c in cases if c["header"] != "big"]
    parts = core.chunks(big, 2) + core.chunks(rest, 60)
    for part, r in zip(parts, core.pmap(run_chunk, parts)):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, part[0], "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.states |= r[2]
        for b in r[1]:
            ctx.violation(*b)
    ctx.outcomes |= {"definitions of a fresh parse"}
    for c in cases[::max(1, len(cases) // 6)]:
        ctx.sample(str(c), 7)
    ctx.note(rule="cache files (contents) distinct from one another that the judged parse found", cache_sizes=sizes,
             crash_points=sum(c["kind"] == "crash" for c in cases), cut_files=sum(c["kind"] == "bytes" for c in cases),
             foreign=sum(c["kind"] == "foreign" for c in cases))
    ctx.assumptions.append("a crash leaves a prefix of what was written to the file being written, possibly padded with zero "
                           "bytes; a well-formed cache made for the same options is believed, whatever it says")
