"""C11: parsing through a cache. Explicit-state search over histories of header edits, option changes, removals and
parses sharing one cache file, on real files whose modification times the harness owns.
Oracle: the same parse without cache at that moment.
"""
import itertools
import os
import shutil
import tempfile

from .. import core
from ..cparse import KINDS, norm
from ..core import Failed, guarded, own_dir

A = ["#define A1 1\n#define A2 (A1 + 1)\n#define F(x) ((x) * A2)\nstruct S { int x; char *n; };\ntypedef struct S S_t;\n"
     "int f(const int a, volatile char *b);\nint REPL = A2;\nchar *t = \"h\u00e9\";\n#ifdef EXT\nint ext = EXT;\n#endif\n"
     "#ifdef IMP\nint imp = IMP;\n#endif\n",
     "#define A1 3\n#pragma pack(push, 1)\nstruct S { char c; const int y[A1]; };\n#pragma pack(pop)\n"
     "typedef struct { short q : 3; union { int i; float g; }; } An;\nenum E { E1 = A1, E2, E3 = -1 };\nint REPL = 1;\n"
     "#undef EXT\n#define G() 4\n",
     "#define A2 5\n#undef A1\nint (*fp(int n))(char, const char *);\ntypedef int Arr[A2][2];\nunion U { Arr a; double d; };\n"
     "int both;\n#define STR \"x\u00fc\"\n"]
B = ["#ifdef A1\nint both = A1;\n#else\nint single;\n#endif\n#undef A2\n#undef IMP\nextern double g(float);\n",
     "struct S { long z; };\n#define A1 9\nint f(char);\nint both;\nunsigned int REPL;\n",
     "#undef F\n#undef A1\n"]
P1 = "#define IMP 4\n#define A2 40\nstruct S { char only; };\ntypedef int Imported;\nint f(double);\n"
P2 = "#define IMP 5\n#define G() 6\nenum E { E1 = 7 };\nint single = 8;\n"

FILES = [("a",), ("a", "b"), ("b", "a"), ("b",)]
REPL = [None, {"REPL": "repl_%d"}, {"REPL": "repl_x"}, {"int": "long", "REPL": "r"}]
REPL[1] = {"REPL": "repl_1"}
KW = [{}, {"macros": {"EXT": "5"}}, {"macros": {"EXT": "6"}}, {"values": {"EXT": 5}, "macros": {"EXT": "5", "A9": "1"}}]
ENC = ["utf-8", "latin-1"]
COPY = [(), (1,), (2,), (1, 2), (2, 1)]

OPS = ([("a", i) for i in range(3)] + [("b", i) for i in range(3)] + [("files", i) for i in range(4)] +
       [("repl", i) for i in range(4)] + [("kw", i) for i in range(4)] + [("enc", i) for i in range(2)] +
       [("copy", i) for i in range(5)] + [("touch", "a"), ("touch", "b"), ("del", "a"), ("del", "b"), ("P", 0)])
CORE = [("a", 0), ("a", 1), ("b", 1), ("files", 0), ("files", 1), ("repl", 1), ("kw", 1), ("enc", 1), ("copy", 1),
        ("copy", 0), ("del", "a"), ("touch", "b"), ("P", 0)]
STARTS = [dict(a=0, b=0, files=1, repl=0, kw=0, enc=0, copy=0), dict(a=1, b=0, files=1, repl=1, kw=1, enc=0, copy=1)]


def view(p):
    """All a parser reports; files by base name, as caches identify them."""
    base = os.path.basename
    return ({k: {n: norm(v) for n, v in p.defs[k].items()} for k in KINDS},
            {base(f) if f else f: {k: {n: norm(v) for n, v in d[k].items()} for k in KINDS if d.get(k)}
             for f, d in p.file_defs.items() if any(d.get(k) for k in KINDS)})


_imp = {}


def imported(i):
    """The parsers definitions are imported from (never altered by the parses)."""
    from pyclibrary import CParser
    if i not in _imp:
        path = os.path.join(own_dir(), "imp%d.h" % i)
        with open(path, "w") as f:
            f.write({1: P1, 2: P2}[i])
        _imp[i] = guarded(CParser, path)
    return _imp[i]


def run_parse(d, env, cache=None):
    from pyclibrary import CParser
    kw = {k: dict(v) for k, v in KW[env["kw"]].items()}
    cp = [imported(i) for i in COPY[env["copy"]]]
    if any(isinstance(c, Failed) for c in cp):
        return [c for c in cp if isinstance(c, Failed)][0]
    if len(cp) == 1:
        cp = cp[0]
    p = guarded(CParser, [os.path.join(d, x + ".h") for x in FILES[env["files"]]], copy_from=cp or None,
                replace=REPL[env["repl"]], cache=cache, encoding=ENC[env["enc"]], **kw)
    return p if isinstance(p, Failed) else guarded(view, p)


_fresh = {}


def relevant(env):
    r = tuple(sorted((k, v) for k, v in env.items() if k not in ("a", "b")))
    return r + tuple((x, env[x]) for x in FILES[env["files"]])


def options(env):
    return tuple(sorted((k, v) for k, v in env.items() if k not in ("a", "b")))


class World:
    def __init__(self, start):
        self.d = tempfile.mkdtemp(dir=own_dir())
        self.t = 1000000000.0
        self.env = dict(start)
        self.cache = os.path.join(self.d, "cache")
        self.there = {"a": True, "b": True}
        self.mtime = {}
        self.cached = None          # options and versions of the files at the last write of the cache
        self.cmtime = None
        for x in "ab":
            self.put(x)

    def put(self, x):
        self.t += 0.25
        path = os.path.join(self.d, x + ".h")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write((A if x == "a" else B)[self.env[x]])
        os.utime(path, (self.t, self.t))
        self.there[x] = True
        self.mtime[x] = self.t

    def do(self, op):
        """None or (what, expected, observed)."""
        k, v = op
        if k in "ab":
            self.env[k] = v
            self.put(k)
        elif k == "touch":
            if self.there[v]:
                self.t += 0.25
                self.mtime[v] = self.t
                os.utime(os.path.join(self.d, v + ".h"), (self.t, self.t))
        elif k == "del":
            if self.there[v]:
                os.unlink(os.path.join(self.d, v + ".h"))
                self.there[v] = False
        elif k == "P":
            return self.parse()
        else:
            self.env[k] = v
        return None

    def parse(self):
        env = dict(self.env)
        fl = FILES[env["files"]]
        key = relevant(env)
        gone = [x for x in fl if not self.there[x]]
        same = self.cached == key and all(self.mtime[x] <= self.cmtime for x in fl if self.there[x])
        if gone and not same and self.cached is not None and self.cached[:len(options(env))] == options(env) and all(
                self.mtime[x] <= self.cmtime for x in fl if self.there[x]):
            return None     # the removed header had changed since: nobody can tell
        if gone and not same:
            exp = "OSError"
        else:
            if key not in _fresh:
                w = World.__new__(World)
                w.d = tempfile.mkdtemp(dir=own_dir())
                w.t, w.env, w.there, w.mtime = 1.0, env, {}, {}
                for x in "ab":
                    w.put(x)
                _fresh[key] = run_parse(w.d, env)
                shutil.rmtree(w.d)
            exp = _fresh[key]
        self.t += 0.25
        got = run_parse(self.d, env, self.cache)
        rewritten = False
        if os.path.exists(self.cache):
            st = os.stat(self.cache)
            if self.cmtime is None or st.st_mtime != self.cmtime:
                rewritten = True
                self.cmtime = self.t
                self.cached = key
                os.utime(self.cache, (self.t, self.t))
        elif self.cached is not None:
            return "cache file", "still there", "gone"
        if exp == "OSError":
            if not (isinstance(got, Failed) and got.isa("OSError")):
                return "header missing, no valid cache", "OSError", str(got)[:500]
            return None
        if isinstance(exp, Failed):
            return None if isinstance(got, Failed) and got.type == exp.type else ("parse", repr(exp), str(got)[:500])
        if isinstance(got, Failed):
            return "parse", "definitions", repr(got)
        if got != exp:
            return ("definitions", *short(exp, got))
        if same and rewritten:
            return "cache", "reused", "written again"
        return None


def short(e, g):
    re_, ro = {}, {}
    for part, x, y in (("defs", e[0], g[0]), ("file_defs", e[1], g[1])):
        for f in set(x) | set(y):
            a, b = x.get(f, {}), y.get(f, {})
            for k in set(a) | set(b):
                if a.get(k) != b.get(k):
                    re_["%s %s %s" % (part, f, k)], ro["%s %s %s" % (part, f, k)] = a.get(k, "absent"), b.get(k, "absent")
    s = lambda d: {k: d[k] for k in sorted(d)}
    return s(re_), s(ro)


def execute(start, hist):
    w = World(STARTS[start])
    try:
        r = w.do(("P", 0))
        n = 1
        for op in hist:
            if r:
                break
            r = w.do(op)
            n += 1
        if not r:
            r = w.do(("P", 0))
        return r, n + 1
    finally:
        shutil.rmtree(w.d, ignore_errors=True)


def replay(case):
    if "win_defs" in case:
        return win_defs_case()
    r, _ = execute(case["start"], [tuple(o) for o in case["hist"]])
    return r and r[1:]


def run_chunk(jobs):
    bad, n, outs = [], 0, set()
    for start, hist in jobs:
        r, k = execute(start, hist)
        n += k
        if r:
            bad.append(("start %d: P %s P" % (start, " ".join("%s=%s" % o if o[0] != "P" else "P" for o in hist)),
                        {"start": start, "hist": hist}, r[1], r[2], r[0]))
            if len(bad) >= 8:
                break
    return len(jobs), n, bad, [core.digest(v) for v in _fresh.values()]


def win_defs_case():
    """The cache shipped with the package stands for headers that are not shipped."""
    from pyclibrary.c_parser import win_defs
    r = guarded(win_defs)
    if isinstance(r, Failed):
        return "definitions of the shipped cache", "OSError" if r.isa("OSError") else r.text
    return None


def space(ctx):
    seen = set()

    def new(s, h):
        if (s, h) in seen:
            return False
        seen.add((s, h))
        return True
    for s in range(len(STARTS)):
        for n in range(0, 3):
            for h in itertools.product(OPS, repeat=n):
                if new(s, h):
                    yield s, h
        for n in range(3, ctx.pick(3, 4) + 1):
            for h in itertools.product(CORE, repeat=n):
                if useful(h) and new(s, h):
                    yield s, h
    if not ctx.quick:
        for h in itertools.product(OPS, repeat=3):
            if useful(h) and new(0, h):
                yield 0, h


def useful(h):
    """No two parses in a row, no change overwritten before a parse could see it."""
    for x, y in zip(h, h[1:]):
        if x[0] == y[0]:
            return False
        if "P" not in (x[0], y[0]) and x > y and {x[0], y[0]} <= {"files", "repl", "kw", "enc", "copy"}:
            return False    # option changes commute
    return True


def run(ctx):
    jobs = list(space(ctx))
    states = {core.digest((s, h[:i])) for s, h in jobs for i in range(len(h) + 1)}
    for part, r in zip(core.chunks(jobs, 60), core.pmap(run_chunk, core.chunks(jobs, 60))):
        if isinstance(r, core.Crash):
            ctx.violation("crash", {"start": part[0][0], "hist": part[0][1]}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.transitions += r[1]
        for b in r[2]:
            ctx.violation(*b)
        ctx.outcomes |= set(r[3])
    d = core.pmap(lambda _: win_defs_case(), [0])[0]
    if d:
        obs = repr(d) if isinstance(d, core.Crash) else d[1]
        ctx.violation("win_defs()", {"win_defs": True}, "definitions of the shipped cache", obs, "shipped cache")
    ctx.traces += 1
    ctx.nstates = len(states)
    for s, h in jobs[::max(1, len(jobs) // 5)]:
        ctx.sample("start %d: P %s P" % (s, " ".join("%s=%s" % o for o in h)), 6)
    ctx.note(histories=len(jobs))
    ctx.assumptions.append("an edit gives the header a modification time later than the cache's; headers of one base name "
                           "count as the same header (documented: the directory may change); after a header that had "
                           "changed is removed before any parse saw it, nothing is expected")
