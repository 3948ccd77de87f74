"""C18: concurrent first use. Stateless exploration of thread schedules of the real code under a controlled scheduler
(vf/sched.py), preemption bounded, every schedule on a fresh binding (or a library not opened before); what each thread gets
is described on the spot and compared with what sequential use gives.
"""
import _ctypes
import ctypes
import os
import shutil

from .. import core, gcc, sched
from ..core import Failed, guarded, own_dir
from .c17 import drive

HDR = """
#define VAL 7
#define pre_VAL2 8
typedef int I;
typedef struct S S_t;
typedef S_t *S_p;
struct S { int a; struct T *t; };
struct T { struct S s; };
union U { I i; double d; };
struct Out { struct Mid m; char c; };
struct Mid { struct { int q; }; int arr[2]; };
typedef enum E { E0, E1 = 4 } E_t;
typedef int (*cb)(struct S *, E_t);
struct Broken { struct S s; Missing m; };
struct pre_P { S_t s[2]; };
int f(struct S *s, int *n);
int pre_g(int a, double *out);
cb h(int a, cb c);
void nolib(void);
extern int x;
"""
SRC = """
struct S { int a; void *t; };
int f(struct S *s, int *n) { s->a = 5; *n = 6; return 7; }
int pre_g(int a, double *out) { *out = a * 2; return a + 1; }
void *h(int a, void *c) { return c; }
"""
# Accesses: (how, ...)
ATTR = ["VAL", "VAL2", "S_t", "S_p", "S", "T", "U", "Out", "E_t", "E", "cb", "Broken", "P", "f", "g", "h", "nolib", "x", "nothing"]


def chars(t, deep=0, seen=()):
    """A complete description of a ctypes type (or of anything else a lookup gives)."""
    if not isinstance(t, type):
        if hasattr(t, "arg_types") and hasattr(t, "func"):
            return ("function", t.name, chars(t.func.restype), tuple(chars(a) for a in t.func.argtypes or ("none",)),
                    chars(t.res_type), tuple(chars(a) for a in t.arg_types))
        return ("value", repr(t))
    if issubclass(t, (ctypes.Structure, ctypes.Union)):
        if t in seen:
            return ("again", seen.index(t))
        fl = getattr(t, "_fields_", None)
        return (t.__mro__[1].__name__, repr(t()), ctypes.sizeof(t),
                None if fl is None else tuple((x[0], chars(x[1], deep + 1, seen + (t,))) + tuple(x[2:]) for x in fl))
    if issubclass(t, ctypes.Array):
        return ("array", t._length_, chars(t._type_, deep + 1, seen))
    if issubclass(t, ctypes._Pointer):
        return ("ptr", chars(t._type_, deep + 1, seen))
    if hasattr(t, "_argtypes_"):
        return ("fn", chars(t._restype_, deep + 1, seen), tuple(chars(a, deep + 1, seen) for a in t._argtypes_))
    return ("type", t.__name__)


class Env:
    def __init__(self):
        sched.install()
        d = own_dir()
        self.so = gcc.shared(SRC, os.path.join(d, "c18.so"))
        hdr = os.path.join(d, "c18.h")
        with open(hdr, "w") as f:
            f.write(HDR)
        import pyclibrary
        from pyclibrary import CParser
        self.pcl = pyclibrary
        self.parser = guarded(lambda: CParser(hdr))
        self.n = 0
        self.handles = []
        self.seq = {}

    def copy(self):
        self.n += 1
        p = os.path.join(own_dir(), "b%d.so" % self.n)
        shutil.copy(self.so, p)
        return p

    def open(self, p, how="cdll"):
        arg = p
        if how != "path":
            arg = ctypes.CDLL(p)
            self.handles.append(arg._handle)
        return self.pcl.CLibrary(arg, self.parser, prefix="pre_")

    def access(self, lib, a):
        """Returns (object or None, description)."""
        try:
            if a[0] == "attr":
                o = getattr(lib, a[1])
            elif a[0] == "item":
                o = lib(a[1], a[2])
            elif a[0] == "array":
                o = type(self.pcl.build_array(lib, a[1], 3))._type_
            elif a[0] == "cast":
                o = type(self.pcl.cast_to(lib, ctypes.c_void_p(), "S_p"))._type_
            elif a[0] == "run":
                if a[1] == "f":
                    r = lib.f()
                    return None, ("called", r(), r["s"].a, r["n"], chars(type(r["s"])))
                r = lib.g(20)
                return None, ("called", r(), r["out"])
            else:
                raise AssertionError(a)
        except AssertionError:
            raise
        except Exception as e:
            return None, ("error", type(e).__name__)
        return o, chars(o)

    def sequential(self, acts):
        """Descriptions from single-threaded use of a fresh binding."""
        for a in acts:
            if a not in self.seq:
                p = self.copy()
                self.seq[a] = self.access(self.open(p), a)[1]
                os.unlink(p)
        return self.seq

    def make(self, programs):
        opening = programs[0][0][0] == "open"
        acts = [a for p in programs for a in p if a[0] != "open"]
        allacts = sorted(set(acts + [("attr", "S"), ("attr", "T"), ("item", "structs", "S"), ("attr", "f")]))
        seq = self.sequential(allacts)

        def make():
            path = self.copy()
            lib = None if opening else self.open(path)

            def prog(acts):
                def run(s):
                    cur, res = lib, []
                    for a in acts:
                        if a[0] == "open":
                            cur = self.open(path, a[1])
                            res.append(cur)
                        else:
                            res.append(self.access(cur, a))
                    return res
                return run

            def judge(s):
                try:
                    return judge2(s)
                finally:
                    os.unlink(path)
                    while self.handles:         # thousands of them would slow the loader down
                        _ctypes.dlclose(self.handles.pop())

            def judge2(s):
                if s.deadlock:
                    return "deadlock", "every access completes", s.deadlock
                if any(s.errors):
                    return "errors", "every access completes", str(s.errors)
                objs, final = {}, lib
                for i, r in enumerate(s.results):
                    for a, got in zip(programs[i], r):
                        if a[0] == "open":
                            if final is not None and got is not final:
                                return "two bindings of one library", "one binding", repr((got, final))
                            final = got
                            continue
                        o, d = got
                        if d != seq[a]:
                            return "thread %d, %s" % (i, a), seq[a], d
                        if o is not None:
                            objs.setdefault(a, []).append(o)
                if opening and self.open(path) is not final:
                    return "later opening", "the same binding", "another one"
                for a in allacts:       # and afterwards
                    o, d = self.access(final, a)
                    if d != seq[a]:
                        return "afterwards, %s" % (a,), seq[a], d
                    if o is not None:
                        objs.setdefault(a, []).append(o)
                for a, l in objs.items():
                    if any(o is not l[0] for o in l[1:]):
                        return "objects for %s" % (a,), "one object", "%d objects" % len(set(map(id, l)))
                st = {id(o) for a in [("attr", "S"), ("attr", "S_t"), ("item", "structs", "S"), ("item", "structs", "S_t"),
                                      ("array", "S_t"), ("cast",)] for o in objs.get(a, [])}
                if len(st) > 1:
                    return "classes for struct S", "one class", "%d classes" % len(st)
                t = objs[("attr", "T")][0]
                inner = dict((f[0], f[1]) for f in t._fields_)
                if inner["s"] is not objs[("attr", "S")][0]:
                    return "class of member s of T", "struct S", "another class"
                return None
            return [prog(p) for p in programs], judge
        return make


def scenarios(ctx):
    """(programs, preemption bound, opcodes)"""
    A = [("attr", n) for n in ATTR]
    res = []
    # the same name twice
    tiny = ("VAL", "VAL2", "x", "E", "nothing", "nolib", "I")
    for a in A + [("item", "structs", "S"), ("item", "structs", "S_t"), ("item", "unions", "U"), ("item", "functions", "f"),
                  ("item", "types", "S_p"), ("item", "types", "I"), ("item", "values", "VAL"), ("item", "enums", "E_t"),
                  ("array", "S_t"), ("cast",), ("run", "f"), ("run", "g")]:
        deep = a[-1] in (("VAL2", "nolib") if ctx.quick else tiny) or (not ctx.quick and a[-1] in ("U", "g", "S"))
        res.append(([[a], [a]], ctx.pick(2 if deep and a[0] == "attr" else 1, 3 if a[-1] == "VAL2" else 2 if deep else 1), False))
    # different routes to the same structs
    routes = [("attr", "S"), ("attr", "T"), ("item", "structs", "S_t"), ("item", "types", "S_p"), ("attr", "cb"), ("array", "S_t"),
              ("attr", "Broken"), ("run", "f"), ("attr", "P")]
    for i, a in enumerate(routes):
        for b in routes[i + 1:]:
            if not ctx.quick or a[-1] == "S" or b[-1] == "Broken" or (a[-1], b[-1]) in (("T", "S_t"), ("cb", "S_t")):
                res.append(([[a], [b]], 1, False))
    for a, b, c in [("S", "T", "cb"), ("Broken", "S", "T"), ("U", "Out", "U")]:
        if not ctx.quick or a == "U":
            res.append(([[("attr", a), ("attr", b)], [("attr", c), ("attr", a)]], 1, False))
            res.append(([[("attr", a)], [("attr", b)], [("attr", c)]], 1, False))
    for a in ("VAL2", "x", "nothing", "nolib") + (() if ctx.quick else ("U", "g", "S", "E_t", "Broken")):
        res.append(([[("attr", a)], [("attr", a)]], 1, True))
    # opening
    o, p = ("open", "cdll"), ("open", "path")
    res.append(([[o], [o]], ctx.pick(2, 4), False))
    res.append(([[o], [o]], ctx.pick(1, 2), True))
    res.append(([[o], [o], [o]], ctx.pick(1, 2), False))
    res.append(([[o, ("attr", "S")], [o, ("attr", "S")]], 1, False))
    res.append(([[o, ("attr", "VAL2"), o], [o, ("attr", "VAL2")]], ctx.pick(1, 2), False))
    res.append(([[p], [p]], ctx.pick(1, 2), False))
    res.append(([[o], [p]], ctx.pick(1, 2), False))
    # the first use of the package, by way of parsers
    for a, b in [("none", "none"), ("one", "none")] + ([] if ctx.quick else [("one", "two"), ("a", "b")]):
        res.append(([[("parse", a)], [("parse", b)]], 1, False))
    return res


# What the threads parse at once, as the first thing in the process
PARSED = {"a": "#define A 1\ntypedef int T;\nint f(T a[2]);\n", "b": "struct T { char *a; } x;\n#define A T\n",
          "one": "int a;\n", "two": "int b;\n", "none": ""}
_alone, PARSED_FILES = {}, {}


def parsed(n):
    from pyclibrary import CParser
    return repr(sorted((CParser(PARSED_FILES[n]) if n != "none" else CParser()).defs.items()))


def prepare(programs):
    """The headers, and what parsing them in processes of their own gives."""
    for acts in programs:
        for a in acts:
            n = a[1]
            PARSED_FILES[n] = os.path.join(own_dir(), n + ".h")
            with open(PARSED_FILES[n], "w") as f:
                f.write(PARSED[n])
            _alone[n] = core.pmap(lambda _: guarded(lambda: [parsed(n)]), [0], nproc=1)[0]


def parse_sched(programs, plan, opcodes, first):
    """One schedule in a process that has not used the package yet; returns (sched, verdict)."""
    def prog(acts):
        return lambda s: [parsed(a[1]) for a in acts]
    want = [_alone[acts[0][1]] for acts in programs]
    s = sched.Sched([prog(acts) for acts in programs], plan, opcodes, first).run()
    if s.deadlock:
        return s, ("deadlock", "every parser is made", s.deadlock)
    if any(s.errors):
        return s, ("errors", "every parser is made", str(s.errors))
    for i, (w, g) in enumerate(zip(want, s.results)):
        if not isinstance(w, list) or w != g:
            return s, ("parser of thread %d" % i, w, g)
    return s, None


def parse_job(args):
    programs, bound, opcodes, first, plans = args
    sched.install(pyparsing=True)
    import pyclibrary  # noqa
    prepare(programs)

    def one(plan):
        s, v = parse_sched(programs, plan, opcodes, first)
        return list(sched.children(s.trail, {}, bound, 0)) if plans is None else None, s.step, v, tuple(
            t[0] for k, t in enumerate(s.trail) if k and s.trail[k - 1][0] != t[0])
    if plans is None:
        r = core.pmap(one, [{}], nproc=1)[0]
        return (([], 0, ("crash", "no crash", repr(r))) if isinstance(r, core.Crash) else r[:3])
    n = steps = 0
    outs, bad = set(), []
    for plan in plans:
        r = core.pmap(one, [plan], nproc=1)[0]
        if isinstance(r, core.Crash):
            r = (None, 0, ("crash", "no crash", repr(r)), ())
        n += 1
        steps += r[1]
        outs.add(r[3])
        if r[2]:
            bad.append(({"programs": programs, "plan": sorted(plan.items()), "first": first, "opcodes": opcodes}, r[2][1], r[2][2],
                        r[2][0]))
            break
    return n, steps, bad, outs


def job(args):
    """Schedules of one scenario below some first decisions (plans None: the run without any, to learn them)."""
    programs, bound, opcodes, first, plans = args
    if programs[0][0][0] == "parse":
        return parse_job(args)
    env = Env()
    n = steps = 0
    outs, bad = set(), []
    if isinstance(env.parser, Failed):
        return 0, 0, [({"programs": programs}, "a parser", repr(env.parser), "parser")], set()
    make = env.make(programs)
    if plans is None:
        s, v = sched.count_only(make, first, opcodes)
        return list(sched.children(s.trail, {}, bound, 0)), s.step, v
    for plan in plans:
        for p, s, v in sched.explore(make, bound, first, plan, opcodes):
            n += 1
            steps += s.step
            outs.add(tuple(sorted(p)) and tuple(t[0] for k, t in enumerate(s.trail) if k and s.trail[k - 1][0] != t[0]))
            if v:
                bad.append(({"programs": programs, "plan": sorted(p.items()), "first": first, "opcodes": opcodes}, v[1], v[2],
                            v[0]))
                return n, steps, bad, outs
    return n, steps, bad, outs


def replay(case):
    def go(c):
        if c["programs"][0][0][0] == "parse":
            sched.install(pyparsing=True)
            prepare(c["programs"])
            v = parse_sched(c["programs"], {int(a): b for a, b in c.get("plan", [])}, c.get("opcodes", False), c.get("first", 0))[1]
            return v and v[1:]
        env = Env()
        if isinstance(env.parser, Failed):
            return "a parser", repr(env.parser)
        ps = [[tuple(a) for a in p] for p in c["programs"]]
        programs, judge = env.make(ps)()
        v = judge(sched.Sched(programs, {int(a): b for a, b in c.get("plan", [])}, c.get("opcodes", False),
                              c.get("first", 0)).run())
        return v and v[1:]
    r = core.pmap(go, [case])[0]
    return ("no crash", repr(r)) if isinstance(r, core.Crash) else r


def run(ctx):
    drive(ctx, job, scenarios(ctx), "accesses")
    ctx.assumptions.append("threads switch at lines (in some scenarios: opcodes) of the package and at lock operations, up to the "
                           "stated number of preemptions; parser made beforehand; states = distinct schedules executed")
