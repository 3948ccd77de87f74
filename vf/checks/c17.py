"""C17: locked calls never overlap. Stateless exploration of thread schedules of the real code under a controlled scheduler
(vf/sched.py), preemption bounded; C functions of a library built by gcc count who is inside, and call back so that a thread
can be switched away from while it is inside.
"""
import ctypes
import os

from .. import core, gcc, sched
from ..core import Failed, guarded, own_dir

SRC = """
typedef int (*CB)(int);
int vf_inside, vf_max, vf_bad;
static int enter(void) { vf_inside++; if (vf_inside > vf_max) vf_max = vf_inside; return vf_inside; }
#define BODY(k) int r; enter(); r = cb ? cb(x) : 0; vf_inside--; return x * 10 + k + r;
int f(int x, CB cb) { BODY(1) }
int g(int x, CB cb) { BODY(2) }
double h(double x, CB cb) { double r; enter(); r = cb ? cb((int)x) : 0; vf_inside--; return x + 0.5 + r; }
void out(int x, CB cb, int *res) { enter(); if (cb) cb(x); if (res) *res = x * 3; vf_inside--; }
CB vf_hook;
int noargs(void) { int r; enter(); r = vf_hook ? vf_hook(0) : 0; vf_inside--; return 7 + r; }
void quiet(void) { enter(); if (vf_hook) vf_hook(0); vf_inside--; }
typedef struct { int a; double b; } ST;
ST makest(ST s, CB cb) { enter(); s.a++; if (cb) s.b += cb(s.a); vf_inside--; return s; }
char *text(const char *a, CB cb) { enter(); if (cb) cb(1); vf_inside--; return (char *)a; }
int nest(int x, CB cb) { int r, old = vf_inside; enter(); vf_inside = 0; r = cb ? cb(x) : 0; vf_inside = old; return x * 10 + 5 + r; }
"""
HDR = """
typedef int (*CB)(int);
int f(int x, CB cb);
int g(int x, CB cb);
double h(double x, CB cb);
void out(int x, CB cb, int *res);
int noargs(void);
void quiet();
typedef struct { int a; double b; } ST;
ST makest(ST s, CB cb);
char *text(const char *a, CB cb);
int nest(int x, CB cb);
"""
# What a thread does: a list of actions
ACTIONS = ["f", "g", "h", "out", "fail", "tfail", "nest", "cberr", "noargs", "quiet", "makest", "text"]


class Env:
    def __init__(self):
        sched.install()
        d = own_dir()
        so = gcc.shared(SRC, os.path.join(d, "c17.so"))
        hdr = os.path.join(d, "c17.h")
        with open(hdr, "w") as f:
            f.write(HDR)
        from pyclibrary import CLibrary, CParser
        self.lib = guarded(lambda: CLibrary(ctypes.CDLL(so), CParser(hdr), lock_calls=True))
        self.d, self.so, self.hdr = d, so, hdr
        if isinstance(self.lib, Failed):
            return
        c = ctypes.CDLL(so)
        self.inside = ctypes.c_int.in_dll(c, "vf_inside")
        self.max = ctypes.c_int.in_dll(c, "vf_max")
        # what the functions without parameters call back
        self.sched = None
        self.hook = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int)(self.hooked)
        ctypes.c_void_p.in_dll(c, "vf_hook").value = ctypes.cast(self.hook, ctypes.c_void_p).value
        # warmed up: that concurrent first use works as well is C18
        self.warm = guarded(lambda: [getattr(self.lib, n) for n in ("f", "g", "h", "out", "nest", "CB", "noargs", "quiet", "makest", "ST",
                                                                 "text")])
        for n in ("f", "g"):
            guarded(lambda: getattr(self.lib, n)(1, None))

    def hooked(self, v):
        s = self.sched
        if s is not None:
            s.point()
            s.point()
        return 100

    def act(self, a, x, s):
        """One action; returns (got, expected)."""
        lib = self.lib

        def cb(v):
            s.point()
            s.point()
            return 100
        c = lib.CB(cb)
        if a == "f":
            return lib.f(x, c)(), x * 10 + 101
        if a == "g":
            return lib.g(x, cb=c)(), x * 10 + 102
        if a == "h":
            return lib.h(float(x), c)(), x + 100.5
        if a == "out":
            r = lib.out(x, c)
            return r["res"], x * 3
        if a == "noargs":
            return lib.noargs()(), 107
        if a == "quiet":
            return lib("functions", "quiet")()(), None
        if a == "makest":
            r = lib.makest(lib.ST(x, 0.5), c)()
            return (r.a, r.b), (x + 1, 100.5)
        if a == "text":
            r = lib.text(b"abc %d" % x, c)
            return r(), b"abc %d" % x
        if a == "fail":         # ctypes refuses the argument
            try:
                return "no error %r" % (lib.f("no number", c),), "error"
            except ctypes.ArgumentError:
                return "error", "error"
        if a == "tfail":        # the wrapper refuses the call
            try:
                return "no error %r" % (lib.f(),), "error"
            except TypeError:
                return "error", "error"
        if a == "cberr":        # the callback fails: what it then returns is not defined, but the call ends
            def bad(v):
                s.point()
                raise ValueError(v)
            return isinstance(lib.f(x, lib.CB(bad))(), int), True
        if a == "nest":         # calls back into the library

            def again(v):
                s.point()
                r = lib.g(v, c)()
                s.point()
                return r
            return lib.nest(x, lib.CB(again))(), x * 10 + 5 + x * 10 + 102
        raise AssertionError(a)

    def make(self, programs):
        def make():
            self.inside.value = self.max.value = 0
            out = []

            def prog(i, acts):
                def run(s):
                    self.sched = s
                    return [self.act(a, i * 10 + k, s) for k, a in enumerate(acts)]
                return run

            def judge(s):
                if s.deadlock:
                    return "deadlock", "every call completes", s.deadlock
                if any(s.errors):
                    return "errors", "every call completes", str(s.errors)
                if self.max.value > 1:
                    return "overlap", "one thread inside the library at a time", "%d" % self.max.value
                for i, r in enumerate(s.results):
                    for got, exp in r:
                        if got != exp:
                            return "result of thread %d" % i, exp, got
                return None
            return [prog(i, acts) for i, acts in enumerate(programs)], judge
        return make


def scenarios(ctx):
    """(programs, preemption bound, opcodes)"""
    res = []
    basic = ["f", "g", "fail", "nest"] if ctx.quick else ACTIONS
    for i, a in enumerate(ACTIONS):
        for b in ACTIONS[i:]:
            res.append(([[a], [b]], ctx.pick(2 if (a in basic and b in basic) else 1, 3 if a in "fg" and b in "fg" else 2), False))
    for a in ("f", "fail", "nest", "tfail", "cberr"):
        for b in ("g", "nest"):
            res.append(([[a, "g"], [b]], ctx.pick(1, 2), False))
            res.append(([[a, "f"], [b, "out"]], ctx.pick(1, 2), False))
    for t in (["f", "g", "f"], ["nest", "f", "fail"], ["f", "f", "f"], ["h", "out", "nest"]):
        res.append(([[x] for x in t], ctx.pick(1, 2), False))
    for t in (["f", "g"], ["f", "f"], ["nest", "fail"], ["out", "tfail"]):
        res.append(([[x] for x in t], 1, True))
    return res


def job(args):
    """Schedules of one scenario below some first decisions."""
    programs, bound, opcodes, first, plans = args
    env = Env()
    if isinstance(env.lib, Failed):
        return 0, 0, [({"programs": programs}, "a binding", repr(env.lib), "binding")], set()
    make = env.make(programs)
    n = steps = 0
    outs, bad = set(), []
    if plans is None:       # only the first run: how many decisions are there
        s, v = sched.count_only(make, first, opcodes)
        return list(sched.children(s.trail, {}, bound, 0)), s.step, v
    for plan in plans:
        for p, s, v in sched.explore(make, bound, first, plan, opcodes):
            n += 1
            steps += s.step
            outs.add(tuple(t[0] for t in s.trail if t[1])[:0] + tuple(sorted(set(t[0] for t in s.trail))))
            if v:
                bad.append(({"programs": programs, "plan": sorted(p.items()), "first": first, "opcodes": opcodes}, v[1], v[2],
                            v[0]))
                return n, steps, bad, outs
    return n, steps, bad, outs


def replay(case):
    def go(c):
        env = Env()
        if isinstance(env.lib, Failed):
            return "a binding", repr(env.lib)
        programs, judge = env.make(c["programs"])()
        v = judge(sched.Sched(programs, {int(a): b for a, b in c.get("plan", [])}, c.get("opcodes", False),
                              c.get("first", 0)).run())
        return v and v[1:]
    r = core.pmap(go, [case])[0]
    return ("no crash", repr(r)) if isinstance(r, core.Crash) else r


def drive(ctx, module_job, scen, name):
    """Baseline runs first, then the trees of schedules in parallel."""
    heads = [(p, b, o, f, None) for p, b, o in scen for f in range(len(p))]
    jobs = []
    for h, r in zip(heads, core.pmap(module_job, heads)):
        case = {"programs": h[0], "plan": [], "first": h[3], "opcodes": h[2]}
        if isinstance(r, core.Crash):
            ctx.violation("crash %s" % (h[0],), case, "no crash", repr(r))
            continue
        if len(r) == 4:
            for b in r[2]:
                ctx.violation(str(h[0]), b[0], b[1], b[2], b[3])
            return
        kids, steps, v = r
        ctx.traces += 1
        ctx.transitions += steps
        if v:
            ctx.violation("%s first %d, no preemption" % (h[0], h[3]), case, v[1], v[2], v[0])
            continue
        # about 400 schedules to a job
        size = 400 if h[1] == 1 else max(1, 800 // max(1, steps))
        # interleaved, so that the trees are of the same size
        k = max(1, (len(kids) + size - 1) // size)
        jobs += [(h[0], h[1], h[2], h[3], kids[i::k]) for i in range(k)]
    jobs.sort(key=lambda j: -j[1])
    for j, r in zip(jobs, core.pmap(module_job, jobs, timeout=780)):
        if isinstance(r, core.Crash):
            ctx.violation("crash %s" % (j[0],), {"programs": j[0], "plan": sorted(j[4][0].items()), "first": j[3], "opcodes": j[2]},
                          "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.transitions += r[1]
        ctx.outcomes |= r[3]
        for b in r[2]:
            ctx.violation("%s first %d, switches %s" % (j[0], j[3], b[0].get("plan")), b[0], b[1], b[2], b[3])
    ctx.nstates = ctx.traces
    for p, b, o in scen[::max(1, len(scen) // 6)]:
        ctx.sample("%s: threads %s, at most %d preemptions, points: %s" % (name, p, b, "opcodes" if o else "lines"), 7)
    ctx.note(schedules=ctx.traces, scenarios=len(scen), preemption_bounds=sorted({b for _, b, _ in scen}))


def run(ctx):
    drive(ctx, job, scenarios(ctx), "calls")
    ctx.assumptions.append("threads switch at lines (in some scenarios: opcodes) of the package, at lock operations and inside "
                           "the C functions (through their callbacks), up to the stated number of preemptions; states = "
                           "distinct schedules executed")
