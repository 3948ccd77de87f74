"""C27: function pointers. All signatures up to an arity over an alphabet of types, in every place a function pointer can
stand (parameter, typedef, member, array member, result), in both directions: C code built by gcc calls Python functions
handed over, Python calls C functions it was given. Either side records what it receives.
"""
import ctypes
import itertools
import os

from .. import core, gcc, libs
from ..core import Failed, guarded, own_dir

PRE = """
typedef int I;
typedef I *PI;
struct S { int a; double b; };
typedef struct S S_t;
enum E { E0, E1 = 5 };
typedef int (*INNER)(int);
"""
CPRE = """
#include <stdio.h>
#include <string.h>
char vf_log[4096];
static int vf_ints[8] = {10, 11, 12, 13, 14, 15, 16, 17};
static double vf_dbl[4] = {.5, 1.5, 2.5, 3.5};
static struct S vf_s[4] = {{20, .25}, {21, 1.25}, {22, 2.25}, {23, 3.25}};
static char vf_str[4][8] = {"str0", "str1", "str2", "str3"};
static int vf_inc(int x) { return x + 1; }
static int vf_dec(int x) { return x - 1; }
#define LOG(...) sprintf(vf_log + strlen(vf_log), __VA_ARGS__)
"""


class PT:
    """decl; what C passes as parameter k; whether that is what Python got; what Python passes; how C logs it; its log."""

    def __init__(self, decl, cval, check, pyval, log, exp):
        self.decl, self.cval, self.check, self.pyval, self.log, self.exp = decl, cval, check, pyval, log, exp


def mkS(lib, k):
    s = lib.S()
    s.a, s.b = k + 30, k + .5
    return s


TYPES = {
    "int": PT("int %s", lambda k: "-%d" % (k + 3), lambda v, k: v == -k - 3, lambda lib, k: -k - 7,
              "LOG(\"%%d|\", %s);", lambda k: "%d|" % (-k - 7)),
    "uchar": PT("unsigned char %s", lambda k: "%d" % (k + 200), lambda v, k: v == k + 200, lambda lib, k: 250 + k,
                "LOG(\"%%d|\", %s);", lambda k: "%d|" % (250 + k)),
    "short": PT("short %s", lambda k: "-%d" % (k + 300), lambda v, k: v == -k - 300, lambda lib, k: -32768 + k,
                "LOG(\"%%d|\", %s);", lambda k: "%d|" % (-32768 + k)),
    "llong": PT("long long %s", lambda k: "(1LL << 40) + %d" % k, lambda v, k: v == (1 << 40) + k,
                lambda lib, k: -(1 << 41) - k, "LOG(\"%%lld|\", %s);", lambda k: "%d|" % (-(1 << 41) - k)),
    "ulong": PT("unsigned long %s", lambda k: "-%dL" % (k + 1), lambda v, k: v == (1 << 64) - 1 - k,
                lambda lib, k: (1 << 63) + k, "LOG(\"%%lu|\", %s);", lambda k: "%d|" % ((1 << 63) + k)),
    "double": PT("double %s", lambda k: "%d.5" % k, lambda v, k: v == k + .5, lambda lib, k: k + .25, "LOG(\"%%g|\", %s);",
                 lambda k: "%g|" % (k + .25)),
    "float": PT("float %s", lambda k: "%d.5f" % k, lambda v, k: v == k + .5, lambda lib, k: k + .75, "LOG(\"%%g|\", %s);",
                lambda k: "%g|" % (k + .75)),
    "char": PT("char %s", lambda k: "'A' + %d" % k, lambda v, k: v == b"ABCD"[k:k + 1], lambda lib, k: b"wxyz"[k:k + 1],
               "LOG(\"%%c|\", %s);", lambda k: "wxyz"[k] + "|"),
    "enum": PT("enum E %s", lambda k: "E1", lambda v, k: v == 5, lambda lib, k: lib.E1, "LOG(\"%%d|\", %s);", lambda k: "5|"),
    "tdef": PT("I %s", lambda k: "%d" % (k + 70), lambda v, k: v == k + 70, lambda lib, k: k + 80, "LOG(\"%%d|\", %s);",
               lambda k: "%d|" % (k + 80)),
    "cstr": PT("const char *%s", lambda k: "vf_str[%d]" % k, lambda v, k: v == b"str%d" % k, lambda lib, k: b"py%d" % k,
               "LOG(\"%%s|\", %s);", lambda k: "py%d|" % k),
    "pint": PT("int *%s", lambda k: "vf_ints + %d" % k, lambda v, k: v[0] == 10 + k and v[1] == 11 + k,
               lambda lib, k: ctypes.pointer(ctypes.c_int(k + 40)), "LOG(\"%%d|\", *%s);", lambda k: "%d|" % (k + 40)),
    "PI": PT("PI %s", lambda k: "vf_ints + %d" % k, lambda v, k: v[0] == 10 + k, lambda lib, k: ctypes.pointer(ctypes.c_int(k + 50)),
             "LOG(\"%%d|\", *%s);", lambda k: "%d|" % (k + 50)),
    "pdbl": PT("double *%s", lambda k: "vf_dbl + %d" % k, lambda v, k: v[0] == k + .5,
               lambda lib, k: ctypes.pointer(ctypes.c_double(k + .125)), "LOG(\"%%g|\", *%s);", lambda k: "%g|" % (k + .125)),
    "void": PT("void *%s", lambda k: "(void *)%dL" % (4096 + k), lambda v, k: v == 4096 + k, lambda lib, k: 8192 + k,
               "LOG(\"%%ld|\", (long)%s);", lambda k: "%d|" % (8192 + k)),
    "null": PT("int *%s", lambda k: "0", lambda v, k: not v, lambda lib, k: None, "LOG(\"%%d|\", %s == 0);", lambda k: "1|"),
    "S": PT("struct S %s", lambda k: "vf_s[%d]" % k, lambda v, k: v.a == 20 + k and v.b == k + .25, lambda lib, k: mkS(lib, k),
            "LOG(\"%%d/%%g|\", %s.a, %s.b);", lambda k: "%d/%g|" % (k + 30, k + .5)),
    "pS": PT("struct S *%s", lambda k: "vf_s + %d" % k, lambda v, k: v.contents.a == 20 + k and v[0].b == k + .25,
             lambda lib, k: ctypes.pointer(mkS(lib, k)), "LOG(\"%%d/%%g|\", %s->a, %s->b);", lambda k: "%d/%g|" % (k + 30, k + .5)),
    "pSt": PT("const S_t *%s", lambda k: "vf_s + %d" % k, lambda v, k: v.contents.a == 20 + k,
              lambda lib, k: ctypes.pointer(mkS(lib, k)), "LOG(\"%%d/%%g|\", %s->a, %s->b);", lambda k: "%d/%g|" % (k + 30, k + .5)),
    "arr": PT("int %s[3]", lambda k: "vf_ints + %d" % k, lambda v, k: v[1] == 11 + k, lambda lib, k: (ctypes.c_int * 3)(k, 1, 2),
              "LOG(\"%%d|\", *%s);", lambda k: "%d|" % k),
    "fn": PT("INNER %s", lambda k: "vf_inc", lambda v, k: v(4 + k) == 5 + k, lambda lib, k: lib.INNER(lambda x: x * 3),
             "LOG(\"%%d|\", %s(5));", lambda k: "15|"),
    "fnd": PT("int (*%s)(int)", lambda k: "vf_dec", lambda v, k: v(4 + k) == 3 + k, lambda lib, k: lib.INNER(lambda x: x * 4),
              "LOG(\"%%d|\", %s(5));", lambda k: "20|"),
}
# result: C type (with %s where the declarator goes), what Python returns, check of what comes back through C,
# what C returns, check in Python
RETS = {
    "int": ("int %s", lambda lib: -9, lambda r: r == -9, "return -17;", lambda r: r == -17),
    "void": ("void %s", lambda lib: None, lambda r: r is None, "return;", lambda r: r is None),
    "double": ("double %s", lambda lib: 1.125, lambda r: r == 1.125, "return 2.25;", lambda r: r == 2.25),
    "float": ("float %s", lambda lib: 1.5, lambda r: r == 1.5, "return 3.5f;", lambda r: r == 3.5),
    "uchar": ("unsigned char %s", lambda lib: 251, lambda r: r == 251, "return 250;", lambda r: r == 250),
    "short": ("short %s", lambda lib: -2, lambda r: r == -2, "return -32768;", lambda r: r == -32768),
    "ulong": ("unsigned long %s", lambda lib: (1 << 64) - 2, lambda r: r == (1 << 64) - 2, "return -3L;",
              lambda r: r == (1 << 64) - 3),
    "llong": ("long long %s", lambda lib: -(1 << 50), lambda r: r == -(1 << 50), "return 1LL << 45;", lambda r: r == 1 << 45),
    "char": ("char %s", lambda lib: b"k", lambda r: r == b"k", "return 'q';", lambda r: r == b"q"),
    "enum": ("enum E %s", lambda lib: 5, lambda r: r == 5, "return E1;", lambda r: r == 5),
    "tdef": ("I %s", lambda lib: 12, lambda r: r == 12, "return 13;", lambda r: r == 13),
    "void*": ("void *%s", lambda lib: 65536, lambda r: r == 65536, "return (void *)4096;", lambda r: r == 4096),
}
# ctypes cannot return these from a callback; they are only returned by C functions
CRETS = {
    "S": ("struct S %s", None, None, "return vf_s[1];", lambda r: r.a == 21 and r.b == 1.25),
    "pS": ("struct S *%s", None, None, "return vf_s + 2;", lambda r: r.contents.a == 22),
    "pint": ("int *%s", None, None, "return vf_ints + 1;", lambda r: r[0] == 11),
    "cstr": ("const char *%s", None, None, "return vf_str[3];", lambda r: r == b"str3"),
    "fn": ("INNER %s", None, None, "return vf_inc;", lambda r: r(8) == 9),
}
ALLR = dict(RETS, **CRETS)


class Sig:
    def __init__(self, num, ret, params, named):
        self.num, self.ret, self.params, self.named = num, ret, tuple(params), named
        self.back = ret in RETS

    def plist(self, named):
        return ", ".join((TYPES[p].decl % ("p%d" % k if named else "")).strip() for k, p in enumerate(self.params)) or "void"

    def protos(self):
        """Declarations for the header; the text uses @ for the number."""
        r = ALLR[self.ret][0]
        pl = self.plist(self.named)
        fp = lambda name: r % ("(*%s)(%s)" % (name, pl))
        t = ["typedef %s;" % fp("CB@"),
             "typedef CB@ CBT@;",
             "struct H@ { char pad; CB@ cb; CBT@ two[2]; %s; %s; };" % (fp("direct"), r % ("(*grid[2])(%s)" % pl)),
             r % "native@(%s)" % self.plist(True) + ";",
             "CB@ get@(void);",
             "void fill@(struct H@ *h);",
             "CBT@ ident@(CB@ cb);"]
        if self.back:
            t += [r % "call@(CB@ cb)" + ";", r % "direct@(%s)" % fp("cb") + ";", r % "plain@(%s)" % (r % "cb(%s)" % pl) + ";",
                  r % "member@(struct H@ *h, int which)" + ";", r % "value@(struct H@ h)" + ";"]
        return "\n".join(t).replace("@", str(self.num)) + "\n"

    def source(self):
        r, _, _, body, _ = ALLR[self.ret]
        args = ", ".join(TYPES[p].cval(k) for k, p in enumerate(self.params))
        logs = ""
        for k, p in enumerate(self.params):
            t = TYPES[p].log
            logs += t % (("p%d" % k,) * (t.count("%s") - t.count("%%s")))
        ret = "" if self.ret == "void" else "return "
        t = self.protos()
        t += (r % "native@(%s)" % self.plist(True)) + " { vf_log[0] = 0; %s %s }\n" % (logs, body)
        t += "CB@ get@(void) { return native@; }\n"
        t += ("void fill@(struct H@ *h) { h->pad = 1; h->cb = h->two[0] = h->two[1] = h->direct = h->grid[0] = h->grid[1] = "
              "native@; }\n")
        t += "CBT@ ident@(CB@ cb) { return cb; }\n"
        if self.back:
            for f in ("call@(CB@ cb)", "direct@(%s)" % (r % ("(*cb)(%s)" % self.plist(False))),
                      "plain@(%s)" % (r % "cb(%s)" % self.plist(False))):
                t += r % f + " { %scb(%s); }\n" % (ret, args)
            t += r % "member@(struct H@ *h, int which)" + (
                " { CB@ f = which == 0 ? h->cb : which == 1 ? h->two[0] : which == 2 ? h->two[1] : which == 3 ? h->direct : "
                "h->grid[1]; %sf(%s); }\n" % (ret, args))
            t += r % "value@(struct H@ h)" + " { %sh.two[1](%s); }\n" % (ret, args)
        return t.replace("@", str(self.num))

    def text(self):
        return (ALLR[self.ret][0] % "(*)(%s)" % self.plist(self.named))


class World:
    def __init__(self, sigs):
        self.sigs = sigs
        d = own_dir()
        self.so = gcc.shared(PRE + CPRE + "".join(s.source() for s in sigs), os.path.join(d, "c27_%d.so" % sigs[0].num))
        self.lib, _ = libs.bind_text(PRE + "".join(s.protos() for s in sigs), self.so)
        if not isinstance(self.lib, Failed):
            self.log = (ctypes.c_char * 4096).in_dll(ctypes.CDLL(self.so), "vf_log")

    # each returns None or (what, expected, observed)
    def c_calls_python(self, sig, what, call, make):
        """call(object) makes C call the Python function; make(function) wraps it."""
        _, pyret, back, _, _ = ALLR[sig.ret]
        got = []

        def fn(*args):
            try:
                got.append([len(args) == len(sig.params)] + [bool(TYPES[p].check(a, k)) for k, (p, a) in enumerate(zip(sig.params, args))])
            except Exception as e:
                got.append(repr(e))
            return pyret(self.lib)
        cb = make(fn)
        r = call(cb)
        exp = [[True] * (len(sig.params) + 1)]
        if got != exp:
            return what + ": arguments", exp, got
        if not back(r):
            return what + ": result", sig.ret, repr(r)
        return None

    def python_calls_c(self, sig, what, fn):
        self.log.value = b""
        r = fn(*[TYPES[p].pyval(self.lib, k) for k, p in enumerate(sig.params)])
        exp = "".join(TYPES[p].exp(k) for k, p in enumerate(sig.params))
        got = self.log.value.decode("latin-1")
        if got != exp:
            return what + ": arguments", exp, got
        if not ALLR[sig.ret][4](r):
            return what + ": result", sig.ret, repr(r)
        return None

    def cases(self, sig):
        lib, n = self.lib, str(sig.num)
        CB, H = getattr(lib, "CB" + n), getattr(lib, "H" + n)
        f = lambda name: getattr(lib, name + n)
        if getattr(lib, "CBT" + n) is not CB:
            yield "typedefs of one type", lambda: ("typedefs of one type", "same class", "other")
        for what, get in (("native", lambda: (lambda *a: f("native")(*a)())), ("get()", lambda: f("get")()()),
                          ("ident(get())", lambda: f("ident")(f("get")()())())):
            yield what, lambda what=what, get=get: self.python_calls_c(sig, what, get())
        h = H()
        f("fill")(ctypes.byref(h))
        for what, get in (("h.cb", lambda: h.cb), ("h.two[0]", lambda: h.two[0]), ("h.two[1]", lambda: h.two[1]),
                          ("h.direct", lambda: h.direct), ("h.grid[1]", lambda: h.grid[1])):
            yield what, lambda what=what, get=get: self.python_calls_c(sig, what, get())
        e = H()
        yield "empty members", lambda: None if not (e.cb or e.two[1] or e.direct or e.grid[0]) else ("empty members", "null", "set")
        yield "ident(None)", lambda: None if not f("ident")(None)() else ("ident(None)", "null", "set")
        if not sig.back:
            return
        for name in ("call", "direct", "plain"):
            yield name, lambda name=name: self.c_calls_python(sig, name, lambda cb: f(name)(cb)(), CB)
            yield name + " its type", lambda name=name: self.c_calls_python(
                sig, name + " with arg_c_type", lambda cb: f(name)(cb=cb)(), f(name).arg_c_type(0))
            yield name + " native", lambda name=name: None if self.native_back(sig, f(name)(f("get")()())()) else (
                name + "(get())", "result of the C function", "something else")

        def member(which):
            def go(cb):
                g = H()
                if which == 0:
                    g.cb = cb
                elif which in (1, 2):
                    g.two[which - 1] = cb
                elif which == 3:
                    g.direct = cb
                else:
                    g.grid[1] = cb
                return f("member")(ctypes.byref(g), which)()
            return go
        for which in range(5):
            yield "member %d" % which, lambda which=which: self.c_calls_python(sig, "member %d" % which, member(which), CB)

        def value(cb):
            g = H()
            g.two[1] = cb
            return f("value")(g)()
        yield "struct by value", lambda: self.c_calls_python(sig, "struct by value", value, CB)
        yield "there and back", lambda: self.c_calls_python(
            sig, "there and back", lambda cb: f("call")(f("ident")(cb)())(), CB)

    def native_back(self, sig, r):
        return ALLR[sig.ret][4](r)

    def check(self, sig):
        n = 0
        cs = guarded(lambda: list(self.cases(sig)))
        if isinstance(cs, Failed):
            return n, ("binding", "binds", repr(cs))
        for what, fn in cs:
            core.mark("%s %s" % (sig.text(), what))
            n += 1
            r = guarded(fn)
            if isinstance(r, Failed):
                return n, (what, "possible", repr(r))
            if r:
                return n, r
        return n, None


def spec(s):
    return {"num": s.num, "ret": s.ret, "params": list(s.params), "named": s.named}


def run_chunk(sigs):
    w = World(sigs)
    if isinstance(w.lib, Failed):
        return 0, [(sigs[0].text(), spec(sigs[0]), "binds", repr(w.lib), "binding")], set()
    n, bad, outs = 0, [], set()
    for s in sigs:
        k, r = w.check(s)
        n += k
        outs.add((s.ret, len(s.params)))
        if r:
            bad.append((s.text(), spec(s), r[1], r[2], r[0]))
            if len(bad) > 4:
                break
    return n, bad, outs


def replay(case):
    def go(c):
        s = Sig(c["num"], c["ret"], c["params"], c["named"])
        w = World([s])
        if isinstance(w.lib, Failed):
            return "binds", repr(w.lib)
        r = w.check(s)[1]
        return r and (r[1], r[2])
    r = core.pmap(go, [case])[0]
    return ("no crash", repr(r)) if isinstance(r, core.Crash) else r


def space(ctx):
    names, rets = list(TYPES), list(ALLR)
    for named in (True, False):
        for r in rets:
            yield r, (), named
            for p in names:
                yield r, (p,), named
    i = 0
    for ps in itertools.product(names, repeat=2):
        for named in ctx.pick((True,), (True, False)):
            i += 1
            yield rets[i % len(rets)], ps, named
            if not ctx.quick:
                yield from ((r, ps, named) for r in rets)
    few = ["int", "double", "cstr", "pS", "fn", "char", "llong"]
    for ps in itertools.product(few if ctx.quick else names[:], repeat=3):
        i += 1
        yield rets[i % len(rets)], ps, bool(i % 3)
    for ps in itertools.product(["int", "float", "pint"], repeat=4):
        i += 1
        yield rets[i % len(rets)], ps, True


def run(ctx):
    sigs = [Sig(i, *s) for i, s in enumerate(dict.fromkeys(space(ctx)))]
    parts = core.chunks(sigs, max(32, len(sigs) // 40))
    for part, r in zip(parts, core.pmap(run_chunk, parts)):
        if isinstance(r, core.Crash):
            m = [s for s in part if str(r.marker).startswith(s.text() + " ")] or part[:1]
            ctx.violation("crash " + str(r.marker), spec(m[0]), "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.outcomes |= r[2]
        for b in r[1]:
            ctx.violation(*b)
    ctx.nstates = len(sigs)
    ctx.transitions = ctx.traces
    for s in sigs[::max(1, len(sigs) // 5)]:
        ctx.sample(s.text(), 6)
    ctx.note(signatures=len(sigs), calls=ctx.traces)
    ctx.assumptions.append("ctypes cannot return structs, pointers to data or strings from callbacks, such results are only "
                           "checked from C to Python; at most four parameters")
