"""C16: calls. All signatures up to an arity over the parameter alphabet, each called in every way (every split into
positional, keyword, omitted and NULL arguments), against a C library compiled by gcc that records what it receives.
"""
import ctypes
import itertools
import os
import re

from .. import cparse, core, gcc, libs
from ..core import Failed, guarded, own_dir

PRE = """
typedef int I;
typedef I *PI;
struct S { int a; double b; };
typedef struct S S_t;
enum E { E0, E1 = 5 };
typedef int (*CB)(int);
"""
CPRE = """
#include <stdio.h>
#include <string.h>
char vf_log[4096];
int vf_calls;
static char *vf_p;
static int vf_static[3], vf_own[1];
static int vf_inc(int x) { return x + 1; }
#define L(...) (vf_p += sprintf(vf_p, __VA_ARGS__))
#define W(k) (vf_calls * 10 + (k) + 1)
"""
ARR3 = ctypes.c_int * 3
ARR23 = ctypes.c_int * 3 * 2


def mkS(lib, a, b):
    s = lib.S()
    s.a, s.b = a, b
    return s


def point(ct):
    """Ways to hand over a pointer to a value: pointer, byref, array."""
    def make(lib, k):
        return [(ctypes.pointer(ct(k + 3)), "&%d|" % (k + 3)), (ctypes.byref(ct(k + 4)), "&%d|" % (k + 4)),
                ((ct * 2)(k + 5, 1), "&%d|" % (k + 5))]
    return make


def num(*fs):
    return lambda lib, k: [(f(k), e(k)) for f, e in fs]


class PT:
    """A parameter type. decl: C declarator with %s for the name; log, write: C statements; values(lib, k) -> [(object,
    expected log)]; null: expected log for None or None when refused; omit: (log, reader of the result) or None."""

    def __init__(self, decl, log, values, null=None, omit=None, write="", keep=None):
        self.decl, self.log, self.values, self.null, self.omit, self.write = decl, log, values, null, omit, write
        self.keep = keep


def w(k, calls):
    return calls * 10 + k + 1


INTLOG = "L(\"%%d|\", (int)%s);"
PLOG = "if (%s) L(\"&%%d|\", (int)*%s); else L(\"NULL|\");"
PW = "if (%s) *%s = W(%d);"

TYPES = {
    "int": PT("int %s", INTLOG, num((lambda k: -3 - k, lambda k: "%d|" % (-3 - k)),
                                    (lambda k: ctypes.c_int(40 + k), lambda k: "%d|" % (40 + k)))),
    "uchar": PT("unsigned char %s", INTLOG, num((lambda k: 200 + k, lambda k: "%d|" % (200 + k)))),
    "llong": PT("long long %s", "L(\"%%lld|\", %s);", num((lambda k: -(1 << 40) - k, lambda k: "%d|" % (-(1 << 40) - k)))),
    "double": PT("double %s", "L(\"%%g|\", %s);", num((lambda k: k + .5, lambda k: "%g|" % (k + .5)))),
    "float": PT("float %s", "L(\"%%g|\", %s);", num((lambda k: k - .25, lambda k: "%g|" % (k - .25)),
                                                    (lambda k: 2, lambda k: "2|"))),
    "char": PT("char %s", INTLOG, num((lambda k: b"ABCDEF"[k:k + 1], lambda k: "%d|" % (65 + k)))),
    "enum": PT("enum E %s", INTLOG, num((lambda k: k, lambda k: "%d|" % k))),
    "tdef": PT("const I %s", INTLOG, num((lambda k: k + 70, lambda k: "%d|" % (k + 70)))),
    "cstr": PT("const char *%s", "if (%s) L(\"\\\"%%s\\\"|\", %s); else L(\"NULL|\");",
               num((lambda k: b"str%d" % k, lambda k: "\"str%d\"|" % k)), "NULL|", ("\"\"|", lambda v, k, c: v == b"\0")),
    "buf": PT("char *%s", "if (%s) L(\"\\\"%%s\\\"|\", %s); else L(\"NULL|\");",
              num((lambda k: ctypes.create_string_buffer(b"buf%d" % k), lambda k: "\"buf%d\"|" % k)), "NULL|",
              ("\"\"|", lambda v, k, c: v == b"Z"), "if (%s) *%s = 'Z';"),
    "pint": PT("int *%s", PLOG, point(ctypes.c_int), "NULL|", ("&0|", lambda v, k, c: v == w(k, c)), PW),
    "PI": PT("PI %s", PLOG, point(ctypes.c_int), "NULL|", ("&0|", lambda v, k, c: v == w(k, c)), PW),
    "puc": PT("unsigned char *%s", PLOG, point(ctypes.c_ubyte), "NULL|", ("&0|", lambda v, k, c: v == w(k, c) % 256), PW),
    "pdbl": PT("double *%s", PLOG, point(ctypes.c_double), "NULL|", ("&0|", lambda v, k, c: v == w(k, c)), PW),
    "penum": PT("enum E *%s", PLOG, point(ctypes.c_int), "NULL|", ("&0|", lambda v, k, c: v == w(k, c)), PW),
    "pcint": PT("const int *%s", PLOG, point(ctypes.c_int), "NULL|", ("&0|", lambda v, k, c: v == 0)),
    "void": PT("void *%s", "if (%s) L(\"&%%d|\", *(int *)%s); else L(\"NULL|\");",
               lambda lib, k: [(ctypes.cast(ctypes.pointer(ctypes.c_long(k + 9)), ctypes.c_void_p), "&%d|" % (k + 9)),
                               (ARR3(k, 1, 2), "&%d|" % k)], "NULL|",
               ("&0|", lambda v, k, c: v == w(k, c)), "if (%s) *(long *)%s = W(%d);"),
    "pvoid": PT("void **%s", "if (%s) L(\"&%%ld|\", (long)*%s); else L(\"NULL|\");",
                lambda lib, k: [(ctypes.pointer(ctypes.c_void_p(k + 6)), "&%d|" % (k + 6))], "NULL|",
                ("&0|", lambda v, k, c: v == w(k, c)), "if (%s) *%s = (void *)(long)W(%d);"),
    "pstr": PT("char **%s", "if (%s) L(\"&%%s|\", *%s ? *%s : \"-\"); else L(\"NULL|\");",
               lambda lib, k: [(ctypes.pointer(ctypes.c_char_p(b"v%d" % k)), "&v%d|" % k)], "NULL|",
               ("&-|", lambda v, k, c: v == b"wr"), "if (%s) *%s = \"wr\";"),
    "ppint": PT("int **%s", "if (%s) L(\"&%%d|\", *%s ? **%s : -1); else L(\"NULL|\");",
                lambda lib, k: [(ctypes.pointer(ctypes.pointer(ctypes.c_int(k + 2))), "&%d|" % (k + 2))], "NULL|",
                ("&-1|", lambda v, k, c: v[1] == 77), "if (%s) { vf_static[1] = 77; *%s = vf_static; }"),
    "S": PT("struct S %s", "L(\"%%d/%%g|\", %s.a, %s.b);", lambda lib, k: [(mkS(lib, k, k + .5), "%d/%g|" % (k, k + .5))]),
    "S_t": PT("S_t %s", "L(\"%%d/%%g|\", %s.a, %s.b);", lambda lib, k: [(mkS(lib, k, 2.5), "%d/2.5|" % k)]),
    "pS": PT("struct S *%s", "if (%s) L(\"&%%d/%%g|\", %s->a, %s->b); else L(\"NULL|\");",
             lambda lib, k: [(ctypes.pointer(mkS(lib, k, .5)), "&%d/0.5|" % k), (ctypes.byref(mkS(lib, k, 1.5)), "&%d/1.5|" % k),
                             (mkS(lib, k, 3.5), "&%d/3.5|" % k)], "NULL|",
             ("&0/0|", lambda v, k, c: v.a == w(k, c) and v.b == 0), "if (%s) %s->a = W(%d);"),
    "pSt": PT("const S_t *%s", "if (%s) L(\"&%%d/%%g|\", %s->a, %s->b); else L(\"NULL|\");",
              lambda lib, k: [(ctypes.pointer(mkS(lib, k, .5)), "&%d/0.5|" % k)], "NULL|",
              ("&0/0|", lambda v, k, c: v.a == 0 and v.b == 0)),
    "cb": PT("CB %s", "if (%s) L(\"cb%%d|\", %s(3)); else L(\"NULL|\");",
             lambda lib, k: [(lib.CB(lambda x, k=k: x * 10 + k), "cb%d|" % (30 + k))], "NULL|"),
    "fn": PT("int (*%s)(int)", "if (%s) L(\"cb%%d|\", %s(3)); else L(\"NULL|\");",
             lambda lib, k: [(lib.CB(lambda x, k=k: x * 20 + k), "cb%d|" % (60 + k))], "NULL|"),
    "fn0": PT("int %s(int)", "if (%s) L(\"cb%%d|\", %s(3)); else L(\"NULL|\");",
              lambda lib, k: [(lib.CB(lambda x, k=k: x * 20 + k), "cb%d|" % (60 + k))], "NULL|"),
    "arr": PT("int %s[3]", PLOG, lambda lib, k: [(ARR3(k + 11, 2, 3), "&%d|" % (k + 11))], "NULL|", None, PW),
    "arr0": PT("int %s[]", PLOG, lambda lib, k: [(ARR3(k + 12, 2, 3), "&%d|" % (k + 12))], "NULL|", None, PW),
    "arr2": PT("int %s[2][3]", "if (%s) L(\"&%%d|\", %s[1][2]); else L(\"NULL|\");",
               lambda lib, k: [(ARR23((1, 2, 3), (4, 5, k)), "&%d|" % k)], "NULL|"),
    "dint": PT("int %s=5", "L(\"%%d|\", %s);", num((lambda k: k + 21, lambda k: "%d|" % (k + 21)))),
    "pPI": PT("PI *%s", "if (%s) L(\"&%%d|\", *%s ? **%s : -1); else L(\"NULL|\");",
              lambda lib, k: [(ctypes.pointer(ctypes.pointer(ctypes.c_int(k + 4))), "&%d|" % (k + 4))], "NULL|",
              ("&-1|", lambda v, k, c: v[0] == 78), "if (%s) { vf_own[0] = 78; *%s = vf_own; }"),
    "pCB": PT("CB *%s", "if (%s) L(\"cb%%d|\", *%s ? (*%s)(3) : -1); else L(\"NULL|\");",
              lambda lib, k: [(ctypes.pointer(lib.CB(lambda x, k=k: x * 30 + k)), "cb%d|" % (90 + k))], "NULL|"),
    "pppint": PT("int ***%s", "L(%s ? \"&|\" : \"NULL|\");",
                 lambda lib, k: [(ctypes.pointer(ctypes.pointer(ctypes.pointer(ctypes.c_int(1)))), "&|")], "NULL|"),
}
for _n, _t in TYPES.items():
    _t.name = _n

# return type -> (C expression, check)
RETS = {
    "int": ("int", "return -17;", lambda r: r == -17),
    "double": ("double", "return 2.25;", lambda r: r == 2.25),
    "float": ("float", "return 1.5f;", lambda r: r == 1.5),
    "void": ("void", "return;", lambda r: r is None),
    "uchar": ("unsigned char", "return 250;", lambda r: r == 250),
    "short": ("short", "return -2;", lambda r: r == -2),
    "ullong": ("unsigned long long", "return 0xFFFFFFFFFFFFFFFEull;", lambda r: r == 0xFFFFFFFFFFFFFFFE),
    "cstr": ("const char *", "return \"res\";", lambda r: r == b"res"),
    "null": ("char *", "return 0;", lambda r: r is None),
    "char": ("char", "return 'q';", lambda r: r == b"q"),
    "S": ("struct S", "{ struct S s = {6, 7.5}; return s; }", lambda r: r.a == 6 and r.b == 7.5),
    "S_t": ("S_t", "{ struct S s = {9, 1.5}; return s; }", lambda r: r.a == 9 and r.b == 1.5),
    "pint": ("int *", "vf_static[0] = 31; return vf_static;", lambda r: r[0] == 31),
    "pS": ("S_t *", "{ static struct S s = {8, 2.5}; return &s; }", lambda r: r.contents.a == 8 and r[0].b == 2.5),
    "void*": ("void *", "return (void *)4096;", lambda r: r == 4096),
    "enum": ("enum E", "return E1;", lambda r: r == 5),
    "tdef": ("I", "return 12;", lambda r: r == 12),
    "fn": ("CB", "return 0;", lambda r: not r),
    "fnptr": ("int (*%s)(int)", "return vf_inc;", lambda r: r(41) == 42),
    "parr": ("int (*%s)[3]", "vf_static[2] = 13; return &vf_static;", lambda r: r[0][2] == 13),
    "ppint": ("int **", "{ static int *p; p = vf_static; vf_static[0] = 14; return &p; }", lambda r: r[0][0] == 14),
    "stdcall": ("int __cdecl", "return 3;", lambda r: r == 3),
}


# Parameter names that differ little, and some that mean something to Python or to the package.
ODD = ["n", "N", "self", "args", "n_", "_n", "lib", "name", "None", "kwargs"]


class Fun:
    """named: False, True (a0, a1...) or a number k: names of ODD from the k-th on."""

    def __init__(self, num, ret, params, named=True):
        self.num, self.ret, self.params, self.named = num, ret, params, named
        self.name = "f%d" % num

    def pn(self, k):
        if self.named is True or self.named is False:
            return "a%d" % k
        return ODD[(self.named + k) % len(ODD)]

    def proto(self):
        ps = []
        for k, p in enumerate(self.params):
            ps.append((TYPES[p].decl % (self.pn(k) if self.named is not False else "")).strip())
        return self.head(ps) + ";"

    def head(self, params):
        """The declaration of the function."""
        t = RETS[self.ret][0]
        return (t if "%s" in t else t + " %s") % ("%s(%s)" % (self.name, ", ".join(params) or "void"))

    def source(self):
        ps = [TYPES[p].decl.split("=")[0] % ("a%d" % k) for k, p in enumerate(self.params)]
        b = "vf_p = vf_log; vf_calls++; L(\"%s(\");" % self.name
        for k, p in enumerate(self.params):
            t = TYPES[p].log
            b += t % (("a%d" % k,) * (t.count("%s") - t.count("%%s")))
        for k, p in enumerate(self.params):
            t = TYPES[p].write
            if t:
                n = t.count("%s")
                b += t % (("a%d" % k,) * n + ((k,) if "%d" in t else ()))
        return "%s { %s %s }\n" % (self.head(ps).replace("__cdecl", ""), b, RETS[self.ret][1])


def call_forms(fun, deep):
    """Ways to call: (tuple of per-parameter (how, null, value number), keyword order). how: p(ositional), k(eyword),
    o(mitted)."""
    n = len(fun.params)
    for k in range(n + 1):
        for rest in itertools.product("ko" if fun.named is not False else "o", repeat=n - k):
            hows = "p" * k + "".join(rest)
            given = [i for i in range(n) if hows[i] != "o"]
            ptrs = [i for i in given if TYPES[fun.params[i]].null]
            sets = [()] + [(i,) for i in ptrs] + ([tuple(ptrs)] if len(ptrs) > 1 else [])
            bad = [i for i in given if not TYPES[fun.params[i]].null]
            sets += [(bad[0],)] if bad else []
            for nulls in sets:
                kws = [i for i in range(n) if hows[i] == "k"]
                orders = list(itertools.permutations(kws)) if deep or len(kws) < 3 else [tuple(kws), tuple(kws[::-1])]
                for order in orders:
                    yield hows, nulls, order


class World:
    def __init__(self, funs):
        self.funs = funs
        d = own_dir()
        self.so = gcc.shared(CPRE + PRE + "".join(f.source() for f in funs), os.path.join(d, "c16_%d.so" % funs[0].num))
        text = PRE + "\n".join(f.proto() for f in funs) + "\n"
        self.lib, self.parser = libs.bind_text(text, self.so)
        if not isinstance(self.lib, Failed):
            c = ctypes.CDLL(self.so)
            self.log = (ctypes.c_char * 4096).in_dll(c, "vf_log")
            self.calls = ctypes.c_int.in_dll(c, "vf_calls")

    def try_call(self, fun, hows, nulls, order, variant):
        """None or (what, expected, observed)."""
        lib = self.lib
        n = len(fun.params)
        args, kwargs, exp, vals, refused = [], {}, [fun.name + "("], {}, False
        for i, p in enumerate(fun.params):
            t = TYPES[p]
            if hows[i] == "o":
                if t.omit is None:
                    refused = True
                else:
                    exp.append(t.omit[0])
                continue
            if i in nulls:
                v, e = None, t.null
                if e is None:
                    refused = True
            else:
                vs = t.values(lib, i)
                v, e = vs[variant % len(vs)]
            vals[i] = v
            exp.append(e or "")
            if hows[i] == "p":
                args.append(v)
        for i in order:
            kwargs[fun.pn(i)] = vals[i]
        before = self.calls.value
        self.log.value = b""
        f = guarded(getattr, lib, fun.name)
        if isinstance(f, Failed):
            return "binding", fun.name, repr(f)
        r = guarded(f, *args, **kwargs)
        log = self.log.value.decode("latin-1")
        if refused:
            if not (isinstance(r, Failed) and r.isa("TypeError")):
                return "argument missing or no pointer", "TypeError", repr(r)
            if log or self.calls.value != before:
                return "refused call", "function not called", log
            return None
        if isinstance(r, Failed):
            return "call", "".join(exp), repr(r)
        if log != "".join(exp):
            return "arguments", "".join(exp), log
        if self.calls.value != before + 1:
            return "number of calls", 1, self.calls.value - before
        return guarded_result(lambda: self.result(fun, hows, nulls, vals, r, before + 1))

    def result(self, fun, hows, nulls, vals, r, calls):
        n = len(fun.params)
        check = RETS[fun.ret][2]
        if not check(r()):
            return "return value", fun.ret, repr(r())
        it = list(r)
        if len(it) != 2 or not check(it[0]):
            return "unpacking", "(return value, arguments)", repr(it)
        ret, rest = r
        rest = list(rest)
        if len(rest) != n:
            return "unpacking", "%d arguments" % n, repr(rest)
        auto = r.auto()
        om = [i for i in range(n) if hows[i] == "o"]
        if len(auto) != len(om):
            return "auto()", "%d values" % len(om), repr(auto)
        addrs = []
        for i, p in enumerate(fun.params):
            t = TYPES[p]
            forms = [("[%d]" % i, r[i]), ("unpacked %d" % i, rest[i])]
            if fun.named is not False:
                forms.append(("[%r]" % fun.pn(i), r[fun.pn(i)]))
            forms.append(("[%d]" % (i - n), r[i - n]))
            if hows[i] == "o":
                forms.append(("auto", auto[om.index(i)]))
                addrs.append(ctypes.addressof(r.args[i].contents))
            for what, v in forms:
                if hows[i] == "o":
                    ok = t.omit[1](v, i, calls)
                elif i in nulls:
                    ok = not v
                else:
                    g = vals[i]
                    ok = v is g or (hasattr(g, "value") and not isinstance(g, ctypes.Structure) and v == g.value)
                if not ok:
                    return "result" + what, "what parameter %d (%s) holds" % (i, p), repr(v)
        for i in range(n):
            if i not in om:
                old, new = r.args[i], object()
                r[fun.pn(i) if fun.named is not False and i % 2 else i] = new
                if r[i] is not new or sum(a is new for a in r.args) != 1:
                    return "argument %d replaced in the result" % i, "found again, others untouched", repr(r.args)
                r.args[i] = old
        if len(set(addrs)) != len(addrs):
            return "storage", "one of its own for each omitted pointer", addrs
        self.kept.append((r, fun, [(i, TYPES[fun.params[i]].omit[1]) for i in om], calls))
        return None

    def kept_ok(self):
        """Results of earlier calls are not touched by later ones."""
        for r, fun, om, calls in self.kept:
            for i, read in om:
                if not read(r[i], i, calls):
                    return "result kept of %s [%d]" % (fun.name, i), "as it was", repr(r[i])
        return None

    def check(self, fun, deep):
        self.kept = []
        forms = list(call_forms(fun, deep))
        n = 0
        for variant in range(3 if len(fun.params) < 2 or deep else 1):
            for hows, nulls, order in forms:
                n += 1
                r = self.try_call(fun, hows, nulls, order, variant + (len(hows) and n))
                if not r and len(self.kept) > 12:
                    r = guarded_result(self.kept_ok)
                    self.kept = self.kept[-3:]
                if r:
                    return n, (fun.proto() + " called " + describe(fun, hows, nulls, order), (hows, nulls, order, variant), r)
        r = guarded_result(self.kept_ok) or self.unknown(fun) or guarded_result(lambda: self.typing(fun))
        return n, (fun.proto() + " called repeatedly", None, r) if r else None

    def typing(self, fun):
        """The type named for an argument is one that calls take; anything else is refused."""
        f = getattr(self.lib, fun.name)
        sig = f.pretty_signature()
        if not isinstance(sig, str) or fun.name not in sig:
            return "pretty_signature()", "text", sig
        for i, p in enumerate(fun.params):
            good = [TYPES[p].values(self.lib, i)[0] for i, p in enumerate(fun.params)]
            ct = f.arg_c_type(i)
            if fun.named is not False and f.arg_c_type(fun.pn(i)) is not ct:
                return "arg_c_type by name", ct, f.arg_c_type(fun.pn(i))
            args = [v for v, _ in good]
            self.log.value = b""
            if TYPES[p].null:
                args[i] = ct()
                f(*args)
                exp = fun.name + "(" + "".join(TYPES[p].null if k == i else e for k, (_, e) in enumerate(good))
                if self.log.value.decode("latin-1") != exp:
                    return "arg_c_type(%d)" % i, exp, self.log.value
            elif not isinstance(args[i], ct):
                args[i] = args[i] if isinstance(args[i], ctypes.Structure) else ct(args[i])
                f(*args)
                exp = fun.name + "(" + "".join(e for _, e in good)
                if self.log.value.decode("latin-1") != exp:
                    return "arg_c_type(%d)" % i, exp, self.log.value
            wrong = [object(), self.lib] + ([ctypes.pointer(ctypes.c_longdouble())] if p != "void" else []) + \
                ([ctypes.c_longdouble()])
            for v in wrong:
                args = [v for v, _ in good]
                args[i] = v
                before = self.calls.value
                r = guarded(f, *args)
                if not isinstance(r, Failed) or self.calls.value != before:
                    return "%r for parameter %d" % (type(v), i), "refused, function not called", repr(r)
        return None

    def unknown(self, fun):
        """Unknown keywords are refused."""
        for name in ("zz", "A0", "a%d" % len(fun.params), "a0" if not fun.named else "self", "n", "N", "args"):
            if fun.named is not False and name in [fun.pn(k) for k in range(len(fun.params))]:
                continue
            self.log.value = b""
            r = guarded(lambda: getattr(self.lib, fun.name)(**{name: 1}))
            if not (isinstance(r, Failed) and r.isa("TypeError")) or self.log.value:
                return "unknown keyword %s" % name, "TypeError, function not called", repr(r)
        return None


def guarded_result(fn):
    r = guarded(fn)
    return ("reading the result", "readable", repr(r)) if isinstance(r, Failed) else r


def describe(fun, hows, nulls, order):
    return "(%s)" % ", ".join([("None" if i in nulls else "...")
                               for i, h in enumerate(hows) if h == "p"] +
                              ["%s=%s" % (fun.pn(i), "None" if i in nulls else "...") for i in order])


def run_chunk(args):
    funs, deep = args
    world = World(funs)
    if isinstance(world.lib, Failed):
        return 0, [("binding of " + funs[0].proto(), spec(funs[0]), "binds", repr(world.lib), "")], set()
    bad, n, outs = [], 0, set()
    for f in funs:
        core.mark(f.proto())
        k, r = world.check(f, deep)
        n += k
        outs.add(f.ret)
        if r:
            bad.append((r[0], spec(f), r[2][1], r[2][2], r[2][0]))
            if len(bad) >= 6:
                break
    return n, bad, outs


def spec(f):
    return {"num": f.num, "ret": f.ret, "params": list(f.params), "named": f.named}


def replay(case):
    def go(c):
        wd = World([Fun(c["num"], c["ret"], tuple(c["params"]), c["named"])])
        if isinstance(wd.lib, Failed):
            return "binds", repr(wd.lib)
        _, r = wd.check(wd.funs[0], True)
        return r and (r[2][1], r[2][2])
    r = core.pmap(go, [case])[0]
    return ("no crash", repr(r)) if isinstance(r, core.Crash) else r


def space(ctx):
    names, rets = list(TYPES), list(RETS)
    for r in rets:
        yield r, (), True
        for p in names:
            yield r, (p,), True
    i = 0

    def rot():
        nonlocal i
        i += 1
        return rets[i % len(rets)]
    for ps in itertools.product(names, repeat=2):
        yield rot(), ps, True
    few = [n for n in names if n not in ("uchar", "tdef", "S_t", "pSt", "penum", "PI", "fn", "pppint", "arr2", "ppint", "llong", "pPI", "pCB", "dint")]
    for ps in itertools.product(few if ctx.quick else names, repeat=3):
        yield rot(), ps, True
    for n in range(4, ctx.pick(4, 5) + 1):
        for ps in itertools.product(["int", "pdbl", "S", "pint"], repeat=n):
            yield rot(), ps, True
    for n in range(1, 3):
        for ps in itertools.product(names, repeat=n):
            yield rot(), ps, False
    for k in range(len(ODD)):
        for n in range(1, ctx.pick(4, 5)):
            for ps in itertools.product(["int", "pint", "pS"] if n < 4 else ["int", "pint"], repeat=n):
                yield rot(), ps, k
    for n in range(5, ctx.pick(11, 16)):
        for start in range(4):
            yield rot(), tuple(("int", "pdbl", "float", "pint", "cstr")[(start + j) % 5] for j in range(n)), True


def run(ctx):
    funs = [Fun(i, r, p, named) for i, (r, p, named) in enumerate(space(ctx))]
    long_ = [f for f in funs if len(f.params) > 4]
    funs = [f for f in funs if len(f.params) <= 4]
    parts = core.chunks(funs, 90)
    jobs = [(p, not ctx.quick) for p in parts] + [([f], False) for f in long_ if len(f.params) < (7 if ctx.quick else 9)]
    for job, r in zip(jobs, core.pmap(run_chunk, jobs)):
        if isinstance(r, core.Crash):
            m = [f for f in job[0] if f.proto() == r.marker] or job[0][:1]
            ctx.violation("crash " + r.marker, spec(m[0]), "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.outcomes |= r[2]
        for b in r[1]:
            ctx.violation(*b)
    ctx.nstates = len(funs)
    ctx.transitions = ctx.traces
    for f in funs[::max(1, len(funs) // 5)]:
        ctx.sample(f.proto(), 6)
    ctx.note(signatures=len(funs), calls=ctx.traces)
    ctx.assumptions.append("pointers of one or two levels to anything but functions and arrays may be omitted; too many "
                           "arguments, variadic functions and C++ default arguments are not covered; calls with more than four "
                           "parameters take no structs by value (libffi itself mixes them up)")
