"""C28: arrays and casts made for a library. All element types x shapes x initial values x ways to name the type x ways to
hand the array to C, and all casts between pointer types; a C library built by gcc records the elements it finds and
changes them.
"""
import ctypes
import itertools
import os

from .. import core, gcc, libs
from ..core import Failed, guarded, own_dir

PRE = """
typedef int I;
struct S { short a; double b; };
typedef struct S S_t;
union U { int i; char c[4]; };
enum E { E0, E1 = 5 };
typedef int (*CB)(int);
typedef short A3[3];
typedef unsigned char uc;
typedef int *PI_;
typedef void *H;
"""
CPRE = """
#include <stdio.h>
#include <string.h>
char vf_log[8192];
#define LOG(...) sprintf(vf_log + strlen(vf_log), __VA_ARGS__)
static int vf_inc(int x) { return x + 1; }
static int vf_ints[4] = {61, 62, 63, 64};
"""


class ET:
    """An element type. c: C type name; names: ways to name it for build_array; py(lib, k): k-th value; log: C statement with
    %s the element; exp(k), zero: what is logged; write: C statement; read(element, k): has C written it."""

    def __init__(self, c, names, py, log, exp, zero, write, read):
        self.c, self.names, self.py, self.log, self.exp, self.zero, self.write, self.read = c, names, py, log, exp, zero, write, read


def num(c, fmt, *names, lo=0, f=int):
    return ET(c, names, lambda lib, k: f(k + 3 + lo), "LOG(\"%s|\", %%s);" % fmt.replace("%", "%%"),
              lambda k: (fmt.replace("l", "").replace("u", "d") + "|") % f(k + 3 + lo), "0|", "%s = i + 50;", lambda v, k: v == k + 50)


def S(lib, k):
    s = lib.S()
    s.a, s.b = k + 1, k + .5
    return s


def U(lib, k):
    u = lib.U()
    u.i = k + 5
    return u


def raw(v):
    return getattr(v, "value", v)


TY = lambda *a: lambda lib: __import__("pyclibrary").c_parser.Type(*a)
CT = lambda t: lambda lib: t
ELEMS = {
    "int": num("int", "%d", "int", "I", "signed", TY("int"), TY("I"), CT(ctypes.c_int), lo=-5),
    "uchar": num("unsigned char", "%u", "unsigned char", "uc", "uint8_t", TY("uc"), CT(ctypes.c_ubyte), lo=200),
    "short": num("short", "%d", "short", "short int", TY("short"), CT(ctypes.c_short), lo=-900),
    "ullong": num("unsigned long long", "%llu", "unsigned long long", "uint64_t", TY("unsigned long long"), lo=1 << 63),
    "long": num("long", "%ld", "long", "ssize_t", TY("long", ), CT(ctypes.c_long), lo=-(1 << 40)),
    "double": num("double", "%g", "double", TY("double"), CT(ctypes.c_double), f=float),
    "float": num("float", "%g", "float", TY("float"), CT(ctypes.c_float), f=float),
    "enum": num("enum E", "%d", "enum E", TY("enum E")),
    "char": ET("char", ("char", TY("char"), CT(ctypes.c_char)), lambda lib, k: b"pqrstuvwxyz"[k:k + 1], "LOG(\"%%d|\", %s);",
               lambda k: "%d|" % (112 + k), "0|", "%s = 'A' + i;", lambda v, k: v == b"ABCDEFGHIJKLMN"[k:k + 1]),
    "S": ET("struct S", ("struct S", "S_t", TY("S_t"), TY("struct S"), lambda lib: lib.S), S, "LOG(\"%%d/%%g|\", %s.a, %s.b);",
            lambda k: "%d/%g|" % (k + 1, k + .5), "0/0|", "%s.a = i; %s.b = -i;", lambda v, k: v.a == k and v.b == -k),
    "U": ET("union U", ("union U", TY("union U"), lambda lib: lib.U), U, "LOG(\"%%d|\", %s.i);", lambda k: "%d|" % (k + 5), "0|",
            "%s.i = i + 600;", lambda v, k: v.i == k + 600),
    "ptr": ET("int *", ("PI_", TY("int", "*"), TY("PI_"), CT(ctypes.POINTER(ctypes.c_int))),
              lambda lib, k: ctypes.pointer(ctypes.c_int(k + 8)), "LOG(\"%%d|\", %s ? *%s : -1);", lambda k: "%d|" % (k + 8), "-1|",
              "%s = vf_ints + i %% 4;", lambda v, k: v[0] == 61 + k % 4),
    "cb": ET("CB", ("CB", TY("CB"), lambda lib: lib.CB), lambda lib, k: keep(lib.CB(lambda x: x * 10 + k)),
             "LOG(\"%%d|\", %s ? %s(2) : -1);", lambda k: "%d|" % (20 + k), "-1|", "%s = vf_inc;", lambda v, k: v(k) == k + 1),
    "str": ET("char *", (TY("char", "*"), CT(ctypes.c_char_p)), lambda lib, k: b"v%d" % k, "LOG(\"%%s|\", %s ? %s : \"-\");",
              lambda k: "v%d|" % k, "-|", "%s = \"wr\";", lambda v, k: v == b"wr"),
    "H": ET("void *", ("H", TY("void", "*"), TY("H"), CT(ctypes.c_void_p)), lambda lib, k: 4096 + k, "LOG(\"%%ld|\", (long)%s);",
            lambda k: "%d|" % (4096 + k), "0|", "%s = (void *)(i + 77L);", lambda v, k: v == 77 + k),
}
KEEP = []


def keep(x):
    KEEP.append(x)
    return x


SHAPES = [1, 2, 3, 5, (1,), (4,), (2, 3), (3, 2), (1, 1), (2, 2, 2), (3, 1, 2)]


def nel(shape):
    n = 1
    for k in shape if isinstance(shape, tuple) else (shape,):
        n *= k
    return n


def elems(arr, shape):
    dims = shape if isinstance(shape, tuple) else (shape,)
    for idx in itertools.product(*map(range, dims)):
        v = arr
        for i in idx:
            v = v[i]
        yield v


def protos(n, e):
    c = e.c
    return "\n".join([
        "typedef %s *P%s;" % (c, n),
        "void dump_%s(%s *p, int n);" % (n, c),
        "void set_%s(P%s p, int n);" % (n, n),
        "int same_%s(void *p, int n);" % n,
        "void dumpa_%s(%s p[], int n);" % (n, c),
        "void dump23_%s(%s p[2][3]);" % (n, c),
    ]) + "\n"


def source(n, e):
    c = e.c
    lg = e.log % (("p[i]",) * (e.log.count("%s") - e.log.count("%%s")))
    wr = e.write % (("p[i]",) * e.write.count("%s"))
    return protos(n, e) + """
void dump_@(C *p, int n) { int i; for (i = 0; i < n; i++) { %s } }
void dumpa_@(C p[], int n) { dump_@(p, n); }
void dump23_@(C p[2][3]) { dump_@(&p[0][0], 6); }
void set_@(P@ p, int n) { int i; for (i = 0; i < n; i++) { %s } }
int same_@(void *p, int n) { vf_log[0] = 0; dump_@(p, n); return n; }
""".replace("C p", c + " p").replace("C *p", c + " *p").replace("@", n) % (lg, wr)


class World:
    def __init__(self):
        self.so = gcc.shared(PRE + CPRE + "".join(source(n, e) for n, e in ELEMS.items()) + CASTC,
                             os.path.join(own_dir(), "c28.so"))
        self.lib, _ = libs.bind_text(PRE + "".join(protos(n, e) for n, e in ELEMS.items()) + CASTH, self.so)
        if not isinstance(self.lib, Failed):
            self.log = (ctypes.c_char * 8192).in_dll(ctypes.CDLL(self.so), "vf_log")

    def logged(self, fn, *args):
        self.log.value = b""
        fn(*args)
        return self.log.value.decode("latin-1")

    def array(self, case):
        from pyclibrary import build_array, cast_to
        n, nm, shape, given, form, route = case
        shape = tuple(shape) if isinstance(shape, list) else shape
        e, lib = ELEMS[n], self.lib
        KEEP.clear()
        ty = e.names[nm]
        ty = ty if isinstance(ty, str) else ty(lib)
        vals = [e.py(lib, k) for k in range(given)] if given is not None else None
        arg = {"list": lambda: vals, "tuple": lambda: tuple(vals), "gen": lambda: (v for v in vals)}[form]() if vals is not None else None
        arr = build_array(lib, ty, shape) if vals is None else build_array(lib, ty, shape, arg)
        other = build_array(lib, ty, shape)
        total = nel(shape)
        if len(arr) != (shape if isinstance(shape, int) else shape[0]):
            return "length", shape, len(arr)
        exp = "".join(e.exp(k) for k in range(given or 0)) + e.zero * (total - (given or 0))
        f = lambda s: getattr(lib, s + n)
        if route == "pointer":
            send = arr
        elif route == "void":
            send = arr
        elif route == "decl":
            send = cast_to(lib, arr, "P" + n)
        elif route == "class":
            send = cast_to(lib, arr, getattr(lib, "P" + n))
        elif route == "type":
            send = cast_to(lib, arr, TY("P" + n)(lib))
        else:
            send = arr
        got = []
        if route == "void":
            got.append(self.logged(f("same_"), send, total))
        elif route == "23":
            got.append(self.logged(f("dump23_"), send))
        else:
            got += [self.logged(f("dump_"), send, total), self.logged(f("dumpa_"), send, total)]
        if got != [exp] * len(got):
            return "elements seen by C", exp, got
        f("set_")(cast_to(lib, arr, "P" + n), total)
        bad = [k for k, v in enumerate(elems(arr, shape)) if not e.read(v, k)]
        if bad:
            return "elements written by C", "seen in the array", bad
        o = self.logged(f("same_"), other, total)
        if o != e.zero * total:
            return "another array of the type", e.zero * total, o
        return None

    def cast(self, case):
        from pyclibrary import cast_to
        src, dst, how = case
        lib = self.lib
        obj, addr = OBJ[src](lib)
        KEEP.append(obj)
        ty = {"name": lambda: dst, "class": lambda: getattr(lib, dst), "type": lambda: TY(dst)(lib)}[how]()
        p = cast_to(lib, obj, ty)
        r = lib.addr(p)()
        if r != addr:
            return "address", addr, r
        if not isinstance(p, getattr(lib, dst)):
            return "type", dst, type(p)
        seen = lib.__getattr__("see_" + dst)(p)()
        exp = SEE[dst](lib, addr)
        if seen != exp:
            return "what C sees", exp, seen
        return None


CASTH = """
typedef unsigned char *Cuc;
typedef long *Clong;
typedef struct S *CS;
typedef union U *CU;
typedef PI_ *CPP;
typedef const short *Cshort;
unsigned long addr(void *p);
int see_Cuc(Cuc p);
long see_Clong(Clong p);
int see_CS(CS p);
int see_CU(CU p);
int see_Cshort(Cshort p);
unsigned long see_CPP(CPP p);
unsigned long see_H(H p);
H give(void);
"""
CASTC = CASTH + """
unsigned long addr(void *p) { return (unsigned long)p; }
int see_Cuc(Cuc p) { return p[1]; }
long see_Clong(Clong p) { return *p; }
int see_CS(CS p) { return p->a; }
int see_CU(CU p) { return p->i; }
int see_Cshort(Cshort p) { return p[1]; }
unsigned long see_CPP(CPP p) { return (unsigned long)p[0]; }
unsigned long see_H(H p) { return (unsigned long)p; }
static long vf_mem[2] = {0x1122334455667788, 0x99};
H give(void) { return vf_mem; }
"""
BYTES = bytes(range(0x11, 0x21))


def _obj(make):
    def go(lib):
        o = make(lib)
        return o, ctypes.addressof(o)
    return go


def _ptr(make):
    def go(lib):
        o = make(lib)
        return ctypes.pointer(o), ctypes.addressof(o)
    return go


def _mem(cls):
    return lambda lib: (cls(lib) if not isinstance(cls, type) else cls).from_buffer_copy(BYTES[:ctypes.sizeof(
        cls(lib) if not isinstance(cls, type) else cls)])


OBJ = {
    "int array": _obj(_mem(ctypes.c_int * 4)),
    "byte array": _obj(_mem(ctypes.c_ubyte * 16)),
    "int pointer": _ptr(_mem(ctypes.c_int * 4)),
    "struct pointer": _ptr(_mem(lambda lib: lib.S)),
    "double pointer": _ptr(_mem(ctypes.c_double * 2)),
    "void pointer": lambda lib: (lambda o: (ctypes.c_void_p(ctypes.addressof(keep(o))), ctypes.addressof(o)))(_mem(ctypes.c_int * 4)(lib)),
    "address": lambda lib: (lambda o: (ctypes.addressof(keep(o)), ctypes.addressof(o)))(_mem(ctypes.c_int * 4)(lib)),
    "address given by C": lambda lib: (lib.give()(), lib.give()()),
    "result of a call": lambda lib: (lib.give().rval, lib.give()()),
    "string buffer": lambda lib: (lambda o: (o, ctypes.addressof(o)))(ctypes.create_string_buffer(BYTES)),
}


def at(t, i=0):
    return lambda lib, addr: t.from_address(addr + i * ctypes.sizeof(t)).value


SEE = {"Cuc": at(ctypes.c_ubyte, 1), "Clong": at(ctypes.c_long), "CS": at(ctypes.c_short), "CU": at(ctypes.c_int),
       "Cshort": at(ctypes.c_short, 1), "CPP": at(ctypes.c_ulong), "H": lambda lib, a: a}


def space(ctx):
    for n, e in ELEMS.items():
        for nm in range(len(e.names)):
            for shape in SHAPES:
                total = nel(shape)
                one = isinstance(shape, int) or len(shape) == 1
                for given in [None] + (list(range(0, total + 1)) if one else []):
                    for form in (("list", "tuple", "gen") if given is not None else ("list",)):
                        routes = ["decl", "class", "type", "void"] + (["pointer"] if one else []) + (["23"] if shape == (2, 3) else [])
                        for route in routes:
                            yield n, nm, shape, given, form, route


def casts():
    return list(itertools.product(OBJ, SEE, ("name", "class", "type")))


def run_chunk(cases):
    w = World()
    res = []
    if isinstance(w.lib, Failed):
        return 0, [("binding", {"case": list(cases[0])}, "binds", repr(w.lib), "binding")]
    for c in cases:
        core.mark(str(c))
        r = guarded(w.array if len(c) == 6 else w.cast, c)
        if isinstance(r, Failed):
            r = "call", "possible", repr(r)
        if r:
            res.append((str(c), {"case": list(c)}, r[1], r[2], r[0]))
            if len(res) > 5:
                break
    return len(cases), res


def replay(case):
    r = core.pmap(lambda c: run_chunk([c])[1], [tuple(case["case"])])[0]
    if isinstance(r, core.Crash):
        return "no crash", repr(r)
    return (r[0][2], r[0][3]) if r else None


def run(ctx):
    cases = list(space(ctx)) + casts()
    parts = core.chunks(cases, 32)
    for part, r in zip(parts, core.pmap(run_chunk, parts)):
        if isinstance(r, core.Crash):
            m = [c for c in part if str(c) == str(r.marker)] or part[:1]
            ctx.violation("crash " + str(r.marker), {"case": list(m[0])}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        for b in r[1]:
            ctx.violation(*b)
    ctx.nstates = len(cases)
    ctx.transitions = len(cases)
    ctx.outcomes = {(c[0], c[2]) for c in cases if len(c) == 6}
    for c in cases[::max(1, len(cases) // 6)]:
        ctx.sample(str(c), 8)
    ctx.note(arrays=len(cases) - len(casts()), casts=len(casts()), element_types=len(ELEMS))
    ctx.assumptions.append("initial values for arrays of one dimension only, as documented; types named by typedef or spelling, by "
                           "Type object or by class")
