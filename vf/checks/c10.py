"""C10: every spelling of an arithmetic type. All permutations of all specifier multisets C allows plus the supported
fixed-width and stddef names, in every position, against gcc (sizes, signedness) and calls into a compiled library.
"""
import ctypes as C
import itertools
import os

from .. import core, gcc, libs
from ..cparse import parse
from ..core import Failed, guarded

MULTI = ["char", "signed char", "unsigned char", "short", "short int", "signed short", "signed short int", "unsigned short",
         "unsigned short int", "int", "signed", "signed int", "unsigned", "unsigned int", "long", "long int", "signed long",
         "signed long int", "unsigned long", "unsigned long int", "long long", "long long int", "signed long long",
         "signed long long int", "unsigned long long", "unsigned long long int", "float", "double", "long double"]
NAMES = ["int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "size_t", "ssize_t", "bool",
         "wchar_t"]
INC = "#include <stdint.h>\n#include <stddef.h>\n#include <stdbool.h>\n#include <wchar.h>\n#include <sys/types.h>\n#include <time.h>\n"


def spellings():
    out = []
    for m in MULTI:
        for p in itertools.permutations(m.split()):
            out.append(" ".join(p))
    names = list(NAMES)
    try:
        from ctypes import c_time_t  # noqa: F401
        names.append("time_t")
    except ImportError:
        pass
    return list(dict.fromkeys(out)) + names


def header(sps):
    h = []
    for i, s in enumerate(sps):
        h.append("""typedef {s} t{i}; typedef t{i} u{i}; typedef {s} a{i}[3]; typedef {s} *p{i};
struct s{i} {{ char c; {s} m; char e; {s} v[2]; }};
struct r{i} {{ char c; const {s} m; {s} *q; u{i} w; }};
{s} id{i}({s} x);
const {s} cid{i}(const {s} x);
u{i} tid{i}(t{i} x);
{s} un{i}({s});
long long sx{i}({s} x);
unsigned long long ux{i}({s} const x);
void set{i}({s} *p, {s} v);
void seta{i}({s} *p, int n, {s} v);
void sets{i}(struct s{i} *p, {s} v);
{s} gets{i}(struct s{i} *p);
{s} viaptr{i}({s} *p);
extern {s} var{i};
""".format(s=s, i=i))
    return "\n".join(h)


def source(sps):
    src = [INC]
    for i, s in enumerate(sps):
        src.append("""typedef {s} t{i}; typedef t{i} u{i};
struct s{i} {{ char c; {s} m; char e; {s} v[2]; }};
{s} id{i}({s} x) {{ return x; }}
const {s} cid{i}(const {s} x) {{ return x; }}
u{i} tid{i}(t{i} x) {{ return x; }}
{s} un{i}({s} x) {{ return x; }}
long long sx{i}({s} x) {{ return (long long)x; }}
unsigned long long ux{i}({s} const x) {{ return (unsigned long long)x; }}
void set{i}({s} *p, {s} v) {{ *p = v; }}
void seta{i}({s} *p, int n, {s} v) {{ for (int k = 0; k < n; k++) p[k] = v; }}
void sets{i}(struct s{i} *p, {s} v) {{ p->m = v; p->v[1] = v; }}
{s} gets{i}(struct s{i} *p) {{ return p->m; }}
{s} viaptr{i}({s} *p) {{ return *p; }}
{s} var{i};
""".format(s=s, i=i))
    return "\n".join(src)


def facts(sps):
    """gcc: size, alignment, signed?, floating? of each spelling; offsets in the struct."""
    src = "#include <stdio.h>\n" + source(sps) + "int main(void) {\n"
    for i, s in enumerate(sps):
        src += ('printf("%%zu %%zu %%d %%d %%zu %%zu %%zu\\n", sizeof(%(s)s), _Alignof(%(s)s), ((%(s)s)-1 < (%(s)s)0), '
                '((%(s)s)0.5 != 0 && sizeof(%(s)s) > 1), offsetof(struct s%(i)d, m), offsetof(struct s%(i)d, v), '
                'sizeof(struct s%(i)d));\n' % dict(s=s, i=i))
    return [[int(x) for x in l.split()] for l in gcc.run(src + "return 0; }\n").splitlines()]


def values(s, size, signed, fl):
    """(python value, as C integer or None)"""
    w = set(s.split())
    if s == "char":
        return [(bytes([b]), b if b < 128 else b - 256) for b in (0, 1, 65, 127, 128, 255)]
    if s == "wchar_t":
        return [(c, ord(c)) for c in "a\x01\xe9\u20ac\U0001f600"]
    if s == "bool":
        return [(False, 0), (True, 1)]
    if fl or w & {"float", "double"}:
        return [(v, None) for v in (0.0, 1.5, -2.25, 1024.0)]
    bits = 8 * size
    if signed:
        vs = [0, 1, -1, 5, -(1 << (bits - 1)), (1 << (bits - 1)) - 1, -(1 << (bits - 2)) - 3]
    else:
        vs = [0, 1, 5, (1 << bits) - 1, 1 << (bits - 1), (1 << bits) - 2]
    return [(v, v) for v in vs]


def check(lib, i, s, fact):
    """Yields (what, expected, observed) for one spelling."""
    size, align, signed, fl, om, ov, ssz = fact

    def g(f, *a, **k):
        return guarded(lambda: f(*a, **k), timeout=30)

    def same(what, exp, fn):
        o = g(fn)
        if isinstance(o, Failed) or o != exp or type(o) is not type(exp):
            yield what, repr(exp), repr(o)
    for tn in ("t", "u"):
        yield from same("size of typedef " + tn, (size, align),
                        lambda: (C.sizeof(lib("types", "%s%d" % (tn, i))), C.alignment(lib("types", "%s%d" % (tn, i)))))
    yield from same("array typedef", (3 * size, size), lambda: (C.sizeof(lib("types", "a%d" % i)),
                                                                  C.sizeof(lib("types", "a%d" % i)._type_)))
    yield from same("struct", (om, ov, ssz), lambda: (lib("structs", "s%d" % i).m.offset, lib("structs", "s%d" % i).v.offset,
                                                        C.sizeof(lib("structs", "s%d" % i))))
    vals = values(s, size, signed, fl)
    if s != "wchar_t" and s != "char" and s != "bool" and not (fl or set(s.split()) & {"float", "double"}):
        yield from same("signedness", bool(signed), lambda: lib("types", "t%d" % i)(-1).value < 0)
    for v, c in vals:
        for fn in ("id", "cid", "tid", "un"):
            yield from same("%s(%r)" % (fn, v), v, lambda: getattr(lib, fn + str(i))(v)())
        if c is not None:
            yield from same("C receives %r (signed)" % (v,), c if c < 1 << 63 else c - (1 << 64),
                            lambda: getattr(lib, "sx%d" % i)(v)())
            yield from same("C receives %r (unsigned)" % (v,), c % (1 << 64), lambda: getattr(lib, "ux%d" % i)(v)())
        yield from same("pointer filled with %r" % (v,), v, lambda: getattr(lib, "set%d" % i)(v=v)["p"])
        yield from same("pointer given %r" % (v,), v, lambda: _via(lib, i, v))
        yield from same("member set to %r by C" % (v,), (v, v), lambda: _member(lib, i, v))
        yield from same("member set to %r by Python" % (v,), v, lambda: _back(lib, i, v))
        yield from same("array of three %r" % (v,), [v] * 3, lambda: _arr(lib, i, v))


def _via(lib, i, v):
    x = lib("types", "t%d" % i)(v)
    return getattr(lib, "viaptr%d" % i)(C.byref(x))()


def _member(lib, i, v):
    r = getattr(lib, "sets%d" % i)(v=v)["p"]
    w = r.v
    return r.m, r.m if isinstance(w, (bytes, str)) else w[1]


def _back(lib, i, v):
    x = lib("structs", "s%d" % i)()
    x.m = v
    return getattr(lib, "gets%d" % i)(C.byref(x))()


def _arr(lib, i, v):
    from pyclibrary import build_array
    a = build_array(lib, lib("types", "t%d" % i), 3)
    getattr(lib, "seta%d" % i)(C.cast(a, C.POINTER(type(a)._type_)), 3, v)
    return [a[k] for k in range(3)]


def run_chunk(sps):
    fs = facts(sps)
    so = gcc.shared(source(sps), os.path.join(core.own_dir(), "c10_%d.so" % os.getpid()))
    p = parse(header(sps))
    lib = libs.bind(p, so) if not isinstance(p, Failed) else p
    bad, n = [], 0
    if isinstance(lib, Failed):
        return 0, [(s, {"spelling": s}, "header parses and binds", repr(lib), "") for s in sps[:1]], set()
    outs = set()
    for i, s in enumerate(sps):
        core.mark(s)
        outs.add(tuple(fs[i][:4]))
        fails = list(itertools.islice(check(lib, i, s, fs[i]), 4))
        n += 1
        if fails:
            bad.append((s, {"spelling": s}, [(w, e) for w, e, o in fails], [(w, o) for w, e, o in fails],
                        "spelling of an arithmetic type"))
    return n, bad, outs


def replay(case):
    r = core.pmap(run_chunk, [[case["spelling"]]])[0]
    if isinstance(r, core.Crash):
        return "no crash", repr(r)
    return (r[1][0][2], r[1][0][3]) if r[1] else None


def run(ctx):
    sps = spellings()
    parts = core.chunks(sps, 1 + len(sps) // 16)
    for part, r in zip(parts, core.pmap(run_chunk, parts)):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, {"spelling": r.marker or part[0]}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.outcomes |= r[2]
        for b in r[1]:
            ctx.violation(*b)
    # the binding of a spelling does not depend on what else was bound before
    if not ctx.quick:
        one = [[s] for s in sps]
        for r in core.pmap(run_chunk, one):
            if not isinstance(r, core.Crash):
                ctx.traces += r[0]
                for b in r[1]:
                    ctx.violation(*b)
    ctx.nstates = len(sps)
    ctx.transitions = sum(10 + 9 * len(values(s, 4, 1, 0)) for s in sps)
    for s in sps[::len(sps) // 6]:
        ctx.sample(s, 8)
    ctx.note(spellings=len(sps), complete_for="all permutations of all arithmetic specifier multisets of C")
    ctx.assumptions.append("x86-64 Linux sizes; plain char travels as bytes, wchar_t as str (ctypes conventions)")
