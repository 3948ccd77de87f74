"""C07: memory layout of bound structs and unions. All aggregates up to three members over a member alphabet, times
packings; a program compiled by gcc dumps size, offsets and the bytes of the aggregate after storing known values; the
class built by the real binding must have the same ones.
"""
import ctypes as C
import itertools

from .. import core, gcc, libs
from ..cparse import parse
from ..core import Failed, guarded

PRE = """typedef unsigned char VU8; typedef short VARR[3]; typedef VARR VMAT[2]; typedef double VDBL;
struct VIN { char c; int i; }; union VUN { char c[3]; short s; }; typedef struct VIN VINT; typedef int *VPTR;
typedef VINT VINA[2]; enum VEN { VEN0, VEN1 };
typedef struct { long long q; char t; } VANON; typedef union { int i; char c[7]; } VUANON;
"""
CPRE = "#include <stdio.h>\n#include <string.h>\n#include <stddef.h>\n#include <stdint.h>\n#include <stdbool.h>\n"


class VIN(C.Structure):
    _fields_ = [("c", C.c_char), ("i", C.c_int)]


# name: (C text with N for the member's name, [(C path, Python path, C value, Python value)], bit-field?, raw ctypes field)
def S(t, cv, pv):
    return t + " N;", [("N", ("N",), cv, pv)], None


MEMBERS = {
    "char": S("char", "65", b"A"),
    "uchar": S("unsigned char", "200", 200),
    "schar": S("signed char", "-3", -3),
    "short": S("short", "-300", -300),
    "ushort": S("unsigned short", "65000", 65000),
    "int": S("int", "-70000", -70000),
    "uint": S("unsigned int", "4000000000u", 4000000000),
    "long": S("long", "-5000000000L", -5000000000),
    "ll": S("long long", "-7000000000LL", -7000000000),
    "ull": S("unsigned long long", "18000000000000000000ULL", 18000000000000000000),
    "float": S("float", "1.5f", 1.5),
    "double": S("double", "-2.25", -2.25),
    "ld": S("long double", None, None),
    "bool": S("bool", "1", True),
    "u8": S("VU8", "201", 201),
    "u16": S("uint16_t", "65001", 65001),
    "i64": S("int64_t", "-6", -6),
    "dbl": S("VDBL", "3.5", 3.5),
    "voidp": ("void *N;", [("N", ("N",), "(void *)0x1234", 0x1234)], None),
    "charp": ("char *N;", [("N", ("N",), None, None)], None),
    "intp": ("int *N;", [("N", ("N",), None, None)], None),
    "tptr": ("VPTR N;", [("N", ("N",), None, None)], None),
    "fnp": ("int (*N)(int, char *);", [("N", ("N",), None, None)], None),
    "self": ("KW @ *N;", [("N", ("N",), None, None)], None),
    "enum": ("enum VEN N;", [("N", ("N",), "VEN1", 1)], None),
    "int3": ("int N[3];", [("N[0]", ("N", 0), "7", 7), ("N[2]", ("N", 2), "-9", -9)], None),
    "char5": ("char N[5];", [("N", ("N",), None, None)], None),
    "mat": ("short N[2][3];", [("N[1][0]", ("N", 1, 0), "11", 11), ("N[0][2]", ("N", 0, 2), "12", 12)], None),
    "arrp": ("char *N[2];", [("N", ("N",), None, None)], None),
    "parr": ("int (*N)[4];", [("N", ("N",), None, None)], None),
    "tarr": ("VARR N;", [("N[2]", ("N", 2), "5", 5)], None),
    "tmat": ("VMAT N;", [("N[1][2]", ("N", 1, 2), "6", 6), ("N[1][0]", ("N", 1, 0), "8", 8)], None),
    "tarr2": ("VARR N[4];", [("N[3][1]", ("N", 3, 1), "9", 9)], None),
    "fnarr": ("void (*N[3])(void);", [("N", ("N",), None, None)], None),
    "sin": ("struct VIN N;", [("N.i", ("N", "i"), "77", 77), ("N.c", ("N", "c"), "66", b"B")], None),
    "sint": ("VINT N;", [("N.i", ("N", "i"), "78", 78)], None),
    "sarr": ("struct VIN N[2];", [("N[1].i", ("N", 1, "i"), "79", 79)], None),
    "sina": ("VINA N;", [("N[1].c", ("N", 1, "c"), "67", b"C")], None),
    "un": ("union VUN N;", [("N.s", ("N", "s"), "80", 80)], None),
    "anonT": ("VANON N;", [("N.q", ("N", "q"), "81", 81), ("N.t", ("N", "t"), "68", b"D")], None),
    "uanonT": ("VUANON N;", [("N.i", ("N", "i"), "82", 82)], None),
    "inl": ("struct { char x; double y; } N;", [("N.y", ("N", "y"), "0.5", 0.5)], None),
    "inlu": ("union { char x; int y; } N;", [("N.y", ("N", "y"), "83", 83)], None),
    "inln": ("struct @N { short x; VU8 y[3]; } N;", [("N.y[1]", ("N", "y", 1), "84", 84)], None),
    "anons": ("struct { char N_x; long N_y; };", [("N_x", ("N_x",), "69", b"E"), ("N_y", ("N_y",), "85", 85)], None),
    "anonu": ("union { short N_x; double N_y; };", [("N_y", ("N_y",), "4.5", 4.5)], None),
    "deep": ("struct { char N_a; union { int N_b; struct { char N_c; short N_d; }; }; };",
             [("N_a", ("N_a",), "70", b"F"), ("N_d", ("N_d",), "86", 86)], None),
    "two": ("char N, N_b[3];", [("N", ("N",), "71", b"G"), ("N_b", ("N_b",), None, None)], None),
    "mixd": ("int N, *N_p, N_a[2];", [("N", ("N",), "87", 87), ("N_p", ("N_p",), None, None),
                                     ("N_a[1]", ("N_a", 1), "88", 88)], None),
}


def B(t, w, cv, pv, ct):
    return "%s N : %d;" % (t, w), [("N", ("N",), cv, pv)], [("N", ct, w)]


BITS = {
    "b3": B("unsigned int", 3, "5", 5, C.c_uint), "b5": B("unsigned int", 5, "21", 21, C.c_uint),
    "b17": B("int", 17, "-3", -3, C.c_int), "b1": B("unsigned", 1, "1", 1, C.c_uint),
    "b32": B("unsigned", 32, "4000000001u", 4000000001, C.c_uint),
    "bc2": B("unsigned char", 2, "3", 3, C.c_ubyte), "bs9": B("short", 9, "-7", -7, C.c_short),
    "bl40": B("unsigned long", 40, "1000000000001UL", 1000000000001, C.c_ulong),
    "bt4": B("VU8", 4, "9", 9, C.c_ubyte),
    "bpair": ("unsigned N : 4, N_b : 9;", [("N", ("N",), "10", 10), ("N_b", ("N_b",), "300", 300)],
              [("N", C.c_uint, 4), ("N_b", C.c_uint, 9)]),
    "bpad": ("unsigned N : 4; unsigned : 7; unsigned N_b : 3;", [("N", ("N",), "11", 11), ("N_b", ("N_b",), "6", 6)],
             [("N", C.c_uint, 4), ("N_pad", C.c_uint, 7), ("N_b", C.c_uint, 3)]),
}
RAW = {"char": C.c_char, "uchar": C.c_ubyte, "short": C.c_short, "int": C.c_int, "ll": C.c_longlong, "double": C.c_double,
       "charp": C.c_char_p, "sin": VIN, "int3": C.c_int * 3, "u8": C.c_ubyte, "uint": C.c_uint, "voidp": C.c_void_p}
PACKS = [None, 1, 2, 4, 8, 16]


class Agg:
    """One aggregate: C text, leaves; `@` is its tag."""

    def __init__(self, kw, keys, pack, form=0, tail=""):
        self.kw, self.keys, self.pack, self.form = kw, keys, pack, form
        body, self.leaves, raw = [], [], []
        for i, k in enumerate(keys):
            text, leaves, r = MEMBERS.get(k) or BITS[k]
            body.append(fixup(text, kw, i))
            for cp, pp, cv, pv in leaves:
                self.leaves.append((cp.replace("N", "m%d" % i), tuple(
                    p.replace("N", "m%d" % i) if isinstance(p, str) else p for p in pp), cv, pv))
            if r:
                raw += [(n.replace("N", "m%d" % i), t, w) for n, t, w in r]
            elif k in RAW:
                raw.append(("m%d" % i, RAW[k]))
            else:
                raw.append(None)
        self.bits = any(k in BITS for k in keys)
        self.raw = raw
        self.body = " ".join(body) + tail
        self.key = "%s {%s} pack=%s form=%d" % (kw, self.body, pack, form)

    def text(self, tag):
        pre = post = ""
        if self.pack is not None:
            pre, post = [("#pragma pack(push, %d)\n", "#pragma pack(pop)\n"), ("#pragma pack(%d)\n", "#pragma pack()\n")][
                self.form % 2]
            pre = pre % self.pack
        body = self.body.replace("@", tag)
        decl = ["%(kw)s %(t)s { %(b)s };\n", "typedef %(kw)s %(t)s { %(b)s } %(t)s_t;\n",
                "typedef %(kw)s { %(b)s } %(t)s_t;\n"][self.form if "@ *" not in self.body else 1]
        return pre + decl % dict(kw=self.kw, t=tag, b=body) + post

    def cname(self, tag):
        return tag + "_t" if self.form == 2 and "@ *" not in self.body else self.kw + " " + tag

    def lookup(self, lib, tag):
        kind = self.kw + "s"
        if self.cname(tag).startswith(self.kw):
            return lib(kind, tag)
        return lib("types", tag + "_t")

    def cprog(self, tag):
        """Statements printing: size, then offset of every first-level or promoted name, then the bytes."""
        t = self.cname(tag)
        out = ['{ %s v; memset(&v, 0, sizeof v); printf("%%zu", sizeof v);' % t]
        for cp, pp, cv, pv in self.leaves:
            if not self.isbit(pp[0]):
                out.append('printf(" %%zu", (size_t)((char *)&v.%s - (char *)&v));' % cp)
        out.append('printf("|");')
        for cp, pp, cv, pv in self.leaves:
            if self.kw == "union":
                out.append("memset(&v, 0, sizeof v);")
            if cv is not None:
                out.append("v.%s = %s;" % (cp, cv))
            if self.kw == "union":
                out.append(DUMP + 'printf(",");')
        if self.kw == "struct":
            out.append(DUMP)
        return " ".join(out) + ' printf("\\n"); }'

    def isbit(self, name):
        return any(r and len(r) == 3 and r[0] == name for r in self.raw)


DUMP = 'for (unsigned k = 0; k < sizeof v; k++) printf("%02x", ((unsigned char *)&v)[k]);'


def fixup(text, kw, i):
    """N (as a word, or N_x) is the member's name."""
    import re
    return re.sub(r"\bN(?=\b|_)", "m%d" % i, text.replace("KW", kw).replace("@N", "@_n%d" % i))


def offset_of(cls, path):
    """Offset of a leaf in a class."""
    off = 0
    for p in path:
        if isinstance(p, int):
            cls = cls._type_
            off += p * C.sizeof(cls)
        else:
            f = getattr(cls, p)
            off += f.offset
            cls = find_type(cls, p)
    return off


def find_type(cls, name):
    for f in cls._fields_:
        if f[0] == name:
            return f[1]
    for a in getattr(cls, "_anonymous_", ()):
        sub = find_type(dict((f[0], f[1]) for f in cls._fields_)[a], name)
        if sub is not None:
            return sub
    return None


def put(obj, path, val):
    for p in path[:-1]:
        obj = obj[p] if isinstance(p, int) else getattr(obj, p)
    if isinstance(path[-1], int):
        obj[path[-1]] = val
    else:
        setattr(obj, path[-1], val)


def take(obj, path):
    for p in path:
        obj = obj[p] if isinstance(p, int) else getattr(obj, p)
    return obj


def layout(agg, cls):
    """The line the C program prints, from the class."""
    out = [str(C.sizeof(cls))]
    for cp, pp, cv, pv in agg.leaves:
        if not agg.isbit(pp[0]):
            out.append(str(offset_of(cls, pp)))
    s = " ".join(out) + "|"
    v = cls()
    for cp, pp, cv, pv in agg.leaves:
        if agg.kw == "union":
            v = cls()
        if cv is not None:
            put(v, pp, pv)
            got = take(v, pp)
            if got != pv:
                s += "[%s reads back %r]" % (cp, got)
        if agg.kw == "union":
            s += bytes(v).hex() + ","
    if agg.kw == "struct":
        s += bytes(v).hex()
    return s


def values_back(agg, cls, line):
    """Bytes written by C, read through the class."""
    if agg.kw != "struct":
        return None
    v = cls.from_buffer_copy(bytes.fromhex(line.split("|")[1]))
    for cp, pp, cv, pv in agg.leaves:
        if cv is not None and take(v, pp) != pv:
            return "%s: %r instead of %r" % (cp, take(v, pp), pv)
    return None


def raw_layout(agg):
    """Can ctypes represent the compiler's bit-field layout at all?"""
    if None in agg.raw:
        return None

    class R(C.Structure if agg.kw == "struct" else C.Union):
        if agg.pack is not None:
            _pack_ = agg.pack
        _fields_ = agg.raw
    try:
        return layout(agg, R)
    except Exception:
        return None


def oracle(aggs):
    src = CPRE + PRE
    fns = []
    for i, a in enumerate(aggs):
        src += a.text("T%d" % i)
        fns.append("static void f%d(void) %s\n" % (i, a.cprog("T%d" % i)))
    src += "".join(fns) + "int main(void) {\n" + "".join("f%d();\n" % i for i in range(len(aggs))) + "return 0; }\n"
    return gcc.run(src).splitlines()


def one(text, tag, agg, line):
    p = parse(PRE + text)
    return judge(p, agg, tag, line)


def judge(p, agg, tag, line, lib=None):
    if isinstance(p, Failed):
        return line, repr(p)
    if lib is None:
        lib = libs.bind(p)
    if isinstance(lib, Failed):
        return line, repr(lib)

    def go():
        cls = agg.lookup(lib, tag)
        got = layout(agg, cls)
        if got == line:
            back = values_back(agg, cls, line)
            if back:
                return "reading what C wrote: " + back
        return got
    got = guarded(go)
    return None if got == line else (line, repr(got) if isinstance(got, Failed) else got)


def run_chunk(aggs):
    lines = oracle(aggs)
    assert len(lines) == len(aggs)
    keep, skipped = [], 0
    for i, (a, l) in enumerate(zip(aggs, lines)):
        if a.bits and raw_layout(a) != l:
            skipped += 1
            continue
        keep.append((i, a, l))
    p = parse(PRE + "".join(a.text("T%d" % i) for i, a, l in keep))
    lib = libs.bind(p) if not isinstance(p, Failed) else None
    bad, outs = [], set()
    for i, a, l in keep:
        core.mark(a.key)
        outs.add(core.digest(l.split("|")[0]))
        d = judge(p, a, "T%d" % i, l, lib)
        if d:
            d1 = one(a.text("T0"), "T0", a, l)
            bad.append((a.key if d1 else "batch: " + a.key,
                        {"agg": [a.kw, a.keys, a.pack, a.form], "line": l, "body": a.body}, *(d1 or d), "layout"))
            if len(bad) >= 8:
                break
    return len(keep), skipped, bad, outs


def replay(case):
    kw, keys, pack, form = case["agg"]
    a = Agg(kw, keys, pack, form)
    a.body = case["body"]
    return one(a.text("T0"), "T0", a, case["line"])


def space(ctx):
    ms, bs = list(MEMBERS), list(BITS)
    for kw in ("struct", "union"):
        for m in ms + bs:
            for pk in PACKS:
                for form in range(3):
                    yield Agg(kw, [m], pk, form)
    core_m = ["char", "short", "int", "ll", "double", "charp", "int3", "char5", "sin", "un", "anons", "anonu", "mat", "sarr",
              "ld", "bool", "tmat", "fnp"]
    for kw in ("struct", "union"):
        for n, (a, b) in enumerate(itertools.product(ms, ms)):
            yield Agg(kw, [a, b], PACKS[n % 6] if ctx.quick else None, n % 3)
            if not ctx.quick:
                for pk in PACKS[1:]:
                    yield Agg(kw, [a, b], pk, n % 3)
    for n, (a, b) in enumerate(itertools.product(core_m, core_m)):
        for pk in PACKS:
            yield Agg("struct", [a, b], pk, n % 3)
    tri = core_m[:9] if ctx.quick else core_m
    for n, t in enumerate(itertools.product(tri, repeat=3)):
        for pk in (ctx.pick([None, 1, 2], PACKS)):
            yield Agg("struct", list(t), pk, n % 3)
    some = bs + ["char", "int", "short", "double", "charp", "ll", "uchar"]
    for n, t in enumerate(itertools.product(some, repeat=2)):
        for pk in (None, 1, 2, 4):
            if any(k in BITS for k in t):
                yield Agg("struct", list(t), pk, n % 3)
                yield Agg("union", list(t), pk, n % 3)
    few = ["b3", "b5", "b17", "bc2", "bpair", "char", "int", "short"] if ctx.quick else some
    for n, t in enumerate(itertools.product(few, repeat=3)):
        if any(k in BITS for k in t):
            for pk in ctx.pick([None], [None, 1, 2]):
                yield Agg("struct", list(t), pk, n % 3)
    # many members, and a member without dimension at the end
    for n in range(4, ctx.pick(14, 30)):
        for s in range(0, len(core_m), 3):
            yield Agg("struct", [core_m[(s + 5 * i) % len(core_m)] for i in range(n)], PACKS[(n + s) % 6], n % 3)
        yield Agg("struct", ["b1", "b3"] * (n // 2), None, n % 3)
    for m in core_m:
        for flex in ("int", "char", "struct VIN", "double", "VARR"):
            yield Agg("struct", [m], None, 0, " %s flex[];" % flex)
            yield Agg("struct", [m, "char"], 1, 1, " %s flex[];" % flex)
            yield Agg("struct", [m, "char"], None, 1, " %s *flex[];" % flex)


def run(ctx):
    libs.base_so()
    aggs, seen = [], set()
    for a in space(ctx):
        if a.key not in seen:
            seen.add(a.key)
            aggs.append(a)
    skipped = 0
    parts = core.chunks(aggs, 150)
    for part, r in zip(parts, core.pmap(run_chunk, parts)):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, {"agg": [part[0].kw, part[0].keys, part[0].pack, 0], "line": "",
                                                "body": part[0].body}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        skipped += r[1]
        for b in r[2]:
            ctx.violation(*b)
        ctx.outcomes |= r[3]
    ctx.nstates = len(aggs)
    ctx.transitions = sum(len(a.leaves) for a in aggs)
    for a in aggs[::max(1, len(aggs) // 8)]:
        ctx.sample(a.key, 8)
    ctx.note(aggregates=len(aggs), skipped_because_ctypes_itself_lays_out_the_bit_fields_differently=skipped,
             oracle="gcc: size, offsets and bytes after storing values")
    ctx.assumptions.append("bit-field groups that ctypes cannot lay out like gcc even when declared by hand are skipped; "
                           "zero-width bit-fields and enum bit-fields are outside the alphabet")
