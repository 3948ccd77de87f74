"""C24: floating, character and string constants. Every literal over the alphabet of pieces, in every place a constant is
reported; the values come from a program compiled by gcc.
"""
import itertools
import re
import struct

from .. import core, gcc
from ..cparse import parse
from ..core import Failed

INTS = ["", "0", "00", "1", "12", "305"]
FRACS = ["", ".", ".5", ".05", ".2500", ".1"]
EXPS = ["", "e3", "E-2", "e+1", "e0", "E10"]
SUF = ["", "f", "F", "l", "L"]
HEXES = ["0x1", "0x1.8", "0x.8", "0X1.", "0xA.Cp", "0xfe"]
PEXP = ["p0", "P3", "p-2", "p+1"]


def floats():
    for i, f, e, s in itertools.product(INTS, FRACS, EXPS, SUF):
        if (i or f.strip(".")) and (f or e):
            yield i + f + e + s
    for h, p, s in itertools.product(HEXES, PEXP, SUF):
        yield h.rstrip("p") + p + s


OPS = ["%s", "-%s", "+%s", "- %s", "(%s)", "%s+1", "2*%s", "%s/2", "1-%s", "%s*%s", "(%s-3)*2.5", "%s>1", "-(%s)"]
OPNUMS = ["1.5", "0.5f", "12.25", "3e2", "7.", ".5", "0x1.8p1", "10.L", "4e-1f"]
SIMPLE = ["a", "b", "f", "n", "r", "t", "v", "e", "?", "'", '"', "\\", "0"]


def chars(ctx):
    """Bodies of character constants."""
    for o in range(32, 127):
        if chr(o) not in "'\\\n":
            yield chr(o)
    for c in SIMPLE:
        yield "\\" + c
    for v in range(256):
        yield "\\%o" % v
        yield "\\x%x" % v
        if not ctx.quick or v % 5 == 0:
            yield "\\%03o" % v
            yield "\\x%02X" % v


CPRE = ["", "L", "u", "U"]
COPS = ["%s", "(%s)", "-%s", "~%s", "%s+1", "2*%s", "%s*2", "%s<<8", "%s-'0'", "'a'+%s", "%s>'b'", "%s=='a'", "(%s|32)",
        "+%s", "(%s+1)%%7"]
# atoms of strings: (text, what follows may change how it is read)
ATOMS = ["a", "4", "F", " ", "'", "//", "/*", "%d", ";", "{", "#", "\\n", "\\t", "\\\\", "\\\"", "\\'", "\\?", "\\e", "\\a",
         "\\0", "\\7", "\\12", "\\101", "\\377", "\\x41", "\\xe9", "M", "="]
FEW = ["a", "4", "\\\\", "\\\"", "\\0", "\\x41", "\\12", "//", "\\?"]
JOIN = [None, '" "', '""', '"\n"', '" /* c */ "', '" M_E "', '" M_X "', '" L"']
SPRE = ["", "L", "u8", "U", "u"]


def strings(ctx):
    """(prefix, [atoms], where to split, how)"""
    for n in range(0, 3):
        for t in itertools.product(ATOMS, repeat=n):
            yield "", t, None, None
    for n in range(3, ctx.pick(4, 5)):
        for t in itertools.product(FEW, repeat=n):
            yield "", t, None, None
    for t in itertools.product(FEW, repeat=2):
        for p in SPRE:
            for k in range(3):
                for j in JOIN[1:]:
                    yield p, t, k, j


def text_of(case):
    pre, atoms, k, j = case
    if k is None:
        body = "".join(atoms)
    else:
        body = "".join(atoms[:k]) + j + "".join(atoms[k:])
    return pre + '"' + body + '"'


MACROS = '#define M_E "e"\n#define M_X "\\x1" "1"\n'


def legal(text):
    """Hexadecimal escapes that run on are no characters."""
    return not re.search(r"\\x[0-9a-fA-F]{3}", text)


def c_floats(exprs):
    src = '#include <stdio.h>\nint main(void) {\n' + "".join(
        'printf("%%d %%a\\n", (int)sizeof(%s), (double)(%s));\n' % (e, e) for e in exprs) + "return 0; }\n"
    return [(int(a), float.fromhex(b)) for a, b in (ln.split() for ln in gcc.run(src).splitlines())]


def c_ints(exprs):
    src = '#include <stdio.h>\n#include <stddef.h>\n#include <uchar.h>\nint main(void) {\n' + "".join(
        'printf("%%lld\\n", (long long)(%s));\n' % e for e in exprs) + "return 0; }\n"
    return [int(x) for x in gcc.run(src).split()]


def c_strings(texts):
    src = '#include <stdio.h>\n#include <wchar.h>\n#include <uchar.h>\n' + MACROS + \
        '#define OUT(s) do { size_t i; for (i = 0; i < sizeof(s) / sizeof(s[0]); i++) ' \
        'printf("%lu ", (unsigned long)(s[i]) & (sizeof(s[0]) == 1 ? 255ul : ~0ul)); printf("\\n"); } while (0)\n' \
        'int main(void) {\n' + "".join("OUT(%s);\n" % (t if t[0] == '"' else "(" + t + ")") for t in texts) + "return 0; }\n"
    return ["".join(chr(int(x)) for x in ln.split()[:-1]) for ln in gcc.run(src).splitlines()]


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def same_float(want, size):
    def ok(v):
        if not isinstance(v, (int, float)):
            return False
        if size == 4:
            return f32(v) == f32(want)
        return v == want or size < 0 and abs(v - want) <= 1e-6 * abs(want)
    return ok


def places(i, t, want, num):
    """(text, {kind, name: ...}) of one constant in several places."""
    n = "k%d" % i
    ctype = "double" if num == "float" else "int" if num == "int" else "char *"
    lines = ["#define %s_m %s" % (n, t.replace("\n", " ")), "%s %s_v = %s;" % (ctype, n, t),
             "static const %s %s_w = %s, %s_x = %s;" % (ctype, n, t, n, t)]
    got = [("values", n + "_m"), ("values", n + "_v"), ("variables", n + "_v"), ("variables", n + "_w"), ("variables", n + "_x")]
    if num != "str":
        lines.append("%s %s_a[3] = { 1, %s, %s };" % (ctype, n, t, t))
    else:
        lines.append("char *%s_a[3] = { \"q\", %s, %s };" % (n, t, t))
        lines.append("char %s_b[] = %s;" % (n, t))
        got.append(("variables", n + "_b"))
    got.append(("array", n + "_a"))
    if num == "int":
        lines.append("enum %s_e { %s_p = %s, %s_q };" % (n, n, t, n))
        got.append(("enum", n + "_e"))
    lines.append("int %s_z;" % n)
    return "\n".join(lines) + "\n", got


def observe(p, kind, name):
    try:
        if kind == "values":
            return p.defs["values"][name]
        if kind == "variables":
            return p.defs["variables"][name][0]
        if kind == "array":
            return tuple(p.defs["variables"][name][0][1:])
        return tuple(p.defs["enums"][name][name[:-1] + q] for q in "pq")
    except (KeyError, TypeError, IndexError) as e:
        return "%s %s" % (type(e).__name__, e)


def judge(p, i, t, want, num, size):
    """None or (expected, observed)."""
    if isinstance(p, Failed):
        return want, repr(p)
    for kind, name in places(i, t, want, num)[1]:
        v = observe(p, kind, name)
        vs = v if kind == "array" and isinstance(v, tuple) else (v,)
        if kind == "enum":
            if v != (want, want + 1):
                return (kind, want), v
            continue
        for x in vs:
            if num == "float":
                ok = same_float(want, size)(x)
            elif num == "int":
                # alone, a character is reported as such
                bare = t[1:-1] if t[0] == "(" else t
                alone = re.fullmatch(r"(u8|[LuU])?'(\\.[0-9a-fA-F]*|[^\\'])'", bare)
                ok = x == alone_value(bare, want) if alone else isinstance(x, int) and x == want
            else:
                ok = x == want
            if not ok:
                return (kind, want), x
    if ("k%d_z" % i) not in p.defs["variables"]:
        return "the declaration after it", "lost"
    return None


def alone_value(bare, want):
    return chr(want & 255 if bare[0] == "'" else want)


def run_chunk(args):
    num, texts = args
    if num == "float":
        # operations on what is a float in C have its precision
        vals = [(v, -1 if "f" in t and any(c in t[1:] for c in "*/+-") and "x" not in t else s)
                for t, (s, v) in zip(texts, c_floats(texts))]
    elif num == "int":
        vals = [(v, 0) for v in c_ints(texts)]
    else:
        vals = [(v, 0) for v in c_strings(texts)]
    assert len(vals) == len(texts), (len(vals), len(texts))
    core.mark(texts[0])
    p = parse(MACROS + "".join(places(i, t, v[0], num)[0] for i, (t, v) in enumerate(zip(texts, vals))))
    bad = []
    for i, (t, (v, s)) in enumerate(zip(texts, vals)):
        r = judge(p, i, t, v, num, s)
        if r:
            # on its own, to tell the constant from its neighbours
            q = parse(MACROS + places(0, t, v, num)[0])
            r1 = judge(q, 0, t, v, num, s)
            r = r1 or r
            bad.append((t if r1 else "batch of " + t, [num, [t] if r1 else texts], repr(r[0]), repr(r[1]), "constant"))
            if len(bad) > 5:
                break
    return len(texts), bad


COND = ["%s == %d", "%s + 1 == %d + 1", "%d <= %s && %s <= %d"]


def conditions(ctx):
    """#if with character constants: (text, value)."""
    cs = list(dict.fromkeys("'%s'" % b for b in chars(ctx)))
    return cs


def run_cond(cs):
    vals = c_ints(cs)
    core.mark(cs[0])
    lines = []
    for i, (c, v) in enumerate(zip(cs, vals)):
        lines.append("#if %s == %d\nint y%d;\n#else\nint n%d;\n#endif" % (c, v, i, i))
        lines.append("#if %s + 1 != %d\nint m%d;\n#endif" % (c, v + 1, i))
    p = parse("\n".join(lines) + "\n")
    if isinstance(p, Failed):
        return len(cs), [("#if " + cs[0], ["cond", cs], "parses", repr(p), "conditions")]
    bad = []
    vs = p.defs["variables"]
    for i, c in enumerate(cs):
        got = ["y%d" % i in vs, "n%d" % i in vs, "m%d" % i in vs]
        if got != [True, False, False]:
            bad.append(("#if " + c, ["cond", [c]], repr([True, False, False]), repr(got), "condition"))
    return len(cs), bad


def replay(case):
    num, texts = case
    r = core.pmap(run_cond if num == "cond" else run_chunk, [texts if num == "cond" else (num, texts)])[0]
    if isinstance(r, core.Crash):
        return "no crash", repr(r)
    return (r[1][0][2], r[1][0][3]) if r[1] else None


def run(ctx):
    fl = list(dict.fromkeys(floats()))
    fl += [o % ((n,) * o.count("%s")) for o in OPS for n in OPNUMS]
    fl = list(dict.fromkeys(fl))
    cb = list(dict.fromkeys(chars(ctx)))
    ch = ["%s'%s'" % (p, b) for p in CPRE for b in cb if not (p and ctx.quick and b[0] == "\\" and b[1] in "0123456789x"
                                                             and cb.index(b) % 7)]
    some = ["a", "z", "0", " ", "\\n", "\\0", "\\\\", "\\'", '"', "\\377", "\\x7f", "\\x80", "\\e"]
    ch += [o % ((p + "'%s'" % b,) * (o.count("%s"))) for o in COPS[1:] for b in some for p in CPRE[:2]]
    ch += ["'ab'+0", "'abc'+0", "'a\\n'+1", "('abcd'|0)"]
    st = [t for t in dict.fromkeys(text_of(c) for c in strings(ctx)) if legal(t)]
    # a prefix joined by another prefix of a different kind is an error in C
    st = [s for s in st if not (' L"' in s and s[0] in "uU")]
    jobs = []
    for num, texts in (("float", fl), ("int", ch), ("str", st)):
        jobs += [(num, part) for part in core.chunks(texts, 60)]
        ctx.nstates += len(texts)
        for t in texts[:: max(1, len(texts) // 4)]:
            ctx.sample(t, 12)
    for job, r in zip(jobs, core.pmap(run_chunk, jobs)):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, list(job), "no crash", repr(r))
            continue
        ctx.traces += r[0]
        for b in r[1]:
            ctx.violation(*b)
    cs = conditions(ctx)
    ctx.nstates += len(cs)
    for part, r in zip(core.chunks(cs, 100), core.pmap(run_cond, core.chunks(cs, 100))):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, ["cond", part], "no crash", repr(r))
            continue
        ctx.traces += r[0]
        for b in r[1]:
            ctx.violation(*b)
    ctx.transitions = ctx.traces * 6
    ctx.note(floating=len(fl), characters=len(ch), strings=len(st), conditions=len(cs))
    ctx.assumptions.append("floats are compared as C's float when they have its suffix; characters above 127 are reported as "
                           "the character with the code of the byte; alone, several characters in one constant are reported "
                           "as written")
