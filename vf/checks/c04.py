"""C04: values of constants. Bounded-exhaustive enumeration of constant expressions in every place a
constant is reported (macro, enumerator, variable, array initialiser, array dimension) and of enumerator
lists; the values come from a program compiled by gcc.
"""
import itertools

from .. import core, gcc
from ..cparse import ANY, Prog, T, batch_check, replay_prog as replay  # noqa: F401
from . import c02
from .c02 import BIN, Bin, Leaf, Un, Undef, lit

OPS = [o for o in BIN if o not in ("&&", "||")]
UNS = ["-", "+", "~"]
LIM = 2 ** 30
PRE = "#define VF_M3 3\n#define VF_MN (-2)\n#define VF_F(x) ((x)+1)\ntypedef int VF_T;\nenum { VF_E5 = 5, VF_E0 = 0 };\n"


class Cast(Un):
    def __init__(self, typ, a):
        self.typ, self.a = typ, a

    def text(self):
        a = self.a.text() if isinstance(self.a, (Leaf, Un)) else "(" + self.a.text() + ")"
        return "(%s)%s" % (self.typ, a)

    op = "cast"

    def ev(self):
        v, u = self.a.ev()
        if v < 0 and "unsigned" in self.typ:
            raise Undef
        if "char" in self.typ and not -128 <= v < 128:
            raise Undef
        return v, "unsigned" in self.typ and "char" not in self.typ


CASTS = ["int", "long", "unsigned", "unsigned int", "char", "unsigned char", "short int", "VF_T", "long long", "signed"]
LEAVES = [lit("0"), lit("1"), lit("2"), lit("7"), lit("010"), lit("0x1F"), lit("3U"), lit("5L"), lit("6u"), lit("4ul"),
          lit("0x10UL"), Leaf("VF_M3", 3), Leaf("VF_MN", -2), Leaf("VF_F(2)", 3), Leaf("(1)", 1)]
REFS = [Leaf("VF_E5", 5), Leaf("VF_E0", 0), Leaf("(VF_E5)", 5)]
SMALL = [lit("1"), lit("6")]


def exprs(ctx):
    yield "leaf", LEAVES + REFS
    yield "depth1", [Un(o, a) for o in UNS for a in LEAVES] + [Bin(o, a, b) for o in OPS for a in LEAVES for b in LEAVES]
    yield "refs", [Un(o, a) for o in UNS for a in REFS] + \
        [Bin(o, *p, sp=sp) for o in OPS for a in REFS for b in LEAVES + REFS for p in ((a, b), (b, a)) for sp in (" ", "")]
    yield "casts", [Cast(t, a) for t in CASTS for a in LEAVES + REFS + [Un("-", lit("3")), Bin("+", lit("1"), lit("2"))]] + \
        [Bin(o, Cast(t, lit("9")), Un("-", lit("2"))) for o in OPS for t in CASTS] + \
        [Bin(o, lit("9"), Cast(t, lit("2"))) for o in OPS for t in CASTS] + \
        [Cast(t, Bin(o, lit("9"), lit("2"))) for o in OPS for t in CASTS]
    s1 = [Un(o, a) for o in UNS for a in SMALL] + [Bin(o, a, b) for o in OPS for a in SMALL for b in SMALL]
    few = ctx.pick([lit("2")], [lit("0"), lit("2"), lit("3")])
    yield "depth2", [Un(o, a) for o in UNS for a in s1] + [Bin(o, a, b) for o in OPS for a in s1 for b in few] + \
        [Bin(o, a, b) for o in OPS for a in few for b in s1]
    flat = []
    for o1, o2 in itertools.product(OPS, OPS):
        if o1 in c02.CMP and o2 in c02.CMP:
            continue
        l1, l2 = c02.CP[o1] <= c02.CP[o2], c02.PP[o1] <= c02.PP[o2]
        if l1 != l2:
            continue
        for v in ctx.pick(["762", "253"], ["762", "253", "127", "931", "512"]):
            for sp in (" ", ""):
                a, b, c = map(lit, v)
                flat.append(Bin(o2, Bin(o1, a, b, False, sp), c, False, sp) if l1 else
                            Bin(o1, a, Bin(o2, b, c, False, sp), False, sp))
    yield "flat", flat
    yield "literals", [lit(b + s) for b in c02.BODIES for s in c02.SUFFIX] + \
        [Un("-", lit(b + s)) for b in c02.BODIES for s in c02.SUFFIX if "u" not in s.lower()]
    chain = []
    for n in range(2, ctx.pick(20, 60)):
        for o in ("+", "-", "|", "^"):
            e = lit("1")
            for i in range(n):
                e = Bin(o, e, lit(str(i % 10)), False)
            chain.append(e)
        e = lit("1")
        for i in range(min(n, 15)):
            e = Bin("+-*|^&"[i % 6], lit(str(1 + i % 3)), e)
        chain.append(e)
        chain.append(lit(str(3 ** min(n, 18))))
    yield "chains", chain


def c_values(texts):
    """Values gcc computes."""
    src = "#include <stdio.h>\n" + PRE
    for i in range(0, len(texts), 200):
        src += "void f%d(void) {\n" % i + "".join(
            'printf("%%lld\\n", (long long)(%s));\n' % t for t in texts[i:i + 200]) + "}\n"
    src += "int main(void) {\n" + "".join("f%d();\n" % i for i in range(0, len(texts), 200)) + "return 0; }\n"
    return [int(x) for x in gcc.run(src).split()]


def place(t, v, i, macro_ok):
    """A program with the expression in every place."""
    lines = [PRE_D]
    exp = {"values": {}, "variables": {}, "enums": {}}
    if macro_ok:
        lines.append("#define @m " + ("(%s)" % t if i % 2 else t))
        exp["values"]["@m"] = v
        lines.append("#define @n (@m)")
        exp["values"]["@n"] = v
    lines.append("enum @e { @a = %s, @b, @c = @b + 1, @d };" % t)
    exp["enums"]["@e"] = {"@a": v, "@b": v + 1, "@c": v + 2, "@d": v + 3}
    exp["values"].update(exp["enums"]["@e"])
    lines.append(["int @v = %s;", "static const int @v = %s;", "extern long @v = %s;"][i % 3] % t)
    exp["variables"]["@v"] = {"t": [v, [T("int"), T("int", q=[["const"]]), T("long")][i % 3]]}
    exp["values"]["@v"] = v
    lines.append("int @x, @y = %s, @z[] = { 4, %s, %s };" % (t, t, t))
    exp["variables"]["@x"] = {"t": [None, T("int")]}
    exp["variables"]["@y"] = {"t": [v, T("int")]}
    exp["variables"]["@z"] = {"t": [[4, v, v], T("int", [-1])]}
    exp["values"].update({"@x": None, "@y": v, "@z": [4, v, v]})
    if 0 < v < 5000:
        lines.append("char @w[%s][2][%s];" % (t, t))
        exp["variables"]["@w"] = {"t": [None, T("char", [v], [2], [v])]}
        exp["values"]["@w"] = None
    return Prog("\n".join(lines) + "\n", exp, key=t, what="constant expression")


PRE_D = "enum { @E5 = 5, @E0 = 0 };"


# ------------------------------------------------------------------- enumerator lists
KINDS = ["", "0", "5", "-2", "@p", "@p + 3", "'a'", "1 << 4", "0x10", "(7)", "-1", "~0", "010"]


def enum_lists(ctx):
    for n in range(1, ctx.pick(3, 4) + 1):
        yield from itertools.product(KINDS, repeat=n)
    for n in range(4, ctx.pick(6, 8) + 1):
        yield from itertools.product(["", "5", "@p"], repeat=n)
    for n in range(1, ctx.pick(40, 120)):
        yield ("",) * n
        yield ("7",) + ("",) * n + ("@p", "")


def enum_prog(kinds, i):
    names = ["@n%d" % k for k in range(len(kinds))]
    parts = []
    for k, kd in enumerate(kinds):
        if "@p" in kd:
            kd = kd.replace("@p", names[k - 1]) if k else "0"
        parts.append(names[k] + (" = " + kd if kd else ""))
    body = ", ".join(parts) + ("," if i % 2 else "")
    form = i % 6
    tag = "" if form in (2, 4) else "@e"
    text = ["enum %s { %s };", "typedef enum %s { %s } @t;", "enum %s { %s };", "enum %s\n{\n%s\n} @inst;",
            "typedef enum %s { %s } @t;", "struct @s { enum %s { %s } m; };"][form] % (tag, body)
    return text + "\n", names, tag


def c_enums(cases):
    src = "#include <stdio.h>\n"
    for i, (text, names, _) in enumerate(cases):
        src += text.replace("@", "P%d_" % i)
    src += "int main(void) {\n"
    for i, (text, names, _) in enumerate(cases):
        src += 'printf("' + "%d " * len(names) + '\\n", ' + ", ".join(n.replace("@", "P%d_" % i) for n in names) + ");\n"
    src += "return 0; }\n"
    return [[int(x) for x in l.split()] for l in gcc.run(src).splitlines()]


def run(ctx):
    todo, fams, seen = [], {}, set()
    for fam, es in exprs(ctx):
        k = 0
        for e in es:
            try:
                v, u = e.ev()
            except Undef:
                continue
            t = e.text()
            if t in seen or abs(v) > LIM:
                continue
            seen.add(t)
            todo.append((t, v))
            k += 1
        fams[fam] = k
    parts = core.chunks(todo, 1500)
    vals = core.pmap(c_values, [[t for t, _ in p] for p in parts])
    progs = []
    for p, cv in zip(parts, vals):
        assert len(p) == len(cv)
        for (t, v), w in zip(p, cv):
            assert v == w, "evaluator disagrees with gcc on %s: %d %d" % (t, v, w)
            ctx.state(t)
            ref = "VF_E" in t
            progs.append(place(t.replace("VF_E", "@E"), w, len(progs), not ref))
            ctx.transitions += 7
    # the enumerators E5, E0 belong to each program
    for p in progs:
        p.expect["values"].update({"@E5": 5, "@E0": 0})
    batch_check(ctx, progs, size=60, macros={"VF_M3": "3", "VF_MN": "(-2)"}, fnmacros={"VF_F": ("(({})+1)", [0])})
    cases = [enum_prog(k, i) for i, k in enumerate(enum_lists(ctx))]
    cv = [x for r in core.pmap(c_enums, core.chunks(cases, 700)) for x in r]
    eprogs = []
    for (text, names, tag), v in zip(cases, cv):
        d = dict(zip(names, v))
        exp = {"values": d}
        if tag:
            exp["enums"] = {tag: d}
        eprogs.append(Prog(text, exp, key=text.strip(), what="enumerator list", ignore=["@inst"]))
        ctx.state(text)
        ctx.transitions += len(names)
    batch_check(ctx, eprogs, size=150, base=1000000)
    # next to a value that cannot be computed, every other one still is
    odd = []
    for bad in ("@nope", "f(1)", "1 ? 2 : 3", "!0", "1 && 1", "1 || 0", "@u * @nope"):
        odd.append(Prog("int @u = 4;\nint @v = %s;\nint @w = 5, @x = %s, @y = 6;\nenum @e { @a = 3, @b };\n"
                        % (bad, bad),
                        {"variables": {"@u": {"t": [4, T("int")]}, "@v": ANY, "@w": {"t": [5, T("int")]}, "@x": ANY,
                                       "@y": {"t": [6, T("int")]}}, "enums": {"@e": {"@a": 3, "@b": 4}}},
                        key="odd " + bad, what="next to a value that cannot be computed"))
        ctx.state(bad)
    batch_check(ctx, odd, size=1, base=2000000)
    for p in progs[:: max(1, len(progs) // 4)] + eprogs[:: max(1, len(eprogs) // 3)]:
        ctx.sample(p.text, 8)
    ctx.note(expressions=len(progs), expressions_by_family=fams, enumerator_lists=len(eprogs),
             values_computed_by_gcc=len(progs) + sum(len(v) for v in cv))
    ctx.assumptions.append("values fit 31 bits; no wrap-around, ?:, !, &&, ||, sizeof; casts do not change the value; "
                           "macros refer to macros only (they are evaluated before declarations of the same file)")
