"""C02: #if / #elif conditions. Bounded-exhaustive enumeration of expression trees.

Every expression is checked twice: as a bare condition and as "(expr) == value", so a wrong value with
the right truth is seen too. The reference evaluator (C integer arithmetic) is validated by gcc -E on
the very same conditions.
"""
import itertools
import re

from .. import core, gcc
from ..cparse import Prog, T, batch_check, replay_prog as replay  # noqa: F401

SETUP = ("#define @M1 1\n#define @M3 3\n#define @MN (-2)\n#define @MH 0x1F\n#define @MZ 0\n#define @MM @M3\n"
         "#define @F(x) ((x)+1)\n#define @E\n#define @A @F\n")
SHARED = SETUP.replace("@", "VF_")
BIN = ["*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||"]
UN = ["-", "+", "~", "!"]
CP = {}
for lvl, ops in enumerate([("*", "/", "%"), ("+", "-"), ("<<", ">>"), ("<", ">", "<=", ">="), ("==", "!="), ("&",),
                           ("^",), ("|",), ("&&",), ("||",)]):
    for o in ops:
        CP[o] = lvl
PP = {}
for lvl, ops in enumerate([("*", "/", "%"), ("+", "-"), ("<<", ">>"), ("&",), ("^",), ("|",),
                           ("<", ">", "<=", ">=", "==", "!="), ("&&",), ("||",)]):
    for o in ops:
        PP[o] = lvl
CMP = {"<", ">", "<=", ">=", "==", "!="}
LIM = 2 ** 40


class Undef(Exception):
    pass


class Leaf:
    prec = -1

    def __init__(self, text, val, uns=False):
        self.t, self.v, self.u = text, val, uns

    def text(self):
        return self.t

    def ev(self):
        return self.v, self.u


class Un:
    def __init__(self, op, a):
        self.op, self.a = op, a

    def text(self):
        a = self.a.text() if isinstance(self.a, Leaf) else "(" + self.a.text() + ")"
        if self.op in "+-" and a.startswith(self.op):
            a = " " + a
        return self.op + a

    def ev(self):
        v, u = self.a.ev()
        if self.op == "!":
            return int(not v), False
        r = {"-": -v, "+": v, "~": ~v}[self.op]
        if u and r < 0:
            raise Undef
        return r, u


def _arith(op, x, y, u):
    if op == "*":
        r = x * y
    elif op in "/%":
        if y == 0:
            raise Undef
        q = abs(x) // abs(y)
        q = q if (x < 0) == (y < 0) else -q
        r = q if op == "/" else x - y * q
    elif op == "+":
        r = x + y
    elif op == "-":
        r = x - y
    elif op in ("<<", ">>"):
        if not 0 <= y < 32:
            raise Undef
        r = x << y if op == "<<" else x >> y
    elif op == "&":
        r = x & y
    elif op == "^":
        r = x ^ y
    elif op == "|":
        r = x | y
    else:
        r = int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op])
    if abs(r) > LIM:
        raise Undef
    return r


class Bin:
    def __init__(self, op, a, b, paren=True, sp=" "):
        self.op, self.a, self.b, self.paren, self.sp = op, a, b, paren, sp

    def text(self):
        def sub(x):
            if isinstance(x, Leaf) or not self.paren:
                return x.text()
            if isinstance(x, Un) and x.op != "!":
                return x.text()
            return "(" + x.text() + ")"
        b = sub(self.b)
        sp = self.sp or (" " if b[0] in "+-&" else "")
        return sub(self.a) + sp + self.op + sp + b

    def ev(self):
        x, ux = self.a.ev()
        if self.op == "&&":
            return (int(bool(self.b.ev()[0])) if x else 0), False
        if self.op == "||":
            return (1 if x else int(bool(self.b.ev()[0]))), False
        y, uy = self.b.ev()
        if self.op in ("<<", ">>"):
            if ux and x < 0:
                raise Undef
            return _arith(self.op, x, y, ux), ux
        u = ux or uy
        if u and (x < 0 or y < 0):
            raise Undef
        r = _arith(self.op, x, y, u)
        if self.op in CMP:
            return r, False
        if u and r < 0:
            raise Undef
        return r, u


def lit(t):
    body = t.rstrip("uUlL")
    v = int(body, 16) if body[:2] in ("0x", "0X") else int(body, 8) if body[0] == "0" else int(body)
    return Leaf(t, v, "u" in t.lower())


WIDE = [lit("0"), lit("1"), lit("2"), lit("7"), lit("010"), lit("0x1F"), lit("3U"), lit("5L"), Leaf("VF_M1", 1),
        Leaf("VF_M3", 3), Leaf("VF_MN", -2), Leaf("VF_MH", 31), Leaf("VF_MM", 3), Leaf("VF_U", 0),
        Leaf("defined(VF_M1)", 1), Leaf("defined VF_U", 0), Leaf("VF_F(2)", 3)]
SMALL = [lit("0"), lit("1"), lit("3")]
SUFFIX = ["", "u", "U", "l", "L", "ul", "uL", "Ul", "UL", "lu", "Lu", "lU", "LU", "ll", "LL", "ull", "uLL", "Ull", "ULL",
          "llu", "LLu", "llU", "LLU"]
BODIES = ["0", "1", "7", "9", "10", "42", "255", "00", "01", "07", "010", "0777", "0x0", "0xf", "0xF", "0X1A", "0xabcdef",
          "0xDEAD", "0x10", "0XAb"]
PYWORDS = ["and", "or", "not", "in", "is", "None", "True", "False", "lambda", "if", "else", "for", "print", "int", "self",
           "expr", "os", "re", "eval", "x1", "_1", "definedX", "undefined", "L", "U", "xF", "e5", "b1", "o7", "abs"]


def trees(ctx):
    d1 = [Un(o, a) for o in UN for a in WIDE] + [Bin(o, a, b) for o in BIN for a in WIDE for b in WIDE]
    yield "leaf", WIDE
    yield "depth1", d1
    s1 = SMALL + [Un(o, a) for o in UN for a in SMALL] + [Bin(o, a, b) for o in BIN for a in SMALL for b in SMALL]
    inner = [x for x in s1 if not isinstance(x, Leaf)]
    few = ctx.pick([lit("2")], SMALL)
    yield "depth2", ([Un(o, a) for o in UN for a in inner]
                     + [Bin(o, a, b) for o in BIN for a in inner for b in few]
                     + [Bin(o, a, b) for o in BIN for a in few for b in inner])
    if not ctx.quick:
        mid = [Un(o, lit("1")) for o in UN] + [Bin(o, lit(a), lit(b)) for o in BIN for a, b in (("2", "3"), ("6", "2"))]
        yield "depth2both", [Bin(o, a, b) for o in BIN for a in mid for b in mid]
    flat = []
    vals = ctx.pick(["0", "2", "5"], ["0", "1", "2", "5"])
    for o1, o2 in itertools.product(BIN, BIN):
        if o1 in CMP and o2 in CMP:
            continue
        left_c, left_p = CP[o1] <= CP[o2], PP[o1] <= PP[o2]
        if left_c != left_p:
            continue
        for sp in (" ", ""):
            for a, b, c in itertools.product(map(lit, vals), repeat=3):
                if sp == "" and not (a.t == "5" or b.t == "2"):
                    continue
                if left_c:
                    flat.append(Bin(o2, Bin(o1, a, b, False, sp), c, False, sp))
                else:
                    flat.append(Bin(o1, a, Bin(o2, b, c, False, sp), False, sp))
    yield "flat", flat
    yield "unary-flat", [Bin(o, Un(u, lit("5")), Un(w, lit("3")), False) for o in BIN for u in "-+~" for w in "-+~"] + \
        [Bin(o, Un("!", a), Un("!", b), False) for o in ("&&", "||") for a in WIDE for b in WIDE]
    yield "literals", [Bin(o, lit(b + s), lit("7"), True) for b in BODIES for s in SUFFIX for o in ("==", "+")]
    yield "words", [Bin("==", Leaf("VF_" + w if w in ("",) else w, 0), lit("0")) for w in PYWORDS] + \
        [Bin("||", Leaf(w, 0), Leaf(x, 0)) for w in PYWORDS for x in PYWORDS[:6]]
    names = [("VF_M1", 1), ("VF_F", 1), ("VF_E", 1), ("VF_MZ", 1), ("VF_A", 1), ("VF_U", 0), ("VF_", 0), ("VF_F2", 0), ("F", 0), ("defined1", 0)]
    tests = [Leaf(f % n, v) for n, v in names for f in ("defined %s", "defined(%s)", "defined ( %s )", "defined\t%s", "defined (%s)")]
    yield "defined", tests + [Un("!", t) for t in tests] + [Bin(o, t, x, False) for o in ("&&", "||", "==", "+") for t in tests[::2] for x in tests[1::2]] + \
        [Bin(o, t, x) for o in ("&&", "||", "+", "<") for t in tests for x in (lit("0"), lit("2"), Leaf("VF_F(2)", 3), Leaf("VF_M3", 3))]
    chain = []
    for n in range(2, ctx.pick(14, 30)):
        for o in ("&&", "||", "+", "-", "|", "^", "*"):
            for k in range(n):
                e = lit("1" if o in ("&&", "+", "-", "*") else "0")
                for i in range(1, n):
                    v = ("0" if o == "&&" else "3") if i == k else ("1" if o in ("&&", "+", "-", "*") else "0")
                    e = Bin(o, e, lit(v), False)
                chain.append(e)
        e = lit("1")
        for i in range(n):
            e = Un("!-~"[i % 3], e)
        chain.append(e)
        e = lit("1")
        for i in range(n):
            e = Bin(BIN[(i * 5) % 18], e, lit("2"))
        chain.append(e)
    yield "chains", chain


FORMS = ["#if {c}\n{y}#else\n{n}#endif\n", "#if 0\n{x}#elif {c}\n{y}#else\n{n}#endif\n", "  #  if\t{c}\n{y}#endif\n",
         "#if {c} // c\n{y}#endif\n", "#if ({c})\n{y}#endif\n", "#if(!({c}))\n{n}#else\n{y}#endif\n",
         "#if {c}\n{y}#elif 1\n{n}#endif\n", "#ifndef VF_M1\n{x}#elif {c}\n{y}#endif\n"]


def make(cond, truth, i):
    f = FORMS[i % len(FORMS)]
    text = f.format(c=cond, y="#define @y\n", n="#define @n\n", x="#define @x\n")
    exp = {"@y": ""} if truth else ({"@n": ""} if "{n}" in f else {})
    return Prog(text, {"macros": exp}, key=cond, what="#if condition")


def _oracle(progs):
    text = SHARED
    for i, p in enumerate(progs):
        text += p.text.replace("@", "P%d_" % i)
        text += "".join("#ifdef P%d_%s\nR %d %s;\n#endif\n" % (i, k, i, k) for k in "ynx")
    got = {}
    for m in re.finditer(r"R (\d+) (\w);", gcc.cpp(text)):
        got.setdefault(int(m.group(1)), set()).add(m.group(2))
    return [(p.key, p.expect, sorted(got.get(i, set()))) for i, p in enumerate(progs)
            if {n[1:] for n in p.expect["macros"]} != got.get(i, set())]


def run(ctx):
    progs, fams = [], {}
    i = 0
    seen = set()
    for fam, es in trees(ctx):
        n = 0
        for e in es:
            try:
                v, u = e.ev()
            except Undef:
                continue
            t = e.text()
            if t in seen:
                continue
            seen.add(t)
            ctx.state(t)
            progs.append(make(t, bool(v), i))
            # exact value, and its neighbour
            vt = "(%s%d)" % ("-" if v < 0 else "", abs(v))
            progs.append(make("(%s) == %s" % (t, vt), True, i + 3))
            i += 1
            n += 1
        fams[fam] = n
    wrong = [b for r in core.pmap(_oracle, core.chunks(progs, 4000)) for b in r]
    assert not wrong, "evaluator disagrees with gcc -E: %r" % wrong[:3]
    ctx.transitions = len(progs)
    macros = {"VF_M1": "1", "VF_M3": "3", "VF_MN": "(-2)", "VF_MH": "0x1F", "VF_MZ": "0", "VF_MM": "3", "VF_E": ""}
    fnmacros = {n: ("(({})+1)", [0]) for n in ("VF_F", "VF_A")}
    batch_check(ctx, progs, size=200, sep="", macros=macros, fnmacros=fnmacros)
    # the same macros defined by the text itself
    batch_check(ctx, [Prog(SETUP + p.text.replace("VF_", "@"), {"variables": {"@ok": {"t": [None, T("int")]}}},
                           key="own macros: " + p.key, what="#if condition") for p in
                      [Prog(FORMS[j % 3].format(c="(%s) == %d" % (e.text(), e.ev()[0]), y="int @ok;\n", n="", x=""), {},
                            key=e.text()) for j, e in enumerate(WIDE)]], size=4)
    for p in progs[:: max(1, len(progs) // 6)]:
        ctx.sample(p.text)
    ctx.note(conditions=len(progs), conditions_validated_by_gcc=len(progs), expressions_by_family=fams,
             binary_operators=BIN, unary_operators=UN)
    ctx.assumptions.append("values stay below 2**40; no ?:, character constants or unsigned wrap-around; combinations "
                           "that C and Python group differently are enumerated with parentheses only")
