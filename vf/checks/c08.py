"""C08: packing in force at each aggregate. Explicit-state search over all histories of packing directives up to a depth,
an aggregate after every directive; the same with every kind of line that does not concern packing at every gap.
Model: a stack. Validated against gcc on every history where the suite and compilers agree.
"""
import itertools
import os
import re

from .. import core, gcc
from ..cparse import write
from ..core import Failed, guarded

DIRS = ["1", "4", "", "push", "push, 2", "push, 8", "pop", "push, A", "push, A, 1", "push, B, 4", "pop, A", "pop, B"]


def step(state, d):
    """Model: (packing, stack of (value after the push, identifier))."""
    packing, stack = state
    opts = [o.strip() for o in d.split(",")]
    if opts[0] == "push":
        ident = None
        for o in opts[1:]:
            if o.isdigit():
                packing = int(o)
            else:
                ident = o
        return packing, stack + ((packing, ident),)
    if opts[0] == "pop":
        ident = opts[1] if len(opts) > 1 else None
        for j in range(len(stack) - 1, -1, -1):
            if ident is None or stack[j][1] == ident:
                stack = stack[:j]
                return (stack[-1][0] if stack else None), stack
        return state
    return (int(opts[0]) if opts[0] else None), stack


def args(x):
    """What stands in the parentheses of a directive (or the short form)."""
    return re.search(r"\(\s*(.*?)\s*\)", re.sub(r"/\*.*?\*/", "", x)).group(1) if "pragma" in x else x


START = (None, ())


def gcc_defined(hist):
    """Before each push, is the packing the one of the enclosing push? Then compilers and the model agree, except on a
    pop of an unknown identifier: ignored (as the documentation of MSVC says), but not by gcc."""
    s = START
    for d in hist:
        if d.startswith("push") and s[0] != (s[1][-1][0] if s[1] else None):
            return False
        if d.startswith("pop,") and d[5:] not in [i for _, i in s[1]]:
            return False
        s = step(s, d)
    return True


AGG = ["struct %s { char c; long double d; };", "union %s { char c; long double d; };",
       "typedef struct %s { char c; long double d; } %s_t;", "struct %s\n{\n  char c;\n  long double d;\n};",
       "struct %s { char c; long double d; } %s_v;", "typedef struct\n%s { char c; long double d; }\n%s_t, *%s_p;"]


def agg(form, name):
    t = AGG[form]
    return t % ((name,) * t.count("%s"))


class Hist:
    """Lines: ('d', text) directive, ('s', form) aggregate, ('f', text) filler."""

    def __init__(self, items, key=None):
        self.items, self.key = items, key

    def render(self, pre):
        """(text, {(kind, name): pack})"""
        out, exp, s, k = [], {}, START, 0
        for kind, x in self.items:
            if kind == "d":
                out.append(x if "pragma" in x else "#pragma pack(%s)" % x)
                s = step(s, args(x))
            elif kind == "s":
                name = "%ss%d" % (pre, k)
                k += 1
                out.append(agg(x, name))
                exp["unions" if AGG[x].startswith("union") else "structs", name] = s[0]
            else:
                out.append(x.replace("@", "%sf%d_" % (pre, len(out))))
        return "\n".join(out) + "\n", exp


def parse_many(texts):
    """{(kind, name): pack} for a list of files parsed by one parser, or Failed."""
    from pyclibrary import CParser
    paths = [write(t) for t in texts]
    p = guarded(CParser, paths, timeout=300)
    for q in paths:
        os.unlink(q)
    if isinstance(p, Failed):
        return p
    return {(k, n): v["pack"] for k in ("structs", "unions") for n, v in p.defs[k].items()}


def differ(got, exp):
    if isinstance(got, Failed):
        return "parses", repr(got)
    e = {"%s %s" % k: v for k, v in exp.items() if got.get(k, "absent") != v}
    o = {"%s %s" % k: got.get(k, "absent") for k, v in exp.items() if got.get(k, "absent") != v}
    return (e, o) if e else None


def replay(case):
    h = Hist([tuple(x) for x in case["items"]])
    text, exp = h.render("P0_")
    return differ(parse_many([text]), exp)


def run_chunk(hists):
    rend = [h.render("P%d_" % i) for i, h in enumerate(hists)]
    got = parse_many([t for t, _ in rend])
    bad, outs = [], set()
    for h, (text, exp) in zip(hists, rend):
        outs.add(tuple(str(v) for v in exp.values()))
        if differ(got, exp):
            case = {"items": h.items}
            d = replay(case)
            key = h.key or h.render("")[0]
            if d:
                bad.append((key, case, d[0], d[1], "packing history"))
            else:
                bad.append(("batch: " + key, case, *differ(got, exp), "packing history among others"))
            if len(bad) >= 8:
                break
    return len(hists), bad, outs


SIZES = {17: 1, 18: 2, 20: 4, 24: 8, 32: None}


def gcc_chunk(hists):
    """Model against gcc."""
    bad = []
    src, pr, exps = "#include <stdio.h>\n", "int main(void) {\n", []
    for i, h in enumerate(hists):
        text, exp = h.render("P%d_" % i)
        src += text + "#pragma pack(pop)\n" * 8 + "#pragma pack()\n"
        for (k, n), v in exp.items():
            kw = k[:-1]
            pr += 'printf("%%zu\\n", %s);\n' % ("sizeof(struct %s)" % n if kw == "struct" else "_Alignof(union %s)" % n)
            exps.append((i, k, v))
    for (i, k, v), line in zip(exps, gcc.run(src + pr + "return 0; }\n").split()):
        n = int(line)
        got = SIZES[n] if k == "structs" else {1: 1, 2: 2, 4: 4, 8: 8, 16: None}[n]
        if got != v:
            bad.append((hists[i].render("")[0], v, got))
    return bad


FILL = ["", "// c", "/* a\n b\n c */", "#define @M 3", "#define @F(x) \\\n  ((x) + \\\n  1)", "#undef @N", "int @v;",
        "#pragma once", "#pragma warning(push, 3)", "/* #pragma pack(1) */", "// #pragma pack(push, 1)",
        "#if 0\n#pragma pack(1)\n#endif", "#ifdef @X\n#pragma pack(push, 1)\n#else\n#endif",
        "#if 1\nint @w;\n#else\n#pragma pack(pop)\n#endif", "#include <x.h>", "int @f(int a)\n{\n  return 1;\n}",
        "char *@s = \"#pragma pack(1)\";", "#error no", "enum @e { @e1,\n @e2 };", "#define", "#if 0\n#if 1\n#pragma pack()\n"
        "#endif\n#elif 0\n#pragma pack(8)\n#endif", "#line 3", "int @u \\\n = 3;", "#pragma packed(1)", "#\n# \n"]
SPELL = ["#pragma pack(%s)", "# pragma pack(%s)", "  #pragma pack (%s)", "#pragma\tpack( %s )", "#pragma pack(%s) ",
         "#pragma  pack(%s) // c", "#pragma pack(/* c */%s)", "#pragma \\\n pack(%s)", "/* c */ #pragma pack(%s)"]


def space(ctx):
    n = ctx.pick(3, 4)
    k = 0
    for m in range(0, n + 1):
        for hist in itertools.product(DIRS, repeat=m):
            items = [("s", k % 6)]
            for d in hist:
                k += 1
                items += [("d", d), ("s", k % 6)]
            yield Hist(items, None)
    few = ["1", "", "push", "push, 2", "pop"]
    for m in range(n + 1, ctx.pick(5, 7) + 1):
        for hist in itertools.product(few, repeat=m):
            items = [("s", 0)]
            for d in hist:
                k += 1
                items += [("d", d)] + ([("s", k % 6)] if k % 2 else [])
            yield Hist(items + [("s", 1)])
    ids = ["push, A, 1", "push, B, 2", "pop, A", "pop, B", "pop"]
    for m in range(4, ctx.pick(5, 7) + 1):
        for hist in itertools.product(ids, repeat=m):
            items = []
            for d in hist:
                items += [("d", d), ("s", 0)]
            yield Hist(items)
    # lines of no concern at every gap
    for hist in itertools.product(["push, 1", "pop", "4", ""], repeat=2):
        base = [("s", 0)]
        for i, d in enumerate(hist):
            base += [("d", d), ("s", i)]
        for f in FILL:
            for pos in range(len(base) + 1):
                yield Hist(base[:pos] + [("f", f)] + base[pos:])
            x = [("f", f)]
            for b in base:
                x += [b, ("f", f)]
            yield Hist(x)
        for f, g in itertools.product(FILL, repeat=2) if not ctx.quick else ():
            for pos in range(len(base) + 1):
                yield Hist(base[:pos] + [("f", f), ("f", g)] + base[pos:])
    # spellings of the directive
    for sp in SPELL:
        for hist in itertools.product(["push, 1", "push,A,2", "pop", "4", "", "pop,A", "push"], repeat=2):
            items = [("s", 0)]
            for d in hist:
                items += [("d", sp % d), ("s", 0)]
            yield Hist(items)
    # depth
    for depth in range(5, ctx.pick(14, 40)):
        items = []
        for i in range(depth):
            items += [("d", "push, %d" % (1, 2, 4, 8)[i % 4]), ("s", i % 6)]
        for i in range(depth + 1):
            items += [("d", "pop"), ("s", i % 6)]
        yield Hist(items)


def run(ctx):
    hists = list(space(ctx))
    states = set()
    ok = []
    for h in hists:
        s = START
        states.add(s)
        ds = [args(x) for k, x in h.items if k == "d"]
        for d in ds:
            s = step(s, d)
            ctx.transitions += 1
            states.add(s)
        if all(k != "f" for k, x in h.items) and gcc_defined(ds) and not any("pragma" in x for k, x in h.items if k == "d"):
            ok.append(h)
    bad = [b for r in core.pmap(gcc_chunk, core.chunks(ok, 400)) for b in r]
    assert not bad, "model disagrees with gcc: %r" % (bad[:3],)
    parts = core.chunks(hists, 100)
    for r in core.pmap(run_chunk, parts):
        if isinstance(r, core.Crash):
            ctx.violation("crash", {"items": []}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.outcomes |= r[2]
        for b in r[1]:
            ctx.violation(*b)
    ctx.nstates = len(states)
    for h in hists[::max(1, len(hists) // 6)]:
        ctx.sample(h.render("")[0], 6)
    ctx.note(histories=len(hists), histories_validated_by_gcc=len(ok))
    ctx.assumptions.append("a pop restores the packing set by the enclosing push (default outside), as the suite demands; "
                           "gcc agrees whenever no bare pack(n) is pending at a push; pack(show) and pop with a value are "
                           "not covered; each file starts with the default packing")
