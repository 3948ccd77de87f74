"""C06: declarators. All derivation chains up to a depth are printed as C declarators (inverse of parsing), in every
declaration context; the printer is validated by gcc against typedef chains, the parser must report the chain.

A chain is written from the declared name outwards: ("A", 2), ("P", quals), ("F", params) means
array 2 of pointer to function(params) returning <base>. Params: tuple of (name or None, base, chain).
"""
import itertools

from .. import core, gcc
from ..cparse import Prog, T, batch_check, replay_prog as replay  # noqa: F401

PRE = "struct VS { int x; };\ntypedef int VT;\nenum VE { VE0 };\nunion VU { int y; };\n"
BASES = ["int", "char", "unsigned long", "struct VS", "VT", "enum VE", "double", "union VU", "void", "long long int",
         "unsigned", "signed char"]
P, PC, PV = ("P", ()), ("P", ("const",)), ("P", ("volatile",))
A2, A3, A0 = ("A", 2), ("A", 3), ("A", -1)
F0 = ("F", ())
FV = ("F", ((None, "void", ()),))
F1 = ("F", ((None, "int", ()),))
F2 = ("F", (("a", "char", (P,)), ("b", "VT", ())))
F3 = ("F", (("cb", "int", (P, F1)), (None, "int", (P, A2))))
F4 = ("F", ((None, "void", (P, ("F", ((None, "char", (P,)), (None, "int", (P, A3)))))), (None, "struct VS", (P,))))
F5 = ("F", (("v", "int", (A2, A3)), (None, "char", (P, P)), ("f", "int", (F1,))))


def legal(chain):
    for i, d in enumerate(chain):
        nxt = chain[i + 1][0] if i + 1 < len(chain) else None
        if d[0] == "F" and nxt in ("F", "A"):
            return False
        if d[0] == "A" and nxt == "F":
            return False
        if d == A0 and i:
            return False
    return True


def declare(name, chain, parens=(), sp=""):
    """The declarator. `parens`: positions (number of derivations already applied) with redundant parentheses."""
    s = name
    if 0 in parens and s:
        s = "(" + s + ")"
    for i, d in enumerate(chain):
        if d[0] == "P":
            s = "*" + (" " + " ".join(d[1]) + " " if d[1] else sp) + s
        else:
            if s.startswith("*"):
                s = "(" + s + ")"
            if d[0] == "A":
                s += "[%s]" % ("" if d[1] < 0 else d[1])
            else:
                s += "(" + ", ".join(param(p) for p in d[1]) + ")"
        if i + 1 in parens and s:
            s = "(" + s + ")"
    return s


def param(p):
    return (p[1] + " " + declare(p[0] or "", p[2])).strip()


def expected(base, chain, bq=()):
    """Normal form of the reported Type: derivations from the base on, runs of dimensions in source order."""
    parts, quals = [base], [list(bq)]
    rev = list(reversed(chain))
    i = 0
    while i < len(rev):
        j = i
        while j < len(rev) and rev[j][0] == "A":
            j += 1
        if j > i:
            for d in reversed(rev[i:j]):
                parts.append([d[1]])
                quals.append([])
            i = j
            continue
        d = rev[i]
        if d[0] == "P":
            parts.append("*")
            quals.append(list(d[1]))
        else:
            parts.append({"t": [{"t": [n, expected(b, c), None]} for n, b, c in d[1]]})
            quals.append([])
        i += 1
    return {"T": parts, "q": quals if any(quals) else []}


def fn_expected(base, chain, bq=()):
    ret = expected(base, chain[1:], bq)
    args = expected("x", chain[:1])["T"][1]
    return {"T": [ret, args], "q": []}


def obj(exp, name, base, chain, bq=()):
    """What a declaration of an object or function must report."""
    if chain and chain[0][0] == "F":
        exp["functions"][name] = fn_expected(base, chain, bq)
    else:
        exp["variables"][name] = {"t": [None, expected(base, chain, bq)]}


def empty():
    return {"variables": {}, "functions": {}, "types": {}, "structs": {}, "unions": {}}


def base_ok(base, chain):
    """void needs a pointer or function next to it."""
    return base != "void" or (chain and chain[-1][0] != "A")


def programs(ctx):
    """(text, expect, key, validation) with validation = list of (declaration, name, base, chain, quals)."""
    al = [P, PC, A2, A3, A0, F0, FV, F1, F2]
    full = [P, PC, PV, A2, A3, A0, F0, FV, F1, F2, F3, F4, F5]
    chains = [()]
    for n in range(1, 3):
        chains += [c for c in itertools.product(full, repeat=n) if legal(c)]
    chains += [c for c in itertools.product(al, repeat=3) if legal(c)]
    chains += [c for c in itertools.product(ctx.pick([P, A2, A3, F1], al), repeat=4) if legal(c)]
    if not ctx.quick:
        chains += [c for c in itertools.product([P, A2, A3, F2], repeat=5) if legal(c)]
        chains += [c for c in itertools.product([P, A2, F1], repeat=6) if legal(c)]
    # ladders
    for n in range(5, ctx.pick(12, 24)):
        chains += [(P,) * n, (A2, A3) * (n // 2), (A3,) + (P,) * n, (P,) * n + (A2,)]
    for n in range(2, ctx.pick(5, 6)):
        chains += [(P, F1) * n, (P, A2) * n, (A2,) + (P, F2) * (n - 1), (FV, P) * n]
    for n in range(3, ctx.pick(9, 17)):
        chains.append((("F", tuple(("p%d" % i, BASES[i % 8], (P,) * (i % 3)) for i in range(n))),))
        chains.append((P, ("F", tuple((None, BASES[i % 8], (P,) * (i % 2)) for i in range(n)))))
    chains = [c for c in dict.fromkeys(chains) if legal(c)]
    k = 0
    for chain in chains:
        bases = [b for b in (BASES if len(chain) < 3 else [BASES[k % len(BASES)], "int"]) if base_ok(b, chain)]
        for base in dict.fromkeys(bases):
            k += 1
            yield from contexts(ctx, base, chain, k)


def contexts(ctx, base, chain, k):
    d = declare("@x", chain)
    fn = bool(chain) and chain[0][0] == "F"
    val = [("%s %s;" % (base, d), "@x", base, chain)]
    # object or prototype, several spellings of the surroundings
    exp = empty()
    obj(exp, "@x", base, chain)
    text = ["%s %s;", "extern %s %s;", "static %s %s;", "%s\n%s\n;"][k % 4] % (base, d)
    yield text, exp, val
    # qualified base, before and after
    if base != "void" or (chain and chain[-1][0] == "P"):
        for form, q in (("const %s %s;", ("const",)), ("%s const %s;", ("const",)), ("volatile const %s %s;",
                        ("volatile", "const")), ("const %s volatile %s;", ("const", "volatile"))):
            if len(chain) > 2 and q != ("const",):
                continue
            exp = empty()
            obj(exp, "@x", base, chain, q)
            yield form % (base, d), exp, []
    # typedef
    exp = empty()
    exp["types"]["@x"] = expected(base, chain)
    yield "typedef %s %s;" % (base, d), exp, []
    # redundant parentheses at every level
    for i in range(len(chain) + 1):
        if len(chain) > 3 and i not in (0, len(chain)):
            continue
        exp = empty()
        obj(exp, "@x", base, chain)
        yield "%s %s;" % (base, declare("@x", chain, {i})), exp, \
            [("%s %s;" % (base, declare("@x", chain, {i})), "@x", base, chain)]
    exp = empty()
    obj(exp, "@x", base, chain)
    yield "%s %s;" % (base, declare("@x", chain, sp=" ")), exp, []
    # function definition
    if fn:
        exp = empty()
        exp["functions"]["@x"] = fn_expected(base, chain)
        body = ["{ return 0; }", "{ if (1) { int q = 2; } }", "{}", "{ char *s = \"}\"; }"][k % 4]
        yield "%s %s\n%s\nint @z;" % (base, d, body), dict(exp, variables={"@z": {"t": [None, T("int")]}}), []
    else:
        if not chain and base == "void":
            return
        # members
        for kw, K in (("struct", "Struct"), ("union", "Union")):
            exp = empty()
            m = declare("m", chain)
            exp[kw + "s"]["@s"] = {K: [{"t": ["h", T("int"), None]}, {"t": ["m", expected(base, chain), None]},
                                       {"t": ["n", T("char"), None]}], "pack": None}
            exp["types"][kw + " @s"] = T(kw, "@s")
            yield "%s @s { int h; %s %s; char n; };" % (kw, base, m), exp, []
            if len(chain) > 2:
                break
    # parameters: named and unnamed, alone and in company, also of a function pointer
    if base == "void" and not chain:
        return
    if A0 in chain[1:]:
        return
    for nm in ("p", None):
        prm = (nm, base, chain)
        for ps in ([prm], [(None, "int", ()), prm], [prm, ("q", "char", (P,))]):
            if len(chain) > 2 and len(ps) == 1:
                continue
            c = (("F", tuple(ps)),)
            exp = empty()
            exp["functions"]["@f"] = fn_expected("int", c)
            yield "int %s;" % declare("@f", c), exp, [("int %s;" % declare("@f", c), "@f", "int", c)]
        c = (P, ("F", (prm,)))
        exp = empty()
        obj(exp, "@f", "int", c)
        yield "int %s;" % declare("@f", c), exp, [("int %s;" % declare("@f", c), "@f", "int", c)]
    # abstract function parameter with parentheses around it
    if chain and chain[0][0] == "P":
        for i in range(1, len(chain) + 1):
            t = "int @f(%s %s);" % (base, declare("", chain, {i}))
            exp = empty()
            exp["functions"]["@f"] = fn_expected("int", (("F", ((None, base, chain),)),))
            yield t, exp, [(t, "@f", "int", (("F", ((None, base, chain),)),))]


def multis(ctx):
    """Several declarators in one declaration are independent."""
    some = [(), (P,), (PC,), (A2,), (A2, A3), (P, P), (P, A2), (A2, P), (P, F1), (F2,), (F1, P), (A2, P, FV), (P, F3), (F0,)]
    for n, pool in ((2, some), (3, some[:8] if not ctx.quick else some[1:12:2])):
        for cs in itertools.product(pool, repeat=n):
            base = ["int", "struct VS", "VT", "unsigned long", "char"][sum(map(len, cs)) % 5]
            names = ["@v%d" % i for i in range(n)]
            ds = [declare(nm, c) for nm, c in zip(names, cs)]
            exp = empty()
            for nm, c in zip(names, cs):
                obj(exp, nm, base, c)
            decl = "%s %s;" % (base, ", ".join(ds))
            yield decl, exp, [(decl, nm, base, c) for nm, c in zip(names, cs)]
            exp = empty()
            for nm, c in zip(names, cs):
                exp["types"][nm] = expected(base, c)
            yield "typedef %s %s;" % (base, ", ".join(ds)), exp, []
            if any(c and c[0][0] == "F" for c in cs):
                continue
            exp = empty()
            exp["structs"]["@s"] = {"Struct": [{"t": [nm, expected(base, c), None]} for nm, c in zip(names, cs)],
                                    "pack": None}
            exp["types"]["struct @s"] = T("struct", "@s")
            yield "struct @s { %s };" % decl, exp, []


def inline(ctx):
    """Aggregates defined in the declaration that uses them."""
    some = [(), (P,), (A2,), (A2, A3), (P, F1), (A2, P), (F2,), (P, PC)]
    aggs = [("struct %s { int a; }", "struct", "structs", {"Struct": [{"t": ["a", T("int"), None]}], "pack": None}),
            ("union %s { char *a; }", "union", "unions", {"Union": [{"t": ["a", T("char", "*"), None]}], "pack": None}),
            ("enum %s { @e1, @e2 = 7 }", "enum", "enums", {"@e1": 0, "@e2": 7})]
    for body, kw, kind, agg in aggs:
        for tag in ("@s", ""):
            base = kw + " " + (tag or "anon_%s#" % kw)
            for n in (1, 2):
                for cs in itertools.product(some if n == 1 else some[:5], repeat=n):
                    names = ["@v%d" % i for i in range(n)]
                    ds = ", ".join(declare(nm, c) for nm, c in zip(names, cs))
                    for form in range(3):
                        exp = dict(empty(), enums={})
                        if tag:
                            exp[kind]["@s"] = agg
                            exp["types"][kw + " @s"] = T(kw, "@s")
                        if form == 0:
                            for nm, c in zip(names, cs):
                                obj(exp, nm, base, c)
                            text = "%s %s;" % (body % tag, ds)
                        elif form == 1:
                            for nm, c in zip(names, cs):
                                exp["types"][nm] = expected(base, c)
                            text = "typedef %s %s;" % (body % tag, ds)
                        else:
                            if any(c and c[0][0] == "F" for c in cs):
                                continue
                            exp["structs"]["@o"] = {
                                "Struct": [{"t": [nm, expected(base, c), None]} for nm, c in zip(names, cs)] +
                                [{"t": ["z", T("int"), None]}], "pack": None}
                            exp["types"]["struct @o"] = T("struct", "@o")
                            text = "struct @o { %s %s; int z; };" % (body % tag, ds)
                        yield text, exp, []


def validate(items):
    """Does gcc agree that the printed declarations declare the chains?"""
    src, n = [PRE], 0
    for i, (decl, name, base, chain) in enumerate(items):
        pre = "V%d_" % i
        src.append(decl.replace("@", pre))
        cur = base.replace("@", pre)
        for d in reversed(chain):
            n += 1
            if d[0] == "P":
                src.append("typedef %s *%s t%d;" % (cur, " ".join(d[1]), n))
            elif d[0] == "A":
                src.append("typedef %s t%d[%s];" % (cur, n, "" if d[1] < 0 else d[1]))
            else:
                src.append("typedef %s t%d(%s);" % (cur, n, ", ".join(param(p) for p in d[1]).replace("@", pre)))
            cur = "t%d" % n
        src.append("_Static_assert(__builtin_types_compatible_p(__typeof__(%s), %s), \"%d\");"
                   % (name.replace("@", pre), cur, i))
    ok, err = gcc.compiles("\n".join(src))
    return None if ok else err[:1500]


def run(ctx):
    progs, vals, seen = [], [], set()
    for gen in (programs(ctx), multis(ctx), inline(ctx)):
        for text, exp, val in gen:
            if text in seen:
                continue
            seen.add(text)
            progs.append(Prog(text + "\n", exp, key=text, what="declaration"))
            vals += val
            ctx.transitions += max(1, text.count("*") + text.count("[") + text.count("("))
    for e in core.pmap(validate, core.chunks(vals, 400)):
        assert e is None, "the declarator printer disagrees with gcc: " + str(e)
    ctx.nstates += len(progs)
    batch_check(ctx, progs, size=70)
    for p in progs[::max(1, len(progs) // 8)]:
        ctx.sample(p.key, 8)
    ctx.note(declarations=len(progs), printed_types_validated_by_gcc=len(vals))
    ctx.assumptions.append("no variadic parameter lists, no K&R definitions, no parenthesised typedef names as unnamed "
                           "parameters (ambiguous without a symbol table)")
