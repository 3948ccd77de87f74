"""C09: type resolution.
 A  every typedef graph over a small set of names (targets: each other, themselves, fundamental types, an unknown name;
    a derivation on each edge): every name and derived uses of it resolved by the real code against a graph model;
 B  every chain of typedefs up to a depth in a header, resolved type and bound shape against gcc.
"""
import ctypes as C
import itertools

from .. import core, gcc, libs
from ..cparse import norm, parse
from ..core import Failed, guarded
from .c06 import A2, A3, F1, P, PC, declare, expected, legal, base_ok

FUND = {"int": "int", "unsigned char": "unsigned char", "signed int": "int", "signed": "int", "signed char": "signed char",
        "struct s": "struct s", "enum e": "enum e", "void": "void", "long long": "long long", "long signed int": "long int",
        "unsigned": "unsigned"}
DER = [(), ("*",), ([2],), ([2], [3]), ("*", [4]), ([5], "*"), ("F", "*"), ([2], "*", [3], [4]), ("*", "*")]


def mk(base, decls, quals=None):
    from pyclibrary.c_parser import Type
    ds = [(("a", Type("N0"), None),) if d == "F" else (list(d) if isinstance(d, list) else d) for d in decls]
    return Type(base, *ds, type_quals=quals) if quals else Type(base, *ds)


def flip(ds):
    """Runs of dimensions between source order and order of derivation."""
    out, i = [], 0
    while i < len(ds):
        j = i
        while j < len(ds) and isinstance(ds[j], list):
            j += 1
        if j > i:
            out += list(reversed(ds[i:j]))
            i = j
        else:
            out.append(ds[i])
            i += 1
    return out


def resolve(base, decls, graph):
    """Model: (fundamental base, derivations from the base on) or None."""
    chain, seen = flip(list(decls)), set()
    while base not in FUND:
        if base in seen or base not in graph:
            return None
        seen.add(base)
        base, ds = graph[base]
        chain = flip(list(ds)) + chain
    return FUND[base], flip(chain)


def show(res):
    return res if res is None else [res[0]] + [d for d in res[1]]


def observed(r):
    if isinstance(r, Failed):
        return None if r.isa("DefinitionError") else repr(r)
    return [r[0]] + ["F" if isinstance(d, tuple) else d for d in r[1:]]


def run_graph(graph, uses, order=0, timeout=30):
    """[(use, expected, observed)] that differ, and whether the definitions were altered."""
    from pyclibrary import CParser
    names = list(graph)
    if order:
        names.reverse()
    types = {n: mk(*graph[n]) for n in names}
    p = guarded(CParser, types=types, timeout=timeout)
    if isinstance(p, Failed):
        return [("CParser(types=...)", "works", repr(p))]
    before = repr(p.defs["types"])
    bad = []
    for k, (base, ds) in enumerate(uses):
        t = mk(base, ds)
        arg = [t, tuple(t), list(t)][k % 3]
        call = guarded(t.eval, p.defs["types"], timeout=timeout) if k % 4 == 3 else guarded(p.eval_type, arg, timeout=timeout)
        e, o = show(resolve(base, ds, graph)), observed(call)
        if e != o:
            bad.append(((base, ds), e, o))
        if repr(t) != repr(mk(base, ds)):
            bad.append(((base, ds), "argument untouched", repr(t)))
    if repr(p.defs["types"]) != before:
        bad.append(("definitions", before, repr(p.defs["types"])))
    return bad


def graph_chunk(args):
    graphs, = args
    n, bad, outs = 0, [], set()
    for graph, uses in graphs:
        for order in (0, 1):
            n += 1
            d = run_graph(graph, uses, order)
            outs.add(core.digest([resolve(b, ds, graph) for b, ds in uses]))
            if d:
                bad.append(("%r order %d" % (graph, order), {"graph": graph, "uses": uses, "order": order},
                            [(u, e) for u, e, o in d], [(u, o) for u, e, o in d], "typedef graph"))
                break
        if len(bad) > 5:
            break
    return n, bad, outs


def _tup(x):
    return tuple(x)


def replay(case):
    if "graph" in case:
        g = {k: (v[0], tuple(v[1])) for k, v in case["graph"].items()}
        d = run_graph(g, [(b, tuple(ds)) for b, ds in case["uses"]], case["order"])
        return ([(u, e) for u, e, o in d], [(u, o) for u, e, o in d]) if d else None
    return chain_one(case["base"], [tuple(map(_der, c)) for c in case["chains"]], case.get("shape"))


def _der(d):
    return (d[0], tuple(tuple([p[0], p[1], tuple(p[2])]) for p in d[1]) if d[0] == "F" else
            tuple(d[1]) if d[0] == "P" else d[1])


def graphs(ctx):
    uses = lambda names: [(n, ds) for n in names for ds in ((), ("*",), ([2],), ([2], [3]), ([7], "*", [8]))]  # noqa
    # two names, everything
    tg = ["N0", "N1", "NX"] + list(FUND)
    opts = [(t, d) for t in tg for d in DER if not (t == "void" and d == ([2],))]
    for a in opts:
        yield {"N0": a}, uses(["N0", "NX"])
    small = [(t, d) for t in ["N0", "N1", "NX", "int", "signed", "struct s"] for d in DER]
    for a, b in itertools.product(small, repeat=2):
        yield {"N0": a, "N1": b}, uses(["N0", "N1"])
    o3 = [(t, d) for t in ["N0", "N1", "N2", "NX", "int"] for d in ctx.pick(DER[:5], DER)]
    for g in itertools.product(o3, repeat=3):
        yield dict(zip(["N0", "N1", "N2"], g)), [(n, ds) for n in ("N0", "N1", "N2") for ds in ((), ([2], [3]))]
    o4 = [(t, d) for t in ["N0", "N1", "N2", "N3", "NX", "int"] for d in ctx.pick([([2],), ("*",)], [([2],), ("*",), ()])]
    for g in itertools.product(o4, repeat=4):
        yield dict(zip(["N0", "N1", "N2", "N3"], g)), [("N%d" % i, ([9],)) for i in range(4)]
    for n in range(2, ctx.pick(40, 120)):
        g = {"N%d" % i: ("N%d" % (i + 1), DER[i % 6]) for i in range(n)}
        for end in ("int", "NX", "N0", "N%d" % (n // 2), "N%d" % (n - 1)):
            g["N%d" % (n - 1)] = (end, ("*",))
            yield dict(g), [("N0", ()), ("N%d" % (n // 2), ([2],)), ("N%d" % (n - 1), ("*",))]


# ------------------------------------------------------------------------- chains in a header
def chain_text(base, chains, pre):
    out, cur = [], base
    for i, c in enumerate(chains):
        out.append("typedef %s %s;" % (cur, declare("%st%d" % (pre, i), c)))
        cur = "%st%d" % (pre, i)
    return "\n".join(out) + "\n", cur


def c_shape(base, full, cur):
    """C expression list: sizes along the array dimensions."""
    exprs, e = [], "(*(%s *)0)" % cur
    n = 0
    for d in full:
        exprs.append("sizeof(%s)" % e)
        if d[0] == "A":
            e += "[0]"
            n += 1
        else:
            break
    else:
        exprs.append("sizeof(%s)" % e)
    return exprs


def py_shape(cls, full):
    out = []
    for d in full:
        out.append(C.sizeof(cls))
        if d[0] == "A":
            cls = cls._type_
        else:
            break
    else:
        out.append(C.sizeof(cls))
    return out


def check_chain(p, lib, base, chains, cur, shape):
    full = sum(reversed([tuple(c) for c in chains]), ())
    want = expected(FUND.get(base, base), full)
    got = guarded(lambda: norm(p.eval_type(p.defs["types"][cur])))
    if isinstance(got, Failed) or got["T"] != want["T"] or got["q"] != want["q"]:
        return want, repr(got) if isinstance(got, Failed) else got
    if shape is not None:
        got = guarded(lambda: py_shape(lib("types", cur), full))
        if got != shape:
            return shape, repr(got)
    return None


def chain_one(base, chains, shape):
    text, cur = chain_text(base, chains, "P0_")
    p = parse("struct VS { int x; };\n" + text)
    if isinstance(p, Failed):
        return "parses", repr(p)
    lib = libs.bind(p)
    if isinstance(lib, Failed):
        return "binds", repr(lib)
    before = repr(p.defs)
    r = check_chain(p, lib, base, chains, cur, shape)
    if r is None and repr(p.defs) != before:
        return "definitions untouched", "definitions altered"
    return r


def chain_chunk(items):
    src, pr, text, metas = "#include <stdio.h>\nstruct VS { int x; };\n", "int main(void) {\n", "struct VS { int x; };\n", []
    for i, (base, chains) in enumerate(items):
        t, cur = chain_text(base, chains, "P%d_" % i)
        full = sum(reversed([tuple(c) for c in chains]), ())
        text += t
        src += t + "%s;\n" % (base + " " + declare("P%d_x" % i, full)) if not (full and full[0] == ("A", -1)) else t
        src += "_Static_assert(__builtin_types_compatible_p(%s, __typeof__(P%d_x)), \"\");\n" % (cur, i)
        fnlike = (full and full[0][0] == "F") or (base == "void" and not full)
        if fnlike:
            metas.append((cur, None, 0))
            continue
        ex = c_shape(base, full, cur)
        pr += "".join('printf("%%zu\\n", %s);\n' % e for e in ex)
        metas.append((cur, ex, len(ex)))
    nums = [int(x) for x in gcc.run(src + pr + "return 0; }\n").split()]
    p = parse(text)
    bad = []
    lib = libs.bind(p) if not isinstance(p, Failed) else p
    if isinstance(lib, Failed):
        return 0, [("chains", {"base": items[0][0], "chains": items[0][1]}, "parses and binds", repr(lib), "chains")]
    before = repr(p.defs)
    pos = 0
    for (base, chains), (cur, ex, n) in zip(items, metas):
        shape = nums[pos:pos + n] if ex else None
        pos += n
        d = check_chain(p, lib, base, chains, cur, shape)
        if d:
            d1 = chain_one(base, chains, shape)
            bad.append((("" if d1 else "batch: ") + chain_text(base, chains, "")[0],
                        {"base": base, "chains": chains, "shape": shape}, *(d1 or d), "chain of typedefs"))
            if len(bad) > 5:
                break
    if not bad and repr(p.defs) != before:
        for base, chains in items:
            d = chain_one(base, chains, None)
            if d:
                bad.append((chain_text(base, chains, "")[0], {"base": base, "chains": chains}, *d, "chain of typedefs"))
                break
        else:
            bad.append(("batch", {"base": items[0][0], "chains": items[0][1]}, "definitions untouched", "altered", "chains"))
    return len(items), bad


def chains(ctx):
    ders = [(P,), (A2,), (A2, A3), (P, A3), (A3, P), (PC,), (P, F1), ()]
    for n in (1, 2, 3):
        for c in itertools.product(ders, repeat=n):
            yield c
    for c in itertools.product(ctx.pick(ders[:4], ders), repeat=4):
        yield c
    for n in range(5, ctx.pick(10, 20)):
        yield ((A2,), (A3,)) * (n // 2)
        yield ((A2, A3), (P,)) * (n // 2)
        yield ((A3,),) * min(n, 9) + ((A2, A3),)


def run(ctx):
    libs.base_so()
    todo = []
    for g, u in graphs(ctx):
        todo.append((g, u))
        ctx.transitions += len(g) + len(u)
    ng = len(todo)
    parts = core.chunks(todo, 1 + ng // (core.NPROC * 6))
    for r in core.pmap(graph_chunk, [(p,) for p in parts]):
        take(ctx, r)
        if not isinstance(r, core.Crash):
            ctx.outcomes |= r[2]
    items = []
    for i, c in enumerate(dict.fromkeys(chains(ctx))):
        base = ["int", "unsigned char", "struct VS", "double", "void"][i % 5]
        full = sum(reversed(c), ())
        if not legal(full):
            continue
        if not base_ok(base, full):
            base = "short"
        items.append((base, c))
        ctx.transitions += len(full)
    for r in core.pmap(chain_chunk, core.chunks(items, 60)):
        take(ctx, r)
    ctx.nstates = ng + len(items)
    for g, u in todo[::max(1, ng // 4)]:
        ctx.sample(repr(g))
    for b, c in items[::max(1, len(items) // 3)]:
        ctx.sample(chain_text(b, c, "")[0], 8)
    ctx.note(graphs=ng, header_chains=len(items), header_chains_validated_by_gcc=len(items))
    ctx.assumptions.append("qualifiers of typedef'd arrays are not judged")


def take(ctx, r):
    if isinstance(r, core.Crash):
        ctx.violation("crash", {"graph": {}, "uses": [], "order": 0}, "no crash", repr(r))
        return
    ctx.traces += r[0]
    for b in r[1]:
        ctx.violation(*b)
