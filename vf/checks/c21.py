"""C21: types and aggregates survive pickling, copying, printing and the legacy function form; equality is structural.

Types are enumerated twice: built with the constructor (all derivation chains up to a depth, every placement of qualifiers)
and parsed from declarations; every one goes through every conversion, some through every sequence of conversions, and all
pairs are compared with the comparison operators. What must come out is told by a comparator of our own."""
import copy
import itertools
import pickle

from .. import core
from ..cparse import parse
from ..core import Failed, guarded


# ------------------------------------------------------------------ own structural view
def key(x):
    """What the thing is, without any of its own comparison operators."""
    from pyclibrary.c_parser import Type
    if isinstance(x, Type):
        return ("T", type(x).__name__, tuple(key(tuple.__getitem__(x, i)) for i in range(tuple.__len__(x))),
                tuple(tuple(q) for q in x.type_quals))
    if isinstance(x, tuple):
        return ("t",) + tuple(key(e) for e in x)
    if isinstance(x, list):
        return ("l",) + tuple(key(e) for e in x)
    if isinstance(x, dict):
        return ("d", type(x).__name__) + tuple(sorted((k, key(v)) for k, v in x.items()))
    return (type(x).__name__, x)


def spec_key(s):
    """The same view from the description of a type (see build)."""
    base, decls, quals = s
    return ("T", "Type", tuple([_dk(base)] + [_dk(d) for d in decls]), tuple(quals))


def _dk(d):
    if isinstance(d, list):
        return ("l",) + tuple(("int", e) for e in d)
    if isinstance(d, str):
        return ("str", d)
    if isinstance(d, tuple) and d and d[0] == "type":
        return spec_key(d[1])
    return ("t",) + tuple(("t", ("NoneType", None) if n is None else ("str", n), spec_key(t), ("NoneType", None))
                          for n, t in d[1])


# ------------------------------------------------------------------ types from the constructor
def build(s):
    from pyclibrary.c_parser import Type
    base, decls, quals = s
    conv = [build(base[1]) if isinstance(base, tuple) else base]
    for d in decls:
        if isinstance(d, tuple):
            conv.append(tuple((n, build(t), None) for n, t in d[1]))
        else:
            conv.append(list(d) if isinstance(d, list) else d)
    if any(quals):
        return Type(*conv, type_quals=tuple(quals))
    return Type(*conv)


def S(base, *decls, q=None):
    return (base, tuple(decls), tuple(q) if q else ((),) * (1 + len(decls)))


I = S("int")
PARAMS = [("F", ()), ("F", ((None, I),)), ("F", ((None, S("int", q=[("const",)])),)),
          ("F", (("a", S("char", "*", q=[("const",), ()])), ("b", S("td", [3])))),
          ("F", (("cb", S("int", ("F", ((None, I),)), "*")), (None, S("struct s", "*", q=[(), ("const",)]))))]
BASES = ["int", "unsigned char", "struct s", "enum e", "td"]
QUALS = [(), ("const",), ("volatile",), ("const", "volatile"), ("volatile", "const"), ("__declspec(dllimport)",),
         ("__attribute__((aligned(8)))", "const")]


def specs(ctx):
    decls = ["*", [3], [-1], "&"] + PARAMS
    short = ["*", [3], [2], PARAMS[0], PARAMS[1]]
    out = []
    for base in BASES:
        for n in range(0, 3):
            for ds in itertools.product(decls if n < 2 else short, repeat=n):
                few = QUALS if n < 2 else QUALS[:3]
                if base != "int" and n == 2:
                    few = QUALS[:2]
                for qs in itertools.product(few, repeat=n + 1):
                    out.append((base, ds, qs))
    for ds in itertools.product(short, repeat=3):
        for qs in itertools.product(QUALS[:2], repeat=4):
            out.append(("int", ds, qs))
    if not ctx.quick:
        for ds in itertools.product(short, repeat=4):
            for qs in itertools.product(QUALS[:2], repeat=5):
                out.append(("td", ds, qs))
    # types in the legacy form
    for ds in [(), ("*",), ([3], "*")]:
        for p in PARAMS:
            for q in QUALS[:3]:
                out.append((("type", ("int", ds, (q,) + ((),) * len(ds))), (p,), ((), ())))
    return out


# ------------------------------------------------------------------ conversions
def evaluate(x):
    from pyclibrary import c_parser as m
    return eval(repr(x), {n: getattr(m, n) for n in ("Type", "Struct", "Union", "Enum")})


def there_and_back(x):
    """Legacy form and back; types only."""
    from pyclibrary.c_parser import Type
    if not isinstance(x, Type) or len(x) == 2 and isinstance(x[0], Type):
        return x
    return x.add_compatibility_hack().remove_compatibility_hack()


def back_and_there(x):
    from pyclibrary.c_parser import Type
    if isinstance(x, Type) and len(x) == 2 and isinstance(x[0], Type):
        return x.remove_compatibility_hack().add_compatibility_hack()
    return x


OPS = [("pickle%d" % p, (lambda p: lambda x: pickle.loads(pickle.dumps(x, p)))(p)) for p in range(pickle.HIGHEST_PROTOCOL + 1)]
OPS += [("copy", copy.copy), ("deepcopy", copy.deepcopy), ("repr", evaluate), ("legacy", there_and_back), ("legacy2", back_and_there)]
OPD = dict(OPS)
FEW = ["pickle0", "pickle2", "copy", "deepcopy", "repr", "legacy"]


def through(x, ops):
    """(expected, observed, what) of the first difference, or None."""
    k0 = key(x)
    y = x
    for o in ops:
        z = guarded(OPD[o], y)
        if isinstance(z, Failed):
            return repr(k0), repr(z), "after " + o
        k = guarded(key, z)
        if k != k0:
            return repr(k0), repr(k), "after " + o
        for what, r, want in (("==", lambda: x == z, True), ("== (swapped)", lambda: z == x, True), ("!=", lambda: x != z, False)):
            got = guarded(r)
            if got is not want:
                return "%s is %s" % (what, want), repr(got), "after " + o
        if guarded(repr, z) != guarded(repr, x):
            return repr(guarded(repr, x)), repr(guarded(repr, z)), "after " + o
        if o == "deepcopy" and shared(y, z):
            return "an independent copy", "shares lists with the original", "after deepcopy"
        if guarded(key, x) != k0:
            return repr(k0), repr(guarded(key, x)), "the original, after " + o
        y = z
    return None


def shared(a, b):
    if isinstance(a, (list, dict)) and a is b:
        return True
    if isinstance(a, (list, tuple)):
        return any(shared(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return any(shared(v, b[k]) for k, v in a.items())
    return False


def legacy(x):
    """The legacy form itself: the return type on its own, then the parameters."""
    from pyclibrary.c_parser import Type
    if not isinstance(x, Type) or len(x) == 2 and isinstance(x[0], Type):
        return None
    k = key(x)
    h = guarded(lambda: key(x.add_compatibility_hack()))
    want = k
    if k[2][-1][0] == "t":
        want = ("T", "Type", (("T", "Type", k[2][:-1], k[3][:-1]), k[2][-1]), ((), k[3][-1]))
    if h != want:
        return repr(want), repr(h), "legacy form"
    r = guarded(lambda: key(x.remove_compatibility_hack()))
    if r != k:
        return repr(k), repr(r), "new form of what is in new form"
    return None


def examine(x, ops_list):
    r = legacy(x)
    if r:
        return r, ["legacy"]
    for ops in ops_list:
        r = through(x, ops)
        if r:
            return r, ops
    return None


ALL1 = [[n] for n, _ in OPS]
ALL2 = [list(c) for c in itertools.product(FEW, repeat=2)]
ALL3 = [list(c) for c in itertools.product(FEW, repeat=3)]


def job_specs(args):
    ss, seqs = args
    bad, n = [], 0
    for s in ss:
        core.mark(repr(s))
        x = guarded(build, s)
        k = repr(x) if isinstance(x, Failed) else guarded(key, x)
        if k != spec_key(s):
            bad.append((s, ["build"], (repr(spec_key(s)), repr(k), "construction")))
            continue
        n += len(seqs) + 1
        r = examine(x, seqs)
        if r:
            bad.append((s, r[1], r[0]))
    return n, bad


def job_pairs(args):
    rows, allspecs = args
    xs = [guarded(build, s) for s in allspecs]
    ks = [spec_key(s) for s in allspecs]
    bad = []
    for i in rows:
        x, k = xs[i], ks[i]
        if isinstance(x, Failed):
            continue
        x = build(allspecs[i])      # not the same object as xs[i]
        core.mark("pairs of %r" % (allspecs[i],))
        for j, y in enumerate(xs):
            try:
                e, n = x == y, x != y
            except Exception as exc:
                e, n = repr(exc), None
            want = k == ks[j]
            if e is not want or n is want:
                if len(bad) < 20:
                    bad.append((allspecs[i], allspecs[j], want, "== %r, != %r" % (e, n)))
    return len(rows) * len(xs), bad


# ------------------------------------------------------------------ as parsed
def headers(ctx):
    from . import c06
    Q = [(), ("const",), ("volatile", "const")]
    P = [("P", q) for q in Q] + [("P", ("__declspec(x)",)), ("P", ("__ptr64",))]
    D = P + [("A", 2), ("A", -1), c06.F0, c06.F1, c06.F2, c06.F3, c06.F4]
    chains = [()] + [c for n in (1, 2) for c in itertools.product(D, repeat=n) if c06.legal(c)]
    chains += [c for c in itertools.product(P[:2] + [("A", 2), c06.F2], repeat=3) if c06.legal(c)]
    if not ctx.quick:
        chains += [c for c in itertools.product(P[:2] + [("A", 2), c06.F1], repeat=4) if c06.legal(c)]
    pres = ["", "const ", "volatile const ", "__declspec(dllimport) ", "__unaligned ", "__a(1) const __b(x y) "]
    bases = ["int", "unsigned long", "struct VS", "VT"]
    lines, k = [], 0
    for c in chains:
        for pre in pres if len(c) < 3 else pres[:2]:
            k += 1
            base = bases[k % len(bases)]
            d = c06.declare("n%d" % k, c)
            lines.append("%s%s %s;" % (pre, base, d))
            if not (c and c[0][0] == "F"):
                lines.append("typedef %s%s %s;" % (pre, base, c06.declare("t%d" % k, c)))
                if not (c and c[0] == ("A", -1)):
                    lines.append("struct s%d { %s%s %s; int x; };" % (k, pre, base, c06.declare("m", c)))
    texts = [c06.PRE + "\n".join(ls) + "\n" for ls in core.chunks(lines, 60)]
    # aggregates
    ms = ["int a;", "const char *b;", "unsigned c:3;", "struct { int x; } d;", "union { int y; float z; };", "int e[2][3];",
          "int (*f)(const int *, char);", "enum { E@0, E@1 = 7 } g;", "struct VS *const h;", "int i:1, j:2;"]
    agg, k = [], 0
    for pack in (None, 1, 2, 4):
        for n in range(0, 3):
            for sel in itertools.permutations(ms, n):
                for kw in ("struct", "union"):
                    k += 1
                    t = "%s g%d { %s };\n" % (kw, k, " ".join(sel).replace("@", "g%d" % k))
                    if pack:
                        t = "#pragma pack(push, %d)\n%s#pragma pack(pop)\n" % (pack, t)
                    agg.append(t)
    if ctx.quick:
        agg = agg[::3]
    texts += [c06.PRE + "".join(a) for a in core.chunks(agg, 40)]
    texts.append("".join("enum n%d { %s };\n" % (i, ", ".join("V%d_%d%s" % (i, j, " = %d" % v if v is not None else "")
                                                              for j, v in enumerate(vs)))
                         for i, vs in enumerate(itertools.product([None, 0, -5, 2 ** 31], repeat=3))))
    return texts


def job_parsed(args):
    text, seqs = args
    core.mark(text)
    p = parse(text)
    if isinstance(p, Failed):
        return 0, 0, [("header", ["parse"], ("parsed", repr(p), text[-300:]))], set()
    bad, n, m, shapes = [], 0, 0, set()
    for kind in ("types", "variables", "functions", "structs", "unions", "enums"):
        for name, x in p.defs[kind].items():
            core.mark("%s %s in %s" % (kind, name, text))
            n += 1
            m += len(seqs) + 1
            shapes.add(hash(key(x)))
            if isinstance(x, tuple) and kind == "variables":
                r = examine(x[1], seqs)
            else:
                r = examine(x, seqs)
            if r is None:
                r = through(x, ["pickle2", "deepcopy", "pickle0", "repr"]), ["pickle2", "deepcopy", "pickle0", "repr"]
                r = r if r[0] else None
            if r:
                bad.append(("%s %s" % (kind, name), r[1], r[0]))
    for o in ("pickle0", "pickle2", "pickle%d" % pickle.HIGHEST_PROTOCOL, "deepcopy", "repr"):
        for what, x in (("defs", dict(p.defs)), ("file_defs", {k: dict(v) for k, v in p.file_defs.items()})):
            r = through(x, [o])
            if r:
                bad.append((what, [o], r))
    # parsed types of equal make are equal, others are not
    ts = [(k, x if not isinstance(x, tuple) or hasattr(x, "type_quals") else x[1])
          for kind in ("types", "variables", "functions") for k, x in p.defs[kind].items()]
    ks = [key(x) for _, x in ts]
    for i, (a, x) in enumerate(ts):
        for j, (b, y) in enumerate(ts):
            m += 1
            e = _eq(x, y)
            if e != (ks[i] == ks[j], ks[i] != ks[j]):
                bad.append(("%s and %s" % (a, b), ["compare"], (repr((ks[i] == ks[j], ks[i] != ks[j])), repr(e), "== and !=")))
    return n, m, bad, shapes


def _eq(x, y):
    try:
        return (x == y, x != y)
    except Exception as e:
        return repr(e)


def run(ctx):
    ss = list({repr(s): s for s in specs(ctx)}.values())
    deep = [s for s in ss if len(s[1]) < 2]
    parts = [(c, ALL1 + ALL2) for c in core.chunks([s for s in ss if len(s[1]) >= 2], 400)]
    parts += [(c, ALL1 + ALL2 + ALL3) for c in core.chunks(deep, 60)]
    for (c, _), r in zip(parts, core.pmap(job_specs, parts)):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, {"spec": c[0], "ops": ["pickle2"]}, "no crash", repr(r))
            continue
        ctx.transitions += r[0]
        ctx.traces += r[0]
        for s, ops, (e, o, w) in r[1]:
            ctx.violation("%r through %s" % (s, ops), {"spec": s, "ops": ops}, e, o, w)
    for s in ss:
        ctx.state(repr(s))
    ctx.note(constructed=len(ss))
    # pairs
    sub = [s for s in ss if len(s[1]) < 3]
    if ctx.quick:
        sub = [s for s in sub if len(s[1]) < 2 or s[0] == "int"]
        sub = sub + [s for s in ss if len(s[1]) == 3][:: 7]
    rows = core.chunks(range(len(sub)), max(1, len(sub) // 32))
    total = 0
    for r in core.pmap(job_pairs, [(c, sub) for c in rows]):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, {"pair": [sub[0], sub[0]]}, "no crash", repr(r))
            continue
        total += r[0]
        for a, b, want, got in r[1]:
            ctx.violation("%r compared with %r" % (a, b), {"pair": [a, b]}, "equal" if want else "different", got)
    ctx.note(pairs_compared=total, types_paired=len(sub))
    # parsed
    texts = headers(ctx)
    parsed, cmp = 0, 0
    for t, r in zip(texts, core.pmap(job_parsed, [(t, ALL1 + ctx.pick(ALL2[::5], ALL2)) for t in texts])):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, {"text": t}, "no crash", repr(r))
            continue
        parsed += r[0]
        cmp += r[1]
        for h in r[3]:
            ctx.state(h)
        for n, ops, (e, o, w) in r[2]:
            ctx.violation("%s through %s" % (n, ops), {"text": t}, e, o, w)
        ctx.outcomes |= r[3]
    ctx.transitions += total + cmp
    ctx.traces += parsed
    ctx.note(parsed_definitions=parsed)
    for s in ss[:: max(1, len(ss) // 4)]:
        ctx.sample(repr(s))
    ctx.assumptions.append("states = distinct types and aggregates; transitions = conversions applied and pairs compared; traces = "
                           "conversion sequences run on the real classes")


def _spec(s):
    b, ds, q = s
    return (("type", _spec(b[1])) if not isinstance(b, str) else b,
            tuple(d if isinstance(d, str) else ("F", tuple((n, _spec(t)) for n, t in d[1])) if d and d[0] == "F" else list(d)
                  for d in ds), tuple(tuple(x) for x in q))


def replay(case):
    def go(_):
        if "pair" in case:
            a, b = map(_spec, case["pair"])
            e = _eq(build(a), build(b))
            want = (spec_key(a) == spec_key(b), spec_key(a) != spec_key(b))
            return None if e == want else (repr(want), repr(e))
        if "text" in case:
            r = job_parsed((case["text"], ALL1 + ALL2))
            return None if not r[2] else (r[2][0][2][0], r[2][0][2][1])
        s = _spec(case["spec"])
        n, bad = job_specs(([s], ALL1 + ALL2 + ALL3))
        return None if not bad else (bad[0][2][0], bad[0][2][1])
    r = core.pmap(go, [0])[0]
    return ("no crash", repr(r)) if isinstance(r, core.Crash) else r
