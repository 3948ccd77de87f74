"""C13: files, imported parsers and initial definitions compose. Every sequence of snippets up to a length, every split of
it over files, imported parsers (single, chained) and initial definitions, parsed by the real code. Oracles: the parse of
the concatenation for the definitions; a model of who defines what for the attribution (file_defs, find).
"""
import itertools
import os
import re
import shutil
import tempfile

from .. import core
from ..cparse import KINDS, norm
from ..core import Failed, guarded, own_dir

M, FM, V, S, U, E, F, T, VAL = ("macros", "fnmacros", "variables", "structs", "unions", "enums", "functions", "types",
                                "values")


def macro(n):
    return lambda st: [("kill", FM, n), (M, n), (VAL, n)]


def opaque(kind, n, *more):
    """Naming an aggregate declares it unless it is known."""
    return lambda st: ([] if (kind, n) in st else [(kind, n), (T, "%s %s" % (kind[:-1], n))]) + list(more)


SN = {
    "A1": ("#define A 1", macro("A")),
    "A2": ("#define A (2)", macro("A")),
    "AF": ("#define A(x) x", lambda st: [("kill", M, "A"), (FM, "A")]),
    "uA": ("#undef A", lambda st: [("kill", M, "A"), ("kill", FM, "A")]),
    "ifA": ("#ifdef A\nint d;\n#else\nint n;\n#endif", lambda st: (lambda x: [(V, x), (VAL, x)])(
        "d" if (M, "A") in st or (FM, "A") in st else "n")),
    # what earlier files declare other than macros is nothing to the preprocessor
    "ifN": ("#if defined T || defined E1 || defined f || defined S || defined x || E1 || x == 1\nint d;\n#endif\nint n;\n"
            "#ifdef T\nint d;\n#endif\n#ifdef E0\nint d;\n#endif\n#ifdef f\nint d;\n#endif\n#ifndef x\nint m;\n#endif",
            lambda st: [(V, "n"), (VAL, "n"), (V, "m"), (VAL, "m")]),
    "x": ("int x = A;", lambda st: [(V, "x"), (VAL, "x")]),
    "S": ("struct S { int a[A]; char *n; };", lambda st: [(S, "S"), (T, "struct S")]),
    "S2": ("#pragma pack(push, 1)\nstruct S { long b; };\n#pragma pack(pop)", lambda st: [(S, "S"), (T, "struct S")]),
    "T": ("typedef const struct S *T;", opaque(S, "S", (T, "T"))),
    "T2": ("typedef int T, U4[4];", lambda st: [(T, "T"), (T, "U4")]),
    "f": ("T f(T t, struct S *s);", opaque(S, "S", (F, "f"))),
    "f2": ("static double f(void) { return 1.0; }\nint x;", lambda st: [(F, "f"), (V, "x"), (VAL, "x")]),
    "G": ("#define G(x) ((x) + A)", lambda st: [("kill", M, "G"), (FM, "G")]),
    "g": ("int g = G(3);", lambda st: [(V, "g"), (VAL, "g")]),
    "E": ("enum E { E0, E1 = 5 };", lambda st: [(E, "E"), (T, "enum E"), (VAL, "E0"), (VAL, "E1")]),
    "y": ("char y[E1];\nenum E z;", opaque(E, "E", (V, "y"), (VAL, "y"), (V, "z"), (VAL, "z"))),
    "U": ("union S { float q; } u;", lambda st: [(U, "S"), (T, "union S"), (V, "u"), (VAL, "u")]),
    "An": ("typedef struct { short a; } An;", lambda st: [(S, "anon_struct%d" % st["n"]),
                                                           (T, "struct anon_struct%d" % st["n"]), (T, "An")]),
    "Bn": ("struct { int b; } bn;", lambda st: [(S, "anon_struct%d" % st["n"]), (T, "struct anon_struct%d" % st["n"]),
                                                 (V, "bn"), (VAL, "bn")]),
}

class State(dict):
    """(kind, name) -> set of files; 'n' -> number of anonymous structs"""


def model(seq, files):
    """{file: set((kind, name))}: what each file defines, given the file of each snippet."""
    st = State(n=0)
    for name, f in zip(seq, files):
        for op in SN[name][1](st):
            if op[0] == "kill":
                st.pop(op[1:], None)
            else:
                st.setdefault(op, set()).add(f)
        if name in ("An", "Bn"):
            st["n"] += 1
    res = {}
    for k, fs in st.items():
        if k != "n":
            for f in fs:
                res.setdefault(f, set()).add(k)
    return res


NEEDS = {"x": (M, "A"), "S": (M, "A"), "G": (M, "A"), "g": (FM, "G"), "y": (E, "E")}


def valid(seq):
    """Values are taken from names declared before (C wants that)."""
    st = State(n=0)
    for name in seq:
        if name in NEEDS and NEEDS[name] not in st:
            return False
        for op in SN[name][1](st):
            if op[0] == "kill":
                st.pop(op[1:], None)
            else:
                st[op] = {0}
        if name in ("An", "Bn"):
            st["n"] += 1
    return True


def defs(p):
    return {k: {n: norm(v) for n, v in p.defs[k].items()} for k in KINDS}


def attributed(p):
    return {f: {(k, n) for k in KINDS for n in d.get(k, ())} for f, d in p.file_defs.items()
            if any(d.get(k) for k in KINDS)}


class Dir:
    def __init__(self):
        self.d = tempfile.mkdtemp(dir=own_dir())

    def write(self, name, seq):
        path = os.path.join(self.d, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write("".join(SN[s][0] + "\n" for s in seq))
        return path


def cp(*a, **kw):
    from pyclibrary import CParser
    return guarded(CParser, *a, **kw)


def compositions(n):
    """Ways to cut a sequence of n into consecutive non-empty parts, as tuples of lengths."""
    if n == 0:
        return [()]
    return [(k,) + r for k in range(1, n + 1) for r in compositions(n - k)]


def cut(seq, lens):
    out, i = [], 0
    for k in lens:
        out.append(seq[i:i + k])
        i += k
    return out


def variants(seq):
    """(label, parts, how, file names)"""
    n = len(seq)
    for lens in compositions(n):
        parts = cut(seq, lens)
        k = len(parts)
        names = ["f%d.h" % i for i in range(k)]
        yield "files", parts, names
        if k == 2:
            yield "files", parts, ["p/f.h", "q/f.h"]
            yield "import", parts, names
            yield "kwargs", parts, names
        if k == 1:
            yield "import", parts, names
        if k == 3:
            yield "chain", parts, names
            yield "import2", parts, names
    if valid(tuple(seq[:1]) + tuple(seq)):
        yield "same", [seq[:1], seq], ["f0.h", "f1.h"]


def build(how, parts, names, d):
    """(parser, imported parser or None)"""
    paths = [d.write(nm, part) for nm, part in zip(names, parts)]
    if how == "files":
        return cp(paths), None
    if how == "same":       # imports what it then parses itself again
        q = cp(paths[0])
        return (q, None) if isinstance(q, Failed) else (cp(paths[1], copy_from=[q]), q)
    q = cp(paths[0])
    if isinstance(q, Failed):
        return q, None
    if how == "import":
        return cp(paths[1] if len(paths) > 1 else None, copy_from=q), q
    if how == "import2":    # two files in the imported parser
        q = cp(paths[:2])
        return (q, None) if isinstance(q, Failed) else (cp(paths[2:], copy_from=(q,)), q)
    if how == "chain":
        q = cp(paths[1], copy_from=q)
        return (q, None) if isinstance(q, Failed) else (cp(paths[2], copy_from=q), q)
    if how == "kwargs":
        return cp(paths[1], **{k: dict(v) for k, v in q.defs.items()}), q
    raise AssertionError(how)


PATTERNS = [r"[A-Z]", r"\w+", r"struct ", r".*n$", "nothing_at_all"]


def judge(p, how, parts, names, seq, whole):
    if isinstance(p, Failed):
        return "parse", "parses", repr(p)
    got = guarded(defs, p)
    if isinstance(got, Failed) or got != whole:
        return ("definitions", *differ(whole, got))
    base = [os.path.basename(n) for n in names]
    if how == "kwargs":
        base[0] = None
    if how == "same":
        seq = tuple(parts[0]) + tuple(parts[1])
    files = [b for b, part in zip(base, parts) for _ in part]
    exp = model(seq, files)
    have = guarded(attributed, p)
    if have != exp:
        return "attribution", show(exp), show(have)
    names_ = {n for s in exp.values() for _, n in s}
    for n in sorted(names_) + ["nothing_at_all", "A("]:
        e = sorted((str(f), k) for f, s in exp.items() for k, m in s if m == n)
        o = guarded(lambda: sorted((str(f), k) for f, k in p.find(n)))
        if e != o:
            return "find(%r)" % n, e, o
    for pat in PATTERNS:
        r = re.compile(pat)
        e = sorted((str(f), k, n) for f, s in exp.items() for k, n in s if r.match(n))
        o = guarded(lambda: sorted((str(f), k, n) for f, k, n in p.find(r)))
        if e != o:
            return "find(re.compile(%r))" % pat, e, o
    return None


def show(x):
    if isinstance(x, Failed):
        return repr(x)
    return {str(f): sorted("%s %s" % k for k in s) for f, s in sorted(x.items(), key=lambda i: str(i[0]))}


def differ(e, o):
    if isinstance(o, Failed):
        return "definitions", repr(o)
    ks = [(k, n) for k in KINDS for n in sorted(set(e[k]) | set(o[k])) if e[k].get(n, "absent") != o[k].get(n, "absent")]
    return {"%s %s" % kn: e[kn[0]].get(kn[1], "absent") for kn in ks}, {"%s %s" % kn: o[kn[0]].get(kn[1], "absent") for kn in ks}


def one(seq, only=None):
    d = Dir()
    bad, n = [], 0
    try:
        w = cp(d.write("w.h", seq))
        if isinstance(w, Failed):
            return [((), "concatenation parses", repr(w), "parse")], 1
        whole = defs(w)
        wsame = None
        for how, parts, names in variants(seq):
            if only and [how, [list(p) for p in parts], names] != only:
                continue
            ref = whole
            if how == "same":
                if wsame is None:
                    r = cp(d.write("w2.h", tuple(seq[:1]) + tuple(seq)))
                    if isinstance(r, Failed):
                        continue
                    ref = defs(r)
            shutil.rmtree(os.path.join(d.d, "x"), ignore_errors=True)
            n += 1
            p, q = build(how, parts, names, d)
            r = judge(p, how, parts, names, seq, ref)
            if not r and q is not None:
                # the imported parser is as it was
                before = {"same": parts[:1], "import2": parts[:2], "chain": parts[:2]}.get(how, parts[:1])
                e = model([s for pt in before for s in pt], [nm for nm, pt in zip(names, before) for _ in pt])
                o = guarded(attributed, q)
                if e != o:
                    r = "the imported parser afterwards", show(e), show(o)
            if r:
                bad.append(([how, [list(x) for x in parts], names], r[1], r[2], r[0]))
                break
    finally:
        shutil.rmtree(d.d, ignore_errors=True)
    return bad, n


def replay(case):
    if "two" in case:
        return two_imports()
    if "given" in case:
        r = given(*case["given"])
        return r and (r[1], r[2])
    bad, _ = one(tuple(case["seq"]), case["variant"] or None)
    return (bad[0][1], bad[0][2]) if bad else None


def run_chunk(seqs):
    res, n, outs = [], 0, set()
    for seq in seqs:
        bad, k = one(seq)
        n += k
        for b in bad:
            res.append(("%s as %s" % (" ".join(seq), b[0]), {"seq": seq, "variant": b[0]}, b[1], b[2], b[3]))
        if len(res) >= 8:
            break
        outs.add(core.digest(show(model(seq, ["f"] * len(seq)))))
    return n, res, outs


def two_imports():
    """Two parsers made independently, each with an anonymous struct, imported together."""
    d = Dir()
    with open(os.path.join(d.d, "a.h"), "w") as f:
        f.write("typedef struct { char c; } An;\n")
    with open(os.path.join(d.d, "b.h"), "w") as f:
        f.write("typedef struct { long l; } Bn;\n")
    a, b = cp(os.path.join(d.d, "a.h")), cp(os.path.join(d.d, "b.h"))
    p = cp(None, copy_from=[a, b])
    shutil.rmtree(d.d)
    if isinstance(p, Failed):
        return "definitions", repr(p)

    def members(n):
        t = p.defs["types"][n]
        return norm(p.defs["structs"][t[0].split(" ")[1]])["Struct"][0]
    r = guarded(lambda: [members("An")["t"][0], members("Bn")["t"][0]])
    return None if r == ["c", "l"] else (["c", "l"], r)


# initial types -> the typedefs that say the same
GIVEN = [
    (("unsigned int",), "typedef unsigned int @;"), (("char", "*"), "typedef char *@;"), (("int", [3]), "typedef int @[3];"),
    (("struct K", "*"), "typedef struct K *@;"), (("N0",), "typedef N0 @;"), (("N0", "*", "*"), "typedef N0 **@;"),
    (("int", [2], [3]), "typedef int @[2][3];"), (("char", "*", [2]), "typedef char *@[2];"), (("enum L",), "typedef enum L @;"),
    (("N0", [4]), "typedef N0 @[4];"), (("void", "*"), "typedef void *@;"), (("long long",), "typedef long long @;"),
]
USE = """
struct K { N0 a; N1 *b; N1 c[2]; };
enum L { L0 };
N0 f(N1 a, N0 *b, N1 c[5]);
N1 v, *w;
typedef N1 N2[2];
typedef N0 *N3;
"""


def forms(parts):
    """Ways to write a type given to the parser."""
    from pyclibrary.c_parser import Type
    yield "Type", Type(*parts)
    yield "tuple", tuple(parts)
    if len(parts) == 1:
        yield "str", parts[0]
    if set(map(str, parts[1:])) == {"*"}:
        yield "pointers", (parts[0], len(parts) - 1)


def given(first, second, form):
    """None or (what, expected, observed): types given against the same as typedefs."""
    from pyclibrary import CParser
    from pyclibrary.c_parser import Type
    d = Dir()
    try:
        for n, t in (("t.h", GIVEN[first][1].replace("@", "N0") + "\n" + GIVEN[second][1].replace("@", "N1")), ("u.h", USE)):
            with open(os.path.join(d.d, n), "w") as f:
                f.write(t)
        use = os.path.join(d.d, "u.h")

        def tell(p):
            res = {"defs": {k: v for k, v in defs(p).items() if k != "types"}}
            for n in ("N0", "N1", "N2", "N3"):
                for more in ((), ("*",), ([2],)):
                    res[n + str(more)] = repr(guarded(p.eval_type, (n,) + more))
            for k in ("v", "w"):
                res[k] = repr(guarded(p.eval_type, p.defs["variables"][k][1]))
            for m in p.defs["structs"]["K"]["members"]:
                res["K " + m[0]] = repr(guarded(p.eval_type, m[1]))
            for n in ("N0", "N1", "N2", "int", "enum L"):
                ways = [n, (n,), Type(n)]
                res["fund " + n] = [repr(guarded(p.is_fund_type, t)) for t in ways]
                res["eval " + n] = [repr(guarded(p.eval_type, t)) for t in ways]
                if res["fund " + n] != [repr(n in ("int", "enum L"))] * 3 or len(set(res["eval " + n])) != 1:
                    raise ValueError("%s: %s, %s" % (n, res["fund " + n], res["eval " + n]))
            return res
        exp = guarded(lambda: tell(CParser([use], copy_from=CParser([os.path.join(d.d, "t.h")]))))
        if isinstance(exp, Failed):
            return "types given", "typedefs can be parsed", repr(exp)
        a, b = dict(forms(GIVEN[first][0])), dict(forms(GIVEN[second][0]))
        types = {"N0": a[form[0]], "N1": b[form[1]]}
        copy = dict(types)
        got = guarded(lambda: tell(CParser([use], types=types)))
        if types != copy or [type(v) for v in types.values()] != [type(v) for v in copy.values()]:
            return "types given, afterwards", copy, types
        if got == exp:
            return None
        if isinstance(got, Failed):
            return "types given", "definitions", repr(got)
        ks = [k for k in exp if got[k] != exp[k]]
        return "types given", {k: exp[k] for k in ks}, {k: got[k] for k in ks}
    finally:
        shutil.rmtree(d.d, ignore_errors=True)


def given_chunk(cases):
    return [(c, r) for c in cases for r in [given(*c)] if r]


def given_space():
    fs = ["Type", "tuple", "str", "pointers"]
    for a, b in itertools.product(range(len(GIVEN)), repeat=2):
        if GIVEN[a][0][0] == "N0":
            continue
        for f in itertools.product(fs, repeat=2):
            if all(x in ("Type", "tuple") or x == "str" and len(t) == 1 or x == "pointers" and set(map(str, t[1:])) == {"*"}
                   for x, t in zip(f, (GIVEN[a][0], GIVEN[b][0]))):
                yield a, b, f


def space(ctx):
    names = list(SN)
    for n in range(1, 3):
        yield from itertools.permutations(names, n)
    core_ = ["E", "y", "A1", "AF", "uA", "ifA", "ifN", "x", "S", "T", "f", "G", "g", "An"]
    yield from itertools.permutations(core_ if ctx.quick else names, 3)
    # the same snippet again, later
    few = ["A1", "uA", "ifA", "S2", "f", "An", "G"]
    for n in range(2, ctx.pick(3, 4) + 1):
        for s in itertools.product(few, repeat=n):
            if len(set(s)) < n:
                yield s
    four = ["A1", "A2", "AF", "uA", "ifA", "x", "G", "g", "S", "T", "f", "An", "Bn"]
    if ctx.quick:
        four = ["A1", "uA", "ifA", "G", "An"]
    yield from itertools.permutations(four, 4)


def run(ctx):
    seqs = [s for s in space(ctx) if valid(s)]
    parts = core.chunks(seqs, 40)
    for part, r in zip(parts, core.pmap(run_chunk, parts)):
        if isinstance(r, core.Crash):
            ctx.violation("crash", {"seq": part[0], "variant": None}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.outcomes |= r[2]
        for b in r[1]:
            ctx.violation(*b)
    d = core.pmap(lambda _: two_imports(), [0])[0]
    if d:
        ctx.violation("copy_from=[a, b], an anonymous struct in each", {"two": True}, d[0] if isinstance(d, tuple) else "",
                      d[1] if isinstance(d, tuple) else repr(d), "two imported parsers")
    ctx.traces += 1
    gs = list(given_space())
    for part, r in zip(core.chunks(gs, 24), core.pmap(given_chunk, core.chunks(gs, 24))):
        ctx.traces += len(part)
        for c, b in [(part[0], ("", "no crash", repr(r)))] if isinstance(r, core.Crash) else r:
            ctx.violation("types given: N0=%s as %s, N1=%s as %s" % (GIVEN[c[0]][0], c[2][0], GIVEN[c[1]][0], c[2][1]),
                          {"given": list(c)}, b[1], b[2], b[0])
    ctx.transitions = sum(len(s) for s in seqs)
    ctx.nstates = len({core.digest((s[:i], sorted((str(k), sorted(map(str, v))) for k, v in model(s[:i], ["f"] * i).items())))
                       for s in seqs for i in range(len(s) + 1)})
    for s in seqs[::max(1, len(seqs) // 5)]:
        ctx.sample(" | ".join(SN[x][0] for x in s), 6)
    ctx.note(sequences=len(seqs), snippets=len(SN))
    ctx.assumptions.append("files end between declarations, with balanced conditionals and packings; a macro that names "
                           "enumerators or variables of the same file is evaluated before they are known (see C04), hence not "
                           "part of the comparison; files are known by their base name")
