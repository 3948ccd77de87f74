"""C03: macro definition histories. Explicit-state search over #define/#undef/use.

Model state = table of live macros (bodies resolved where they are defined). Families:
  graph    every transition of every reachable table over the event alphabet, then probes of all uses;
  seq      every event sequence up to a length, then probes;
  bodies   every function-macro body over a token alphabet; calls: every argument list over an alphabet;
  ladders  parameter counts, nesting of calls, chains of macros.
The model is validated by gcc -E on every history where resolving bodies early or late is the same.
"""
import collections
import itertools
import re

from .. import core, gcc
from ..cparse import ANY, TOK, Prog, T, batch_check, replay_prog as replay, tokens  # noqa: F401


class Bad(Exception):
    """A use that C rejects."""


def split_args(toks, i):
    """toks[i] is the opening parenthesis: (arguments as token lists, index after the closing one)."""
    args, cur, depth = [], [], 0
    i += 1
    while True:
        if i >= len(toks):
            raise Bad
        t = toks[i]
        if t == ")" and depth == 0:
            args.append(cur)
            return args, i + 1
        if t == "," and depth == 0:
            args.append(cur)
            cur = []
        else:
            depth += (t == "(") - (t == ")")
            cur.append(t)
        i += 1


def expand(toks, table, hidden=()):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        d = table.get(t) if t not in hidden else None
        if d is None:
            out.append(t)
            i += 1
        elif d[0] is None:
            out += d[1]
            i += 1
        elif i + 1 < len(toks) and toks[i + 1] == "(":
            args, i = split_args(toks, i + 1)
            if len(d[0]) == 0 and args == [[]]:
                args = []
            if len(args) != len(d[0]):
                raise Bad
            args = [expand(a, table, hidden) for a in args]
            for b in d[1]:
                out += args[d[0].index(b)] if b in d[0] else [b]
        else:
            out.append(t)
            i += 1
    return out


def define(table, name, params, body):
    table = dict(table)
    toks = tokens(body)
    if params is None:
        toks = expand(toks, table)
    if params is None and len(toks) == 1 and toks[0] in table and table[toks[0]][0] is not None:
        table[name] = table[toks[0]][:2] + ("alias",)
    elif params is None:
        table[name] = (None, tuple(toks))
    else:
        table[name] = (params, tuple(expand(toks, table, params)))
    if name in table[name][1] and name not in (params or ()):
        raise Bad  # refers to itself
    return table


# ---------------------------------------------------------------- histories
EVENTS = [
    ("def", "@M", None, "1"), ("def", "@M", None, "(@N+2)"), ("def", "@M", None, "@N"), ("def", "@M", None, '"@N"'),
    ("def", "@M", None, ""), ("def", "@M", None, "(5)"),
    ("def", "@M", ("a",), "a+@N"), ("def", "@M", ("a", "b"), "b-a*b"), ("def", "@M", (), "7"),
    ("def", "@M", ("@N",), "@N*@N"), ("undef", "@M"),
    ("def", "@N", None, "3"), ("def", "@N", None, "@M"), ("def", "@N", ("z",), "(z*2)"), ("def", "@N", ("a",), "@M"),
    ("undef", "@N"),
]


def text_of(ev):
    if ev[0] == "undef":
        return "#undef " + ev[1]
    params = "" if ev[2] is None else "(" + ", ".join(ev[2]) + ")"
    return "#define %s%s %s" % (ev[1], params, ev[3])


def key_of(table):
    return tuple(sorted(((k,) + v for k, v in table.items()), key=repr))


def apply(table, ev):
    if ev[0] == "undef":
        t = dict(table)
        t.pop(ev[1], None)
        return t
    if ev[2] is None and ev[1] in tokens(ev[3]):
        return None
    try:
        return define(table, *ev[1:])
    except Bad:
        return None


def uses(table):
    """Probe texts valid in this state."""
    res = []
    alias = [n for n, d in table.items() if d[2:]]  # another name of a function macro: only called
    for n in ("@M", "@N"):
        d = table.get(n)
        res += [n, '"%s" %s \'%s\' %s' % (n, n, "x", n), n + "y y" + n + " " + n + "_1"]
        if d is not None and d[0] is not None:
            k = len(d[0])
            res.append("%s(%s)" % (n, ",".join(str(4 + i) for i in range(k))))
            res.append("%s ( %s ) + %s" % (n, " , ".join(["@M", "@N"][i % 2] for i in range(k)), n))
            if k:
                res.append("%s(%s)" % (n, ",".join(["(1,2)", '"a,)"', "f(x)"][:k])))
        else:
            res.append(n + "(1)")
    ok = []
    for u in res:
        if any(re.search(n + r"\b(?!\()(?!_)", re.sub(r'"[^"]*"', "", u)) for n in alias):
            continue
        try:
            ok.append((u, expand(tokens(u), table)))
        except Bad:
            pass
    return ok


NUM = re.compile(r"^[0-9+*() -]+$")


def build(hist):
    """Prog of a history followed by all probes; None if some event is not valid. Also its oracle text."""
    table, srcs, same = {}, {}, True
    lines = []
    for ev in hist:
        if any(ev[1] in s for n, s in srcs.items() if n != ev[1]):
            same = False  # a live body mentions it: late resolution sees the change
        if ev[0] == "def" and any(t in ("@M", "@N") and t not in table and t not in (ev[2] or ()) for t in tokens(ev[3])):
            same = False  # mentions a name not known yet
        if ev[0] == "def" and ev[2] is not None and any(t in table and t not in ev[2] and table[t][0] is not None
                                                        for t in tokens(ev[3])):
            same = False  # a function macro named in a body may pick up parentheses later
        table = apply(table, ev)
        if table is None:
            return None
        lines.append(text_of(ev))
        if ev[0] == "def":
            srcs[ev[1]] = tokens(ev[3])
        else:
            srcs.pop(ev[1], None)
    macros = {n: TOK(" ".join(d[1])) for n, d in table.items() if d[0] is None}
    fn = {n: ANY for n, d in table.items() if d[0] is not None}
    variables, oracle = {}, []
    for i, (u, exp) in enumerate(uses(table)):
        if not (len(exp) == 1 and exp[0] in table and table[exp[0]][0] is not None):  # would define an alias
            lines.append("#define @o%d %s" % (i, u))
            macros["@o%d" % i] = TOK(" ".join(exp))
        t = " ".join(exp)
        oracle.append((u, exp))
        if NUM.match(t) and tokens(t) and "( )" not in t:
            try:
                val = eval(t)
            except Exception:
                continue
            if isinstance(val, int):
                lines.append("int @v%d = %s;" % (i, u))
                variables["@v%d" % i] = {"t": [val, T("int")]}
    for n in ("@M", "@N"):
        lines.append("#ifdef %s\nint %s_def;\n#endif" % (n, n))
        if n in table:
            variables[n + "_def"] = {"t": [None, T("int")]}
    p = Prog("\n".join(lines) + "\n", {"macros": macros, "fnmacros": fn, "variables": variables},
             key=" ; ".join(text_of(e) for e in hist), what="macro history")
    return p, table, (hist, oracle) if same else None


def _oracle(cases):
    """[(defining lines, [(use, expected tokens)])]: mismatches with gcc -E."""
    text = []
    for i, (lines, us) in enumerate(cases):
        text += [l.replace("@", "P%d_" % i) for l in lines]
        for k, (u, _) in enumerate(us):
            text.append("RRR %d %d : %s" % (i, k, u.replace("@", "P%d_" % i)))
    try:
        out = gcc.cpp("\n".join(text) + "\n")
    except gcc.OracleError as e:
        n = int(re.search(r":(\d+):", str(e)).group(1))
        raise gcc.OracleError(str(e)[:200] + repr(text[n - 12:n]))
    got = {(int(m.group(1)), int(m.group(2))): m.group(3) for m in
           re.finditer(r"RRR (\d+) (\d+) :(.*)", out)}
    bad = []
    for i, (lines, us) in enumerate(cases):
        for k, (u, exp) in enumerate(us):
            want = [t.replace("@", "P%d_" % i) for t in tokens(" ".join(exp))]
            have = tokens(got.get((i, k), "?"))
            if want != have:
                bad.append((lines, u, want, have))
    return bad


# ---------------------------------------------------------------- single definitions
BTOK = ["a", "b", "ab", '"a b"', "'a'", "{a}", "x", "+", "a.b", "(b)"]


def bodies(n):
    for k in range(1, n + 1):
        for parts in itertools.product(BTOK, repeat=k):
            yield " ".join(parts)
            if k == 2:
                yield "+".join(parts)
    for b in ("a+a", "-a", "a-", "(a)", "a,b", "((a)|(b))", "a?b:a", "a->b", "{ a, b }", "{}", "{{a}}", "%s a", "{0} a",
              "{a!r}", "a\\tb", "_a a_ a1 1a", "\"\\\"a\" a", "'\\'' a", "a;b", "[a]", "~a", "!a", "a<b>a", "a=b"):
        yield b


ARGS = ["1", "(1,2)", '"a,b"', "')'", "@N", "@G(3)", "", " 4 ", "f(1)(2)", "@K", '"\\")"', "x y", "((8))"]


def single_progs(ctx):
    """(lines, uses) for one function macro @F; @N and @G known."""
    pre = ["#define @N 9", "#define @G(q) <q>", "#define @L(q,r) r:q"]
    for b in bodies(ctx.pick(2, 3)):
        yield pre, ("@F", ("a", "b"), b), ["@F(1,2)", "@F( x , (y) )"]
    for n in (1, 2, 3):
        for args in itertools.product(ARGS, repeat=n):
            if n == 3 and (ctx.quick and len(set(args)) < 3 or len({"@N", "", '"a,b"', "(1,2)"} & set(args)) < 2):
                continue
            ps = ("a", "b", "c")[:n]
            yield pre, ("@F", ps, ";".join(reversed(ps)) + "|a"), ["@F(%s)" % ",".join(args)]
    for n in range(0, 15):
        ps = tuple("p%d" % i for i in range(n))
        for body in (" ".join(ps) or "k", " ".join(reversed(ps)) or "k k", " ".join(ps + ps)):
            yield pre, ("@F", ps, body), ["@F(%s)" % ",".join(str(i * 3) for i in range(n)),
                                          "@F (%s) z" % " , ".join("@N" for i in range(n)), "@F", "@F;"]
    for d in range(1, ctx.pick(9, 16)):
        u = "1"
        for _ in range(d):
            u = "@F(%s)" % u
        v = "1"
        for _ in range(d):
            v = "@G(@F(%s))" % v
        yield pre, ("@F", ("a",), "[a]"), [u, v, "@F(" + "(" * d + "3,4" + ")" * d + ")", " ".join(["@F(1) @N"] * d),
                                           '"s" ' * d + "@F(2)", "@F(" + ",".join(["@N"]) + ") " + '"@N" @N ' * d]
    for sp in ("", " ", "  ", "\t"):
        yield pre, ("@F", ("a",), "a"), ["@F%s(%s1%s)" % (sp, sp, sp), "@F%s(%s1%s)%s+%s@F%s(2)" % ((sp,) * 6)]
    for u in ("@F", "x @F y", "@F + (1)", "@F, @F(1)", "(@F)(1)", "@F @F(2)", "@Fx(1)", "x@F(1)", '"@F(1)"', "'@F(1)'",
              "@F[1]", "@N@F(1)", "@N @F(1) @N", "@N,@F(1),@N", "@L(@F(1),@G(2))", "@F(@L(1,2))", "@F(@F(@F(3)))",
              '"\\\\" @N "@N"', '"\\"" @N', "'\"' @N '\"'", "@N.@N", "@N->@N", "@N_ _@N @N1"):
        yield pre, ("@F", ("a",), "<a>"), [u]


LEFT = ["", "-", "+", "<", ">", "&", "|", "=", "/", "*", "!", "(", "x+", "1-"]
RIGHT = ["", "-", "+", ">", "=", "&", "|", "/1", "*", ")", "-1", "x", "7", "_a", ">=2"]
NEXT = ["9", "-1", "int", "-", "+", ">", "&a", "b&", "=", "|", "1>", "<", "x y", "(3)", '"s"', "", "*p"]


def adjacent_progs(ctx):
    """Uses with no white space around: (defining lines, (name, parameters, body), uses)."""
    for e in NEXT:
        if "/" in e:
            continue
        us = ["%s@F%s" % (l, r) for l in LEFT for r in RIGHT if not re.match(r"\w", r) and not (l + r).endswith("*/1")]
        for k in range(0, len(us), 8):
            yield [], ("@F", None, e), us[k:k + 8]
        us = ["%s@F(%s)%s" % (l, e, r) for l in LEFT for r in RIGHT]
        for body in ("a", "-a", "a-", "<a>a", "a a=a", "b a&a*a", "a.a", "f(a)"):
            for k in range(0, len(us), 8 if not ctx.quick else 16):
                yield [], ("@F", ("a",), body), us[k:k + 8]
    for a, b in itertools.product(NEXT, repeat=2):
        if "" not in (a, b):
            yield ["#define @A %s" % a, "#define @B %s" % b], ("@F", ("a", "b"), "a+b-a"), \
                ["@A@X", "@A @B", "@A-@B", "@F(@A,@B)", "@F(%s,%s)@A" % (a, b), "-@F(-@A,@B)-@B", "@F(a,b)@F(a,b)"]


def chain_progs(n):
    """Macros defined from one another, redefined or undefined half-way."""
    for k in range(1, n + 1):
        lines, table = [], {}
        for i in range(k):
            b = "1" if i == 0 else "(@c%d+%d)" % (i - 1, i)
            lines.append("#define @c%d %s" % (i, b))
            table = define(table, "@c%d" % i, None, b)
        yield lines, table, ["@c%d" % (k - 1), " ".join("@c%d" % i for i in range(k))]
        l2 = lines + ["#undef @c%d" % (k // 2)]
        t2 = dict(table)
        t2.pop("@c%d" % (k // 2))
        yield l2, t2, [" ".join("@c%d" % i for i in range(k))]
        l3, t3 = list(lines), dict(table)
        for i in range(k):
            l3.append("#define @c%d %d" % (i, 50 + i))
            t3 = define(t3, "@c%d" % i, None, str(50 + i))
        yield l3, t3, [" ".join("@c%d" % i for i in range(k))]


def mk(lines, table, us, key):
    """Prog with each use probed by a macro and by a line of code."""
    macros = {n: TOK(" ".join(d[1])) for n, d in table.items() if d[0] is None}
    fn = {n: ANY for n, d in table.items() if d[0] is not None}
    lines = list(lines)
    for i, (u, exp) in enumerate(us):
        if len(exp) == 1 and table.get(exp[0], (None,))[0] is not None:
            continue
        lines.append("#define @o%d %s" % (i, u))
        macros["@o%d" % i] = TOK(" ".join(exp))
    return Prog("\n".join(lines) + "\n", {"macros": macros, "fnmacros": fn}, key=key, what="macro expansion")


def run(ctx):
    # model graph
    seen = {key_of({}): ((), {})}
    todo = collections.deque([((), {})])
    hists = []
    maxlen = ctx.pick(4, 6)
    nmax = ctx.pick(250, 3000)
    while todo:
        h, table = todo.popleft()
        for ev in EVENTS:
            n = apply(table, ev)
            if n is None:
                continue
            hists.append(h + (ev,))
            k = key_of(n)
            if k not in seen and len(h) + 1 < maxlen and sum(len(d[2]) for d in k) < 40:
                if len(seen) < nmax:
                    seen[k] = (h + (ev,), n)
                    todo.append((h + (ev,), n))
    ngraph = len(hists)
    for n in range(1, ctx.pick(2, 3) + 1):
        hists += itertools.product(EVENTS, repeat=n)
    small = [e for e in EVENTS if e[0] == "undef" or e[3] in ("1", "3", "(@N+2)", "a+@N", "(z*2)")]
    for n in range(3, ctx.pick(3, 5) + 1):
        hists += itertools.product(small, repeat=n)
    hists = list(dict.fromkeys(hists))
    progs, oracle = [], []
    for h in hists:
        b = build(h)
        if b is None:
            continue
        progs.append(b[0])
        ctx.transitions += len(h)
        ctx.state(key_of(b[1]))
        if b[2]:
            oracle.append(([text_of(e) for e in b[2][0]], b[2][1]))
    nhist = len(progs)
    same = len(oracle)
    for pre, (name, ps, body), us in itertools.chain(single_progs(ctx), adjacent_progs(ctx)):
        table = {}
        for l in pre:
            m = re.match(r"#define (@\w+)(?:\(([^)]*)\))? (.*)", l)
            table = define(table, m.group(1), None if m.group(2) is None else tuple(m.group(2).split(",")), m.group(3))
        lines = pre + ["#define %s%s %s" % (name, "" if ps is None else "(%s)" % ",".join(ps), body)]
        try:
            table = define(table, name, ps, body)
            ex = [(u, expand(tokens(u), table)) for u in us]
        except Bad:
            continue
        ctx.state(body + repr(us))
        ctx.transitions += 1
        progs.append(mk(lines, table, ex, "%s%s %s | %s" % (name, list(ps or "-"), body, us)))
        oracle.append((lines, ex))
    for lines, table, us in chain_progs(ctx.pick(25, 60)):
        ex = [(u, expand(tokens(u), table)) for u in us]
        progs.append(mk(lines, table, ex, "chain: " + lines[-1]))
        ctx.transitions += len(lines)
    wrong = [b for r in core.pmap(_oracle, core.chunks(oracle, 1000)) for b in r]
    assert not wrong, "model disagrees with gcc -E: %r" % wrong[:3]
    batch_check(ctx, progs, size=100)
    for p in progs[:: max(1, len(progs) // 6)]:
        ctx.sample(p.text)
    ctx.note(histories=nhist, graph_transitions=ngraph, graph_states=len(seen), histories_validated_by_gcc=same,
             single_definitions=len(progs) - nhist, uses_validated_by_gcc=sum(len(u) for _, u in oracle),
             alphabet=[text_of(e) for e in EVENTS])
    ctx.assumptions.append("calls span lines only in C05; no # and ## operators, no variadic macros; the body of a "
                           "macro is resolved where it is defined (the suite pins this)")
