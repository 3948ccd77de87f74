"""C01: conditional compilation. Explicit-state search over directive histories.

Model state = (macro table, packing, stack of groups). Two exhaustive families:
  seq    every valid directive sequence up to length L over a small alphabet;
  graph  every transition of every model state reachable with at most D open groups, over the full
         alphabet (breadth-first, deduplicated on the model state), followed by a closing suffix that
         makes the future of the state visible.
plus ladders (nesting depth, #elif chain length). Every history runs on the real parser; the model is
validated against gcc -E on the same histories.
"""
import collections
import re

from .. import core, gcc
from ..cparse import Prog, T, batch_check, replay_prog as replay  # noqa: F401

CONDS = {
    "defA": lambda m: "A" in m,
    "ndefA": lambda m: "A" not in m,
    "AnotB": lambda m: "A" in m and "B" not in m,
    "AorB": lambda m: "A" in m or "B" in m,
    "A": lambda m: bool(m.get("A", 0)),
    "BornotA": lambda m: bool(m.get("B", 0)) or "A" not in m,
    "1": lambda m: True,
    "0": lambda m: False,
}
TEXT = {
    ("if", "defA"): ["#ifdef @A", "#if defined(@A)", "#if defined @A", "  #  ifdef @A", "#ifdef @A // c"],
    ("if", "ndefA"): ["#ifndef @A", "#if !defined(@A)", "#if ! defined @A", "#\tifndef\t@A", "#ifndef @A /* c */"],
    ("if", "AnotB"): ["#if defined(@A) && !defined(@B)", "#if (defined @A) && (!defined @B)"],
    ("if", "AorB"): ["#if defined(@A) || defined(@B)", "#if defined @A||defined @B"],
    ("if", "A"): ["#if @A", "#if (@A)", "# if @A == 1"],
    ("if", "1"): ["#if 1", "#if (1)", "\t#if 1"],
    ("if", "0"): ["#if 0", "#if (0)", "#if @U"],
    ("elif", "defA"): ["#elif defined(@A)", "# elif defined @A"],
    ("elif", "BornotA"): ["#elif @B || !defined(@A)", "#elif (@B) || (!defined @A)"],
    ("elif", "1"): ["#elif 1", "  #elif (1)"],
    ("elif", "0"): ["#elif 0", "#elif @U"],
    ("else",): ["#else", " # else", "#else // c", "#else /* c */"],
    ("endif",): ["#endif", "  #endif", "#endif // c", "# endif /* c */"],
    ("define", "A", 1): ["#define @A 1", "# define @A 1", "  #define @A\t1"],
    ("define", "B", 0): ["#define @B 0", "#\tdefine @B  0"],
    ("undef", "A"): ["#undef @A", "# undef @A", "  #undef  @A "],
    ("undef", "B"): ["#undef @B"],
    ("pack",): ["#pragma pack(2)", "# pragma pack( 2 )"],
}
FULL = list(TEXT)
SMALL = [("if", "defA"), ("if", "ndefA"), ("if", "0"), ("elif", "defA"), ("elif", "1"), ("else",), ("endif",),
         ("define", "A", 1), ("undef", "A")]
TINY = [("if", "defA"), ("if", "0"), ("elif", "1"), ("else",), ("endif",), ("define", "A", 1)]

INIT = ((), None, ())  # macros (sorted items), pack, stack of (outer active, active, hit, else seen)


def active(st):
    return st[2][-1][1] if st[2] else True


def step(st, ev):
    """Successor model state, or None if the directive is not well nested here."""
    macros, pack, stack = st
    m = dict(macros)
    act = active(st)
    k = ev[0]
    if k == "if":
        c = act and CONDS[ev[1]](m)
        return macros, pack, stack + ((act, c, c, False),)
    if k in ("elif", "else", "endif"):
        if not stack:
            return None
        outer, a, hit, els = stack[-1]
        if k == "endif":
            return macros, pack, stack[:-1]
        if els:
            return None
        if k == "else":
            return macros, pack, stack[:-1] + ((outer, outer and not hit, True, True),)
        c = outer and not hit and CONDS[ev[1]](m)
        return macros, pack, stack[:-1] + ((outer, c, hit or c, False),)
    if not act:
        return st
    if k == "define":
        m[ev[1]] = ev[2]
    elif k == "undef":
        m.pop(ev[1], None)
    elif k == "pack":
        pack = 2
    return tuple(sorted(m.items())), pack, stack


def closing(st):
    """Directives that show and close all that is open."""
    res = []
    for g in reversed(st[2]):
        if not g[3]:
            res.append(("else",))
        res.append(("endif",))
    return res


def build(hist):
    """(text, expected, states on the way) of a directive history, closed by the suffix."""
    st = INIT
    lines, vs, states = ["#pragma pack()"], {}, [INIT]
    n = 0
    st0 = INIT
    for ev in hist:
        st0 = step(st0, ev)
    full = list(hist) + closing(st0)
    for i, ev in enumerate(full):
        st = step(st, ev)
        forms = TEXT[ev]
        lines.append(forms[(i * 7 + len(hist)) % len(forms)])
        lines.append("int @v%d;" % n)
        if active(st):
            vs["@v%d" % n] = None
        n += 1
        if i < len(hist):
            states.append(st)
    lines.append("struct @s { int a; };")
    macros, pack, _ = st
    expect = {
        "variables": {v: {"t": [None, T("int")]} for v in vs},
        "macros": {"@" + k: str(v) for k, v in macros},
        "structs": {"@s": {"Struct": [{"t": ["a", T("int"), None]}], "pack": pack}},
    }
    return "\n".join(lines) + "\n", expect, states


def sequences(alpha, length):
    """All valid directive sequences of exactly this length."""
    def rec(prefix, st):
        if len(prefix) == length:
            yield prefix
            return
        for ev in alpha:
            n = step(st, ev)
            if n is not None:
                yield from rec(prefix + (ev,), n)
    yield from rec((), INIT)


def graph(alpha, depth, maxlen):
    """Shortest history to every model state with at most `depth` open groups, times every event."""
    seen = {INIT: ()}
    todo = collections.deque([INIT])
    edges = []
    while todo:
        st = todo.popleft()
        h = seen[st]
        for ev in alpha:
            n = step(st, ev)
            if n is None or len(n[2]) > depth:
                continue
            edges.append(h + (ev,))
            if n not in seen and len(h) + 1 < maxlen:
                seen[n] = h + (ev,)
                todo.append(n)
    return seen, edges


JUNK = ["#define", "#undef", "#define 5", "#if (((", "#elif", "#pragma pack(", "#include \"nope.h\"", "#error no", "#line 7",
        "#frobnicate x", "#", "# 12 \"file\"", "#ident \"x\""]


def junk_progs():
    """Malformed or unknown directives in a skipped group (#if/#elif: inside a nested one)."""
    for pre, post in (("#if 0\n", "#endif\n"), ("#ifdef @U\nint @x;\n#else\n#if 0\n", "#endif\n#endif\n"),
                      ("#if 1\n#else\n", "#endif\n")):
        for j in JUNK:
            body = j + "\n"
            if j.startswith("#if"):
                body += "#else\nint @z;\n#endif\n"
            elif j.startswith("#elif"):
                body = "#if 1\nint @z;\n" + j + "\nint @w;\n#endif\n"
            text = "#define @A 1\n" + pre + body + "int @y;\n" + post + "int @v;\n"
            yield Prog(text, {"variables": {"@v": {"t": [None, T("int")]}}, "macros": {"@A": "1"}},
                       key=text.replace("\n", "\\n"), what="junk in a skipped group")


def ladders(depth, chain):
    for d in range(1, depth + 1):
        for off in range(0, d + 1):  # level `off` is false (d: none)
            h = tuple(("if", "0" if i == off else "1") for i in range(d))
            yield h
            yield h + (("define", "A", 1),)
    for n in range(1, chain + 1):
        for hit in range(0, n + 1):
            yield (("if", "0"),) + tuple(("elif", "1" if i >= hit else "0") for i in range(n))
            yield (("if", "0"),) + tuple(("elif", "1" if i == hit else "0") for i in range(n))
    for n in range(1, 8):  # siblings after each other inside one outer group
        for out in ("1", "0"):
            yield (("if", out),) + (("if", "1"), ("define", "A", 1), ("endif",), ("undef", "A")) * n


def _oracle(hists):
    """gcc -E on the histories; returns the indices where the model is wrong."""
    progs = [build(h)[:2] for h in hists]
    text = "\n".join(t.replace("@", "P%d_" % i) for i, (t, _) in enumerate(progs))
    tail = "".join("#ifdef P%d_%s\nint P%d_fin_%s;\n#endif\n" % (i, n, i, n)
                   for i in range(len(progs)) for n in "AB")
    out = gcc.cpp(text + "\n" + tail)
    got = collections.defaultdict(set)
    for m in re.finditer(r"int P(\d+)_(\w+);", out):
        got[int(m.group(1))].add(m.group(2))
    bad = []
    for i, (_, e) in enumerate(progs):
        want = {v[1:] for v in e["variables"]} | {"fin_" + k[1:] for k in e["macros"]}
        if want != got[i]:
            bad.append((hists[i], sorted(want), sorted(got[i])))
    return bad


def run(ctx):
    L, Ltiny = ctx.pick(4, 5), ctx.pick(6, 8)
    seen, edges = graph(FULL, ctx.pick(2, 3), 12)
    hists = []
    for n in range(1, L + 1):
        hists += sequences(SMALL, n)
    nseq = len(hists)
    tiny = []
    for n in range(L + 1, Ltiny + 1):
        tiny += sequences(TINY, n)
    lad = list(ladders(ctx.pick(12, 30), ctx.pick(12, 30)))
    hists += tiny + edges + lad
    hists = list(dict.fromkeys(hists))
    wrong = [b for r in core.pmap(_oracle, core.chunks(hists, 3000)) for b in r]
    assert not wrong, "model disagrees with gcc -E: %r" % wrong[:3]
    progs = []
    for h in hists:
        text, expect, states = build(h)
        for s in states:
            ctx.state(s)
        ctx.transitions += len(h)
        progs.append(Prog(text, expect, key=text.replace("\n", "\\n"), what="directive history"))
    junk = list(junk_progs())
    for p in junk:
        ctx.state(p.text)
    batch_check(ctx, junk + progs, size=100)
    for p in progs[:: max(1, len(progs) // 5)]:
        ctx.sample(p.text)
    ctx.note(histories_model_checked_by_gcc=len(hists), sequences_to_length=L, sequences=nseq,
             tiny_alphabet_length=Ltiny, tiny_sequences=len(tiny), graph_states=len(seen),
             graph_transitions=len(edges), ladders=len(lad), alphabet=[" ".join(map(str, e)) for e in FULL])
    ctx.assumptions.append("directives are well nested; conditions are the listed ones (C02 covers expressions)")
