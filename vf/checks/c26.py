"""C26: no text stops the parser. Every sequence of tokens up to a length over an alphabet of everything headers hold (and
some they should not) is put into a file, as declarations and behind every directive, between definitions that must be
reported: those before it in the file, those of the next file, and (after directives) those after it in the same file.
"""
import itertools
import os

from .. import core
from ..cparse import norm, write
from ..core import Failed, guarded

# a, b: names the texts play with; the definitions around them do not use these.
DECL = ["int", "a", "b", "*", "(", ")", "[", "]", "{", "}", ";", ",", "=", "1", "struct", "enum", "typedef", "\"s\"", "'c'", ":",
        "unsigned", "union", "const", "static", "extern", "...", ".", "&", "-", "+", "~", "::", "@", "#", "\\", "\"", "'", "/*",
        "//", "?", "<", "template", "operator", "a(", "0x", "1.5f", "__attribute__((", "asm", "return", "\n", "$", "é", "%",
        "if", "\t", "\r", "\0", "__b"]
CORE = ["int", "a", "*", "(", ")", "[", "]", "{", "}", ";", ",", "=", "1", "struct", "enum", "typedef", "\"", "'", ":", "const",
        "...", "/*", "#", "\\\n"]
DEEP = ["int", "a", "(", ")", "{", "}", ";", "struct", "=", "[", ","]
COND = ["defined", "(", ")", "a", "1", "0", "+", "-", "!", "&&", "||", "<", "?", ":", ",", "\"", "'c'", "#", "*", "/", "%", ".", "~",
        "0x", "1.5", "=", "==", "<<", "\\", "_", "[", "{", "lambda", "import", "__import__", "for", "\"s\"", "'", "@", "08", "1u"]
BODY = ["a", "b", "(", ")", "1", "+", "\"", "'", "#", "##", "...", ",", "{", "}", "\"s\"", "'c'", ";", "int", "*", "\\", "[", "]", "/",
        "%", "/*", "//", "-", "=", "{0}", "%s", ".", "__VA_ARGS__", "0x", "\\1", "\\g<0>", "$"]
PACK = ["pack", "(", ")", "push", "pop", ",", "1", "0", "-", "a", "show", "=", "3", "\"", "once", "99999999999999999999"]
HUGE = ["9" * 4400, "0x" + "9" * 4400, "1e" + "9" * 4400, "1." + "9" * 4400, "\\x" + "9" * 4400]
HEAVY = ["1", "", "9**9**9**9", "**", "<<", "<<99999999999", "99999999999", "*", "\"s\"", "1e999",
         "²", "٣", "½", "-", "%", "/", "/0", "'c'", "'\\x99999999'", "\"\\U99999999\"", "~", "(int)", "(((((((((1",
         ")))))))))", "((((((((", "lambda: 1", "[1] * 9", "()", "().__class__", "f\"{1}\"", "b'c'", "1 if 1 else", "1_000", "0b1", "0o7",
         "08", "1j", "is", "not", "in (1,)", "None", "x := 1", "@", "//", "...", "*a", "**a", "await 1", "yield"]
DIR = ["if", "elif", "ifdef", "ifndef", "else", "endif", "define", "undef", "pragma", "include", "error", "line", "", "warning",
       "import", "1", "foo", "assert", "(", "if(", "define(", "include_next"]
USES = "a; int b = a; a(1) a(1, 2) a( a() 'a' \"a\" a\n(b) [a] = {a}; struct a { int a; } a;\n"


def base(i):
    return "int @v = 4;\n#define @M 3\nstruct @S { char c[@M]; };\n".replace("@", "P%d_" % i)


NAMES = {"variables": "v", "macros": "M", "structs": "S"}
EXPECT = {"variables": {"t": [4, {"T": ["int"], "q": []}]}, "macros": "3",
          "structs": {"Struct": [{"t": ["c", {"T": ["char", [3]], "q": []}, None]}], "pack": None}}


def judge(parser, i, pack_any):
    for k, n in NAMES.items():
        v = parser.defs[k].get("P%d_%s" % (i, n), "absent")
        v = norm(v) if v != "absent" else v
        if pack_any and isinstance(v, dict) and "pack" in v:
            v = dict(v, pack=None)
        if v != EXPECT[k]:
            return "%s following or preceding the text" % k, EXPECT[k], v
    return None


def run_progs(progs):
    """{index of a program: (what, expected, observed)} or Failed when the parser gives up.

    Declarations: a file each, definitions in front of the text (so the next file is told about as well); directives: in one
    file, definitions between them.
    """
    from pyclibrary import CParser
    texts, cur = [], ""
    for i, (kind, text) in progs:
        if kind == "decl":
            if cur:
                texts.append(cur)
                cur = ""
            texts.append(base(i) + text + "\n")
        else:
            cur += base(i) + text + "\n\n"       # (a backslash at the end joins lines)
    last = progs[-1][0] + 1
    if cur:
        texts.append(cur + base(last))
        last += 1
    texts.append(base(last))
    paths = [write(t) for t in texts]
    q = guarded(CParser, paths, timeout=20 + len(progs))
    for f in paths:
        os.unlink(f)
    if isinstance(q, Failed):
        return q
    res = {}
    kinds = dict((i, g[0]) for i, g in progs)
    for i in range(progs[0][0], last + 1):
        # a packing may be in force after directives; each file starts without
        r = judge(q, i, kinds.get(i) != "decl" and i != last)
        if r:
            res[min(max(kinds), i)] = r
    return res


def solve(progs):
    """[(program, (what, expected, observed))] reproducible alone."""
    r = run_progs(progs)
    if isinstance(r, Failed):
        if len(progs) == 1:
            return [(progs[0][1], ("parse", "no exception", repr(r)))]
        h = len(progs) // 2
        out = solve(progs[:h])
        # (a text that hangs the parser is enough)
        if not (out and r.isa("ImplTimeout")):
            out += solve(progs[h:])
        return out or [(progs[0][1], ("parse of several files", "no exception", repr(r)))]
    if not r:
        return []
    if len(progs) == 1:
        return [(progs[0][1], list(r.values())[0])]
    h = len(progs) // 2
    out = solve(progs[:h]) + solve(progs[h:])
    return out or [(progs[0][1], list(r.values())[0])]


def space(ctx):
    for n in range(0, 3):
        for s in itertools.product(DECL, repeat=n):
            yield "decl", " ".join(s)
    for s in itertools.product(CORE, repeat=3):
        yield "decl", " ".join(s)
    for n in range(4, ctx.pick(4, 5) + 1):
        for s in itertools.product(DEEP, repeat=n):
            yield "decl", " ".join(s)
    for s in itertools.product(DECL, repeat=2):        # without white space, and inside declarations
        yield "decl", "".join(s)
        yield "decl", "int a " + " ".join(s) + " ; struct b { int " + " ".join(s) + " a ; } ;"
        yield "decl", "struct a { int b; " + " ".join(s) + " } ; enum { a = " + " ".join(s) + ", b }; int a[" + " ".join(s) + "];"
    some = COND if not ctx.quick else COND[:19] + ["\"", "[", "0x"]
    for n in range(0, 4):
        for s in itertools.product(COND if n < 3 else some, repeat=n):
            if n < 3:
                yield "dir", "#if %s\nint a;\n#elif %s\nint b;\n#endif" % (" ".join(s), " ".join(s))
                yield "dir", "#if 0\n#elif%s\n#else\n#endif" % "".join(s)
            elif ctx.quick:
                yield "dir", "#if %s\n#endif" % " ".join(s)
            else:
                yield "dir", "#if %s\n#elif %s\n#endif" % (" ".join(s), "".join(s))
    for n in range(0, 3):
        for s in itertools.product(BODY, repeat=n):
            # uses may open a parenthesis: not followed by definitions in the same file
            yield "decl", "#define a %s\n%s" % (" ".join(s), USES)
            yield "decl", "#define a(b) %s\n%s" % (" ".join(s), USES)
            yield "decl", "#define a(%s\n%s" % (" ".join(s), USES)
            yield "dir", "#define a%s\n#undef %s" % ("".join(s), " ".join(s))
            if s[:1] != ("int",):
                yield "dir", "#define %s\n#undef a" % " ".join(s)
    for n in range(0, 4):
        for s in itertools.product(PACK, repeat=n):
            yield "dir", "#pragma %s" % " ".join(s)
            if n:
                yield "dir", "#pragma pack(%s)" % "".join(s)
    for t in HUGE:
        yield "dir", "#if %s\n#endif\n#pragma pack(%s)" % (t, t)
        yield "decl", "#define a %s\n#define b(x) %s\nint a = %s;" % (t, t, t)
        yield "decl", "int b[%s]; enum { d = %s, e }; struct f { int a : %s; int b[%s]; };" % ((t,) * 4)
    for s in itertools.product(HEAVY, repeat=2):       # what takes long to compute, or is no number
        if ctx.quick and not set(s) & set(HEAVY[:6]):
            continue
        t = " ".join(s)
        yield "dir", "#if %s\nint a;\n#elif %s\nint b;\n#endif" % (t, t)
        yield "dir", "#pragma pack(%s)\n#pragma pack(push, %s)" % s
        yield "decl", "#define a %s\n#define b(x) %s\n%s" % (t, t, USES)
        yield "decl", "int a = %s; int b[%s]; int c[] = {%s}; enum { d = %s, e }; struct f { int a : %s; int b[%s]; };" % ((t,) * 6)
    for d in DIR:
        for t in COND[:24]:
            yield "dir", "%s" % "#%s %s" % (d, t) + ("\n#endif" if d in ("if", "ifdef", "ifndef", "if(") else "")
    # directives that do not belong together
    ds = ["#if 1", "#if 0", "#elif 1", "#elif 0", "#else", "#endif", "#ifdef a", "#elif", "#if", "#ifdef"]
    for n in range(1, ctx.pick(4, 5) + 1):
        for s in itertools.product(ds if n < 4 or not ctx.quick else ds[:6], repeat=n):
            yield "group", "\n".join(s)


def close(text):
    """Ends the groups that are open."""
    n = 0
    for line in text.split("\n"):
        if line.startswith("#if"):
            n += 1
        elif line == "#endif":
            n = max(0, n - 1)
    return text + "\n#endif" * n


def run_chunk(args):
    n0, progs = args
    progs = [(n0 + i, ("dir", close(t)) if k == "group" else (k, t)) for i, (k, t) in enumerate(progs)]
    res, size = [], 30
    for j in range(0, len(progs), size):
        core.mark(repr(progs[j][1]))
        for g, r in solve(progs[j:j + size]):
            res.append(("%s %r" % g, {"prog": list(g)}, r[1], r[2], r[0]))
        if len(res) >= 8 or any("ImplTimeout" in str(r[3]) for r in res):
            break
    return len(progs), res


def replay(case):
    r = core.pmap(lambda c: solve([(0, tuple(c["prog"]))]), [case])[0]
    if isinstance(r, core.Crash):
        return "no crash", repr(r)
    return (r[0][1][1], r[0][1][2]) if r else None


def run(ctx):
    # (what opens a comment is not followed by definitions in the same file)
    progs = sorted(dict.fromkeys(("decl" if "/*" in t.replace(" ", "") else k, t) for k, t in space(ctx)), key=lambda g: g[0] == "decl")
    cs = core.chunks(progs, 320)
    parts, n = [], 0
    for c in cs:
        parts.append((n, c))
        n += len(c)
    for part, r in zip(parts, core.pmap(run_chunk, parts)):
        if isinstance(r, core.Crash):
            ctx.violation("crash near " + str(r.marker), {"prog": list(part[1][0])}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        for b in r[1]:
            ctx.violation(*b)
    ctx.nstates = len(progs)
    ctx.transitions = len(progs)
    ctx.outcomes = {"reported"}
    kinds = {}
    for k, _ in progs:
        kinds[k] = kinds.get(k, 0) + 1
    for g in progs[::max(1, len(progs) // 6)]:
        ctx.sample("%s: %r" % g, 8)
    ctx.note(texts=len(progs), kinds=kinds)
    ctx.assumptions.append("files can be decoded; nesting stays far below the recursion limit of Python; the macros a text defines "
                           "do not name tokens of the definitions around it")
