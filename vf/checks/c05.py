"""C05: comments, splices, layout.
 A  every lexically valid text over the quote/comment/splice alphabet up to a length, comment removal and splicing
    by the real parser against a reference lexer (itself validated against gcc -E),
 B  every string and character literal over an alphabet up to a length, as macro and as initialiser,
 C  every filler at every token boundary of a set of base snippets: same definitions.
"""
import itertools
import re

from .. import core, gcc
from ..cparse import ANY, Prog, T, TOK, batch_check, plain, tokens, write, parse, replay_prog  # noqa: F401
from ..core import Failed, guarded

SPECIALS = "a/*\"'\\\n "


def lex(text):
    """Reference: text after splicing and comment removal as lines of tokens; None if not lexically valid."""
    text = text.replace("\\\n", "")
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0:
                return None
            out.append(" ")
            i = j + 2
        elif text.startswith("//", i):
            j = text.find("\n", i)
            i = n if j < 0 else j
        elif c in "\"'":
            j = i + 1
            while j < n and text[j] != c:
                if text[j] == "\n":
                    return None
                if text[j] == "\\":
                    j += 1
                    if j >= n or text[j] not in "\\\"'a":
                        return None
                j += 1
            if j >= n:
                return None
            if c == "'" and j == i + 1:
                return None
            out.append(text[i:j + 1])
            i = j + 1
        elif c == "\\":
            return None       # a stray backslash is no C token
        else:
            out.append(c)
            i += 1
    return lines("".join(out))


def lines(text):
    return [t for t in (tokens(l) for l in text.split("\n")) if t]


def pieces(ctx):
    """All valid texts. Long ones are made of whole pieces."""
    n = ctx.pick(5, 6)
    for k in range(1, n + 1):
        for t in itertools.product(SPECIALS, repeat=k):
            yield "".join(t)
    parts = ["a", " ", "\n", "/**/", "/*/*/", "/***/", "/*a*/", "/*\n*/", "/* // */", "/*\"*/", "/*'*/", "//", "//a\n",
             "//\"\n", "//'\n", "///*\n", "//*/\n", "// \\\na\n", "\\\n", '""', '"a"', '"//"', '"/*"', '"*/"', '"\\""',
             '"\\\\"', "'a'", "'\"'", "'\\''", "'\\\\'", "'/'", '"\'"', '"a\\\nb"', "/\\\n/a\n", "/\\\n* a *\\\n/", "*/",
             "/ /", "/*\\\n*/", "a/a", "/**\n * a\n **/"]
    m = ctx.pick(3, 3)
    for k in range(2, m + 1):
        for t in itertools.product(parts, repeat=k):
            yield "".join(t)


MARK = "S%d_S;"
_split = re.compile(r"S(\d+)_S\s*;")


def run_lex(args):
    from pyclibrary import CParser
    texts, = args
    path = write("".join(MARK % i + "\n" + t + "\n" for i, (t, _) in enumerate(texts)) + MARK % len(texts) + "\n")

    def go():
        p = CParser(path, process_all=False)
        p.remove_comments(path)
        p.preprocess(path)
        return p.files[path]
    r = guarded(go, timeout=300)
    bad, outs = [], set()
    got = {}
    if not isinstance(r, Failed):
        parts = _split.split(r)
        for k in range(1, len(parts) - 1, 2):
            got[int(parts[k])] = lines(parts[k + 1])
    for i, (t, exp) in enumerate(texts):
        outs.add(core.digest(exp))
        if got.get(i) != exp:
            d = replay({"lex": t})
            if d:
                bad.append((t, {"lex": t}, d[0], d[1], "text"))
            else:
                bad.append(("in a batch: " + t, {"lexes": "".join(x + "\n" for x, _ in texts)}, exp, got.get(i), "text"))
            if len(bad) > 5:
                break
    return len(texts), bad, outs


def replay(case):
    from pyclibrary import CParser
    if "lex" not in case and "lexes" not in case:
        return replay_prog(case)
    t = case.get("lex", case.get("lexes"))
    path = write(t)

    def go():
        p = CParser(path, process_all=False)
        p.remove_comments(path)
        p.preprocess(path)
        return p.files[path]
    r = guarded(go)
    exp = lex(t)
    obs = repr(r) if isinstance(r, Failed) else lines(r)
    return None if obs == exp else (exp, obs)


def gcc_lex(texts):
    """Is the reference lexer right? Token streams from gcc -E, texts told apart by markers."""
    src = "".join(MARK % i + "\n" + t + "\n" for i, t in enumerate(texts)) + MARK % len(texts) + "\n"
    parts = _split.split(gcc.cpp(src))
    got = {int(parts[k]): tokens(parts[k + 1]) for k in range(1, len(parts) - 1, 2)}
    return [t for i, t in enumerate(texts) if got.get(i) != sum(lex(t), [])]


# ------------------------------------------------------------------------ literals
def literals(ctx):
    atoms = ["a", "/", "*", "'", " ", '\\"', "\\\\", "\\n", "#", ";", "{"]
    out = []
    for k in range(0, ctx.pick(4, 5) + 1):
        al = atoms if k <= 3 else atoms[:7]
        for t in itertools.product(al, repeat=k):
            out.append("".join(t))
    return out


def c_unescape(s):
    return s.replace("\\\\", "\0").replace('\\"', '"').replace("\\n", "\n").replace("\\'", "'").replace("\0", "\\")


def lit_prog(s):
    lit = '"%s"' % s
    exp = {"macros": {"@m": TOK(lit)}, "values": {"@m": c_unescape(s), "@v": c_unescape(s), "@z": None},
           "variables": {"@v": {"t": [c_unescape(s), T("char", "*")]}, "@z": {"t": [None, T("int")]}}}
    return Prog("#define @m %s\nchar *@v = %s; int @z;\n" % (lit, lit), exp, key=lit, what="string literal")


CHARS = ["a", "/", "*", '"', "\\'", "\\\\", " ", "#", "0", "\\n"]


def chr_prog(c):
    lit = "'%s'" % c
    return Prog("#define @m %s\nint @z; /* ' */ int @y; // ' \"\nint @x;\n#define @n (%s)\n" % (lit, lit),
                {"macros": {"@m": TOK(lit), "@n": TOK("(%s)" % lit)},
                 "variables": {k: {"t": [None, T("int")]} for k in ("@z", "@y", "@x")}},
                key=lit, what="character literal")


# ------------------------------------------------------------------------ insertions
SNIPPETS = [
    "int @a;",
    "unsigned long int @a = 5, *@b, @c[3];",
    "typedef struct @s { int x, y; char *z[4]; unsigned f : 3; } @t;",
    "union @u { int i; struct { char c; } d; };",
    "enum @e { @A, @B = 4, @C = @B + 1, };",
    "const char *@f(int a, char const * const b, void (*cb)(int, char *));",
    "static inline int @f(int a) { return a + 1; } int @z;",
    "extern \"C\" { int @f(void); }",
    "int (*@fp)(int, char *), (*@arr)[4];",
    "char @s[] = \"a//b\", @t = 'x';",
    "#define @M 1 + 2\nint @v = @M;",
    "#define @F(x, y) ((x) + y)\nint @v = @F(3, 4);",
    "#ifdef @N\nint @a;\n#elif 1 == 1\nint @b;\n#else\nint @c;\n#endif",
    "#define @K 3\n#if defined(@K) && @K > 2\nint @a;\n#endif\n#undef @K\n#ifndef @K\nint @b;\n#endif",
    "#pragma pack(push, 1)\nstruct @s { char c; int i; };\n#pragma pack(pop)\nstruct @r { char c; };",
    "typedef unsigned char @u8; @u8 @g(@u8 x, ...);",
    "#define @S \"/* no */\"\nchar *@v = \"// no\";",
    "int @a[2][3] = { { 1, 2, 3 }, { 4, 5, 6 } };\ndouble @d = 1.5e3;",
    "volatile int * restrict @p; long long @q = -7L;",
]
FILL = ["/**/", " /* x */ ", "/* // */", "/*\"*/", "/*'*/", "/***/", "/*/ x */", "/* a\n b */", "/* int q; */", "\\\n", " \\\n ",
        "  ", "\t", "/*#define X*/", "/*\n#else\n*/", "/* \\\n */"]
NLFILL = ["\n", "//x\n", "// \"\n", "// '\n", "// /*\n", "//\n\n", "// int q;\n", "// a \\\n b\n", "\n\n\n", "//*/\n"]
_b = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\d[\w.]*|@?\w+|\.\.\.|<<|>>|==|&&|\|\||[^\s\w]')


def boundaries(text):
    """[(position, inside a directive?, may a space be put here?)], newline fillers only outside directives."""
    res = []
    pos = 0
    for ln in text.split("\n"):
        direc = ln.lstrip().startswith("#")
        ends = [(m.start(), m.end(), m.group()) for m in _b.finditer(ln)]
        pts = sorted({0, len(ln)} | {s for s, e, _ in ends} | {e for s, e, _ in ends})
        for q in pts:
            ok = True
            if direc and re.match(r"\s*#\s*define\s+@\w+$", ln[:q]):
                ok = False          # a space here would make or unmake a function macro
            res.append((pos + q, direc and 0 < q < len(ln), ok))
        pos += len(ln) + 1
    return res


def variants(ctx):
    base_fill = FILL + NLFILL
    for sn in SNIPPETS:
        bs = boundaries(sn)
        for q, direc, ok in bs:
            for f in base_fill:
                if not ok and f != "\\\n":
                    continue
                if direc and f in NLFILL:
                    continue
                if f in NLFILL or f[0] != "\\":
                    pass
                t = sn[:q]
                # a directive starts its line: only fillers without tokens may precede, newline ones must end the line
                yield sn, t + f + sn[q:], "%r at %d of %r" % (f, q, sn)
        # several at once
        for f in base_fill:
            pts = [q for q, direc, ok in bs if ok and not (direc and f in NLFILL)]
            yield sn, "".join(sn[a:b] + (f if b in pts else "") for a, b in zip([0] + pts, pts + [len(sn)])), \
                "%r everywhere in %r" % (f, sn)
        # a splice inside any token
        for q in range(1, len(sn)):
            if sn[q - 1] != "\n" and sn[q] != "\n":
                yield sn, sn[:q] + "\\\n" + sn[q:], "splice at %d of %r" % (q, sn)
        yield sn, sn.replace("\n", "\r\n"), "CRLF %r" % sn
        for ind in ("  ", "\t", " \t "):
            yield sn, "\n".join(ind + l for l in sn.split("\n")), "indent %r" % sn
            yield sn, "\n".join(l + ind for l in sn.split("\n")), "trailing %r" % sn
            yield sn, re.sub(r"^#", "#" + ind, sn, flags=re.M), "after # %r" % sn
        if not ctx.quick:
            pts = [(q, d) for q, d, ok in bs if ok]
            for (q1, d1), (q2, d2) in itertools.combinations(pts, 2):
                for f, g in itertools.product(["/* \" */", "/*'*/", "\\\n", "// x\n", "/* a\n b */"], repeat=2):
                    if (d1 and f in ("// x\n",)) or (d2 and g in ("// x\n",)):
                        continue
                    yield sn, sn[:q1] + f + sn[q1:q2] + g + sn[q2:], "%r at %d, %r at %d of %r" % (f, q1, g, q2, sn)


def run(ctx):
    seen, todo = set(), []
    for t in pieces(ctx):
        if t in seen or t.endswith("\\") or re.search(r"\\ +(\n|$)", t):      # (gcc splices there, C does not)
            continue
        seen.add(t)
        ref = lex(t)
        if ref is not None:
            todo.append((t, ref))
    nlex = len(todo)
    ctx.nstates += len(todo)
    ctx.transitions += sum(len(t) for t, _ in todo)
    wrong = [w for r in core.pmap(gcc_lex, core.chunks([t for t, _ in todo], 20000)) for w in r]
    assert not wrong, "reference lexer disagrees with gcc -E: %r" % wrong[:5]
    for r in core.pmap(run_lex, [(c,) for c in core.chunks(todo, 1500)]):
        if isinstance(r, core.Crash):
            ctx.violation("crash", {"lex": ""}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.outcomes |= r[2]
        for b in r[1]:
            ctx.violation(*b)
    lits = [lit_prog(s) for s in literals(ctx)] + [chr_prog(c) for c in CHARS]
    batch_check(ctx, lits, size=300)
    base = {s: e for s, e in zip(SNIPPETS, core.pmap(plain, SNIPPETS))}
    progs = []
    for sn, e in base.items():
        if isinstance(e, (Failed, core.Crash)) or not any(e.values()):
            ctx.violation(sn, {"prog": [sn, {"variables": {"@": ANY}}, []]}, "parses", repr(e), "base snippet")
    vs = set()
    for sn, text, key in variants(ctx):
        if text in vs or isinstance(base[sn], (Failed, core.Crash)):
            continue
        vs.add(text)
        progs.append(Prog(text + "\n", base[sn], key=key, what="filler"))
    ctx.nstates += len(lits) + len(progs)
    ctx.transitions += len(lits) + len(progs)
    batch_check(ctx, progs, size=80, base=1000000)
    for x in [todo[i][0] for i in range(0, nlex, max(1, nlex // 4))] + [p.text for p in progs[::max(1, len(progs) // 4)]]:
        ctx.sample(x, 8)
    ctx.note(texts=nlex, texts_validated_by_gcc=nlex, literals=len(lits), insertions=len(progs))
    ctx.assumptions.append("stray backslashes, unterminated literals and comments are not lexically valid and not covered")
