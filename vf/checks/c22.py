"""C22: what the parser does not support leaves everything else alone.

Every construct of a catalogue is put into every gap of orderings of base declarations, alone and in company of other
constructs. The base declarations must be reported exactly as when they stand alone; of the construct's names only those
declared at its outermost level (written @o...) may be reported, never those of bodies, initialisers, literals (@b...)."""
import itertools
import re

from .. import core, cparse
from ..cparse import KINDS, Prog, batch_check, plain
from ..core import Failed

BASE = [
    "int @v1 = 5;", "const unsigned long *@v2, @v3[4];", "typedef int (*@t1)(int @p, char);", "typedef struct { int @m; char c[3]; } @t2;",
    "struct @s1 { int a; struct { char b; } n; unsigned f : 3; };", "union @u1 { int a; double b; } @v4;",
    "enum @e1 { @E1, @E2 = 7, @E3 };", "int @f1(int a, struct @x1 *b);", "static inline int @f2(int a) { int @b1 = a; return @b1; }",
    "#define @M1 (12 + 3)", "#define @F1(a, b) ((a) + (b) * 2)", "#define @T1 int\nextern @T1 @v5;",
    "#pragma pack(push, 2)\nstruct @s2 { char a; int b; };\n#pragma pack(pop)", "#ifndef @G\n#define @G\nlong @v6;\n#endif",
    "char *@v7 = \"int @b2;\";", "void __stdcall @f3(void);", "typedef enum { @E4 = 3 } @t3;", "struct @s3;", "@t9 @v8;", "int @v9[2][3] = {1, 2};",
]

DIRECTIVES = [
    "#error int @b;", "#warning struct @b { int x; };", "#line 77 \"@b.c\"", "# 12 \"@b.h\" 2", "#ident \"int @b;\"", "#include <@b.h>",
    "#include \"int @b;\"", "#import \"@b.h\"", "#", "  #  ", "#pragma once", "#pragma GCC diagnostic push", "#pragma comment(lib, \"int @b;\")",
    "#pragma warning(disable: 4786)", "#pragma", "#pragma omp parallel for", "#unknown int @b;", "#assert machine(x86)", "#pragma STDC FENV_ACCESS ON",
    "#define", "#define 3 int @b;", "#undef", "#define @oS(x) #x", "#define @oC(a, b) a##b", "#define @oV(fmt, ...) f(fmt, __VA_ARGS__)",
    "#define @oD do { int @b; } while (0)", "#define @oX(...) int @b;", "#define @oN(a", "#if __has_include(<@b.h>)\nint @o;\n#endif",
    "#if defined __GNUC__ && __GNUC_PREREQ(4, 2)\nint @o;\n#endif", "#if 0\nint @b; } { \"\n#endif", "#if @oU(3\n#endif", "#define @oP(x) _Pragma(#x)",
    "#include @oINC", "#define @oQ 'ab\"c'", "#pragma pack (push, r1, 16) junk\n#pragma pack(pop)", "#undef @oNone",
    "#if 1 ? 0 : 1\nint @o;\n#endif", "#if\n#endif", "#ifdef\n#endif", "#ifdef @oU\n@@@ $$$ int @b\n#else\n#endif", "#sccs \"x\"",
]
BODY = "{ int @b1; { struct @b2 { int @b3; }; typedef char @b4; } char *s = \"}\", c = '{'; enum { @b5 }; if (s) { long @b6(int); } for (;;) @b7 * @b8; }"
FUNCS = [
    # function definitions with headers out of reach
    "int @o(int a, ...) " + BODY, "int @o(a, b) int a; char *b; " + BODY, "@o() " + BODY, "int (@o)(int a) __attribute__((noinline)) " + BODY,
    "int @o(int a[static 3]) " + BODY, "int @o(register int a) " + BODY, "auto @o(int a) -> int " + BODY, "int @o::f(int a) const " + BODY,
    "template <class T> T @o(T a) " + BODY, "int @o(int a) try " + BODY + " catch (...) { int @b9; }", "_Noreturn void @o(void) " + BODY,
    "int operator+(int a, int b) " + BODY, "int @o(int (*cb)(int, ...)) " + BODY, "constexpr int @o(void) " + BODY,
    "int @o(void) __asm__(\"int @b9;\") " + BODY, "int @o(struct { int x; } a) " + BODY, "static int __fastcall @o(int a) " + BODY,
    "void @o(int n, int a[n]) " + BODY, "@oT *@o::operator()(int) " + BODY, "int *@o(int a, ...) " + BODY, "int @o(int a) " + BODY,
    "void @o(void) { int @b1 = '\\''; char *@b2 = \"\\\"{\"; int @b3; }", "void @o(void) { }", "void @o(void) { ; { { } int @b; } }",
]
SHADOW = "{ int @v1 = 9; struct @s1 { char z; }; enum @e1 { @E1 = 99 }; typedef char @t1; union @u1 { char z; } @v4; long @v9; { int @f1(char); } }"
FUNCS += ["int @o(int a, ...) " + SHADOW, "int @o(int a) " + SHADOW, "@o(a) " + SHADOW, "int @o = (" + SHADOW + ");"]
# They name what may be defined before or after them
MENTIONS = [
    "int @o(struct @s1 *a, ...);", "struct @s1 @o asm(\"x\");", "enum @e1 @o(int, ...);", "union @u1 @o = { .a = 1 };", "int @o = sizeof(struct @s1);",
    "struct @s1 @o(register int a);", "_Static_assert(sizeof(union @u1) == 8);", "@t1 @o asm(\"int @v1;\");",
    "struct @s3 *@o(struct @s2 a, ...), @o1;", "struct @s1;", "enum @e1;", "union @u1;", "struct @s1 *@o; struct @s2 @o1[3];",
]
INITS = [
    "struct @o1 @o = { .a = 1, .b = { 2 } };", "int @o[3] = { [0] = 1, [2] = 5 };", "int @o = ({ int @b = 3; @b; });", "char @o[] = { 'a', ';', '}' };",
    "int @o = sizeof(struct @o1);", "char *@o[] = { \"int @b;\", @of(\"}\") };", "void (*@o)(void) = [](int @b) { int @b1; };", "int @o(3);", "int @o{4};",
    "struct { int x; } @o = { 1 }, @o2 = {{{2}}};", "int @o = 1 ? 2 : 3, @o2;", "double @o = 0x1p3;", "wchar_t *@o = L\"int @b;\";",
    "char *@o = \"a\" \"int @b; \" \"c\";", "int @o[2][2] = { { 1, 2 }, { 3, 4 } };", "struct @o1 @o = { (int) { int @b; } };", "int @o = (1, 2);",
    "char *@o = R\"(int @b;)\";", "int @o = _Generic(1, int: 2, default: 3);", "int @o = alignof(long);", "int *@o = &(int){ 3 };",
    "struct @o1 @o = { \"{\", '\\'', \"int @b;\" };", "char @o = '\"';", "char *@o = \"\\\\\";", "int @o = @oc(\"int @b;\");", "@oT @o = { @oa, { \"}\" } };",
]
DECLS = [
    "int @o(int a, ...);", "_Static_assert(sizeof(int) == 4, \"int @b;\");", "asm(\"int @b;\");", "__asm__ volatile (\"struct @b { int x; };\" : : );",
    "int @o asm(\"int @b;\");", "typeof(int) @o;", "_Alignas(16) int @o;", "_Thread_local int @o;", "__extension__ typedef long long @o;",
    "double _Complex @o;", "_Atomic(int) @o;", "int @o(int a[static 3]);", "class @o { public: int @o1; };", "class @o;",
    "namespace @o { int @o1; }", "extern \"C\" { int @o1; }", "extern \"C\" int @o;", "using namespace @o;", "template <class T> struct @o { T @o1; };",
    "struct @o { int a; int f(int, ...); int b; };", "struct @o { int : 0; int b; };", "struct @o { int a; @oQ_OBJECT }; ", "enum class @o { @o1 };",
    "enum @o : int { @o1, @o2 };", "typedef struct { int a; ~@o(); } @o;", "struct @o : public @o1 { int a; };", "friend int @o();", ";", ";;;", "int;",
    "int @o[] [3];", "int (*@o[3])(int, ...);", "typedef int (*@o)(const char *, ...);", "typedef int @o asm(\"x\");", "int @o : 3;", "@o(1, 2, 3)", "@o(int);",
    "@oDECLARE(\"int @b;\", 'x');", "@oMACRO", "@o::@o1 @o2;", "int @o __attribute__((section(\"int @b;\")));", "[[nodiscard]] int @o(void);",
    "int &&@o;", "auto @o = 5;", "int @o, @o1(int, ...), @o2;", "struct @o { int a; } __attribute__((packed)) @o1;", "typedef @o;", "int @o(int @p = f(1, \"int @b;\"));",
    "$$$", "$ ` $", "\\", "\"int @b;\"", "'x'", "\"{\" ;", "'{' '}' \"(\"", "( int @o )", "struct @o { struct { int f(int, ...); } a; int b; };",
    "union @o { @oMACRO(x) int a; };", "typedef union { int x : 3, : 0; } @o;", "static const struct @o1 { int f(...); } @o = { 3, { 4 } };",
    "struct @o { int a = 3; struct @o1 { int z } }; ", "enum @o { @o1 @o2 };", "enum { };", "struct @o { int f() { int @b; } int b; };",
    "struct @o { @oX(3) { int @b; } };",
]


def own(c):
    names = {m for m in re.findall(r"@o\w*", c)}
    return sorted(names | {k + " " + n for n in names for k in ("struct", "union", "enum")})


def constructs():
    return [(c, "directive") for c in DIRECTIVES] + [(c, "function") for c in FUNCS] + [(c, "initialiser") for c in INITS] + \
        [(c, "declaration") for c in DECLS] + [(c, "mention") for c in MENTIONS]


def merge(parts, base):
    res = {k: {} for k in KINDS}
    for p in parts:
        for k in KINDS:
            res[k].update(base[p][k])
    return res


def prog(pieces, base, what):
    """pieces: list of ("b", text) / ("c", text)."""
    cs = [t for k, t in pieces if k == "c"]
    text = "\n".join(t for _, t in pieces) + "\n"
    expect = merge([t for k, t in pieces if k == "b"], base)
    ignore = {n for c in cs for n in own(c)}
    # tags which are merely named become known as well
    for c in cs:
        if c in MENTIONS:
            for kw, tag in re.findall(r"(struct|union|enum) (@[sue]\d)", c):
                ignore |= {n for n, k in ((tag, kw + "s"), (kw + " " + tag, "types")) if n not in expect[k]}
    return Prog(text, expect, what=what, ignore=sorted(ignore))


def programs(ctx, base):
    cs = constructs()
    n = len(BASE)
    for x, (c, kind) in enumerate(cs):
        for i in range(n):
            for j in range(n):
                if i == j or ctx.quick and j != (i + 1 + x % (n - 1)) % n:
                    continue
                yield prog([("b", BASE[i]), ("c", c), ("b", BASE[j])], base, kind)
        for i in range(n):
            yield prog([("c", c), ("b", BASE[i]), ("c", c)], base, kind)
            if not ctx.quick:
                yield prog([("b", BASE[i]), ("c", c), ("c", c), ("b", BASE[(i + 1) % n])], base, kind)
    k = 0
    for (c, ka), (d, kb) in itertools.product(cs, ctx.pick(cs[::4], cs)):
        k += 1
        yield prog([("b", BASE[k % n]), ("c", c), ("c", d), ("b", BASE[(k // n + k + 1) % n if (k // n + 1) % n else k % n - 1])], base,
                   ka + " and " + kb)


MEMBERS = ["int a;", "char *b, c[3];", "unsigned f : 3;", "struct { int x; } n;", "union { int y; };", "int (*cb)(int a);", "struct @s1 *p;"]
METHODS = ["@S(int x) { a = x; }", "@S() " + BODY, "int m(void) " + BODY, "int *m(int a, char) " + SHADOW, "@tt (*m(int x))(int) { return 0; }",
           "const char *m(double *q) { return \"};\"; }", "operatorless(void) { ; }", "unsigned long m(int (*cb)(int)) { char c = '}'; }"]
STRUCTS = ["struct @S {%s};", "union @S {%s};", "typedef struct {%s} @t;", "struct @S {%s} @v, *@w;", "typedef union @S {%s} *@t;",
           "int @f(struct @S {%s} *a);", "struct @O { struct @S {%s} i; int z; };"]


def method_programs(ctx):
    """Functions defined inside structs: their members are those of the struct without."""
    sets = [tuple(MEMBERS[i:i + k]) for k in (1, 2, 3) for i in range(len(MEMBERS) - k + 1)]
    x = 0
    for ms in sets:
        for mth in METHODS:
            for g in range(len(ms) + 1):
                for k, st in enumerate(STRUCTS):
                    x += 1
                    if ctx.quick and (x + g) % 3:
                        continue
                    plain = st % (" " + " ".join(ms) + " ")
                    text = st % ("\n" + "\n".join(ms[:g] + (mth,) + ms[g:]) + "\n")
                    yield text, plain
                    if g < len(ms):
                        yield st % (" " + " ".join(ms[:g] + (mth,) + ms[g:] + (METHODS[(x + 1) % len(METHODS)],)) + " "), plain


def run(ctx):
    cparse.EXPAND = True
    base = {}
    for b in BASE:
        r = core.pmap(plain, [b + "\n"], nproc=1)[0]
        if isinstance(r, (Failed, core.Crash)):
            ctx.violation(b, {"prog": [b, {}, []], "kw": {}}, "parses", repr(r))
            return
        base[b] = r
    progs, seen = [], set()
    for p in programs(ctx, base):
        if p.text not in seen:
            seen.add(p.text)
            progs.append(p)
            ctx.state(p.text)
    pairs = list(method_programs(ctx))
    plains = sorted({b for _, b in pairs})
    for b, r in zip(plains, core.pmap(plain, [b + "\n" for b in plains])):
        if isinstance(r, (Failed, core.Crash)):
            ctx.violation(b, {"prog": [b, {}, []], "kw": {}}, "parses", repr(r))
            return
        base[b] = r
    for text, b in pairs:
        if text not in seen:
            seen.add(text)
            progs.append(Prog(text + "\n", base[b], what="function in a struct"))
            ctx.state(text)
    ctx.note(programs=len(progs), functions_in_structs=len(pairs), constructs=len(constructs()), base_declarations=len(BASE))
    batch_check(ctx, progs, size=60)
    ctx.transitions = ctx.traces
    for p in progs[:: len(progs) // 5]:
        ctx.sample(p.text)
    ctx.assumptions.append("constructs have balanced braces, parentheses and quotes; names a construct itself declares at its outermost "
                           "level may be reported or not")


def replay(case):
    cparse.EXPAND = True
    return cparse.replay_prog(case)
