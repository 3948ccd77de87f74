"""C29: how the text of a header is stored and handed over. Every sequence of snippets up to a length x encodings x line ends
x endings of the file, and x sets of replacements x ways to hand the file over. Oracle: the parse of the same text, replaced
by hand where asked, stored as UTF-8 with plain line ends.
"""
import itertools
import os
import shutil
import tempfile

from .. import core, libs
from ..cparse import defs_of
from ..core import Failed, guarded, own_dir

# name -> text (letters outside ASCII stand where C allows them)
SN = {
    "plain": "int a1 = 1;\nunsigned long f(char *s, struct S *p);\n",
    "guard": "#ifndef GUARD\n#define GUARD\n#endif\n",
    "comment": "/* größe é\n * ÿ */ int b1; // naïve £\nint b2;\n",
    "string": "#define NAME \"é ÿ\"\nchar *name = \"gr\\xfc ü £\";\n",
    "char": "#define LETTER 'é'\nint letter = sizeof('ü');\n",
    "splice": "#define LONG 1 + \\\n  2\nint sp\\\nlice = LONG;\n",
    "pack": "#pragma pack(push, 1)\nstruct S { char c; /* ñ */\n int i; };\n#pragma pack(pop)\n",
    "enum": "enum E { E0, /* Ä */ E1 = 4,\n\n E2 };\n",
    "cond": "#if 0 // ç\nint no;\n#else\nint yes;\n#endif\n",
    "api": "EXPORT(int) g(int a);\nFOO_API double BAR h(void);\n__weird int w;\n",
    "macro": "#define SQ(x) ((x) * \\\n   (x)) /* ö */\nint sq = SQ(3);\n",
    "blank": "\n\n \t\n\f\n",
    "tab": "\tint\tt1\t=\t2\t;\t\n\vint t2;\n",
    "nonlatin": "/* λ → 日本 */ int u1; // 日\nconst char *u2 = \"日本\";\n",
    "junk": "template <class é> x;\nint after;\n",
}
ENC = ["utf-8", "utf-8-sig", "bom", "latin-1", "cp1252", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "iso8859-15", "shift_jis", "cp037"]
CODEC = {"bom": "utf-8-sig"}       # what editors put in front of UTF-8, not mentioned when the file is read
EOL = ["\n", "\r\n", "\r"]
END = ["", "cut", "more"]       # as it is, without the last line end, with further ones
# name -> (replacements, what they make of a text)
REPL = {
    "none": (None, lambda s: s),
    "empty": ({}, lambda s: s),
    "word": ({"FOO_API ": ""}, lambda s: s.replace("FOO_API ", "")),
    "regex": ({r"EXPORT\((\w+)\)": r"\1", r"\bBAR\b": ""}, lambda s: s.replace("EXPORT(int)", "int").replace(" BAR ", "  ")),
    "chain": ({"__weird": "WEIRD", "WEIRD": "const", "FOO_API": "BAR", "BAR": ""},
              lambda s: s.replace("__weird", "const").replace("FOO_API", "").replace("BAR", "")),
    "lines": ({"#ifndef GUARD\n#define GUARD\n#endif\n": "int unguarded;\n", r"\\\n": " "},
              lambda s: s.replace("#ifndef GUARD\n#define GUARD\n#endif\n", "int unguarded;\n").replace("\\\n", " ")),
    "letters": ({"é": "e", "日": "sun", "[^\x00-\x7f]": "_"},
                lambda s: "".join(c if ord(c) < 128 else "_" for c in s.replace("é", "e").replace("日", "sun"))),
    "newtext": ({"int b2;": "#define B2 4\nint b2[B2];", "template <class": "// template"},
                lambda s: s.replace("int b2;", "#define B2 4\nint b2[B2];").replace("template <class", "// template")),
    "anchor": ({"(?m)^int (.*);": r"long \1;"},
               lambda s: "\n".join("long" + x[3:] if x.startswith("int ") and x.endswith(";") and "\f" not in x else x
                                   for x in s.split("\n"))),
}
WAYS = ["str", "list", "tuple", "later", "bind", "load", "twofiles", "iter", "mixed"]


class World:
    def __init__(self):
        self.ref = {}

    def reference(self, text):
        from pyclibrary import CParser
        if text not in self.ref:
            d = tempfile.mkdtemp(dir=own_dir())
            p = os.path.join(d, "h.h")
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(text)
            r = guarded(lambda: defs_of(CParser([p])))
            shutil.rmtree(d)
            self.ref[text] = r
        return self.ref[text]

    def get(self, text, enc, repl, way):
        """The definitions with the file read this way."""
        from pyclibrary import CParser
        d = tempfile.mkdtemp(dir=own_dir())
        p = os.path.join(d, "h.h")
        with open(p, "wb") as f:
            f.write(text.encode(CODEC.get(enc, enc)))
        if enc == "bom":
            enc = "utf-8"
        kw = {}
        if enc != "utf-8":
            kw["encoding"] = enc
        mine = None
        if repl != "none":
            mine = kw["replace"] = dict(REPL[repl][0])
        try:
            if way == "str":
                q = CParser(p, **kw)
            elif way == "tuple":
                q = CParser((p,), **kw)
            elif way == "iter":
                q = CParser(iter([p]), **kw)
            elif way == "later":
                q = CParser([p], process_all=False, **kw)
                if any(q.defs.values()):
                    return "definitions before the file is processed"
                q.process_all()
            elif way == "bind":
                from pyclibrary import CLibrary
                so = libs.fresh_so()
                lib = CLibrary(so, [p], **kw)
                os.unlink(so)
                q = lib._headers_
            elif way == "load":
                # what is given for a file goes before the defaults of the parser
                q = CParser(process_all=False, encoding="ascii")
                q.load_file(p, mine, enc)
                q.process_all()
            elif way == "twofiles":
                other = os.path.join(d, "o.h")
                with open(other, "wb") as f:
                    f.write("// é\nint other_file;\n".encode(enc, "replace"))
                q = CParser([other, p], **kw)
                for k in ("variables", "values"):
                    q.defs[k].pop("other_file")
            elif way == "mixed":
                # each file has an encoding and replacements of its own, only this one takes the defaults
                q = CParser(process_all=False, **({"encoding": enc} if enc != "utf-8" else {}))
                for name, e in (("m1.h", "utf-16"), ("h.h", None), ("m2.h", "cp037")):
                    if e:
                        with open(os.path.join(d, name), "wb") as f:
                            f.write("// \xe9\nint other_file;\n".encode(e))
                        q.load_file(os.path.join(d, name), {"(?s)^.*$": "int %s_file;" % name[:2]}, encoding=e)
                    else:
                        q.load_file(p, mine)
                q.process_all()
                for k, n in itertools.product(("variables", "values"), ("m1_file", "m2_file")):
                    q.defs[k].pop(n)
            else:
                q = CParser([p], **kw)
            if mine is not None and mine != REPL[repl][0]:
                return "the replacements of the caller were changed"
            return defs_of(q)
        finally:
            shutil.rmtree(d)

    def case(self, names, enc, eol, end, repl, way):
        plain = "".join(SN[n] for n in names)
        if end == "cut":
            plain = plain[:-1] if plain.endswith("\n") else plain
        elif end == "more":
            plain += "\n\n \n"
        exp = self.reference(REPL[repl][1](plain))
        if isinstance(exp, Failed):
            return "definitions", repr(exp)
        got = guarded(self.get, plain.replace("\n", eol), enc, repl, way)
        if got == exp:
            return None
        if isinstance(got, Failed):
            return "definitions", repr(got)
        if isinstance(got, str):
            return "nothing else", got
        ks = [(k, n) for k in exp for n in sorted(set(exp[k]) | set(got[k])) if exp[k].get(n, "absent") != got[k].get(n, "absent")]
        return ({"%s %s" % x: exp[x[0]].get(x[1], "absent") for x in ks[:8]}, {"%s %s" % x: got[x[0]].get(x[1], "absent") for x in ks[:8]})


def fits(names, enc):
    try:
        "".join(SN[n] for n in names).encode(CODEC.get(enc, enc))
        return True
    except UnicodeEncodeError:
        return False


def space(ctx):
    names = list(SN)
    one = [()] + [(n,) for n in names]
    two = list(itertools.permutations(names, 2))
    for s in one:
        for enc, eol, end, repl in itertools.product(ENC, EOL, END, REPL):
            yield s, enc, eol, end, repl, "list"
        for enc, repl, way in itertools.product(ENC, REPL, WAYS):
            yield s, enc, "\n", "", repl, way
    for i, s in enumerate(two):
        for j, (enc, eol, end) in enumerate(itertools.product(ENC, EOL, END)):
            if not ctx.quick:
                for repl in REPL:
                    yield s, enc, eol, end, repl, WAYS[(i + j) % len(WAYS)]
            elif (i + j) % 3 == 0:
                yield s, enc, eol, end, list(REPL)[(i + j) // 3 % len(REPL)], WAYS[(i + j) // 5 % len(WAYS)]
        for repl in REPL:
            yield s, "utf-8", "\n", "", repl, "str"
    if not ctx.quick:
        for i, s in enumerate(itertools.permutations(names, 3)):
            for j, enc in enumerate(ENC):
                yield s, enc, EOL[(i + j) % 3], "", list(REPL)[(i + j) % len(REPL)], "list"


def run_chunk(cases):
    w, res = World(), []
    for c in cases:
        core.mark(str(c))
        r = guarded(w.case, *c)
        if isinstance(r, Failed):
            r = "an answer", repr(r)
        if r:
            res.append(("%s as %s, lines end in %r, file %s, replacements %s, given as %s" % (" ".join(c[0]) or "empty", *c[1:]),
                        {"case": [list(c[0]), *c[1:]]}, r[0], r[1], "definitions"))
            if len(res) >= 6:
                break
    return len(cases), res, {core.digest(str(v)) for v in w.ref.values()}


def replay(case):
    r = core.pmap(lambda c: guarded(World().case, *c), [case["case"]])[0]
    if isinstance(r, (core.Crash, Failed)):
        return "an answer", repr(r)
    return r


def run(ctx):
    libs.base_so()
    cases = [c for c in dict.fromkeys(space(ctx)) if fits(c[0], c[1])]
    cases.sort(key=lambda c: (c[0], c[4]))
    parts = core.chunks(cases, 64)
    for part, r in zip(parts, core.pmap(run_chunk, parts)):
        if isinstance(r, core.Crash):
            ctx.violation("crash", {"case": [list(part[0][0]), *part[0][1:]]}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.outcomes |= r[2]
        for b in r[1]:
            ctx.violation(*b)
    ctx.nstates = ctx.transitions = len(cases)
    for c in cases[::max(1, len(cases) // 6)]:
        ctx.sample("%s: %s, %r, %s, %s, %s" % (" ".join(c[0]), *c[1:]), 7)
    ctx.note(cases=len(cases), encodings=ENC, ways=WAYS, replacements=list(REPL))
    ctx.assumptions.append("the text can be stored in the encoding; replacements are regular expressions applied one after the "
                           "other in the order of the dictionary")
