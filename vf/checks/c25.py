"""C25: the steps of a parser. Explicit-state search over histories of processing, listing what was not parsed, caching,
querying, binding and importing one parser. Once processed (or restored from a cache) a parser reports the definitions of its
files, whatever was done with it before and after; queries answer accordingly.
"""
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile

from .. import core, libs
from ..cparse import defs_of, norm
from ..core import Failed, guarded, own_dir

A = """
#ifndef A_H
#define A_H
#define N 4 /* four */
#define SQ(x) ((x) * N)
typedef struct { char c; int i; } An;
#pragma pack(push, 1)
struct P { char c; int i[N]; };
typedef union { char c; double d; } Pu;
#pragma pack(pop)
enum E { E0, E1 = 5, E2 };
static const char *s = "/* no comment */";
int x = SQ(3), y[N][2];
typedef struct P *PP;
int f(An a, PP p, int (*cb)(int));
inline int g(void) { return x; }
#undef SQ
#endif
"""
B = """
#if defined N && N > 3
struct { short a; } bn;
#else
int nothing;
#endif
#pragma pack(2)
typedef struct { char a; long l; } Bt;
enum { Z0, Z1 };
#define N 7
An after[N];
"""
C = """
template <class T> class vec { T *p; int zn; };
int before;
__asm__("nop");
#define M 3
union U { int i; struct { short lo, hi; } w; };
int printf(const char *fmt, ...);
@ 12 @
double last = 2.5;
"""
HEADERS = {"a": A, "b": B, "c": C, "e": "/* nothing */\n"}
# text of c nothing is reported of; parts of what is reported of each file (nothing of it may be left over)
LEFT = {"c": ["template", "nop", "12"]}
TAKEN = {"a": ["struct P", "An", "E1", "cb", "inline", "SQ", "comment"], "b": ["bn", "Bt", "Z1", "after", "nothing"],
         "c": ["union U", "before", "last", "lo"], "e": ["nothing"]}
WORDS = ["struct", "int", ";", "template", "@", "pragma", "}"]
SETS = ["a", "ab", "c", "ac", "bea", "aa"]
STARTS = ["now", "later", "cache", "copy"]
OPS = {
    "P": "process_all()",
    "U": "process_all(return_unparsed=True)",
    "C": "process_all(cache=...)",
    "S": "str, print_all",
    "F": "find, find_text, eval_type, is_fund_type",
    "I": "import into another parser that processes more",
    "W": "write_cache",
    "L": "bind a library",
}


def full(p):
    return {"defs": defs_of(p), "file_defs": {str(f): {k: {n: norm(v) for n, v in d[k].items()} for k in d}
                                              for f, d in p.file_defs.items()}}


class World:
    def __init__(self, files):
        self.d = tempfile.mkdtemp(dir=own_dir())
        self.files = files
        self.paths = []
        for f in files:
            self.paths.append(os.path.join(self.d, f + ".h"))
            with open(self.paths[-1], "w") as fd:
                fd.write(HEADERS[f])
        self.cache = os.path.join(self.d, "cache")
        self.reference = self.fresh(self.cache)
        r = guarded(self.texts)
        self.unparsed, self.raw, self.text = r if isinstance(r, tuple) else (r, None, None)

    def fresh(self, cache=None):
        """Definitions of the distinct files, processed once."""
        from pyclibrary import CParser
        return guarded(lambda: full(CParser(list(dict.fromkeys(self.paths)), cache=None)))

    def texts(self):
        """What a parser that processes its files once does not parse; lines found before and after processing."""
        from pyclibrary import CParser
        p = CParser(self.paths, process_all=False)
        raw = [p.find_text(t) for t in WORDS]
        if [sorted({f for f, _, _ in r}) for r in raw] != [sorted({f for f in self.paths if t in open(f).read()}) for t in WORDS]:
            raise ValueError("find_text misses lines: %r" % (raw,))
        un = p.process_all(return_unparsed=True)
        q = CParser(self.paths)
        return un, raw, [q.find_text(t) for t in WORDS]

    def empty(self):
        return {"defs": {k: {} for k in self.reference["defs"]}, "file_defs": {}}

    def start(self, how):
        from pyclibrary import CParser
        if how == "later":
            return CParser(self.paths, process_all=False), False
        if how == "cache":
            c = os.path.join(self.d, "c0")
            if not os.path.exists(c):
                CParser(self.paths, cache=c)
            return CParser(self.paths, cache=c), True
        if how == "copy":
            return CParser(None, copy_from=CParser(self.paths)), True
        return CParser(self.paths), True

    def op(self, p, o, done, whole, text):
        """Applies an operation; text: the lines find_text should find, None if not told. (what, expected, observed) when its own result is wrong."""
        from pyclibrary import CParser
        from pyclibrary.c_parser import Type
        if o == "P":
            p.process_all()
        elif o == "U":
            r = p.process_all(return_unparsed=True)
            if not isinstance(r, list) or len(r) != len(p.file_order):
                return "process_all(return_unparsed=True)", "one text per file", r
            if text is not None and whole and r != self.unparsed:
                return "what was not parsed", self.unparsed, r
            for path, text in zip(p.file_order, r):
                f = os.path.basename(path)[:-2]
                for t in TAKEN[f]:
                    if t in text:
                        return "unparsed text of " + f, "without %r, which is reported" % t, text
                if whole:
                    for t in LEFT.get(f, ()):
                        if t not in text:
                            return "unparsed text of " + f, "with %r, which is not reported" % t, text
        elif o == "C":
            p.process_all(cache=os.path.join(self.d, "c1"))
        elif o == "S":
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                p.print_all()
                for f in p.file_defs:
                    p.print_all(f)
            text = str(p)
            for k in p.defs:
                for n in p.defs[k]:
                    if n not in text or n not in out.getvalue():
                        return "printed form", "names " + n, text
        elif o == "F":
            for k in ("types", "variables", "functions"):
                for n, v in list(p.defs[k].items()):
                    t = v[1] if k == "variables" else v
                    guarded(p.eval_type, t)
                    guarded(p.is_fund_type, t)
                    if (str(None), k) in p.find(n):
                        return "find", "", p.find(n)
            want = sorted((f, k, n) for f, d in p.file_defs.items() for k in d for n in d[k] if n.startswith("E"))
            got = sorted(p.find(re.compile("E")))
            if want != got:
                return "find(re.compile('E'))", want, got
            guarded(p.eval_type, Type("An", "*"))
            got = [p.find_text(t) for t in WORDS]
            if text is not None and got != text:
                return "find_text", text, got
        elif o == "I":
            path = os.path.join(self.d, "more.h")
            with open(path, "w") as fd:
                fd.write("#undef N\n#define N 99\ntypedef struct { int zz; } An;\nstruct P { char gone; };\nint x = N;\n"
                         "#pragma pack(4)\nenum E { E9 };\n")
            q = CParser(path, copy_from=p)
            q.process_all(return_unparsed=True)
        elif o == "W":
            c = os.path.join(self.d, "c2")
            p.write_cache(c)
            if done:
                q = CParser(self.paths, process_all=False)
                q.process_all(cache=c, check_cache_validity=False)
                if full(q) != self.reference:
                    return "what the cache restores", *differ(self.reference, full(q))
        elif o == "L":
            lib = libs.bind(p)
            for k in ("types", "structs", "unions", "enums", "values"):
                for n in list(p.defs[k]):
                    guarded(lib, k, n)
                    guarded(getattr, lib, n)
        return None

    def run(self, how, hist):
        """None or (what, expected, observed)."""
        shutil.rmtree(os.path.join(self.d, "c1"), ignore_errors=True)
        for c in ("c1", "c2"):
            with contextlib.suppress(OSError):
                os.unlink(os.path.join(self.d, c))
        r = guarded(self.start, how)
        if isinstance(r, Failed):
            return "parse", "parses", repr(r)
        p, done = r
        text = {"now": self.text, "copy": None}.get(how, self.raw)
        for i, o in enumerate((None,) + tuple(hist)):
            if o:
                r = guarded(self.op, p, o, done, how != "cache", text)
                if isinstance(r, Failed):
                    return "%s after %s" % (OPS[o], "".join(hist[:i - 1])), "possible", repr(r)
                if r:
                    return r
                # (a cache that is there already is read instead)
                if text is not None and how != "cache" and (o in "PU" or o == "C" and "C" not in hist[:i - 1]):
                    text = self.text
                if how == "cache" and o in "PUC":
                    text = None      # conditions may have other outcomes with the macros of the cache
                done = done or o in "PUC"
            got = guarded(full, p)
            exp = self.reference if done else self.empty()
            if got != exp:
                return "definitions after %s" % (OPS[o] if o else "construction"), *differ(exp, got)
        return None


def differ(e, o):
    if isinstance(o, Failed):
        return "definitions", repr(o)
    a, b = flat(e), flat(o)
    ks = [k for k in sorted(set(a) | set(b)) if a.get(k, "absent") != b.get(k, "absent")][:12]
    return {k: a.get(k, "absent") for k in ks}, {k: b.get(k, "absent") for k in ks}


def flat(x):
    res = {"defs %s %s" % (k, n): v for k, d in x["defs"].items() for n, v in d.items()}
    res.update({"file_defs %s %s %s" % (f, k, n): v for f, t in x["file_defs"].items() for k, d in t.items() for n, v in d.items()})
    return res


def space(ctx):
    for n in range(0, ctx.pick(2, 3) + 1):
        for files in SETS:
            for how in STARTS:
                for h in itertools.product(OPS, repeat=n):
                    yield files, how, h
    for n in range(ctx.pick(3, 4), ctx.pick(4, 6) + 1):
        for how in STARTS:
            for h in itertools.product("PUW" if n > 3 else "PUCWI", repeat=n):
                yield "ab", how, h


def run_chunk(cases):
    worlds, res, outs = {}, [], set()
    for files, how, h in cases:
        core.mark("%s %s %s" % (files, how, h))
        w = worlds.get(files) or worlds.setdefault(files, World(files))
        bad = [x for x in (w.reference, w.unparsed) if isinstance(x, Failed)]
        if bad:
            res.append((files, {"files": files, "how": how, "hist": list(h)}, "parses", repr(bad[0]), "parse"))
            break
        r = w.run(how, h)
        outs.add(core.digest(str(w.reference)))
        if r:
            res.append(("%s: %s, then %s" % (files, how, " ".join(h)), {"files": files, "how": how, "hist": list(h)},
                        r[1], r[2], r[0]))
            if len(res) >= 6:
                break
    return len(cases), res, outs


def replay(case):
    r = core.pmap(lambda c: World(c["files"]).run(c["how"], c["hist"]), [case])[0]
    if isinstance(r, core.Crash):
        return "no crash", repr(r)
    return r and (r[1], r[2])


def run(ctx):
    cases = sorted(set(space(ctx)))
    parts = core.chunks(cases, 48)
    for part, r in zip(parts, core.pmap(run_chunk, parts)):
        if isinstance(r, core.Crash):
            ctx.violation("crash", {"files": part[0][0], "how": part[0][1], "hist": list(part[0][2])}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.outcomes |= r[2]
        for b in r[1]:
            ctx.violation(*b)
    ctx.nstates = len({(f, s, h[:i]) for f, s, h in cases for i in range(len(h) + 1)})
    ctx.transitions = sum(len(h) for _, _, h in cases)
    for c in cases[::max(1, len(cases) // 5)]:
        ctx.sample("%s, %s: %s" % (c[0], c[1], " ".join(OPS[o] for o in c[2])), 6)
    ctx.note(histories=len(cases), operations=OPS)
    ctx.assumptions.append("files are all given to the constructor (load_file is documented as not to be called); a file given "
                           "twice counts once")
