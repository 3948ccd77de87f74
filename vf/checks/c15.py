"""C15: lookups. Explicit-state search over lookup histories on fresh bindings, each followed by a sweep over all lookups;
oracle: a table (computed from the header text by hand-written rules) of the object each lookup denotes.
"""
import copy
import ctypes
import itertools
import os
import shutil

from .. import core, gcc, libs
from ..cparse import KINDS, norm
from ..core import Failed, guarded, own_dir

HEADER = """
#define VAL 7
#define pre_VAL2 8
#define q_VAL2 9
#define EMPTY
#define STR "x"
typedef int I;
typedef I *PI;
typedef I AI[3][2];
typedef int (*cb)(int, struct S *);
struct S { int a; struct S *next; };
typedef struct S S_t;
typedef S_t S_t2;
typedef S_t *S_p;
union U { int i; S_t s; };
typedef union U U_t;
typedef U_t U_t2;
enum E { E0, E1 = 4 };
typedef enum E E_t;
typedef E_t E_t2;
typedef struct { char c; } An;
typedef union { PI p; AI q; } An2;
struct pre_P { long z; };
struct q_P { char z; };
typedef struct pre_P pre_P_t;
struct Broken { Missing m; int x; };
typedef struct Broken Broken_t;
struct Uses { int n; struct Broken b; };
struct Half { struct Whole *w; struct Broken *b; };
struct Whole { struct Half *h; S_t s; };
struct Ok { struct Whole2 *w; };
struct Whole2 { struct Ok o; An an; };
typedef Nowhere Lost;
typedef Loop2 Loop1;
typedef Loop1 Loop2;
struct Dup { short d; };
int Dup(int a);
typedef S_t Dup2;
enum Dup2 { D2A };
extern int Dup3;
struct Dup3 { int q; };
typedef char K;
struct pre_K { int k; };
int f(int a);
int pre_f(int a);
int pre_g(S_t *s);
int nolib(int a);
int x = 3;
extern int y;
"""
CSRC = """
struct S { int a; struct S *next; };
int Dup(int a) { return a + 1; }
int f(int a) { return a + 2; }
int pre_f(int a) { return a + 3; }
int pre_g(struct S *s) { return s ? s->a : -1; }
"""
PREFIX = ["pre_", "q_"]
ORDER = ["values", "functions", "types", "structs", "unions", "enums"]

D = {"values": {"VAL": 7, "pre_VAL2": 8, "q_VAL2": 9, "EMPTY": None, "STR": "x", "E0": 0, "E1": 4, "D2A": 0, "x": 3,
                "y": None, "Dup3": None},
     "functions": {n: n for n in ("Dup", "f", "pre_f", "pre_g", "nolib")},
     # typedef -> (base, derivations); resolved below
     "types": {"I": "int", "PI": ("ptr", "int"), "AI": ("arr", "int"), "cb": ("fn", "cb"), "S_t": "struct S", "S_t2": "struct S",
               "S_p": ("ptr", "struct S"), "U_t": "union U", "U_t2": "union U", "E_t": "int", "E_t2": "int",
               "An": "struct anon_struct0", "An2": "union anon_union0", "pre_P_t": "struct pre_P", "Broken_t": "struct Broken",
               "Lost": None, "Loop1": None, "Loop2": None, "Dup2": "struct S", "K": "char"},
     "structs": {"S": ["a", "next"], "anon_struct0": ["c"], "pre_P": ["z"], "q_P": ["z"], "Broken": None, "Uses": None,
                 "Half": None, "Whole": None, "Ok": ["w"], "Whole2": ["o", "an"], "Dup": ["d"], "Dup3": ["q"], "pre_K": ["k"]},
     "unions": {"U": ["i", "s"], "anon_union0": ["p", "q"]},
     "enums": {"E": {"E0": 0, "E1": 4}, "Dup2": {"D2A": 0}}}
# aggregates that cannot be built, and why: Half points to Broken, Whole to Half
ENUM_ALIAS = {"E_t": "E", "E_t2": "E"}
for _k in ("structs", "unions"):
    for _n in list(D[_k]):
        D["types"]["%s %s" % (_k[:-1], _n)] = "%s %s" % (_k[:-1], _n)
for _n in D["enums"]:
    D["types"]["enum " + _n] = "int"

CT = {"int": ctypes.c_int, "char": ctypes.c_char}


def known(kind, name):
    return name in D[kind] or (kind in ("structs", "unions", "enums") and name in D["types"])


def denote(kind, name):
    """('obj', id) or ('error',) or ('value', v) for lib(kind, name), name as in the header."""
    if kind == "values":
        return ("value", D[kind][name])
    if kind == "functions":
        return ("error",) if name == "nolib" else ("obj", "function " + name)
    if kind == "types":
        t = D[kind][name]
        if t is None:
            return ("error",)
        if isinstance(t, tuple):
            return ("obj", "%s %s" % t)
        if " " in t:
            k, n = t.split()
            return denote(k + "s", n)
        return ("obj", "ctype " + t)
    if kind == "enums":
        n = ENUM_ALIAS.get(name, name)
        if n == "enum E":
            n = "E"
        if n == "enum Dup2":
            n = "Dup2"
        return ("obj", "enum " + n) if n in D["enums"] else ("error",)
    n = name
    if n not in D[kind]:
        t = D["types"][n]
        if not isinstance(t, str) or not t.startswith(kind[:-1] + " "):
            return ("error",)
        n = t.split()[1]
    return ("obj", "%s %s" % (kind[:-1], n)) if D[kind][n] else ("error",)


def expect(op, prefix):
    how, kind, name = op
    names = [name] + [p + name for p in prefix]
    if how == "attr":
        for k in ORDER:
            for n in names:
                if n in D[k]:
                    r = denote(k, n)
                    if r != ("value", None):
                        return r
                    break
        return ("error",)
    for n in names:
        if kind in D and known(kind, n):
            return denote(kind, n)
    return ("error",)


def perform(lib, op):
    how, kind, name = op
    if how == "attr":
        return guarded(getattr, lib, name)
    if how == "call":
        return guarded(lib, kind, name)
    return guarded(lambda: lib[kind][name])


def describes(obj, ident, lib):
    """Is this object the thing of that name? None or what is wrong."""
    k, n = ident.split(" ", 1)
    if k == "function":
        if getattr(obj, "name", None) != n:
            return "function %s" % getattr(obj, "name", obj)
        r = guarded(lambda: obj(None)() if n == "pre_g" else obj(1)())
        want = {"Dup": 2, "f": 3, "pre_f": 4, "pre_g": -1}[n]
        return None if r == want else "returns %r" % (r,)
    if k in ("struct", "union"):
        if not (isinstance(obj, type) and issubclass(obj, ctypes.Structure if k == "struct" else ctypes.Union)):
            return repr(obj)
        want = D[k + "s"][n]
        got = guarded(lambda: [f[0] for f in obj._fields_])
        if got != want:
            return "fields %r" % (got,)
        o = guarded(obj)
        return repr(o) if isinstance(o, Failed) else None
    if k == "enum":
        return None if obj == D["enums"][n] else repr(obj)
    if k == "ctype":
        return None if obj is CT[n] else repr(obj)
    if k == "arr":
        return None if obj is ctypes.c_int * 2 * 3 else repr(obj)
    if k == "ptr":
        return None if isinstance(obj, type) and issubclass(obj, ctypes._Pointer) and (
            obj._type_ is ctypes.c_int if n == "int" else True) else repr(obj)
    if k == "fn":
        return None if isinstance(obj, type) and issubclass(obj, ctypes._CFuncPtr) and obj._restype_ is ctypes.c_int and \
            obj._argtypes_[0] is ctypes.c_int else repr(obj)
    return "unknown"


def snapshot(p):
    return {k: {n: norm(v) for n, v in p.defs[k].items()} for k in KINDS}


_world = {}


def world():
    """One parser per process, its definitions, and the way to get fresh shared objects."""
    if _world.get("pid") != os.getpid():
        from pyclibrary import CParser
        path = os.path.join(own_dir(), "c15.h")
        with open(path, "w") as f:
            f.write(HEADER)
        p = guarded(CParser, path)
        _world.clear()
        _world.update(pid=os.getpid(), parser=p, snap=None if isinstance(p, Failed) else snapshot(p), n=0)
    return _world


def execute(prefix, hist, sweep=True):
    """None or (op, expected, observed)."""
    from pyclibrary import CLibrary
    w = world()
    p = w["parser"]
    if isinstance(p, Failed):
        return "parse", "parses", repr(p)
    w["n"] += 1
    so = os.path.join(own_dir(), "l%d.so" % w["n"])
    shutil.copy(os.path.join(core.scratch(), "c15.so"), so)
    lib = guarded(lambda: CLibrary(ctypes.CDLL(so), p, prefix=list(prefix)))
    os.unlink(so)
    if isinstance(lib, Failed):
        return "bind", "a binding", repr(lib)
    seen, errs, checked = {}, {}, set()
    ops = [(o, False) for o in hist] + ([(o, True) for o in OPS] if sweep else [])
    for op, _ in ops:
        obj = perform(lib, op)
        if op[0] == "item":
            n = op[2]
            e = w["snap"][op[1]].get(n, "absent") if op[1] in w["snap"] else "absent"
            g = "absent" if isinstance(obj, Failed) and obj.type == "KeyError" else repr(obj) if isinstance(obj, Failed) else norm(obj)
            if e != g:
                return op, e, g
            continue
        exp = expect(op, prefix)
        if exp[0] == "error":
            if not isinstance(obj, Failed):
                return op, "an error", repr(obj)
            if unknown(op, prefix) and not (obj.isa("NameError") or (op[0] == "call" and op[1] not in D and obj.isa("KeyError"))):
                return op, "NameError", repr(obj)
            if errs.setdefault(op, obj.type) != obj.type:
                return op, errs[op], obj.type
            continue
        if isinstance(obj, Failed):
            return op, exp[1], repr(obj)
        if exp[0] == "value":
            if obj != exp[1] or type(obj) is not type(exp[1]):
                return op, exp[1], repr(obj)
            continue
        if seen.setdefault(exp[1], obj) is not obj:
            return op, "the same object as before for " + exp[1], repr(obj)
        if exp[1] not in checked:
            checked.add(exp[1])
            d = describes(obj, exp[1], lib)
            if d:
                return op, exp[1], d
    # one object stands for one thing
    ids = {}
    for k, o in seen.items():
        if not k.startswith(("ptr", "arr", "ctype")) and ids.setdefault(id(o), k) != k:
            return ("end",), "different objects for %s and %s" % (k, ids[id(o)]), "the same"
    now = snapshot(p)
    if now != w["snap"]:
        bad = [(k, n) for k in KINDS for n in set(now[k]) | set(w["snap"][k]) if now[k].get(n) != w["snap"][k].get(n)]
        e, o = {str(b): w["snap"][b[0]].get(b[1]) for b in bad}, {str(b): now[b[0]].get(b[1]) for b in bad}
        _world.clear()
        return ("definitions afterwards",), e, o
    return None


def unknown(op, prefix):
    """Names (or kinds) the header does not have at all."""
    how, kind, name = op
    names = [name] + [p + name for p in prefix]
    if how == "attr":
        return not any(n in D[k] and not (k == "values" and D[k][n] is None) for k in ORDER for n in names)
    return kind not in D or not any(known(kind, n) for n in names)


NAMES = ["VAL", "VAL2", "EMPTY", "STR", "I", "PI", "AI", "cb", "S", "S_t", "S_t2", "S_p", "U", "U_t", "E", "E_t", "An", "An2", "P",
         "pre_P", "q_P", "P_t", "Broken", "Broken_t", "Uses", "Half", "Whole", "Ok", "Whole2", "Lost", "Loop1", "Dup", "Dup2",
         "Dup3", "K", "pre_K", "f", "pre_f", "g", "pre_g", "nolib", "x", "y", "nothing", "E1", "S_"]
CALLS = [("values", "VAL"), ("values", "VAL2"), ("values", "y"), ("values", "S"), ("functions", "f"), ("functions", "g"),
         ("functions", "pre_g"), ("functions", "Dup"), ("functions", "S"), ("functions", "nolib"), ("types", "S_t"),
         ("types", "S_t2"), ("types", "struct S"), ("types", "Broken_t"), ("types", "Loop1"), ("types", "AI"), ("types", "cb"),
         ("types", "P_t"), ("types", "An"), ("types", "union U"), ("types", "S"), ("types", "E_t"),
         ("structs", "S"), ("structs", "S_t"), ("structs", "S_t2"), ("structs", "P"), ("structs", "P_t"), ("structs", "pre_P"),
         ("structs", "An"), ("structs", "U_t"), ("structs", "I"), ("structs", "Broken"), ("structs", "Uses"), ("structs", "Half"),
         ("structs", "Whole"), ("structs", "Dup"), ("structs", "K"), ("structs", "U"), ("structs", "Lost"), ("structs", "Whole2"),
         ("unions", "U"), ("unions", "U_t"), ("unions", "U_t2"), ("unions", "S_t"), ("unions", "An2"), ("unions", "S"),
         ("enums", "E"), ("enums", "E_t"), ("enums", "E_t2"), ("enums", "Dup2"), ("enums", "I"), ("enums", "S_t"),
         ("macros", "VAL"), ("nokind", "S"), ("structs", "nothing"), ("values", "nothing")]
ITEMS = [("structs", "S"), ("types", "AI"), ("values", "VAL"), ("macros", "VAL"), ("functions", "f"), ("structs", "nothing"),
         ("nokind", "x"), ("structs", "Broken"), ("enums", "E"), ("unions", "U")]
OPS = [("attr", None, n) for n in NAMES] + [("call", k, n) for k, n in CALLS] + [("item", k, n) for k, n in ITEMS]
FEW = [("attr", None, n) for n in ("S", "S_t", "Uses", "Whole", "Half", "Broken_t", "P", "g", "AI", "Dup3", "Whole2", "An2")] + \
      [("call", "structs", n) for n in ("S_t", "Broken", "Whole", "P_t", "U_t", "Ok")] + \
      [("call", "types", "S_p"), ("call", "types", "Broken_t"), ("call", "unions", "U_t"), ("call", "unions", "S_t"),
       ("call", "functions", "pre_g"), ("item", "types", "AI")]


def replay(case):
    ready()
    r = core.pmap(lambda c: execute(c["prefix"], [tuple(o) for o in c["hist"]]), [case])[0]
    return ("no crash", repr(r)) if isinstance(r, core.Crash) else r and r[1:]


def ready():
    gcc.shared(CSRC, os.path.join(core.scratch(), "c15.so"))


def text(op):
    return op[2] if op[0] == "attr" else "(%s, %s)" % op[1:] if op[0] == "call" else "[%s][%s]" % op[1:]


def run_chunk(jobs):
    bad = []
    for prefix, hist in jobs:
        core.mark(str((prefix, hist)))
        r = execute(prefix, hist)
        if r:
            at = r[0] if isinstance(r[0], str) else text(r[0]) if len(r[0]) == 3 else r[0][0]
            bad.append(("prefix %s: %s" % (list(prefix), " ".join(map(text, hist))), {"prefix": prefix, "hist": hist},
                        r[1], r[2], "lookup of " + at))
            if len(bad) >= 6:
                break
    return len(jobs), bad


def space(ctx):
    two = tuple(PREFIX)
    for prefix in (two, (), ("pre_",), ("q_", "pre_"), ("", "pre_")):
        for n in range(0, 2 if prefix != two else 3):
            for h in itertools.product(OPS, repeat=n):
                yield prefix, h
    for n in range(3, ctx.pick(3, 4) + 1):
        for h in itertools.product(FEW, repeat=n):
            if len(set(h)) == n:
                yield two, h
    # everything forwards and backwards
    yield two, tuple(OPS)
    yield two, tuple(OPS[::-1])


def run(ctx):
    ready()
    jobs = list(space(ctx))
    parts = core.chunks(jobs, 400)
    for part, r in zip(parts, core.pmap(run_chunk, parts)):
        if isinstance(r, core.Crash):
            ctx.violation("crash " + r.marker, {"prefix": part[0][0], "hist": part[0][1]}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        for b in r[1]:
            ctx.violation(*b)
    states = set()
    for prefix, h in jobs:
        s = frozenset()
        states.add((prefix, s))
        for op in h:
            if op[0] != "item":
                s = s | {str(expect(op, prefix))}
            states.add((prefix, s))
        ctx.transitions += len(h) + len(OPS)
    ctx.nstates = len(states)
    ctx.outcomes |= {str(expect(o, PREFIX)) for o in OPS if o[0] != "item"}
    for p, h in jobs[::max(1, len(jobs) // 5)]:
        ctx.sample("prefix %s: %s" % (list(p), " ".join(map(text, h)))[:400], 6)
    ctx.note(histories=len(jobs), lookups=len(OPS))
    ctx.assumptions.append("a value the parser could not determine (None) is passed over by attribute access, as documented by "
                           "the suite; variables of the library itself are not bound")
