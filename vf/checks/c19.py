"""C19: initialisation. (1) Explicit-state search over histories of explicit and automatic initialisations and first uses,
each in a process of its own, against a two-state model (not yet / set up with the first configuration); every history ends
with a sweep that observes which extensions are in effect. (2) Exhaustive placement of declared types and modifiers in a
catalogue of declarations, against the same declarations with a built-in type and no modifier.
"""
import copy
import ctypes
import itertools
import os

from .. import core, libs
from ..cparse import norm, parse, write
from ..core import Failed, guarded, own_dir

CT = {"short": ctypes.c_short, "float": ctypes.c_float, "double": ctypes.c_double, "int": ctypes.c_int}
# name -> (function, extra types, extra modifiers, os)
INITS = {
    "init()": ("init", None, None, None),
    "init(ta short; MA)": ("init", {"ta": "short"}, ["MA"], None),
    "init(tb float, ta double; MB)": ("init", {"tb": "float", "ta": "double"}, ["MB"], None),
    "init(; MA MB)": ("init", None, ["MA", "MB"], None),
    "init(tb int;)": ("init", {"tb": "int"}, None, None),
    "init({}; [])": ("init", {}, [], None),
    "auto()": ("auto", None, None, None),
    "auto(ta short; MA)": ("auto", {"ta": "short"}, ["MA"], None),
    "auto(win32)": ("auto", None, None, "win32"),
    "auto(tb double; MB; win32)": ("auto", {"tb": "double"}, ["MB"], "win32"),
    "auto(tb int; MA; darwin)": ("auto", {"tb": "int"}, ["MA"], "darwin"),
    # types that are known without that
    "init(wchar_t short, time_t float;)": ("init", {"wchar_t": "short", "time_t": "float"}, None, None),
    "auto(time_t int, wchar_t double, bool float;)": ("auto", {"time_t": "int", "wchar_t": "double", "bool": "float"}, None, None),
    "auto(__int64 short; win32)": ("auto", {"__int64": "short"}, None, "win32"),
}
KNOWN = list(INITS)[-3:]
USES = ["parse", "empty", "bind", "reject"]
OPS = list(INITS) + USES
WIN_MODS = ["__based", "__declspec", "__fastcall", "__restrict", "__sptr", "__uptr", "__w64", "__unaligned", "__nullterminated"]


def config(op):
    """(types, modifiers) that an operation sets up when it is the first one, None if it sets up nothing."""
    if op == "reject":
        return None
    if op not in INITS:
        return {}, []
    f, t, m, o = INITS[op]
    t, m = dict(t or {}), list(m or [])
    if o == "win32":
        t.setdefault("__int64", "win")
        m += WIN_MODS
    return t, m


def perform(op, kept):
    """Outcome of one operation; the containers handed over are kept for a look at them later."""
    from pyclibrary import CParser, auto_init, init
    if op in INITS:
        f, t, m, o = INITS[op]
        t = None if t is None else {k: CT[v] for k, v in t.items()}
        m = None if m is None else list(m)
        kept.append((t, copy.copy(t), m, copy.copy(m)))
        r = guarded(init, t, m) if f == "init" else guarded(auto_init, t, m, o)
        return r.type if isinstance(r, Failed) else "ok"
    if op == "reject":      # what is no modifier list
        r = guarded(init, {"ta": ctypes.c_double}, 5)
        return r.type if isinstance(r, Failed) else "ok"
    if op == "empty":
        r = guarded(CParser)
    elif op == "parse":
        r = parse("int use(int a);\n")
    else:
        r = libs.bind(parse("int use(int a);\n"))
    return r.type if isinstance(r, Failed) else "ok"


PROBE = """
struct St_%(t)s { %(t)s m; %(t)s *p, n[2]; unsigned u; };
%(t)s fn_%(t)s(%(t)s a, const %(t)s *b);
typedef %(t)s al_%(t)s;
#define ca_%(t)s ((%(t)s)5 + 1)
"""
MPROBE = "int %(m)s mx%(n)d; %(m)s int my%(n)d; int * %(m)s mz%(n)d; int %(m)s mf%(n)d(int %(m)s a);\ntypedef int (%(m)s *mt%(n)d)(int);\n"
CSRC = "int fn_ta(void) { return 1; } int fn_tb(void) { return 2; } int fn___int64(void) { return 3; }\n" \
    "int fn_wchar_t(void) { return 4; } int fn_time_t(void) { return 5; } int fn_bool(void) { return 6; }\n"


def describe(t):
    if t is None or not isinstance(t, type):
        return repr(t)
    if issubclass(t, ctypes.Structure):
        return [[f[0], describe(f[1])] + list(f[2:]) for f in t._fields_]
    if issubclass(t, ctypes.Array):
        return ["array", t._length_, describe(t._type_)]
    if issubclass(t, ctypes._Pointer):
        return ["ptr", describe(t._type_)]
    if hasattr(t, "_argtypes_"):
        return ["fn", describe(t._restype_)] + [describe(a) for a in t._argtypes_]
    return t.__name__


def sweep():
    """What is observed of each type and each modifier."""
    types, mods = ("ta", "tb", "__int64", "wchar_t", "time_t", "bool"), ("", "MA", "MB", "__declspec(x)")
    text = "".join(PROBE % {"t": t} for t in types) + "".join(MPROBE % {"m": m, "n": i} for i, m in enumerate(mods))
    p = parse(text)
    if isinstance(p, Failed):
        return {t: p.type for t in types}, {m: p.type for m in mods}
    lib = libs.bind(p, libs.fresh_so(os.path.join(core.scratch(), "c19.so")))

    def show(f):
        r = lib if isinstance(lib, Failed) else guarded(f)
        return r.type if isinstance(r, Failed) else r
    d = p.defs
    a, b = {}, {}
    for t in types:
        st, fn, al, ca = "St_" + t, "fn_" + t, "al_" + t, "ca_" + t
        a[t] = [norm(d["structs"].get(st)), norm(d["functions"].get(fn)), norm(d["types"].get(al)), norm(d["values"].get(ca)),
                show(lambda: describe(lib("structs", st))),
                show(lambda: [describe(lib("functions", fn).res_type)] + [describe(x) for x in lib("functions", fn).arg_types]),
                show(lambda: describe(lib("types", al)))]
    for i, m in enumerate(mods):
        b[m] = [norm(d["variables"].get("mx%d" % i)), norm(d["variables"].get("my%d" % i)), norm(d["variables"].get("mz%d" % i)),
                norm(d["functions"].get("mf%d" % i)), norm(d["types"].get("mt%d" % i))]
    return a, b


_I, _PI = {"T": ["int"], "q": []}, {"T": ["int", "*"], "q": []}
PLAIN = [{"t": [None, _I]}, {"t": [None, _I]}, {"t": [None, _PI]}, {"T": [_I, {"t": [{"t": ["a", _I, None]}]}], "q": []},
         {"T": ["int", {"t": [{"t": [None, _I, None]}]}, "*"], "q": []}]


def absolute(cfg, sw):
    """What must be in effect, whatever else is: None or (expected, observed)."""
    from ..cparse import T
    for t, ct in cfg[0].items():
        c = {"win": "c_long"}.get(ct) or CT[ct].__name__
        exp = [["m", c], ["p", ["ptr", c]], ["n", ["array", 2, c]], ["u", "c_uint"]]
        got = sw[0][t]
        if not isinstance(got, list) or got[4] != exp or got[5] != [c, c, ["ptr", c]] or got[6] != c:
            return "type %s bound as %s" % (t, c), got
        if got[3] != 6 or got[2] != T(t):
            return "type %s parsed" % t, got
    for m in cfg[1]:
        m = "__declspec(x)" if m == "__declspec" else m
        if m in sw[1] and sw[1][m] != PLAIN:
            return "modifier %s ignored" % m, sw[1][m]
    return None


def in_process(fn):
    """fn() in a process of its own (the package imported, but not used yet)."""
    return core.pmap(lambda _: fn(), [0], nproc=1, timeout=300)[0]


def history(ops, clear):
    kept = []
    outs = [perform(op, kept) for op in ops]
    mutated = [i for i, (t, t0, m, m0) in enumerate(kept) if t != t0 or m != m0]
    if clear:       # the containers are the caller's: what becomes of them later does not matter
        for t, _, m, _ in kept:
            if t is not None:
                t.clear()
            if m is not None:
                m[:] = ["int", "struct"]
    return outs, mutated, sweep()


_ref = {}


def reference(cfg):
    """The sweep after a mere init with this configuration."""
    k = repr(cfg)
    if k not in _ref:
        def go():
            from pyclibrary import init
            t = {a: CT.get(b) for a, b in cfg[0].items()}
            r = guarded(init, t, cfg[1])
            return repr(r) if isinstance(r, Failed) else sweep()
        _ref[k] = in_process(go)
    return _ref[k]


def judge(ops, clear):
    """None or (expected, observed, what)."""
    r = in_process(lambda: history(ops, clear))
    if isinstance(r, core.Crash):
        return "no crash", repr(r), "crash"
    outs, mutated, sw = r
    cfg = None
    exp = []
    for op in ops:
        new = config(op)
        if op == "reject":
            exp.append("RuntimeError" if cfg is not None else "an error")
        elif op in INITS:
            exp.append("RuntimeError" if cfg is not None else "ok")
        else:
            exp.append("ok")
        if cfg is None and new is not None:
            cfg = new
    for e, o in zip(exp, outs):
        if e != o and not (e == "an error" and o != "ok"):
            return exp, outs, "outcomes"
    if mutated:
        return "containers as they were", "modified by initialisation %s" % mutated, "containers"
    cfg = cfg or ({}, [])
    ref = reference(cfg)
    if not isinstance(ref, tuple):
        return "an initialisation", repr(ref), "reference"
    bad = absolute(cfg, sw)
    if bad:
        return bad[0], bad[1], "extensions"
    for e, o in zip(ref, sw):
        for k in e:
            if e[k] != o[k]:
                i = [n for n in (range(len(e[k])) if isinstance(e[k], (list, tuple)) else e[k]) if e[k][n] != o[k][n]]
                return (e[k] if len(i) != 1 else e[k][i[0]]), (o[k] if len(i) != 1 else o[k][i[0]]), "as after the first one alone: " + k
    return None


def job(args):
    import pyclibrary  # noqa
    outs, bad = set(), []
    for ops, clear in args:
        core.mark(repr(ops))
        b = judge(ops, clear)
        outs.add(repr((config(ops[0]), b and b[2])))
        if b:
            bad.append(({"ops": ops, "clear": clear},) + b)
            if len(bad) > 5:
                break
    return len(args), bad, outs


# ------------------------------------------------------------------ placement
# ~ where a modifier may stand, int the type to be replaced, # a number that makes the names unique
DECLS = [
    "~ int ~ v# ;", "~ int ~ * ~ v# ;", "~ int ~ * ~ * ~ v#, ~ * ~ w# , ~ u# [ 2 ] ;", "~ extern ~ int ~ v# [ 2 ] ;",
    "~ int ~ v# = 3, ~ w# = 4 ;", "~ int ~ f# ( ~ int ~ a , ~ char ~ * ~ b ) ;", "~ int ~ * ~ f# ( ~ int ~ , ~ int ~ * ~ ) ;",
    "~ int ~ f# ( ~ void ~ ) ;", "~ struct ~ S# { ~ int ~ a ; ~ int ~ * ~ b , ~ c ; } ;",
    "~ union ~ S# { ~ int ~ a [ 3 ] ; ~ char ~ b ; } ~ v# , ~ * ~ w# ;", "~ typedef ~ int ~ T# ;", "~ typedef ~ int ~ * ~ T#, ~ U# ;",
    "~ typedef ~ struct ~ { ~ unsigned ~ a : 3 ; ~ int ~ b ; } ~ * ~ T# ;", "~ typedef ~ int ~ ( ~ * ~ T# ) ( ~ int ~ x ) ;",
    "~ int ~ f# ( ~ int ~ ( ~ * ~ cb ) ( ~ int ~ ) ) ;", "~ typedef ~ enum ~ E# { A# , B# = 2 } ~ T# ;",
    "~ const ~ int ~ * ~ const ~ v# ;", "~ int ~ const ~ * ~ v# ;", "~ int ~ f# ( ~ int ~ a ) { return a ; }",
    "~ static inline ~ int ~ f# ( ~ int ~ a ) { return 0 ; }", "~ int ~ ( ~ * ~ v# ) [ 3 ] ;",
    "~ struct ~ S# { ~ int ~ ( ~ * ~ cb ) ( ~ int ~ a , ~ int ~ * ~ ) ; } ;", "~ volatile ~ int ~ v# ;",
    "~ int ~ ( ~ * ~ f# ( ~ int ~ a ) ) ( ~ int ~ b ) ;",
]
FORMS = ["%s", "%s(a)", "%s(a, (b))", "%s ( )"]
TYPES = ["ta", "ta2", "Tx", "_u", "__t64", "mytype_t", "ta_int"]
MODS = ["MA", "MA2", "__md", "winapi", "_x", "intern"]


def render(decl, tick, mods, typ, n):
    """decl with mods[i] at its i-th slot and int at those positions of `tick` replaced."""
    out, k, j = [], 0, 0
    for w in decl.split():
        if w == "~":
            out.append(mods.get(k, ""))
            k += 1
        elif w == "int":
            out.append(typ if j in tick else "int")
            j += 1
        else:
            out.append(w.replace("#", str(n)))
    return " ".join(x for x in out if x)


def placements(ctx):
    """(declaration index, {slot: modifier text}, positions of int to replace, type)"""
    res = []
    for d, decl in enumerate(DECLS):
        nm, ni = decl.count("~"), decl.split().count("int")
        for i in range(nm):
            for m in MODS:
                for f in FORMS[: 4 if m in ("MA", "__md") else 2]:
                    res.append((d, {i: f % m}, (), "int"))
            res.append((d, {i: "MA __md(x) winapi"}, (), "int"))
        pairs = itertools.combinations(range(nm), 2)
        for i, j in pairs:
            res.append((d, {i: "MA", j: "MA2"}, (), "int"))
            res.append((d, {i: "__md(x)", j: "MA"}, (), "int"))
            if not ctx.quick:
                res += [(d, {i: a, j: b}, (), "int") for a in ("MA(a)", "_x") for b in ("MA", "__md ( )", "winapi(q)")]
        if not ctx.quick:
            res += [(d, {i: "MA", j: "__md(x)", k: "winapi"}, (), "int") for i, j, k in itertools.combinations(range(nm), 3)]
        for t in TYPES:
            for r in range(1, ni + 1):
                res += [(d, {}, c, t) for c in itertools.combinations(range(ni), r)]
        if ni:
            res += [(d, {i: "MA"}, (j,), "ta") for i in range(nm) for j in range(ni)]
            res += [(d, {i: "__md(x)"}, tuple(range(ni)), "__t64") for i in range(nm)]
    return res


def canon(d, ren):
    """Normal form with the names of the variants and the replaced types made alike."""
    if isinstance(d, dict):
        return {canon(k, ren): canon(v, ren) for k, v in d.items()}
    if isinstance(d, list):
        return [canon(x, ren) for x in d]
    if isinstance(d, str):
        for a, b in ren:
            if d == a:
                return b
            if d.endswith(" " + a):
                return d[:-len(a)] + b
    return d


def names(defs):
    """All definitions, by the number in their names."""
    import re
    res = {}
    for k in ("types", "variables", "structs", "unions", "enums", "functions", "values"):
        for n, d in defs[k].items():
            m = re.fullmatch(r"(?:(?:struct|union|enum) )?([A-Za-z]+)(\d+)", n)
            if m:
                res.setdefault(int(m.group(2)), {})[k + " " + n] = norm(d)
            else:
                res.setdefault("other", {})[k + " " + n] = norm(d)
    return res


def unnumber(x, n):
    """x with the number n taken out of all names (anonymous structs are numbered by the parser itself)."""
    import re
    s = repr(x)
    s = re.sub(r"(?<![A-Za-z0-9_])([A-Za-z]+)%d(?![0-9])" % n, r"\1#", s)
    return re.sub(r"anon_(struct|union|enum)\d+", r"anon_\1", s)


def batch(items):
    """Place one batch; runs in a process that is initialised here."""
    from pyclibrary import init
    r = guarded(init, {t: ctypes.c_int for t in TYPES}, list(MODS))
    if isinstance(r, Failed):
        return [(None, "an initialisation", repr(r))]
    head = "struct BIND { %s };\n" % " ".join("%s m%d;" % (t, i) for i, t in enumerate(TYPES))
    text, base = [head], [head]
    for n, (d, mods, tick, typ) in enumerate(items):
        text.append(render(DECLS[d], tick, mods, typ, n + 1))
        base.append(render(DECLS[d], (), {}, "int", n + 1))
    a, b = parse("\n".join(text)), parse("\n".join(base))
    if isinstance(a, Failed) or isinstance(b, Failed):
        return [(items if len(items) > 1 else items[0], "both parsed", repr((a, b)))]
    na, nb = names(a.defs), names(b.defs)
    bad = []
    for n, it in enumerate(items):
        x, y = na.get(n + 1, {}), nb.get(n + 1, {})
        ren = [] if it[3] == "int" else [(it[3], "int")]
        if canon(x, ren) != y:
            x2, y2 = unnumber(canon(x, ren), n + 1), unnumber(y, n + 1)
            if x2 != y2:
                bad.append((it, y2, x2))
    if not bad and set(na.get("other", {})) != set(nb.get("other", {})):
        bad.append((items, sorted(nb.get("other", {})), sorted(na.get("other", {}))))
    if bad:
        return bad
    # declared types behave like the ctypes type they stand for
    la, lb = libs.bind(a), libs.bind(b)
    for lk in ("structs", "unions", "types"):
        for nm in b.defs[lk]:
            if isinstance(la, Failed) or isinstance(lb, Failed):
                return [(items, "both bound", repr((la, lb)))]
            x, y = guarded(lambda: describe(la(lk, nm))), guarded(lambda: describe(lb(lk, nm)))
            if isinstance(y, Failed):
                y, x = y.type, getattr(x, "type", x)
            if x != y:
                k = int("".join(c for c in nm if c.isdigit()) or 0)
                bad.append((items[k - 1] if 0 < k <= len(items) and "anon" not in nm else items, "%s %s: %s" % (lk, nm, y), repr(x)))
    return bad


def place_job(items):
    import pyclibrary  # noqa
    core.mark(repr(items)[:300])
    return in_process(lambda: batch(items))


def run(ctx):
    from .. import gcc
    gcc.shared(CSRC, os.path.join(core.scratch(), "c19.so"))
    libs.base_so()
    hist = [(list(h), False) for n in range(1, ctx.pick(3, 4) + 1) for h in itertools.product(OPS, repeat=n)
            if n < 3 or (not (ctx.quick and (set(h[1:]) & set(KNOWN) or h[0] in KNOWN[1:])) and not all(o in USES for o in h) and (not ctx.quick or config(h[0]) is None or h[1] in ("parse", "bind",
                                                            "init(tb float, ta double; MB)", "auto(win32)", "reject", "auto()")))]
    hist += [([op], True) for op in INITS] + [([u, op], True) for op in INITS for u in USES]
    chunks = core.chunks(hist, 12)
    for c, r in zip(chunks, core.pmap(job, chunks, timeout=800)):
        if isinstance(r, core.Crash):
            ctx.violation("crash %s" % r.marker, {"ops": c[0][0], "clear": False}, "no crash", repr(r))
            continue
        ctx.traces += r[0]
        ctx.outcomes |= r[2]
        for case, e, o, w in r[1]:
            ctx.violation("%s%s" % (case["ops"], " then containers cleared" if case["clear"] else ""), case, e, o, w)
    for h, c in hist:
        ctx.transitions += len(h)
    for h, c in hist:
        for i in range(1, len(h) + 1):
            ctx.state(repr(h[:i]))
    pl = placements(ctx)
    batches = core.chunks(pl, 40)
    for c, r in zip(batches, core.pmap(place_job, batches, timeout=800)):
        if isinstance(r, core.Crash):
            ctx.violation("crash %s" % r.marker, {"place": c}, "no crash", repr(r))
            continue
        for it, e, o in r[:3]:
            if isinstance(it, list):        # find the culprit
                for one in it:
                    rr = core.pmap(place_job, [[one]])[0]
                    if isinstance(rr, core.Crash) or rr:
                        it, (e, o) = one, (rr[0][1:] if not isinstance(rr, core.Crash) else ("no crash", repr(rr)))
                        break
            key = render(DECLS[it[0]], it[2], it[1], it[3], 1) if isinstance(it, tuple) else repr(it)[:300]
            ctx.violation(key, {"place": [it] if isinstance(it, tuple) else it}, e, o, "placement")
    for p in pl:
        ctx.state("place %r" % (p,))
    ctx.traces += len(pl)
    ctx.transitions += len(pl)
    ctx.sample("history %s" % (hist[-60][0],))
    ctx.sample("history %s" % (hist[len(hist) // 2][0],))
    for p in pl[::max(1, len(pl) // 4)]:
        ctx.sample("placement: " + render(DECLS[p[0]], p[2], p[1], p[3], 1))
    ctx.note(histories=len(hist), placements=len(pl))
    ctx.assumptions.append("modifiers placed wherever a qualifier may stand, after struct/union/enum and in front of storage classes; "
                           "not after a declarator; states = distinct history prefixes plus placements")


def replay(case):
    from .. import gcc
    gcc.shared(CSRC, os.path.join(core.scratch(), "c19.so"))
    libs.base_so()

    def go(c):
        import pyclibrary  # noqa
        if "place" in c:
            items = [(p[0], {int(k): v for k, v in p[1].items()}, tuple(p[2]), p[3]) for p in c["place"]]
            r = in_process(lambda: batch(items))
            return (("no crash", repr(r)) if isinstance(r, core.Crash) else r[0][1:]) if r else None
        b = judge(c["ops"], c["clear"])
        return b and b[:2]
    r = core.pmap(go, [case])[0]
    return ("no crash", repr(r)) if isinstance(r, core.Crash) else r
