"""Driving CParser: normal forms of definitions and the batched differential harness."""
import os
import re

from . import core
from .core import Failed, guarded, own_dir

KINDS = ["types", "variables", "fnmacros", "macros", "structs", "unions", "enums", "functions", "values"]
ANY = "<any>"


def norm(x):
    """JSON-able normal form. Types keep their qualifiers; arrays and parameter lists stay distinct."""
    from pyclibrary.c_parser import Struct, Type, Union
    if isinstance(x, Type):
        q = [list(e) if e else [] for e in x.type_quals]
        return {"T": [norm(e) for e in x], "q": q if any(q) else []}
    if isinstance(x, (Struct, Union)):
        return {type(x).__name__: [norm(m) for m in x["members"]], "pack": x["pack"]}
    if isinstance(x, tuple):
        return {"t": [norm(e) for e in x]}
    if isinstance(x, list):
        return [norm(e) for e in x]
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if x is None or isinstance(x, (int, float, str)):
        return x
    return repr(x)


def T(*parts, q=None):
    """Normal form of a type, written like the constructor."""
    return {"T": [tnorm(p) for p in parts], "q": q if q and any(q) else []}


def tnorm(p):
    if isinstance(p, dict) or isinstance(p, str):
        return p
    if isinstance(p, list):
        return p
    if isinstance(p, tuple):
        return {"t": [{"t": [a[0], a[1], a[2] if len(a) > 2 else None]} for a in p]}
    return p


_n = [0]


def write(text, name=None, encoding="utf-8", d=None):
    _n[0] += 1
    path = os.path.join(d or own_dir(), name or "h%d.h" % _n[0])
    with open(path, "w", encoding=encoding, newline="") as f:
        f.write(text)
    return path


def parse(text, timeout=120, **kw):
    """A parsed CParser, or Failed."""
    from pyclibrary import CParser
    path = write(text)
    try:
        return guarded(CParser, path, timeout=timeout, **kw)
    finally:
        os.unlink(path)


def defs_of(p):
    return {k: {n: norm(v) for n, v in p.defs[k].items()} for k in KINDS}


# ------------------------------------------------------------------ batched programs
class Prog:
    """text and expected names use '@' for the program's private prefix.
    expect: {kind: {name: normal form or ANY}}; for the kinds listed, nothing else with the
    program's prefix may be reported. Names in `ignore` may be there or not."""
    __slots__ = ("text", "expect", "key", "what", "ignore")

    def __init__(self, text, expect, key=None, what="", ignore=()):
        self.text, self.expect, self.key, self.what = text, expect, key or text, what
        self.ignore = ignore


def _sub(x, pre):
    if isinstance(x, str):
        return x.replace("@", pre)
    if isinstance(x, list):
        return [_sub(e, pre) for e in x]
    if isinstance(x, tuple):
        return tuple(_sub(e, pre) for e in x)
    if isinstance(x, dict):
        return {_sub(k, pre): _sub(v, pre) for k, v in x.items()}
    return x


_pre = re.compile(r"P(\d+)_")


def _group(p, kinds):
    """{program number: {kind: {name: normal form}}}"""
    res = {}
    for k in kinds:
        for n, v in p.defs[k].items():
            m = _pre.search(str(n))
            if m:
                v = norm(v)
                res.setdefault(int(m.group(1)), {}).setdefault(k, {})[n] = _anon(_expand(v, p) if EXPAND else v)
    return res


EXPAND = False      # show what anonymous aggregates consist of


def _expand(x, p):
    if isinstance(x, str):
        m = re.fullmatch(r"(struct|union|enum) (anon_\w+)", x)
        if m and m.group(2) in p.defs[m.group(1) + "s"]:
            return {x: _expand(norm(p.defs[m.group(1) + "s"][m.group(2)]), p)}
        return x
    if isinstance(x, list):
        return [_expand(e, p) for e in x]
    if isinstance(x, dict):
        return {k: _expand(v, p) for k, v in x.items()}
    return x


_an = re.compile(r"\banon_(struct|union|enum)\d+")


def _anon(x):
    """Numbers of anonymous aggregates depend on the rest of the file."""
    if isinstance(x, str):
        return _an.sub(r"anon_\1#", x) if "anon_" in x else x
    if isinstance(x, list):
        return [_anon(e) for e in x]
    if isinstance(x, dict):
        return {_anon(k): _anon(v) for k, v in x.items()}
    return x


_tok = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[\w@]+|<<=|>>=|->|\+\+|--|<<|>>|&&|\|\|'
                  r'|[-+*/%&|^<>=!]=|\S')


def tokens(text):
    """C tokens, near enough to compare texts up to white space."""
    return _tok.findall(text)


def TOK(text):
    """Expected text up to white space between tokens."""
    return {"TOK": text}


def _eq(exp, obs):
    if isinstance(exp, dict) and "TOK" in exp:
        return isinstance(obs, str) and tokens(exp["TOK"]) == tokens(obs)
    if isinstance(exp, dict) and isinstance(obs, dict):
        return set(exp) == set(obs) and all(_eq(exp[k], obs[k]) for k in exp)
    if isinstance(exp, list) and isinstance(obs, list):
        return len(exp) == len(obs) and all(map(_eq, exp, obs))
    return exp == ANY or exp == obs


def plain(text, kinds=KINDS, **kw):
    """What the parser itself reports for one program, as an expectation for a variant of it: texts of macros
    up to white space. None if the program cannot be parsed."""
    p = parse(text.replace("@", "P0_"), **kw)
    if isinstance(p, Failed):
        return p
    res = {k: {} for k in kinds}
    for k, d in _group(p, kinds).get(0, {}).items():
        for n, v in d.items():
            v = _back(v)
            if k == "macros":
                v = TOK(v)
            elif k == "fnmacros":
                v = {"t": [TOK(v["t"][0])] + v["t"][1:]}
            res[k][n.replace("P0_", "@")] = v
    return res


def _back(x):
    if isinstance(x, str):
        return x.replace("P0_", "@")
    if isinstance(x, list):
        return [_back(e) for e in x]
    if isinstance(x, dict):
        return {_back(k): _back(v) for k, v in x.items()}
    return x


def _diff(prog, num, got):
    pre = "P%d_" % num
    exp = _sub(prog.expect, pre)
    ign = set(_sub(list(prog.ignore), pre))
    bad_e, bad_o = {}, {}
    for k, want in exp.items():
        have = got.get(k, {})
        for n in set(want) | set(have):
            if n in ign:
                continue
            if n not in have:
                bad_e["%s %s" % (k, n)], bad_o["%s %s" % (k, n)] = want[n], "absent"
            elif n not in want:
                bad_e["%s %s" % (k, n)], bad_o["%s %s" % (k, n)] = "absent", have[n]
            elif not _eq(want[n], have[n]):
                bad_e["%s %s" % (k, n)], bad_o["%s %s" % (k, n)] = want[n], have[n]
    if bad_e:
        return _sort(bad_e), _sort(bad_o)
    return None


def _sort(d):
    return {k: d[k] for k in sorted(d)}


def run_one(prog, num=0, **kw):
    p = parse(prog.text.replace("@", "P%d_" % num), **kw)
    if isinstance(p, Failed):
        return "parses", repr(p)
    return _diff(prog, num, _group(p, prog.expect).get(num, {}))


def _run_batch(args):
    progs, base, kw, sep = args
    text = sep.join(pr.text.replace("@", "P%d_" % (base + i)) for i, pr in enumerate(progs))
    bad, outs = [], set()
    kinds = sorted({k for pr in progs for k in pr.expect})
    p = parse(text, **kw)
    redo = isinstance(p, Failed)
    if not redo:
        g = _group(p, kinds)
        for i, pr in enumerate(progs):
            got = g.get(base + i, {})
            outs.add(core.digest(_sort({k: sorted(re.sub(r"P\d+_", "@", str(n)) for n in v)
                                        for k, v in got.items()})))
            if _diff(pr, base + i, got):
                redo = True
    if redo:
        for i, pr in enumerate(progs):
            d = run_one(pr, **kw)
            if d:
                bad.append((pr.key, {"prog": [pr.text, pr.expect, list(pr.ignore)], "kw": kw}, d[0], d[1], pr.what))
                if len(bad) >= 10:
                    break
        if not bad:
            # only fails in the company of the others: report the whole batch
            if isinstance(p, Failed):
                bad.append(("batch", {"batch": text, "kw": kw}, "parses", repr(p), "batch of programs"))
            else:
                for i, pr in enumerate(progs):
                    d = _diff(pr, base + i, g.get(base + i, {}))
                    if d:
                        bad.append(("batch:" + str(pr.key), {"batch": text, "kw": kw, "num": base + i,
                                                             "expect": pr.expect, "ignore": list(pr.ignore)},
                                    d[0], d[1], pr.what + " (in a batch)"))
                        break
    return len(progs), bad, outs


def batch_check(ctx, progs, size=150, sep="\n", base=0, **kw):
    """Run all programs on the real parser in batches; report mismatches."""
    progs = list(progs)
    jobs = []
    n = max(1, min(size, (len(progs) + core.NPROC - 1) // core.NPROC))
    for i in range(0, len(progs), n):
        jobs.append((progs[i:i + n], base + i, kw, sep))
    for job, r in zip(jobs, core.pmap(_run_batch, jobs)):
        if isinstance(r, core.Crash):
            ctx.violation("crash", {"batch": sep.join(p.text for p in job[0]), "kw": kw}, "no crash", repr(r))
            continue
        cnt, bad, outs = r
        ctx.traces += cnt
        ctx.outcomes |= outs
        for b in bad:
            ctx.violation(*b)
    return len(progs)


def replay_prog(case):
    if "prog" in case:
        text, expect, ignore = case["prog"]
        return run_one(Prog(text, expect, ignore=ignore), **case.get("kw", {}))
    p = parse(case["batch"], **case.get("kw", {}))
    if isinstance(p, Failed):
        return "parses", repr(p)
    if "num" not in case:
        return None
    pr = Prog("", case["expect"], ignore=case["ignore"])
    return _diff(pr, case["num"], _group(p, pr.expect).get(case["num"], {}))
