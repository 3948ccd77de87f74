"""Shared machinery: context, guarded calls, forked workers, violations, evidence.

A check module (vf/checks/cNN.py) offers
    run(ctx)        explore; report through ctx
    replay(case)    re-run one recorded case, return None or (expected, observed)
"""
import hashlib
import json
import logging
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
NPROC = int(os.environ.get("VF_NPROC", "0")) or min(8, os.cpu_count() or 8)

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


class ImplTimeout(BaseException):
    """Raised by the alarm when a call into the code under test hangs."""


class Failed:
    """Outcome of a guarded call that raised; compares by exception type name."""

    def __init__(self, exc):
        self.type = type(exc).__name__
        self.mro = [c.__name__ for c in type(exc).__mro__]
        self.text = ("%s: %s" % (type(exc).__name__, exc))[:300]

    def __repr__(self):
        return "raised " + self.text

    def isa(self, name):
        return name in self.mro


def _alarm(signum, frame):
    raise ImplTimeout("no answer in time")


def guarded(fn, *args, timeout=60, **kw):
    """Call into the code under test; any exception or hang becomes a Failed value."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return fn(*args, **kw)
    except (Exception, ImplTimeout, SystemExit, GeneratorExit) as e:
        return Failed(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# --------------------------------------------------------------------------- scratch
_scratch = None


def scratch():
    """Scratch directory of the whole run, made by the parent and removed at its end."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-")
    return _scratch


_own = {}


def own_dir():
    """A directory private to this process."""
    pid = os.getpid()
    if pid not in _own:
        _own.clear()
        _own[pid] = tempfile.mkdtemp(prefix="w%d-" % pid, dir=scratch())
    return _own[pid]


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


# --------------------------------------------------------------------------- workers
_mark_fd = None


def mark(text):
    """Note the case about to run, so that a crash of the process can be attributed."""
    if _mark_fd is not None:
        os.ftruncate(_mark_fd, 0)
        os.pwrite(_mark_fd, text.encode("utf-8", "replace")[:4000], 0)


class Crash:
    def __init__(self, status, marker):
        self.status, self.marker = status, marker

    def __repr__(self):
        return "process died (%s) during: %s" % (self.status, self.marker)


class WorkerError(Exception):
    pass


def pmap(fn, items, nproc=None, timeout=700):
    """Run fn(item) in forked children, results in order. A child killed by a signal (or
    exiting through os._exit) yields Crash; an exception in the harness itself is re-raised."""
    global _mark_fd
    items = list(items)
    nproc = nproc or NPROC
    res = [None] * len(items)
    running, nxt = {}, 0
    deadline = time.time() + timeout
    base = tempfile.mkdtemp(prefix="pm-", dir=scratch())
    sys.stdout.flush()
    sys.stderr.flush()
    while nxt < len(items) or running:
        while nxt < len(items) and len(running) < nproc:
            out, mk = os.path.join(base, "r%d" % nxt), os.path.join(base, "m%d" % nxt)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    _mark_fd = os.open(mk, os.O_CREAT | os.O_RDWR, 0o600)
                    try:
                        r = ("ok", fn(items[nxt]))
                    except BaseException:
                        r = ("err", traceback.format_exc())
                    with open(out + ".t", "wb") as f:
                        pickle.dump(r, f)
                    os.rename(out + ".t", out)
                    code = 0
                finally:
                    os._exit(code)
            running[pid] = (nxt, out, mk)
            nxt += 1
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > deadline:
                for p in running:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
                deadline = time.time() + 60
            time.sleep(0.002)
            continue
        if pid not in running:
            continue
        i, out, mk = running.pop(pid)
        if os.path.exists(out):
            with open(out, "rb") as f:
                kind, val = pickle.load(f)
            os.unlink(out)
            if kind == "err":
                raise WorkerError(val)
            res[i] = val
        else:
            try:
                with open(mk, "rb") as f:
                    m = f.read().decode("utf-8", "replace")
            except OSError:
                m = "?"
            st = "signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "exit %d" % os.WEXITSTATUS(status)
            res[i] = Crash(st, m)
        try:
            os.unlink(mk)
        except OSError:
            pass
    shutil.rmtree(base, ignore_errors=True)
    return res


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


# --------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.extra = {}
        self.violations = []
        self.assumptions = []
        self.exhaustive = True

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def state(self, s):
        self.states.add(hash(s) if not isinstance(s, int) else s)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def note(self, **kw):
        for k, v in kw.items():
            self.extra[k] = v

    def add(self, **kw):
        for k, v in kw.items():
            self.extra[k] = self.extra.get(k, 0) + v

    def violation(self, key, case, expected, observed, what=""):
        """key identifies the failing input; (key, observed) is what known findings match on."""
        self.violations.append(dict(key=str(key), case=case, expected=_short(expected), observed=_short(observed),
                                    what=what))

    def too_many(self, n=200):
        return len(self.violations) >= n


def _short(x, n=4000):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def load_known():
    """known: property=<id> key=<json string> observed=<json string> <what>"""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return res
    dec = json.JSONDecoder()
    for ln in open(path, encoding="utf-8"):
        m = re.match(r"known: property=(\w+) key=", ln)
        if not m:
            continue
        rest = ln[m.end():]
        key, end = dec.raw_decode(rest)
        rest = rest[end:].strip()
        assert rest.startswith("observed="), ln
        rest = rest[len("observed="):]
        obs, end = dec.raw_decode(rest)
        res[(m.group(1), key, obs)] = rest[end:].strip()
    return res


def git_state():
    try:
        h = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
        d = subprocess.run(["git", "-C", REPO, "status", "--porcelain", "-uno"], capture_output=True,
                           text=True).stdout.strip()
        return h + ("+modified" if d else "")
    except OSError:
        return "?"


def finish(ctx, level):
    known = load_known()
    rc = 0
    seen_known, shown = set(), 0
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(ctx.prop + "-"):
            os.unlink(os.path.join(rdir, f))
    nviol = 0
    for v in ctx.violations:
        k = (ctx.prop, v["key"], v["observed"])
        if k in known:
            if k not in seen_known:
                seen_known.add(k)
                print("KNOWN-FINDING: property=%s %s" % (ctx.prop, known[k] or v["key"]))
            continue
        rc = 1
        nviol += 1
        if shown < 5:
            shown += 1
            path = os.path.join(rdir, "%s-%d.json" % (ctx.prop, shown))
            with open(path, "w", encoding="utf-8") as f:
                json.dump(dict(property=ctx.prop, **v), f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
            print("  what:     %s %s" % (v["what"], _short(v["key"], 1500)))
            print("  expected: %s" % _short(v["expected"], 1500))
            print("  observed: %s" % _short(v["observed"], 1500))
    if nviol > shown:
        print("  ... and %d more violations" % (nviol - shown))
    states = ctx.nstates + len(ctx.states)
    cov = {}
    if level == "fault_enumeration":
        cov = dict(evaluations=ctx.traces, distinct_nontrivial=states,
                   rule=ctx.extra.pop("rule", "distinct crash states replayed through the real loader"))
    else:
        cov = dict(states=states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces)
    cov["samples"] = ctx.samples
    cov["exhaustive"] = bool(ctx.exhaustive)
    cov["distinct_outcomes"] = len(ctx.outcomes)
    cov["known_findings_seen"] = len(seen_known)
    cov["repo"] = git_state()
    cov.update(ctx.extra)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % ctx.prop)
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(VERIF, "evidence", ctx.prop + ".json"))
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d violations=%d known=%d wall=%.1fs" % (
        ctx.prop, ctx.tier, states, ctx.transitions, ctx.traces, len(ctx.outcomes), nviol, len(seen_known),
        time.time() - ctx.t0))
    return rc


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]
