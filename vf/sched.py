"""A controlled scheduler for real threads running the real code.

Exactly one controlled thread runs at a time. It may be switched away from at every scheduling point: every line (or every
opcode) executed in the package, every operation on a lock made by threading.Lock/RLock, and points the programs set
themselves. Schedules are enumerated depth first up to a number of preemptions; switches forced by a lock that is taken or
by the end of a thread are free and branch over all threads that can go on.
"""
import os
import sys
import threading
import time
import _thread

from . import core

_real_lock = _thread.allocate_lock
PKG = None
_sched = None


class Abort(BaseException):
    """Ends the threads of a schedule that is over (deadlock)."""


class Sched:
    STUCK = 1.0         # seconds without progress after which a thread is taken to be blocked outside our control
    HANG = 20.0

    def __init__(self, programs, plan, opcodes=False, first=0):
        """plan: {step: thread to switch to}, first: thread that starts; forced: choices at forced switches."""
        self.programs, self.plan, self.opcodes = programs, plan, opcodes
        n = len(programs)
        self.n = n
        self.gate = [_real_lock() for _ in range(n)]
        for g in self.gate:
            g.acquire()
        self.blocked = [None] * n       # lock a thread waits for
        self.external = [False] * n
        self.finished = [False] * n
        self.ids = {}
        self.cur = first
        self.step = 0
        self.trail = []                 # per step: (running thread, other enabled threads, forced?)
        self.results = [None] * n
        self.errors = [None] * n
        self.deadlock = None
        self.aborted = False
        self.done = _real_lock()
        self.done.acquire()
        self.mutex = _real_lock()

    # ------------------------------------------------------------ run
    def run(self):
        global _sched
        assert _sched is None
        if self.opcodes:        # the interpreter heeds this only in later calls of settrace
            sys._getframe().f_trace_opcodes = True
        _sched = self
        try:
            for i in range(self.n):
                _thread.start_new_thread(self._body, (i,))
            while len(self.ids) < self.n:
                time.sleep(0.0001)
            self.gate[self.cur].release()
            idle, last = 0.0, (-1, -1)
            while not self.done.acquire(timeout=0.25):
                now = (self.step, sum(self.finished))
                idle = idle + 0.25 if now == last else 0.0
                last = now
                if idle >= self.HANG:
                    self.deadlock = "no progress"
                    self._abort()
                    return self
                if idle >= self.STUCK:
                    self._external()
        finally:
            _sched = None
        return self

    def _external(self):
        """The running thread waits for something we do not control: let another one go on."""
        with self.mutex:
            if all(self.finished):
                return
            c = self.cur
            others = [i for i in self._enabled() if i != c and not self.external[i]]
            if others:
                self.external[c] = True
                self.cur = others[0]
                self.gate[self.cur].release()

    def _body(self, i):
        self.ids[_thread.get_ident()] = i
        self.gate[i].acquire()
        try:
            if not self.aborted:
                sys.settrace(self._trace)
                try:
                    self.results[i] = self.programs[i](self)
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            self.errors[i] = "%s: %s" % (type(e).__name__, e)
        with self.mutex:
            self.finished[i] = True
            if all(self.finished):
                self.done.release()
                return
            if self.aborted or (self.external[i] and self.cur != i):
                return
            self._next(i)

    # ------------------------------------------------------------ points
    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        frame.f_trace_opcodes = self.opcodes
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point()
        return self._local

    def me(self):
        return self.ids.get(_thread.get_ident())

    def _enabled(self):
        return [i for i in range(self.n) if not self.finished[i] and
                (self.blocked[i] is None or self.blocked[i].free_for(i))]

    def point(self):
        i = self.me()
        if i is None:
            return
        if self.aborted:
            raise Abort()
        if self.external[i]:
            with self.mutex:
                self.external[i] = False
                park = self.cur != i
            if park:
                self.gate[i].acquire()
                if self.aborted:
                    raise Abort()
            return
        s = self.step
        self.step += 1
        t = self.plan.get(s)
        if self.n == 2:
            j = 1 - i
            b = self.blocked[j]
            others = (j,) if not self.finished[j] and (b is None or b.free_for(j)) else ()
        else:
            others = tuple(k for k in self._enabled() if k != i)
        self.trail.append((i, others, False))
        if t is not None and t != i and t in others:
            self._switch(i, t)

    def _switch(self, i, t):
        with self.mutex:
            self.cur = t
        self.gate[t].release()
        self.gate[i].acquire()
        if self.aborted:
            raise Abort()

    def _next(self, i):
        """The running thread i cannot go on (blocked or finished); called with the mutex held."""
        en = [k for k in self._enabled() if k != i]
        if not en:
            if any(self.external[k] and not self.finished[k] for k in range(self.n)):
                return      # somebody may still come back
            self.deadlock = "threads %s wait for each other or for a lock never released" % [
                k for k in range(self.n) if not self.finished[k]]
            self._abort()
            return
        s = self.step
        self.step += 1
        self.trail.append((i, tuple(en), True))
        t = self.plan.get(s)
        self.cur = t if t in en else en[0]
        self.gate[self.cur].release()

    def block(self, i, lock):
        """Thread i waits until lock is free for it."""
        with self.mutex:
            self.blocked[i] = lock
            self._next(i)
        self.gate[i].acquire()
        self.blocked[i] = None
        if self.aborted:
            raise Abort()

    def _abort(self):
        self.aborted = True
        for g in self.gate:
            try:
                g.release()
            except RuntimeError:
                pass
        if all(self.finished):
            try:
                self.done.release()
            except RuntimeError:
                pass


class CoopLock:
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def free_for(self, i):
        return self.owner is None or (self.reentrant and self.owner == i)

    def acquire(self, blocking=True, timeout=-1):
        s = _sched
        me = s.me() if s is not None else None
        if me is None:
            me = "main"
            if not self.free_for(me):
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("lock is held by %r" % (self.owner,))
        else:
            s.point()
            while not self.free_for(me):
                if not blocking:
                    return False
                s.block(me, self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        s = _sched
        me = s.me() if s is not None else None
        if self.count == 0 or (self.reentrant and self.owner != ("main" if me is None else me)):
            raise RuntimeError("release of a lock not held")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        if me is not None and not s.aborted:
            s.point()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.count > 0

    def _is_owned(self):
        s = _sched
        me = s.me() if s is not None else None
        return self.count > 0 and self.owner == ("main" if me is None else me)

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class CoopRLock(CoopLock):
    reentrant = True

    def _release_save(self):
        st = (self.owner, self.count)
        self.owner, self.count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st[1]


def install(pyparsing=False):
    """Before the package is imported: its locks become ours, those of pyparsing as well if asked to."""
    global PKG
    assert "pyclibrary" not in sys.modules, "too late"
    PKG = os.path.join(os.path.realpath(core.REPO), "pyclibrary") + os.sep
    import concurrent.futures, logging, queue, subprocess, tempfile  # noqa: these keep their own locks
    if not pyparsing:
        import pyparsing  # noqa
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
    sys.unraisablehook = lambda *a: None
    sys.setswitchinterval(1.0)


def children(trail, plan, bound, start):
    """Plans that extend `plan` by one more decision after its last one."""
    used = sum(1 for s, t in plan.items() if s < len(trail) and not trail[s][2])
    for s in range(start, len(trail)):
        cur, others, forced = trail[s]
        if forced:
            for t in others[1:]:
                yield {**plan, s: t}
        elif used < bound:
            for t in others:
                yield {**plan, s: t}


def explore(make, bound, first, plan, opcodes=False, judge=None, limit=None):
    """All schedules below the decision sequence `plan`. make() -> (programs, judge). Yields (plan, sched, verdict)."""
    stack = [plan]
    while stack:
        p = stack.pop()
        programs, judge = make()
        s = Sched(programs, p, opcodes, first).run()
        yield p, s, judge(s)
        stack.extend(children(s.trail, p, bound, max(p) + 1 if p else 0))


def count_only(make, first, opcodes):
    programs, judge = make()
    s = Sched(programs, {}, opcodes, first).run()
    return s, judge(s)
