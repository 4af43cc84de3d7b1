"""Runs jobs in threads of which one moves at a time, with handovers chosen by a seeded policy at lines or opcodes of the code under test.

The code under test is not changed: every thread traces itself (sys.settrace) and only frames of the package can hand over. A thread that
waits for a lock held by a waiting thread would never move on: after STEAL s without progress the turn is taken from it.
"""
import os, random, sys, threading, time

STEAL = 0.3


class Target:
    """Tells the frames of the code under test from all others."""

    def __init__(self, src):
        self.src = os.path.join(os.path.realpath(src), "")
        self.known = {}

    def __call__(self, code):
        out = self.known.get(code)
        if out is None:
            out = self.known[code] = os.path.realpath(code.co_filename).startswith(self.src)
        return out


class _Abort(BaseException):
    pass


class Interleaver:

    def __init__(self, src, seed, policy, opcodes=True):
        self.target = Target(src)
        self.rng = random.Random(seed)
        self.policy = policy
        self.opcodes = opcodes
        self.cond = threading.Condition()
        self.turn = None
        self.alive = []
        self.ticks = 0
        self.steals = 0
        self.abort = False
        self.schedule = []      # (event number, location, from, to)
        self.budget = 4000

    # -- policies: who moves next, and after how many events -----------------

    def _prepare(self, n):
        kind, x = self.policy
        if kind == "random":
            self.p = x
            self._next()
        else: # priorities, changed at x points
            self.prio = self.rng.sample(range(1000, 1000 + n), n)
            self.points = sorted(int(10 ** self.rng.uniform(0, 4)) for _ in range(x))
            self.lowest = 0
            self._next()

    def _next(self):
        if self.policy[0] == "random":
            p = self.p if len(self.schedule) < self.budget else 2e-4
            gap, cap = 1, int(8 / p)
            while gap < cap and self.rng.random() > p:
                gap += 1
            self.at = self.ticks + gap
        else:
            while self.points and self.points[0] <= self.ticks:
                self.points.pop(0)
            self.at = self.points[0] if self.points else None

    def _choose(self, me, ended=False):
        others = [k for k in self.alive if k != me]
        if not others:
            return None if ended else me
        if self.policy[0] == "random":
            return self.rng.choice(others)
        if not ended:
            self.lowest -= 1
            self.prio[me] = self.lowest
        return max(self.alive, key=lambda k: self.prio[k])

    # -- turns ---------------------------------------------------------------

    def _wait(self, me):
        with self.cond:
            seen = self.ticks
            while self.turn != me:
                if self.abort:
                    raise _Abort()
                if not self.cond.wait(STEAL) and self.turn != me:
                    if self.ticks == seen: # blocked
                        self.steals += 1
                        self.turn = me
                    seen = self.ticks
            if self.abort:
                raise _Abort()

    def _tick(self, me, frame):
        if self.turn != me or self.abort:
            self._wait(me)
        self.ticks += 1
        if self.at is not None and self.ticks >= self.at:
            to = self._choose(me)
            if to != me:
                self.schedule.append((self.ticks, frame.f_code.co_name, frame.f_lineno, frame.f_lasti, me, to))
            self._next()
            if to != me:
                with self.cond:
                    self.turn = to
                    self.cond.notify_all()
                self._wait(me)

    def _tracer(self, me):
        def local(frame, event, arg):
            if event == "opcode" or event == "line":
                self._tick(me, frame)
            return local
        def start(frame, event, arg):
            if not self.target(frame.f_code):
                return None
            frame.f_trace_opcodes = self.opcodes
            return local
        return start

    def _body(self, me, job, out):
        try:
            self._wait(me)
            sys.settrace(self._tracer(me))
            try:
                out[me] = (True, job())
            finally:
                sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:
            out[me] = (False, e)
        finally:
            with self.cond:
                self.alive.remove(me)
                if self.turn == me or self.turn not in self.alive:
                    self.turn = self._choose(me, ended=True)
                self.cond.notify_all()

    def run(self, jobs, limit=60.):
        """(ok, result or exception) of every job; None for a job that did not end."""
        out = [None] * len(jobs)
        self.alive = list(range(len(jobs)))
        self._prepare(len(jobs))
        threads = [threading.Thread(target=self._body, args=(k, job, out), daemon=True) for k, job in enumerate(jobs)]
        self.turn = self.rng.choice(self.alive) if self.policy[0] == "random" else max(self.alive, key=lambda k: self.prio[k])
        for t in threads:
            t.start()
        end = time.monotonic() + limit
        try:
            for t in threads:
                t.join(max(.01, end - time.monotonic()))
        finally:
            self.abort = True
            with self.cond:
                self.cond.notify_all()
        return out


def free(jobs, interval=1e-6, limit=60.):
    """The same without turns: real preemption by the interpreter, as often as possible."""
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))
    def body(k, job):
        try:
            gate.wait(10.)
            out[k] = (True, job())
        except BaseException as e:
            out[k] = (False, e)
    threads = [threading.Thread(target=body, args=(k, job), daemon=True) for k, job in enumerate(jobs)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        for t in threads:
            t.start()
        end = time.monotonic() + limit
        for t in threads:
            t.join(max(.01, end - time.monotonic()))
    finally:
        sys.setswitchinterval(old)
    return out


class Interrupt:
    """Raises an exception at the k-th line/opcode executed inside of the code under test (in this thread)."""

    def __init__(self, src, k, exc, opcodes=True):
        self.target = Target(src)
        self.k, self.exc, self.opcodes = k, exc, opcodes
        self.count = 0
        self.where = None

    def _local(self, frame, event, arg):
        if (event == "opcode" or event == "line") and frame.f_lineno is not None: # None: a generator that is being discarded
            self.count += 1
            if self.count == self.k:
                self.where = f"{frame.f_code.co_name}:{frame.f_lineno}"
                raise self.exc
        return self._local

    def _start(self, frame, event, arg):
        if not self.target(frame.f_code):
            return None
        frame.f_trace_opcodes = self.opcodes
        return self._local

    def __enter__(self):
        # Exceptions in finalizers are dropped by the interpreter, not by the code under test
        self.hook = sys.unraisablehook
        def dropped(info):
            if info.exc_value is self.exc:
                self.where = None
            else:
                self.hook(info)
        sys.unraisablehook = dropped
        sys.settrace(self._start)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        sys.unraisablehook = self.hook
