"""Cooperative scheduler: real threads, one of which runs at a time, switched at trace events.

A schedule is (first, (n1, n2, ...)): `first` runs for n1 points, the next
thread for n2 points, and so on round robin; after the last switch the running
thread goes on to its end, and then the others to theirs.
A point is a line, a byte code or an entry or exit (grain) of a frame of the
package ("own"), or also a line of any other Python frame ("all").
"""
import os
import sys
import threading

from . import core

HERE = os.path.dirname(os.path.abspath(__file__))
PKG = os.path.realpath(os.path.join(core.REPO, "pytiled_parser")) + os.sep
STALL_S = 0.1
DEAD_S = 20.0
TOOL = 2


_current = None
_active = None


def instrument(grain, scope):
    """Have the interpreter report every event of the grain, in whatever thread."""
    global _active
    if _active == (grain, scope):
        return
    mon = sys.monitoring
    every = scope == "all"
    ident = threading.get_ident
    kinds = {}
    disable = mon.DISABLE

    def at(code, *_):
        f = code.co_filename
        k = kinds.get(f)
        if k is None:
            own = f.startswith(PKG) or os.path.realpath(f).startswith(PKG)
            k = kinds[f] = own or (every and f != threading.__file__ and not f.startswith(HERE))
        if not k:
            return disable
        s = _current
        if s is not None:
            t = s.tids.get(ident())
            if t is not None:
                s.point(t)

    ev = mon.events
    which = {"line": [ev.LINE], "opcode": [ev.INSTRUCTION], "call": [ev.PY_START, ev.PY_RETURN]}[grain]
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "mc")
    mon.set_events(TOOL, 0)
    for e in which:
        mon.register_callback(TOOL, e, at)
    mon.restart_events()
    mon.set_events(TOOL, sum(which))
    _active = (grain, scope)


def quiet():
    """No more events."""
    global _active
    if _active is not None:
        sys.monitoring.set_events(TOOL, 0)
        _active = None


class Lock:
    """A lock of the package: a scheduled thread that has to wait for it gives its turn away."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        t = s.tids.get(threading.get_ident()) if s is not None else None
        if t is None or not blocking:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            s.blocked(t)
        return True

    def release(self):
        self._real.release()
        s = _current
        if s is not None:
            s.waiting.clear()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


def own_locks():
    """Locks that the package makes from now on are ones the scheduler knows about."""
    for name in ("Lock", "RLock"):
        real = getattr(threading, name)

        def make(real=real):
            mod = sys._getframe(1).f_globals.get("__name__") or ""
            return Lock(real()) if mod.split(".")[0] == "pytiled_parser" else real()

        setattr(threading, name, make)


class Deadlock(Exception):
    pass


class Sched:
    probe = None  # called at every point, before the event

    def __init__(self, bodies, schedule, grain, scope):
        self.n = len(bodies)
        self.bodies = bodies
        self.grain, self.scope = grain, scope
        self.turn = schedule[0]
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.count = [0] * self.n
        self.stop = [-1] * self.n
        self.alive = [True] * self.n
        self.result = [None] * self.n
        self.switches = list(schedule[1])
        self.made = 0
        self.stalls = 0
        self.done = threading.Event()
        self.waiting = set()
        self.dead = False
        self.tids = {}
        self.arm(self.turn)

    def arm(self, t):
        """Thread t gets its turn: when must it give it away again?"""
        if self.switches:
            n = self.switches.pop(0)
            self.stop[t] = self.count[t] + n
        else:
            self.stop[t] = -1

    def other(self, t):
        for k in range(1, self.n):
            u = (t + k) % self.n
            if self.alive[u]:
                return u
        return None

    def give(self, u):
        self.turn = u
        self.sem[u].release()

    def wait(self, t):
        while self.turn != t:
            self.sem[t].acquire()

    def blocked(self, t):
        """Thread t waits for a lock that another thread holds."""
        self.waiting.add(t)
        for k in range(1, self.n):
            u = (t + k) % self.n
            if self.alive[u] and u not in self.waiting:
                self.stalls += 1
                if self.stop[u] < 0:
                    self.arm(u)
                self.give(u)
                self.wait(t)
                self.waiting.discard(t)
                return
        self.dead = True
        self.done.set()
        threading.Event().wait()

    def point(self, t):
        if self.turn != t:
            self.wait(t)
        c = self.count[t]
        if self.probe:
            self.probe(c)
        if c == self.stop[t]:
            self.stop[t] = -1
            u = self.other(t)
            if u is not None:
                self.made += 1
                self.arm(u)
                self.give(u)
                self.wait(t)
        self.count[t] = c + 1

    def body(self, t):
        self.tids[threading.get_ident()] = t
        self.wait(t)
        try:
            r = ("ok", self.bodies[t]())
        except Exception as e:
            r = ("exc", type(e).__name__)
        self.result[t] = r
        self.alive[t] = False
        u = self.other(t)
        if u is None:
            self.done.set()
        elif self.turn == t:
            if self.stop[u] < 0 and self.switches:
                self.arm(u)
            self.give(u)
        elif not self.alive[self.turn]:
            self.give(u)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(self.n)]
        # the instrumentation of the byte code never changes while a thread runs
        global _current
        instrument(self.grain, self.scope)
        _current = self
        for x in ts:
            x.start()
        self.give(self.turn)
        last, still = None, 0.0
        while not self.done.wait(STALL_S):
            now = (tuple(self.count), tuple(self.alive))
            if now != last:
                last, still = now, 0.0
                continue
            still += STALL_S
            if still > DEAD_S:
                raise Deadlock()
            # blocked on something another thread holds: let that one go on
            u = self.other(self.turn)
            if u is not None:
                self.stalls += 1
                self.give(u)
        if self.dead:
            _current = None
            raise Deadlock()
        for x in ts:
            x.join()
        _current = None
        return self.result
