"""Deterministic scheduling of real threads.

Each task is a real thread, but only one of them ever runs: it holds the baton until it
has executed as many library lines (or byte code instructions) as the simulation allotted
to it, and then the simulation decides who is next.  All decisions come from the run's
draws, so an interleaving is exactly repeatable.
"""

from __future__ import annotations

import ast
import functools
import gc
import inspect
import sys
import threading
import types
import weakref

from .engine import LIB_PREFIX
from .engine import SimAbort
from .engine import SimHang
from .engine import SimWall
from .engine import SimInterrupt

_real_lock = threading.Lock
_active = []
MAX_LINES = 12_000_000

# Library code reports each line it executes through sys.monitoring (set up once per
# process, unlike sys.settrace() which has to be juggled between threads).
_TOOL = 4
_steppers = {}  # thread id -> callable
_codes = []
_armed = None


def _on_line(code, line):
    step = _steppers.get(threading.get_ident())
    if step is not None:
        # (The interpreter drops exceptions raised while it closes a generator.)
        step(not code.co_flags & inspect.CO_GENERATOR
             and line not in _shielded(code.co_filename), (code, line))


def _on_instruction(code, offset):
    step = _steppers.get(threading.get_ident())
    if step is not None:
        step(not code.co_flags & inspect.CO_GENERATOR
             and _line_of(code, offset) not in _shielded(code.co_filename),
             (code, offset))


@functools.lru_cache(None)
def _shielded(filename):
    """Lines at whose beginning no interrupt is delivered.

    The interpreter delivers signals after calls and at the ends of loops, but never

    * between the end of the body of a ``with`` statement and its ``__exit__()``, though
      it reports the line with the head again there,
    * at the ``try:`` itself (which isn't protected by anything around it either), nor
      between the call before it and there, if that is an ``acquire()`` or the like,
    * between the end of the body and a ``finally`` clause.
    """
    with open(filename, encoding="utf-8") as fp:
        tree = ast.parse(fp.read())
    lines = set()

    def shield(first, last):
        lines.update(range(first.lineno, last.end_lineno + 1))

    for n in ast.walk(tree):
        if isinstance(n, ast.With):
            lines.update(
                range(n.lineno, n.items[-1].context_expr.end_lineno + 1)
            )
        elif isinstance(n, ast.Try):
            lines.add(n.lineno)
            if n.finalbody:
                shield(n.finalbody[0], n.finalbody[-1])
            for h in n.handlers:
                if isinstance(h.body[-1], ast.Raise) and h.body[-1].exc is None:
                    shield(h.body[0], h.body[-1])
        for _, body in ast.iter_fields(n):
            if not isinstance(body, list):
                continue
            for x, y in zip(body, body[1:]):
                if isinstance(y, ast.Try) and isinstance(x, ast.Expr):
                    shield(x, x)
    return frozenset(lines)


@functools.lru_cache(None)
def _line_of(code, offset):
    for a, b, line in code.co_lines():
        if a <= offset < b:
            return line
    return None


def arm(opcodes=False):
    """Have library lines (or even instructions) reported.  No task may be running."""
    global _armed
    mon = sys.monitoring
    if _armed is None:
        if mon.get_tool(_TOOL) is None:
            mon.use_tool_id(_TOOL, "binobj-sim")
        mon.register_callback(_TOOL, mon.events.LINE, _on_line)
        mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_instruction)
        _codes[:] = _library_code()
    if _armed != opcodes:
        events = mon.events.INSTRUCTION if opcodes else mon.events.LINE
        for c in _codes:
            mon.set_local_events(_TOOL, c, events)
        _armed = opcodes


def _library_code():
    """All code objects of the library."""
    seen = {}

    def add(code):
        if code in seen or not code.co_filename.startswith(LIB_PREFIX):
            return
        seen[code] = True
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            add(obj.__code__)
    return list(seen)


class _Stop(BaseException):
    """Ends a task whose simulation is already over."""


class Task:
    def __init__(self, sched, name, fn):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.baton = _real_lock()
        self.baton.acquire()
        self.done = False
        self.result = None
        self.error = None
        self.lines = 0
        self.interrupt_at = None
        self.interrupted = False
        self.blocked_on = None
        self.why = ""
        self.thread = None
        self.held = False

    def body(self):
        self.baton.acquire()
        try:
            if self.sched.stopping:
                return
            _steppers[threading.get_ident()] = self.step
            try:
                self.result = self.fn(self)
            finally:
                _steppers.pop(threading.get_ident(), None)
        except BaseException as err:  # noqa: BLE001
            self.error = err
        finally:
            self.done = True
            self.sched.yielded.release()

    # called for each library line (or instruction) this task executes

    def step(self, interruptible=True, where=None):
        self.lines += 1
        sched = self.sched
        if sched.spots is not None and sched.is_spot(where):
            self.held = True
            sched.budget = 0
        sched.total += 1
        if (
            interruptible
            and self.interrupt_at is not None
            and self.lines >= self.interrupt_at
        ):
            self.interrupt_at = None
            self.interrupted = True
            raise SimInterrupt
        if sched.total > MAX_LINES:
            raise SimHang("threads executed too many library lines")
        sched.budget -= 1
        if sched.budget <= 0:
            self.park()

    def wait_until(self, ready, why=""):
        """Block until ``ready()``; others run meanwhile.  All blocked: a deadlock."""
        self.why = why
        self.blocked_on = ready
        while not ready():
            self.park()
        self.blocked_on = None

    def pause(self):
        """Let others run."""
        self.sched.budget = 0
        self.park()

    def park(self):
        self.sched.yielded.release()
        self.baton.acquire()
        if self.sched.stopping:
            _steppers.pop(threading.get_ident(), None)
            raise _Stop


class Scheduler:
    def __init__(self, sim):
        self.sim = sim
        self.tasks = []
        self.budget = 0
        self.total = 0
        self.switches = 0
        self.opcodes = False
        self.spots = None
        self.holds = 0
        self.stopping = False
        self.yielded = threading.Semaphore(0)
        self.current = None

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        return t

    def is_spot(self, where):
        """Do tasks have to wait here for the others to come here as well, or to end?

        The spots are drawn by when they're executed for the first time.
        """
        n = self.spots.get(where)
        if n is None:
            n = self.spots[where] = len(self.spots)
        if n in self.chosen and self.holds < 60:
            self.holds += 1
            return True
        return False

    def run(self):
        """Run all tasks to completion under drawn interleavings."""
        sim, ch = self.sim, self.sim.ch
        self.opcodes = ch.chance(25)
        style = ch.pick(["coarse", "fine", "pct", "spots", "spots"])
        unit = {"coarse": 120, "fine": 8, "pct": 40, "spots": 4000}[style] * (
            4 if self.opcodes else 1)
        if style == "spots":
            most = ch.pick([40, 150, 400]) * (6 if self.opcodes else 1)
            self.spots = {}
            self.chosen = {ch.below(most) for _ in range(ch.between(1, 3))}
        arm(self.opcodes)
        sim.log("sched", style, "opcodes" if self.opcodes else "lines")
        _active.append(self)
        try:
            for t in self.tasks:
                t.thread = threading.Thread(target=t.body, daemon=True)
                t.thread.start()
            live = list(self.tasks)
            last = None
            trail = []
            while live:
                candidates = [t for t in live if t.blocked_on is None or t.blocked_on()]
                if not candidates:
                    raise SimHang(
                        "deadlock: "
                        + ", ".join(f"{t.name} is waiting for {t.why}" for t in live)
                    )
                if len(live) > 1:
                    free = [t for t in candidates if not t.held]
                    if free:
                        candidates = free
                    t = candidates[ch.below(len(candidates))]
                    t.held = False
                    self.budget = 1 + ch.below(unit)
                    if ch.chance(6):
                        self.budget = 1_000_000  # run to completion
                else:
                    t = candidates[0]
                    self.budget = 1_000_000
                before = t.lines
                self.current = t
                t.baton.release()
                if not self.yielded.acquire(timeout=120):
                    raise SimHang(f"task {t.name} is blocked")
                self.current = None
                if t is not last:
                    self.switches += 1
                last = t
                trail.append((t.name, t.lines - before))
                if t.done:
                    live.remove(t)
                    if isinstance(t.error, (SimAbort, SimHang)):
                        raise t.error
            sim.steps += self.total
            sim.mark("trail", tuple(trail))
            sim.faults["context-switch"] += max(0, self.switches - len(self.tasks))
            if self.switches > len(self.tasks):
                sim.nontrivial = True
            sim.log("schedule", tuple(trail[:400]))
        finally:
            self.stop()
            _active.remove(self)
        for t in self.tasks:
            if isinstance(t.error, (SimAbort, SimHang)):
                raise t.error

    def stop(self):
        self.stopping = True
        for t in self.tasks:
            if not t.done and t.thread is not None and t.thread.ident is not None:
                try:
                    t.baton.release()
                except RuntimeError:
                    pass
                t.thread.join(2.0)


def abandon_all():
    for s in list(_active):
        s.stop()
    _active.clear()


def current_task():
    for s in _active:
        if s.current is not None and s.current.thread is threading.current_thread():
            return s.current
    return None


_locks = weakref.WeakSet()


class CoopLock:
    """Replacement for locks the library may create: waiting lets other tasks run."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.reset()
        _locks.add(self)

    def reset(self):
        self._lock = (
            threading._RLock() if self.reentrant else _real_lock()  # noqa: SLF001
        )

    def acquire(self, blocking=True, timeout=-1):
        if self._lock.acquire(False):
            return True
        if not blocking:
            return False
        task = current_task()
        if task is None:
            # Nothing else is going on, so nobody's ever going to release it.
            if timeout >= 0:
                return False
            raise SimHang("deadlock: waiting for a lock that's never released")
        spins = 0
        while not self._lock.acquire(False):
            spins += 1
            if timeout >= 0 and spins > 200:
                return False
            if spins > 20_000:
                raise SimHang("deadlock: waiting for a lock that's never released")
            task.sched.budget = 0
            task.park()
        return True

    def release(self):
        self._lock.release()

    def held(self):
        if self.reentrant:
            return self._lock._count > 0  # noqa: SLF001
        return self._lock.locked()

    def locked(self):
        return self.held()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def locks_held():
    """How many of the library's locks are held?  Nothing may be going on."""
    return sum(k.held() for k in list(_locks))


def reset_locks():
    """Don't let one simulation's leaked locks affect the next one."""
    for k in list(_locks):
        if k.held():
            k.reset()


class coop_locks:
    """While active, ``threading.Lock()`` and ``RLock()`` make cooperative locks."""

    def __enter__(self):
        self.saved = threading.Lock, threading.RLock
        threading.Lock = lambda: CoopLock(False)
        threading.RLock = lambda: CoopLock(True)

    def __exit__(self, *exc):
        threading.Lock, threading.RLock = self.saved


def patch_modules(modules):
    """Make locks the library creates at run time cooperative as well."""
    proxy = types.ModuleType("threading")
    proxy.__dict__.update(threading.__dict__)
    proxy.Lock = lambda: CoopLock(False)
    proxy.RLock = lambda: CoopLock(True)
    for m in modules:
        if vars(m).get("threading") is threading:
            m.threading = proxy


def run_interrupted(sim, fn, at):
    """Run ``fn`` in this thread and interrupt it at the ``at``-th library line.

    Returns (interrupted?, lines executed, result, error).
    """
    state = {"n": 0, "hit": False}
    arm(False)
    me = threading.get_ident()

    def step(interruptible=True, where=None):
        state["n"] += 1
        if interruptible and at is not None and state["n"] >= at and not state["hit"]:
            state["hit"] = True
            _steppers.pop(me, None)
            raise SimInterrupt
        if state["n"] > MAX_LINES:
            raise SimHang("too many library lines")

    _steppers[me] = step
    try:
        result = fn()
        return state["hit"], state["n"], result, None
    except (SimHang, SimAbort, SimWall):
        raise
    except BaseException as err:  # noqa: BLE001
        return state["hit"], state["n"], None, err
    finally:
        _steppers.pop(me, None)
        sim.steps += state["n"]
