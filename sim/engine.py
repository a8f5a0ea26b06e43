"""Deterministic simulation engine: choices, runs, workers, shrinking, replay, evidence.

One integer (VERIF_SEED) decides everything.  Run ``i`` of property ``P`` draws every
decision -- the struct declarations, the values, the operations, the fault plan, which
thread runs for how many library lines -- from one PRNG seeded with ``P:seed:i`` through
a :class:`Choices` object which records the draws.  A recorded draw list *is* the run: it
is what gets shrunk and what a replay file contains.
"""

from __future__ import annotations

import collections
import hashlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import warnings

REPO = os.environ.get("BINOBJ_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("BINOBJ_OUT") or VERIF
LIB_PREFIX = os.path.join(REPO, "binobj") + os.sep

MAX_DRAWS = 60_000
RUN_CPU_S = 20.0  # of processor time; a stalled machine doesn't look like a hang
CONFIRM_S = 300
RUN_WALL_S = 240.0  # (for what waits for something that never happens)
HANG_LINES = 40_000_000


class SimAbort(BaseException):
    """The run went out of its draw budget: not a verdict, just too long a run."""


class SimHang(BaseException):
    """The code under test made no progress within its bound."""


class SimWall(BaseException):
    """The watchdog suspects that a run makes no progress."""


class SimCrash(BaseException):
    """Simulated process death (not an Exception, so nothing should swallow it)."""


class SimInterrupt(KeyboardInterrupt):
    """Simulated asynchronous interruption (Ctrl-C, task cancellation)."""


class Violation(Exception):
    """A property is broken."""

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class Choices:
    """Source of every decision in a run.  Smaller values mean simpler decisions."""

    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.log = []

    def below(self, n):
        if n <= 1:
            return 0
        if len(self.log) >= MAX_DRAWS:
            raise SimAbort
        if self.replay is None:
            v = self.rng.randrange(n)
        else:
            i = len(self.log)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
        self.log.append(v)
        return v

    def between(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """``pairs``: [(weight, value)].  The first value is the simplest one."""
        total = sum(w for w, _ in pairs)
        n = self.below(total)
        for w, v in pairs:
            if n < w:
                return v
            n -= w
        raise AssertionError

    def chance(self, num, den=100):
        """True with probability num/den; False is the simple outcome."""
        return self.below(den) >= den - num

    def bits(self, n):
        return self.below(1 << n)

    def bytes(self, n):
        if n == 0:
            return b""
        if n > 64:
            # Long blobs: a short seed expanded, so the draw list stays small.
            k = self.bits(24)
            return random.Random(k).randbytes(n) if k else bytes(n)
        return bytes(self.below(256) for _ in range(n))

    def small(self, hi):
        """An int in [0, hi], biased to small values."""
        return min(self.below(hi + 1), self.below(hi + 1))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Sim:
    """One simulated execution."""

    def __init__(self, choices, prop, run):
        self.ch = choices
        self.prop = prop
        self.run = run
        self.events = []
        self.faults = collections.Counter()
        self.cover = collections.Counter()
        self.steps = 0  # simulated time: I/O calls + scheduled library lines
        self.clock_s = 0  # simulated wall clock covered, in seconds
        self.fingerprint = []  # what makes this run distinct
        self.nontrivial = False

    def log(self, *event):
        self.events.append(event)

    def fault(self, kind, *detail):
        self.faults[kind] += 1
        self.nontrivial = True
        self.events.append(("FAULT", kind) + detail)

    def hit(self, probe):
        self.cover[probe] += 1

    def mark(self, *what):
        self.fingerprint.append(what)

    def fail(self, kind, message):
        raise Violation(kind, message)

    def check(self, cond, kind, message):
        if not cond:
            raise Violation(kind, message() if callable(message) else message)

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode("utf-8", "surrogatepass"))
            h.update(b"\n")
        return h.hexdigest()[:24]

    def finger(self):
        return hashlib.sha256(
            repr(self.fingerprint).encode("utf-8", "surrogatepass")
        ).digest()[:8]


def fresh_choices(prop, seed, run):
    return Choices(rng=random.Random(f"{prop}:{seed}:{run}"))


def _lib_in_traceback(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(LIB_PREFIX):
            return True
        tb = tb.tb_next
    return False


class _LineBudget:
    """Deterministic confirmation that the library loops without progress."""

    def __init__(self, limit):
        self.left = limit

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIB_PREFIX):
            return None
        return self.local

    def local(self, frame, event, arg):
        self.left -= 1
        if self.left <= 0:
            raise SimHang("library executed too many lines")
        return self.local


def execute(scenario, prop, choices, run, line_budget=None):
    """Run one simulation.  Returns (sim, violation or None, harness_error or None)."""
    from . import sched

    sim = Sim(choices, prop, run)
    sched.reset_locks()
    try:
        if line_budget is not None:
            budget = _LineBudget(line_budget)
            sys.settrace(budget.trace)
        try:
            scenario(sim)
        finally:
            if line_budget is not None:
                sys.settrace(None)
        if sched.locks_held():
            sim.fail("no-progress", "a lock is still held after everything's done, so"
                     " other threads would wait for it forever")
    except Violation as v:
        sim.log("VIOLATION", v.kind, v.message)
        return sim, v, None
    except SimAbort:
        sim.log("ABORT")
        sim.hit("run-too-long")
        return sim, None, None
    except SimHang as err:
        v = Violation("no-progress", str(err))
        sim.log("VIOLATION", v.kind, v.message)
        return sim, v, None
    except (Exception, SimInterrupt, SimCrash) as err:  # noqa: BLE001
        text = "".join(traceback.format_exception(err))
        if _lib_in_traceback(err.__traceback__):
            v = Violation(
                f"unexpected-exception:{type(err).__name__}",
                f"{err}\n{text}",
            )
            sim.log("VIOLATION", v.kind, str(err))
            return sim, v, None
        return sim, None, text
    return sim, None, None


def execute_guarded(scenario, prop, make_choices, run):
    """:func:`execute` under a wall-clock watchdog.

    The watchdog only *suspects* a hang; the verdict comes from re-running the same
    draws with a deterministic budget of executed library lines.
    """

    def on_alarm(_sig, _frm):
        raise SimWall

    def watched(fn, cpu_s, wall_s):
        timers = [
            (signal.SIGPROF, signal.ITIMER_PROF, cpu_s),
            (signal.SIGALRM, signal.ITIMER_REAL, wall_s),
        ]
        for sig, timer, limit in timers:
            signal.signal(sig, on_alarm)
            signal.setitimer(timer, limit, 1.0)
        result = None
        try:
            result = fn()
        except SimWall:
            pass
        for _ in range(3):
            try:
                for sig, timer, _limit in timers:
                    signal.signal(sig, signal.SIG_IGN)
                    signal.setitimer(timer, 0)
                break
            except SimWall:
                pass
        return result

    result = watched(
        lambda: execute(scenario, prop, make_choices(), run), RUN_CPU_S, RUN_WALL_S
    )
    if result is not None:
        return result
    from . import sched

    sched.abandon_all()
    result = watched(
        lambda: execute(scenario, prop, make_choices(), run, line_budget=HANG_LINES),
        CONFIRM_S, CONFIRM_S,
    )
    if result is not None:
        return result
    sched.abandon_all()
    sim = Sim(make_choices(), prop, run)
    v = Violation("no-progress", "an operation never ends")
    sim.log("VIOLATION", v.kind, v.message)
    return sim, v, None


# ---------------------------------------------------------------------------- workers


class Totals:
    def __init__(self):
        self.runs = 0
        self.faults = collections.Counter()
        self.fault_runs = 0
        self.nontrivial = 0
        self.cover = collections.Counter()
        self.steps = 0
        self.clock_s = 0
        self.fingers = set()
        self.draws = 0
        self.samples = []
        self.digests = []

    def add(self, sim, keep_digest=False):
        self.runs += 1
        self.faults.update(sim.faults)
        self.fault_runs += bool(sim.faults)
        self.cover.update(sim.cover)
        self.steps += sim.steps
        self.clock_s += sim.clock_s
        self.draws += len(sim.ch.log)
        if sim.nontrivial:
            self.nontrivial += 1
            self.fingers.add(sim.finger())
        if len(self.samples) < 1 and sim.nontrivial:
            self.samples.append(
                {"run": sim.run, "events": [_short(e) for e in sim.events[:40]]}
            )
        if keep_digest:
            self.digests.append((sim.run, sim.digest()))

    def merge(self, other):
        self.runs += other.runs
        self.faults.update(other.faults)
        self.fault_runs += other.fault_runs
        self.nontrivial += other.nontrivial
        self.cover.update(other.cover)
        self.steps += other.steps
        self.clock_s += other.clock_s
        self.draws += other.draws
        self.fingers |= other.fingers
        self.samples += other.samples
        self.digests += other.digests


def _short(event, limit=300):
    s = repr(event)
    return s if len(s) <= limit else s[: limit - 3] + "..."


def _worker(scenario, prop, seed, first, step, n_runs, stop_at, deadline, out, digests):
    warnings.simplefilter("ignore")
    totals = Totals()
    found = None
    harness = None
    timed_out = False
    aborted = 0
    for run in range(first, n_runs, step):
        if run >= stop_at.value:
            break
        if time.monotonic() > deadline:
            timed_out = True
            break
        sim, violation, err = execute_guarded(
            scenario, prop, lambda r=run: fresh_choices(prop, seed, r), run
        )
        totals.add(sim, digests)
        if err is not None:
            harness = (run, err, list(sim.ch.log))
            break
        if violation is not None:
            found = (run, violation.kind, violation.message, list(sim.ch.log))
            with stop_at.get_lock():
                if run < stop_at.value:
                    stop_at.value = run
            break
    out.send((totals, found, harness, timed_out, aborted))
    out.close()


def explore(scenario, prop, seed, n_runs, workers, wall_cap_s, digests=False):
    """Run ``n_runs`` simulations.  Returns (totals, violation, harness, timed_out)."""
    ctx = multiprocessing.get_context("fork")
    stop_at = ctx.Value("l", n_runs)
    deadline = time.monotonic() + wall_cap_s
    procs = []
    for w in range(workers):
        recv, send = ctx.Pipe(duplex=False)
        p = ctx.Process(
            target=_worker,
            args=(
                scenario, prop, seed, w, workers, n_runs, stop_at, deadline, send,
                digests,
            ),
        )
        p.start()
        send.close()
        procs.append((p, recv))
    totals = Totals()
    founds, harness, timed_out = [], [], False
    for p, recv in procs:
        try:
            t, f, h, to, _ = recv.recv()
        except EOFError:
            p.join()
            harness.append((-1, f"worker died with exit code {p.exitcode}", []))
            continue
        p.join()
        totals.merge(t)
        if f:
            founds.append(f)
        if h:
            harness.append(h)
        timed_out |= to
    founds.sort(key=lambda f: f[0])
    harness.sort(key=lambda h: h[0])
    return totals, (founds[0] if founds else None), harness, timed_out


# --------------------------------------------------------------------------- shrinking


def shrink(scenario, prop, kind, draws, budget_s=20.0, max_tries=3000):
    """Shortest/smallest draw list that still shows a violation of the same kind."""
    end = time.monotonic() + budget_s
    tries = 0
    best = list(draws)

    def attempt(candidate):
        nonlocal tries, best
        if time.monotonic() > end or tries >= max_tries:
            return False
        tries += 1
        sim, v, err = execute_guarded(
            scenario, prop, lambda: Choices(replay=candidate), 0
        )
        if err is None and v is not None and v.kind == kind:
            used = list(sim.ch.log)
            while used and used[-1] == 0:
                used.pop()
            if (len(used), used) < (len(best), best):
                best = used
                return True
        return False

    attempt(best)
    improved = True
    while improved and time.monotonic() < end and tries < max_tries:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + size :]
                if len(best) > 0 and attempt(cand):
                    improved = True
                else:
                    i += size
                if time.monotonic() > end or tries >= max_tries:
                    break
            size //= 2
        # Zero out blocks, then lower individual values.
        for size in (8, 4, 2):
            for i in range(0, len(best), size):
                if any(best[i : i + size]):
                    cand = list(best)
                    cand[i : i + size] = [0] * len(cand[i : i + size])
                    improved |= attempt(cand)
        i = 0
        while i < len(best):
            v = best[i]
            if v:
                for smaller in (0, v // 2, v - 1):
                    if smaller < best[i] and i < len(best):
                        cand = list(best)
                        cand[i] = smaller
                        if attempt(cand):
                            improved = True
                            if i >= len(best):
                                break
            i += 1
            if time.monotonic() > end or tries >= max_tries:
                break
    return best, tries


# ------------------------------------------------------------------------------ check


def setup_library():
    """Import the library from the working tree, never from a stale byte code cache."""
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    # Everything the library needs from elsewhere is imported before locks are replaced.
    import codecs  # noqa: F401
    import dataclasses  # noqa: F401
    import importlib.metadata
    import logging  # noqa: F401
    import queue  # noqa: F401
    import threading  # noqa: F401
    import uuid  # noqa: F401
    import zoneinfo  # noqa: F401

    import more_itertools  # noqa: F401
    import typing_extensions  # noqa: F401

    importlib.metadata.version("binobj")

    from . import sched

    with sched.coop_locks():
        import binobj
        import binobj.fields
        import binobj.pep526
        import binobj.varints

    got = os.path.realpath(binobj.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"binobj was imported from {got}, not from {REPO}")
    sched.patch_modules([m for n, m in sys.modules.items() if n.split(".")[0] == "binobj"])
    warnings.simplefilter("ignore")
    return binobj


def replay_file(path, load_property):
    with open(path) as fp:
        data = json.load(fp)
    mod = load_property(data["property"])
    sim, v, err = execute_guarded(
        mod.scenario,
        data["property"],
        lambda: Choices(replay=data["choices"]),
        data.get("run", 0),
    )
    return data, sim, v, err


def run_check(mod, tier, seed):
    """Decide one property.  Returns the exit code."""
    prop = mod.ID
    started = time.monotonic()
    n_runs = mod.RUNS[tier]
    workers = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    wall_cap = 780.0 if tier == "quick" else float(
        os.environ.get("SIM_WALL_CAP", "7200")
    )
    totals, found, harness, timed_out = explore(
        mod.scenario, prop, seed, n_runs, workers, wall_cap
    )
    wall = time.monotonic() - started

    exit_code = 0
    violations = 0
    if found is not None:
        violations = 1
        run, kind, message, draws = found
        exit_code = report_violation(mod, prop, seed, run, kind, message, draws)
    elif harness:
        run, text, draws = harness[0]
        print(f"HARNESS-ERROR property={prop} run={run} seed={seed}", flush=True)
        print(text, flush=True)
        exit_code = 2
    elif timed_out:
        print(f"HARNESS-ERROR property={prop}: out of wall-clock time after "
              f"{totals.runs} of {n_runs} runs", flush=True)
        exit_code = 2

    write_evidence(mod, tier, seed, totals, n_runs, workers, wall, violations)
    print(
        f"{prop}: {totals.runs} simulated runs ({totals.nontrivial} non-trivial,"
        f" {len(totals.fingers)} distinct), {sum(totals.faults.values())} faults"
        f" injected, {wall:.1f} s, exit {exit_code}",
        flush=True,
    )
    return exit_code


def report_violation(mod, prop, seed, run, kind, message, draws):
    first = message.splitlines()[0] if message else ""
    small, tries = shrink(mod.scenario, prop, kind, draws)
    sim, v, err = execute_guarded(
        mod.scenario, prop, lambda: Choices(replay=small), 0
    )
    if v is None or v.kind != kind:
        # Should not happen; report the unshrunk run rather than nothing.
        small = list(draws)
        sim, v, err = execute_guarded(
            mod.scenario, prop, lambda: Choices(replay=small), 0
        )
    out_dir = os.path.join(OUT, "replays")
    os.makedirs(out_dir, exist_ok=True)
    path = os.path.join(out_dir, f"{prop}-seed{seed}-run{run}.json")
    with open(path, "w") as fp:
        json.dump(
            {
                "property": prop,
                "seed": seed,
                "run": run,
                "kind": kind,
                "message": v.message if v else message,
                "choices": small,
                "original_draws": len(draws),
                "shrink_attempts": tries,
                "digest": sim.digest(),
                "trace": [_short(e, 2000) for e in sim.events],
            },
            fp,
            indent=1,
        )
        fp.write("\n")
    # The replay must fail the same way in a fresh interpreter.
    proc = subprocess.run(
        [sys.executable, os.path.join(VERIF, "check.py"), "--replay", path],
        capture_output=True,
        text=True,
        env={**os.environ, "PYTHONHASHSEED": "12345"},
        timeout=300,
        check=False,
    )
    same = proc.returncode == 1 and f"digest={sim.digest()}" in proc.stdout
    print(f"violation kind: {kind}", flush=True)
    print(f"  {first}", flush=True)
    for e in sim.events[-25:]:
        print("   ", _short(e, 400), flush=True)
    print(f"  replay in a fresh process: {'identical' if same else 'DIFFERENT'}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


def write_evidence(mod, tier, seed, totals, n_runs, workers, wall, violations):
    out_dir = os.path.join(OUT, "evidence")
    os.makedirs(out_dir, exist_ok=True)
    per_hour = totals.runs / wall * 3600 if wall else 0
    data = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": totals.runs,
            "distinct_nontrivial": len(totals.fingers),
            "rule": mod.RULE,
            "samples": totals.samples[:3],
            "exhaustive": False,
            "runs_requested": n_runs,
            "runs_with_faults": totals.fault_runs,
            "runs_per_hour": round(per_hour),
            "seeds_per_hour": round(per_hour),
            "simulated_steps": totals.steps,
            "simulated_clock_seconds": totals.clock_s,
            "random_draws": totals.draws,
            "faults_injected": dict(sorted(totals.faults.items())),
            "probes_hit": dict(sorted(totals.cover.items())),
            "probes_never_hit": sorted(
                p for p in getattr(mod, "PROBES", ()) if not totals.cover.get(p) and not totals.faults.get(p)
            ),
            "workers": workers,
            "real_components": getattr(
                mod,
                "REAL",
                "binobj (all of it, from /repo's working tree), CPython's struct,"
                " codecs, datetime and uuid",
            ),
            "stubbed_components": getattr(
                mod,
                "STUB",
                "files/sockets (simulated streams), user callbacks (simulated)",
            ),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    path = os.path.join(out_dir, f"{mod.ID}.json")
    with open(path + ".tmp", "w") as fp:
        json.dump(data, fp, indent=1, default=str)
        fp.write("\n")
    os.replace(path + ".tmp", path)
