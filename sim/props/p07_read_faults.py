"""P07: I/O errors while loading surface as such, spoil nothing, and go away on retry."""

from __future__ import annotations

import io

from .. import model
from .. import streams
from ..common import CTXS
from ..common import attempt
from ..common import check_load
from ..common import contents
from ..common import model_load
from ..common import stored_records
from ..common import world

ID = "P07"
LEVEL = "exploration"
RULE = (
    "a run is one file of drawn records read through from_stream, partial_load, get_field"
    " and from_bytes with drawn unreadable bytes, failing seeks and short reads, retried"
    " until it works; non-trivial if a read failed; distinct by declarations, values,"
    " fault plan and operations"
)
RUNS = {"quick": 70000, "thorough": 1000000}
PROBES = ("read-error", "seek-error", "short-read", "retry-ok", "persistent-error")


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim)
    ctx = ch.pick(CTXS)
    data, records = stored_records(
        sim, rt, gen, ctx, ch.pick([1, 1, 2]), ch.between(1, 3),
        prefix=ch.bytes(ch.pick([0, 0, 3])),
    )
    if not records or len(data) == records[0].start:
        return
    good = []
    file = streams.SimFile(data)
    for r in records:
        plan = {}
        fault = ch.pick(["read", "read", "seek", "none"])
        if fault == "read" and r.data:
            plan["read_error"] = (r.start + ch.below(len(r.data)), ch.between(1, 4))
        elif fault == "seek":
            plan["seek_error"] = ch.between(1, 2)
            plan["seek_error_after"] = ch.below(4)
        if ch.chance(50):
            plan["short_read"] = ch.pick([50, 100])
        buffered = ch.chance(25) and fault != "seek"
        plan["unbuffered"] = not buffered
        plan["signals"] = True
        raw = streams.SimRaw(sim, file, "r", r.start, **plan)
        handle = io.BufferedReader(raw, 64) if buffered else raw
        op = ch.pick(["from_stream", "partial_load", "get_field", "from_stream"])
        name = ch.pick(r.spec.fields).name
        sim.mark("op", op, name, repr(sorted(plan.items())), buffered)
        what = f"{op} of {r.spec!r} at {r.start} of {data!r} with {plan}"
        for trial in range(20):
            raw.pos = r.start
            if buffered:
                handle.detach()
                handle = io.BufferedReader(raw, 64)
            before = raw.failed
            if op == "from_stream":
                got = attempt(r.spec.cls.from_stream, handle, ctx)
            elif op == "partial_load":
                got = attempt(r.spec.cls.partial_load, handle, None, ctx)
            else:
                got = attempt(r.spec.cls.get_field, handle, name, ctx)
            failed = raw.failed != before
            sim.log("try", op, trial, failed, got)
            if failed:
                sim.check(
                    raw.surfaced(got.error), "io-error-hidden",
                    lambda: f"{what}: I/O failed, but the outcome was {got!r}",
                )
                if trial:
                    sim.hit("persistent-error")
                continue
            if trial:
                sim.hit("retry-ok")
            break
        else:
            sim.fail("no-recovery", f"{what}: still failing")
        # No error (any more): exactly what an undisturbed load gives.
        if op == "from_stream":
            want, werr = model_load(r.spec, data, r.start, ctx)
            if check_load(sim, r.spec, got, want, werr, what):
                good.append((r, got.value, want.values))
        elif op == "partial_load":
            values, end, err = model.partial_load(r.spec, data, r.start, ctx)
            if err is None or err.kind == "eof":
                sim.check(got.ok, "load-failed", lambda: f"{what}: {got!r}")
                have = contents(sim, r.spec, got.value, what)
                sim.check(
                    model.same(have, values), "wrong-values",
                    lambda: f"{what}: got {have!r}, expected {values!r}",
                )
                good.append((r, got.value, values))
        else:
            try:
                values, _ = model.load_fields(r.spec, data, r.start, ctx, last=name)
            except model.LoadError:
                continue
            sim.check(got.ok, "load-failed", lambda: f"{what}: {got!r}")
            have = r.spec.by_name[name].from_lib(got.value)
            sim.check(
                model.same(have, values[name]), "wrong-values",
                lambda: f"{what}: got {have!r}, expected {values[name]!r}",
            )
    # What was loaded earlier isn't affected by later failures.
    for r, inst, values in good:
        have = r.spec.from_lib(inst)
        sim.check(
            model.same(have, values), "changed-later",
            lambda: f"{r!r} changed from {values!r} to {have!r}",
        )
