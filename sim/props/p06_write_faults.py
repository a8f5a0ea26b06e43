"""P06: a dump that fails leaves only the beginning of the right bytes; retrying works."""

from __future__ import annotations

import io

from .. import model
from .. import schema
from .. import streams
from ..common import CTXS
from ..common import attempt
from ..common import change_inside
from ..common import check_dump
from ..common import draw_struct
from ..common import instance
from ..common import snapshot
from ..common import LONG
from ..common import world
from ..engine import SimCrash

ID = "P06"
LEVEL = "exploration"
RULE = (
    "a run is one drawn declaration and values, dumped once or more to a stream with"
    " drawn faults, then retried; non-trivial if a fault hit a dump; distinct by"
    " declaration, values and fault plan"
)
RUNS = {"quick": 60000, "thorough": 1000000}
PROBES = ("write-error", "enospc", "torn-write", "crash", "short-write",
          "value-error-mid-dump", "callback-error", "retry-ok", "bystander",
          "changed-inside")


class CallbackError(Exception):
    pass


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, LONG)
    ctx = ch.pick(CTXS)
    spec, values = draw_struct(sim, gen, rt, ctx)
    if ch.chance(25):
        values = schema.spoil_struct(ch, spec, values, ctx)
    inst = instance(sim, spec, values, rt)
    want = model.dump(spec, values, ctx)
    sim.mark("values", repr(values))
    before = snapshot(inst)

    junk = ch.bytes(ch.pick([0, 0, 4]))
    after = ch.bytes(ch.pick([0, 0, 600]))
    file = streams.SimFile(junk + after)
    start = len(junk)
    for trial in range(ch.between(1, 3)):
        if ch.chance(25):
            values = change_inside(sim, spec, inst, values, rt, ctx)
            want = model.dump(spec, values, ctx)
            before = snapshot(inst)
            sim.mark("inside", repr(values))
            sim.hit("changed-inside")
        plan = {}
        n = max(1, len(want.data))
        where = start + ch.below(n)
        fault = ch.pick(["none", "error", "enospc", "crash", "callback"])
        if fault == "error":
            plan["write_error"] = (where, ch.between(1, 3))
        elif fault == "enospc":
            plan["write_limit"] = where
        elif fault == "crash":
            plan["crash_at"] = where
        plan["torn"] = ch.chance(50)
        plan["signals"] = True
        if ch.chance(40):
            plan["short_write"] = 60
        raw = streams.SimRaw(sim, file, "w", start, **plan)
        calls = [0]
        armed = ch.below(12) + 1 if fault == "callback" else None
        blown = []

        def hook(kind, name, info, calls=calls, armed=armed, blown=blown):
            calls[0] += 1
            if armed is not None and calls[0] == armed:
                sim.fault("callback-error", kind, name)
                sim.hit("callback-error")
                blown.append(CallbackError(f"{kind} {name}"))
                raise blown[0]

        rt.hook = hook
        via = ch.pick(["stream", "stream", "stream", "partial"])
        if fault in ("none", "callback"):
            via = ch.pick(["stream", "bytes", "partial"])
        sim.mark("via", via)
        if via == "bytes":
            want = model.dump(spec, values, ctx)
            got = attempt(inst.to_bytes, ctx)
            if got.ok:
                raw._put(got.value)
        elif via == "partial":
            want = model.partial_dump(spec, values, None, ctx)
            got = attempt(inst.partial_dump, raw, None, ctx)
        else:
            want = model.dump(spec, values, ctx)
            got = attempt(inst.to_stream, raw, ctx)
        rt.hook = None
        data = bytes(file.data[start : raw.pos])
        sim.log("dump", fault, plan, got, data)
        sim.mark("plan", fault, where, repr(sorted(plan.items())))
        what = f"dump of {values!r} as {spec!r} ({fault} {plan}) "
        sim.check(
            bytes(file.data[:start]) == junk, "overwrote-earlier-data",
            lambda: f"{what}: bytes before the record changed to {bytes(file.data[:start])!r}",
        )
        sim.check(
            model.same(before, snapshot(inst)), "dump-mutates",
            lambda: f"{what}: instance changed from {before!r} to {snapshot(inst)!r}",
        )
        if isinstance(got.error, SimCrash) or (raw.failed and not blown):
            sim.check(
                isinstance(got.error, SimCrash) or raw.surfaced(got.error),
                "io-error-hidden",
                lambda: f"{what}: writing failed, but got {got!r}",
            )
            prefix(sim, want, data, what)
            if fault == "crash":
                sim.check(
                    isinstance(got.error, SimCrash), "io-error-hidden",
                    lambda: f"{what}: {got!r}",
                )
        elif blown:
            sim.check(
                not got.ok and reaches(got.error, blown[0]), "callback-error-hidden",
                lambda: f"{what}: {blown[0]!r} was raised, but got {got!r}",
            )
            prefix(sim, want, data, what)
        else:
            if check_dump(sim, got, data, want, what):
                sim.nontrivial |= trial > 0
            else:
                sim.hit("value-error-mid-dump" if data else "value-error")
                prefix(sim, want, data, what)
        # What's beyond was left alone.
        end = max(raw.pos, start)
        sim.check(
            bytes(file.data[end:]) == (junk + after)[end:], "overwrote-later-data",
            lambda: f"{what}: bytes after {end} changed",
        )
        file = streams.SimFile(junk + after)
        if not got.ok and ch.chance(40):
            # Others don't notice, in particular not by what's left of the failed dump.
            small = ch.below(256)
            out = attempt(bystander(rt)(a=small).to_bytes)
            sim.check(
                out.ok and out.value == bytes([small]), "others-affected",
                lambda: f"after {what}: {out!r} is written, not {small}",
            )
            sim.hit("bystander")

    # The fault is gone: everything works as if nothing had happened.
    out = io.BytesIO()
    want = model.dump(spec, values, ctx)
    got = attempt(inst.to_stream, out, ctx)
    if check_dump(sim, got, out.getvalue(), want, f"retry of {values!r} as {spec!r}"):
        sim.hit("retry-ok")
    sim.check(model.same(before, snapshot(inst)), "dump-mutates", "retry changed it")


def bystander(rt):
    class Bystander(rt.lib.Struct):
        a = rt.lib.fields.UInt8()

    return Bystander


def reaches(err, cause):
    """``err`` is ``cause`` or was raised because of it."""
    seen = 0
    while err is not None and seen < 20:
        if err is cause:
            return True
        err = err.__cause__ or err.__context__
        seen += 1
    return False


def prefix(sim, want, data, what):
    """``data`` is the start of what should have been written."""
    good = want.data
    if want.ok or len(data) <= len(good):
        sim.check(
            good.startswith(data), "wrong-bytes",
            lambda: f"{what}: {data!r} was written, not a prefix of {good!r}",
        )
    else:
        # Some of a container may be out before it's known that the rest is no good.
        sim.check(
            data.startswith(good), "wrong-bytes",
            lambda: f"{what}: {data!r} was written, doesn't start with {good!r}",
        )
