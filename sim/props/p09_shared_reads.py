"""P09: reading from or dumping a struct never changes it, even from several threads."""

from __future__ import annotations

import copy
import io

from .. import model
from .. import sched
from ..common import CTXS
from ..common import attempt
from ..common import check_dump
from ..common import draw_struct
from ..common import freeze
from ..common import instance
from ..common import snapshot
from ..common import world
from .p08_threads import try_

ID = "P09"
LEVEL = "exploration"
RULE = (
    "a run is one instance (made by the constructor or by loading) on which drawn reading"
    " operations run first one after the other, then from 2-3 threads under one drawn"
    " interleaving; non-trivial if threads were switched in the middle of operations;"
    " distinct by declaration, values, operations and the exact interleaving"
)
RUNS = {"quick": 15000, "thorough": 300000}
PROBES = ("loaded-instance", "undefined-value", "instance-op:to_dict", "instance-op:eq")


def outcome_key(out):
    if out.ok:
        return freeze(out.value)
    return type(out.error).__name__


def draw_reader(sim, spec, inst, twin, ctx, names):
    ch = sim.ch
    what = ch.pick([
        "to_bytes", "to_dict", "len", "bytes", "eq", "item", "iter", "repr",
        "partial_dump", "validate", "to_stream", "to_dict_keep", "deepcopy",
        "copy",
    ])
    sim.hit("instance-op:" + what)
    if what == "to_bytes":
        return what, lambda: inst.to_bytes(ctx)
    if what == "bytes":
        return what, lambda: bytes(inst)
    if what == "to_dict":
        return what, lambda: inst.to_dict()
    if what == "to_dict_keep":
        return what, lambda: inst.to_dict(keep_discardable=True, context=ctx)
    if what == "len":
        return what, lambda: len(inst)
    if what == "eq":
        return what, lambda: (inst == twin, twin == inst)
    if what == "iter":
        return what, lambda: [n for n in inst]
    if what == "repr":
        return what, lambda: repr(inst)
    if what == "validate":
        return what, inst.validate_contents
    if what == "deepcopy":
        return what, lambda: copy.deepcopy(inst)
    if what == "copy":
        return what, lambda: copy.copy(inst)
    n = ch.pick(names)
    if what == "item":
        if ch.chance(50):
            return f"item {n}", lambda: inst[n]
        return f"attr {n}", lambda: getattr(inst, n)
    if what == "partial_dump":

        def partial():
            s = io.BytesIO()
            inst.partial_dump(s, n, ctx)
            return s.getvalue()

        return f"partial_dump {n}", partial

    def to_stream():
        s = io.BytesIO()
        inst.to_stream(s, ctx)
        return s.getvalue()

    return what, to_stream


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, max_groups=ch.pick([3, 5]))
    ctx = ch.pick(CTXS)
    spec, values = draw_struct(sim, gen, rt, ctx)
    want = model.dump(spec, values, ctx)
    inst = instance(sim, spec, values, rt)
    if want.ok and ch.chance(40):
        got = attempt(spec.cls.from_bytes, want.data, ctx)
        if got.ok:
            inst = got.value
            values = spec.from_lib(inst)
            want = model.dump(spec, values, ctx)
            sim.hit("loaded-instance")
    elif ch.chance(30) and values:
        # Something's missing.
        values = dict(values)
        n = ch.pick(sorted(values))
        del values[n]
        inst = instance(sim, spec, values, rt, how="init")
        want = model.dump(spec, values, ctx)
    unset = None
    settable = [f.name for f in spec.fields if f.settable]
    if settable and ch.chance(6):
        # Explicitly undefined, which isn't the same as not set.
        unset = ch.pick(settable)
        lib = {**spec.to_lib(values, rt, ch), unset: rt.lib.UNDEFINED}
        inst = spec.cls(**lib)
        want = None
        sim.hit("undefined-value")
    looks = repr(inst)
    twin = attempt(copy.deepcopy, inst)
    sim.check(twin.ok, "copy-failed", lambda: f"deepcopy of {inst!r}: {twin!r}")
    twin = twin.value
    before = snapshot(inst)
    names = [f.name for f in spec.fields]
    sim.mark("values", repr(values))
    sim.check(
        model.same(before, snapshot(twin)), "copy-differs",
        lambda: f"copy of {before!r} is {snapshot(twin)!r}",
    )

    readers = [draw_reader(sim, spec, inst, twin, ctx, names)
               for _ in range(ch.between(2, 6))]
    alone = []
    for name, fn in readers:
        out = attempt(fn)
        sim.log("alone", name, out)
        sim.check(
            model.same(before, snapshot(inst)), "read-mutates",
            lambda name=name: f"{name} changed the struct from {before!r} to"
            f" {snapshot(inst)!r} ({spec!r})",
        )
        if unset is not None:
            now = attempt(getattr, inst, unset)
            sim.check(
                now.ok and now.value is rt.lib.UNDEFINED and repr(inst) == looks,
                "read-mutates",
                lambda name=name: f"{name} changed the struct from {looks} to {inst!r},"
                f" {unset} is {now!r} ({spec!r})",
            )
        elif name in ("to_bytes", "to_stream"):
            check_dump(sim, out, out.value if out.ok else b"", want, f"{name} of {values!r}"
                       f" as {spec!r}")
        if name == "eq":
            sim.check(
                not out.ok or out.value == (True, True) or _has_nan(before),
                "copy-differs", lambda: f"{inst!r} and its copy compare {out!r}",
            )
        alone.append(outcome_key(out))
        if name.startswith("to_dict") and out.ok:
            # It's the caller's to do with as they please.
            scribble(out.value)
            again = attempt(fn)
            sim.check(
                model.same(before, snapshot(inst))
                and model.same(alone[-1], outcome_key(again)),
                "read-mutates",
                lambda name=name: f"changing what {name} gave changed the struct from"
                f" {before!r} to {snapshot(inst)!r} ({spec!r}), {again!r}",
            )

    s = sched.Scheduler(sim)
    plans = []
    for t in range(ch.between(2, 3)):
        mine = [ch.below(len(readers)) for _ in range(ch.between(1, 3))]
        plans.append(mine)
        s.spawn(f"t{t}", lambda task, mine=mine: [try_(readers[i][1]) for i in mine])
        sim.mark("ops", tuple(readers[i][0] for i in mine))
    s.run()
    for task, mine in zip(s.tasks, plans):
        if task.error is not None:
            raise task.error
        for i, out in zip(mine, task.result):
            sim.log("together", task.name, readers[i][0], out)
            sim.check(
                model.same(outcome_key(out), alone[i]), "disturbed",
                lambda: f"{readers[i][0]} of {before!r} as {spec!r} gave {alone[i]!r}"
                f" alone, and {out!r} with other threads reading",
            )
    after = snapshot(inst)
    sim.check(
        model.same(before, after), "read-mutates",
        lambda: f"reading changed the struct from {before!r} to {after!r}",
    )


def scribble(d):
    """Change everything in what to_dict() gave."""
    for n in list(d) if isinstance(d, dict) else range(len(d)):
        v = d[n]
        if isinstance(v, (dict, list)):
            scribble(v)
        else:
            d[n] = "scribbled"
    if isinstance(d, list):
        d.append("scribbled")
    else:
        d["scribbled"] = "scribbled"


def _has_nan(x):
    if isinstance(x, float):
        return x != x
    if isinstance(x, dict):
        return any(map(_has_nan, x.values()))
    if isinstance(x, (list, tuple)):
        return any(map(_has_nan, x))
    return False
