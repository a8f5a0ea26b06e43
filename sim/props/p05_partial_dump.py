"""P05: partial_dump writes exactly the leading fields, and resuming is seamless."""

from __future__ import annotations

from .. import model
from .. import schema
from .. import streams
from ..common import CTXS
from ..common import VALUE_ERRORS
from ..common import attempt
from ..common import draw_struct
from ..common import errors
from ..common import instance
from ..common import snapshot
from ..common import world

ID = "P05"
LEVEL = "exploration"
RULE = (
    "a run is one drawn declaration, a history of assignments to one instance and a"
    " partial dump after each; non-trivial if a partial dump wrote something that was"
    " compared; distinct by declaration, values, history and cut-off fields"
)
RUNS = {"quick": 70000, "thorough": 900000}
PROBES = ("partial-dump-stopped-at-missing", "partial-dump-missing-error",
          "partial-dump-whole", "incomplete-nested")


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim)
    ctx = ch.pick(CTXS)
    spec, values = draw_struct(sim, gen, rt, ctx)
    for f in spec.fields:
        v = values.get(f.name)
        if isinstance(f.kind, schema.NestedKind) and v and isinstance(v, dict) and (
            ch.chance(15)
        ):
            # It isn't complete itself.
            v = dict(v)
            del v[ch.pick(list(v))]
            values = {**values, f.name: v}
            sim.hit("incomplete-nested")
    # The instance is filled in bit by bit.
    names = [n for n in values]
    if ch.chance(60):
        names = ch.shuffle(names)
    start = {n: values[n] for n in names[: ch.below(len(names) + 1)]}
    inst = instance(sim, spec, start, rt, how="init")
    explicit = dict(start)
    waiting = [n for n in names if n not in start]
    for _ in range(ch.between(1, 4)):
        one(sim, spec, inst, explicit, ctx)
        if waiting and ch.chance(70):
            n = waiting.pop(0)
            if not spec.by_name[n].settable or values[n] is model.NP:
                continue
            if not all(p.ok(values[n]) for p in spec.by_name[n].validators):
                continue
            inst[n] = spec.by_name[n].to_lib(values[n], rt, ch)
            explicit[n] = values[n]
            sim.log("set", n, values[n])
    sim.mark("values", repr(values), tuple(start))


def one(sim, spec, inst, explicit, ctx):
    ch = sim.ch
    last = ch.pick([None, None] + [f.name for f in spec.fields])
    want = model.partial_dump(spec, explicit, last, ctx)
    file = streams.SimFile(ch.bytes(ch.pick([0, 0, 3])))
    start = len(file.data)
    raw = streams.SimRaw(sim, file, "w", start, short_write=ch.pick([0, 60]))
    before = snapshot(inst)
    got = attempt(inst.partial_dump, raw, last, ctx)
    data = bytes(file.data[start:])
    sim.log("partial_dump", last, got, data)
    sim.mark("partial", last)
    what = f"partial_dump({last}) of {explicit!r} as {spec!r}"
    sim.check(
        model.same(before, snapshot(inst)), "dump-mutates",
        lambda: f"{what}: instance changed from {before!r} to {snapshot(inst)!r}",
    )
    if not want.ok and last is None and got.ok and (
        isinstance(spec.by_name[want.failed].kind, schema.NestedKind)
    ):
        # Stopping at an incomplete struct is fine, too.
        sim.check(
            data == want.data, "wrong-bytes",
            lambda: f"{what}: wrote {data!r}, expected {want.data!r}",
        )
        return
    if want.ok:
        sim.check(got.ok, "partial-dump-failed", lambda: f"{what}: {got!r}")
        sim.check(
            data == want.data, "wrong-bytes",
            lambda: f"{what}: wrote {data!r}, expected {want.data!r}",
        )
        if want.data:
            sim.nontrivial = True
        # It's a prefix of the complete dump, if that's possible.
        whole = model.dump(spec, explicit, ctx)
        if whole.ok:
            sim.hit("partial-dump-whole")
            full = attempt(inst.to_bytes, ctx)
            sim.check(
                full.ok and full.value == whole.data and full.value.startswith(data),
                "not-a-prefix",
                lambda: f"{what}: {data!r} isn't a prefix of {full!r}",
            )
        else:
            sim.hit("partial-dump-stopped-at-missing")
        return
    sim.check(
        not got.ok and isinstance(got.error, VALUE_ERRORS), "dumped-invalid",
        lambda: f"{what}: expected {want.error}, wrote {data!r}",
    )
    if want.error.kind == "missing" and want.error.args[0].endswith(str(want.failed)):
        sim.hit("partial-dump-missing-error")
        sim.check(
            isinstance(got.error, errors.MissingRequiredValueError), "wrong-error",
            lambda: f"{what}: expected {want.error}, got {got!r}",
        )
        sim.check(
            want.data.startswith(data), "wrong-bytes",
            lambda: f"{what}: wrote {data!r}, expected at most {want.data!r}",
        )


