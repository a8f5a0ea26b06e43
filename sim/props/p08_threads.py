"""P08: threads working on their own data with shared classes don't notice each other."""

from __future__ import annotations

from .. import model
from .. import sched
from ..common import CTXS
from ..common import OPS
from ..common import Outcome
from ..common import attempt
from ..common import draw_op
from ..common import stored_records
from ..common import world
from ..engine import SimAbort
from ..engine import SimHang
from ..engine import SimWall
from ..engine import Violation

ID = "P08"
LEVEL = "exploration"
RULE = (
    "a run is one set of drawn classes, 2-4 threads with drawn operations on their own"
    " data, and one interleaving at the level of library lines or byte code"
    " instructions; non-trivial if threads were switched in the middle of operations;"
    " distinct by declarations, operations and the exact interleaving"
)
RUNS = {"quick": 50000, "thorough": 300000}
PROBES = ("declared-concurrently", "opcode-schedule",
          "same-new-class")


def scenario(sim):
    ch = sim.ch
    # Often all of them are about to use the very same, brand new class.
    same = ch.chance(50)
    strict = same and ch.chance(50)
    rt, gen = world(sim, max_groups=ch.pick([3, 5] if strict else [1, 2, 3, 5]))
    gen.strict = strict
    ctx = ch.pick(CTXS)
    if same:
        sim.hit("same-new-class")
    data, records = stored_records(
        sim, rt, gen, ctx, 1 if same else ch.pick([1, 2]), 1 if same else ch.between(1, 3))
    if not records:
        return
    s = sched.Scheduler(sim)
    plans = []
    # ... and in the very same way.
    what = ch.pick(["from_stream", "dump", "dump", *OPS]) if ch.chance(40) else None
    for t in range(ch.between(2, 4)):
        ops = []
        late = None
        if ch.chance(25):
            # This thread declares its own struct first.
            late = gen.struct(1, small=True)
            sim.hit("declared-concurrently")
        for _ in range(ch.between(1, 3)):
            r = ch.pick(records)
            # Each call has a context of its own.
            own = ch.pick(CTXS) if ch.chance(60) else ctx
            ops.append(draw_op(sim, rt, r.spec, data, r.start, own, what))
        plans.append((late, ops))
        s.spawn(f"t{t}", lambda task, late=late, ops=ops: work(rt, late, ops))
        sim.mark("ops", tuple(map(repr, ops)))
    s.run()
    if s.opcodes:
        sim.hit("opcode-schedule")
    for task, (late, ops) in zip(s.tasks, plans):
        if task.error is not None:
            raise task.error
        declared, outs = task.result
        if late is not None:
            sim.check(declared.ok, "declaration", lambda: f"{late!r}: {declared!r}")
        for op, out in zip(ops, outs):
            sim.log("outcome", task.name, op, out)
            op.check(out)
        if late is not None:
            # The struct declared amid all this works.
            from .. import schema

            values = schema.gen_struct_values(ch, late, ctx)
            want = model.dump(late, values, ctx)
            inst = late.cls(**late.to_lib(values, rt))
            got = attempt(inst.to_bytes, ctx)
            if want.ok:
                sim.check(
                    got.ok and got.value == want.data, "wrong-bytes",
                    lambda: f"{values!r} as {late!r}: {got!r}, not {want.data!r}",
                )


def work(rt, late, ops):
    declared = None
    if late is not None:
        declared = try_(lambda: late.build(rt))
    return declared, [try_(op.run) for op in ops]


def try_(fn):
    try:
        return Outcome(fn())
    except (SimAbort, SimHang, SimWall, Violation, sched._Stop):
        raise
    except BaseException as err:  # noqa: BLE001
        return Outcome(error=err)
