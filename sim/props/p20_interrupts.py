"""P20: an interrupted operation leaves classes, instances and streams usable."""

from __future__ import annotations

import io

from .. import model
from .. import sched
from .. import schema
from ..common import CTXS
from ..common import attempt
from ..common import check_dump
from ..common import draw_op
from ..common import draw_struct
from ..common import errors
from ..common import freeze
from ..common import instance
from ..common import world
from ..engine import SimInterrupt
from .p08_threads import try_

ID = "P20"
LEVEL = "exploration"
RULE = (
    "a run is a sequence of operations on one drawn class and its instances, each of them"
    " interrupted at a drawn library line or callback and then repeated undisturbed, or a"
    " set of threads one or more of which are interrupted; non-trivial if an interruption"
    " hit an operation; distinct by declaration, values, operations and the exact line"
)
RUNS = {"quick": 27000, "thorough": 500000}
PROBES = ("async-interrupt", "interrupted:dump", "interrupted:load", "interrupted:read",
          "interrupted:set", "interrupted:declare", "in-callback", "threads",
          "interrupted:first-use", "set-done", "set-not-done", "thread-interrupted")


def scenario(sim):
    if sim.ch.chance(30):
        threads(sim)
    else:
        sequence(sim)


class Interrupter:
    """Runs something and interrupts it at a drawn place."""

    def __init__(self, sim, rt):
        self.sim = sim
        self.rt = rt

    def run(self, what, fn):
        """(was it interrupted?, outcome)"""
        sim, ch, rt = self.sim, self.sim.ch, self.rt
        if ch.chance(25):
            return self.in_callback(what, fn)
        at = 1 + (ch.small(60) if ch.chance(50) else ch.below(ch.pick([30, 200, 800])))
        hit, lines, value, err = sched.run_interrupted(sim, fn, at)
        if hit:
            self.record(what, "line", at)
            sim.check(
                isinstance(err, SimInterrupt), "interrupt-lost",
                lambda: f"{what} was interrupted, but the outcome is {err or value!r}",
            )
            return True, None
        return False, Done(value, err)

    def in_callback(self, what, fn):
        sim, ch, rt = self.sim, self.sim.ch, self.rt
        at = 1 + ch.small(6)
        state = {"n": 0, "hit": False}

        def hook(kind, name, info):
            state["n"] += 1
            if state["n"] == at:
                state["hit"] = True
                self.record(what, "callback " + kind, at)
                sim.hit("in-callback")
                raise SimInterrupt

        rt.hook = hook
        try:
            out = attempt(fn)
        finally:
            rt.hook = None
        if state["hit"]:
            sim.check(
                isinstance(out.error, SimInterrupt), "interrupt-lost",
                lambda: f"{what} was interrupted in a callback, but gave {out!r}",
            )
            return True, None
        return False, out

    def record(self, what, where, at):
        self.sim.fault("async-interrupt", what, where, at)
        self.sim.hit("async-interrupt")
        self.sim.hit("interrupted:" + what)
        self.sim.mark("interrupt", what, where, at)


class Done:
    def __init__(self, value, error):
        self.value, self.error = value, error

    @property
    def ok(self):
        return self.error is None

    def __repr__(self):
        return f"ok({self.value!r})" if self.ok else f"{self.error!r}"


def sequence(sim):
    ch = sim.ch
    rt, gen = world(sim, max_groups=ch.pick([3, 5]))
    ctx = ch.pick(CTXS)
    inter = Interrupter(sim, rt)
    depth = ch.pick([1, 0, 2])
    spec, values = schema.consistent_struct(ch, gen, ctx, depth=depth)
    sim.log("spec", spec)
    sim.mark("spec", repr(spec))
    if ch.chance(40):
        # The declaration is what's interrupted first, perhaps several times.
        for _ in range(ch.between(1, 2)):
            hit, out = inter.run("declare", lambda: spec.build(rt))
            if not hit:
                break
    if spec.cls is None:
        out = attempt(spec.build, rt)
    sim.check(spec.cls is not None, "declaration", lambda: f"{spec!r}: {out!r}")
    explicit = dict(values)
    inst = spec.cls(**spec.to_lib(values, rt))
    first = True
    for _ in range(ch.between(1, 5)):
        what = ch.pick(["dump", "load", "read", "set", "del", "set", "other"])
        if what == "dump":
            interrupted_dump(sim, spec, inst, explicit, ctx, inter)
        elif what in ("load", "other"):
            pool = model.dump(spec, values, ctx)
            if not pool.ok:
                continue
            op = draw_op(sim, rt, spec, pool.data, 0, ctx)
            hit, out = inter.run("load", op.run)
            sim.log("op", op, hit, out)
            if not hit:
                op.check(out)
            out = attempt(op.run)
            sim.log("op-again", op, out)
            op.check(out)
        elif what == "read":
            interrupted_read(sim, spec, inst, explicit, ctx, inter)
        else:
            change(sim, spec, inst, explicit, rt, ctx, inter, what)
        if first and sim.nontrivial:
            sim.hit("interrupted:first-use")
        first = False
        holds(sim, spec, inst, explicit, f"after interrupted {what}")
        if ch.chance(40):
            undisturbed_dump(sim, spec, inst, explicit, ctx, what)
    undisturbed_dump(sim, spec, inst, explicit, ctx, "all")
    fresh = schema.gen_struct_values(ch, spec, ctx)
    other = instance(sim, spec, fresh, rt)
    undisturbed_dump(sim, spec, other, fresh, ctx, "all, new instance")


def holds(sim, spec, inst, explicit, what):
    schema.user_values.append(1)
    try:
        have = spec.from_lib(inst)
    finally:
        schema.user_values.clear()
    sim.check(
        model.same(have, explicit), "contents-changed",
        lambda: f"{what}: {spec!r} holds {have!r}, not {explicit!r}",
    )


def undisturbed_dump(sim, spec, inst, explicit, ctx, after):
    want = model.dump(spec, explicit, ctx)
    out = attempt(inst.to_bytes, ctx)
    check_dump(sim, out, out.value if out.ok else b"", want,
               f"dump of {explicit!r} as {spec!r} after interruption of {after}")
    sim.log("dump-after", out)


def interrupted_dump(sim, spec, inst, explicit, ctx, inter):
    want = model.dump(spec, explicit, ctx)
    s = io.BytesIO()
    hit, out = inter.run("dump", lambda: inst.to_stream(s, ctx))
    sim.log("dump", hit, out, s.getvalue())
    if not hit:
        check_dump(sim, out, s.getvalue(), want, f"{explicit!r} as {spec!r}")
    elif want.ok:
        sim.check(
            want.data.startswith(s.getvalue()), "not-a-prefix",
            lambda: f"interrupted dump of {explicit!r} as {spec!r} wrote"
            f" {s.getvalue()!r}, not the beginning of {want.data!r}",
        )


def interrupted_read(sim, spec, inst, explicit, ctx, inter):
    ch = sim.ch
    n = ch.pick(spec.fields).name
    what, fn = ch.pick([
        ("to_dict", lambda: inst.to_dict(context=ctx)),
        ("len", lambda: len(inst)),
        ("item", lambda: inst[n]),
        ("repr", lambda: repr(inst)),
        ("eq", lambda: inst == inst),  # noqa: PLR0124
        ("validate", inst.validate_contents),
        ("to_dict_keep", lambda: inst.to_dict(True, ctx)),
    ])
    before = freeze_outcome(attempt(fn))
    hit, out = inter.run("read", fn)
    sim.log("read", what, n, hit, out)
    after = freeze_outcome(attempt(fn))
    sim.check(
        model.same(before, after), "read-disturbed",
        lambda: f"{what} ({n}) of {explicit!r} as {spec!r} gave {before!r}, and {after!r}"
        f" after an interruption",
    )


def freeze_outcome(out):
    return freeze(out.value) if out.ok else type(out.error).__name__


def change(sim, spec, inst, explicit, rt, ctx, inter, what):
    ch = sim.ch
    f = ch.pick(spec.fields)
    n = f.name
    old = explicit.get(n, model.MISSING)
    if what == "del":
        new = model.MISSING
        form = None

        def fn():
            del inst[n]

    else:
        source = schema.gen_struct_values(ch, spec, ctx)
        new = source.get(n, model.MISSING)
        if not f.settable or new is model.MISSING or new is model.NP:
            return
        form = f.to_lib(new, rt)

        def fn():
            if ch_attr:
                setattr(inst, n, form)
            else:
                inst[n] = form

    ch_attr = ch.chance(50)
    hit, out = inter.run("set", fn)
    sim.log("change", what, n, new, hit, out)
    valid = new is model.MISSING or all(p.ok(new) for p in f.validators)
    if not hit:
        sim.check(
            out.ok if valid else isinstance(out.error, errors.ValidationError),
            "set-failed", lambda: f"{what} {n} to {new!r} in {spec!r}: {out!r}",
        )
        if valid:
            put(explicit, n, new)
        return
    # All or nothing.
    schema.user_values.append(1)
    try:
        now = spec.from_lib(inst)
    finally:
        schema.user_values.clear()
    have = now.get(n, model.MISSING)
    done = valid and model.same(have, new) and (have is model.MISSING) == (
        new is model.MISSING
    )
    if done:
        sim.hit("set-done")
        put(explicit, n, new)
    else:
        sim.hit("set-not-done")
        sim.check(
            (have is model.MISSING) == (old is model.MISSING) and model.same(have, old),
            "torn-change",
            lambda: f"interrupted {what} of {n} from {old!r} to {new!r} left {have!r}",
        )


def put(explicit, n, v):
    if v is model.MISSING:
        explicit.pop(n, None)
    else:
        explicit[n] = v


def threads(sim):
    """Some threads are interrupted; the others and what comes later don't notice."""
    ch = sim.ch
    rt, gen = world(sim, max_groups=ch.pick([3, 5]))
    ctx = ch.pick(CTXS)
    spec, values = draw_struct(sim, gen, rt, ctx)
    d = model.dump(spec, values, ctx)
    if not d.ok:
        return
    sim.hit("threads")
    s = sched.Scheduler(sim)
    plans = []
    for t in range(ch.between(2, 3)):
        ops = [draw_op(sim, rt, spec, d.data, 0, ctx) for _ in range(ch.between(1, 3))]
        plans.append(ops)
        task = s.spawn(f"t{t}", lambda task, ops=ops: [try_(op.run) for op in ops])
        if t == 0 or ch.chance(30):
            task.interrupt_at = 1 + ch.below(ch.pick([40, 200, 800]))
        sim.mark("ops", tuple(map(repr, ops)))
    s.run()
    for task, ops in zip(s.tasks, plans):
        if task.interrupted:
            sim.fault("async-interrupt", task.name)
            sim.hit("thread-interrupted")
            sim.mark("interrupted", task.name, task.lines)
        if task.error is not None:
            raise task.error
        cut = [out for out in task.result if isinstance(out.error, SimInterrupt)]
        sim.check(
            len(cut) == (1 if task.interrupted else 0), "interrupt-lost",
            lambda: f"{task.name} interrupted: {task.interrupted}, but {task.result!r}",
        )
        for op, out in zip(ops, task.result):
            sim.log("outcome", task.name, op, out)
            if not isinstance(out.error, SimInterrupt):
                op.check(out)
    for ops in plans:
        for op in ops:
            out = attempt(op.run)
            op.check(out)
