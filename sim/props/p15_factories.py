"""P15: values made by factories are drawn once per dump, and everything agrees on them."""

from __future__ import annotations

import datetime
import io

from .. import model
from .. import sched
from .. import schema
from .. import streams
from ..common import Outcome
from ..common import attempt
from ..common import check_dump
from ..common import contents
from ..common import snapshot
from ..common import world
from ..engine import SimAbort
from ..engine import SimCrash
from ..engine import SimHang
from ..engine import SimWall
from ..engine import Violation
from ..streams import SimOSError

ID = "P15"
LEVEL = "exploration"
RULE = (
    "a run is a history of dumps (some of them failing), lookups and assignments of"
    " structs whose fields have factories reading a simulated clock, counter or random"
    " source, half of the runs with two or three threads; non-trivial if a drawn value was"
    " found in a dump; distinct by declarations, operations and interleaving"
)
RUNS = {"quick": 27000, "thorough": 600000}
PROBES = ("clock", "counter", "random", "computed-from-factory", "threads", "write-error",
          "crash", "clock-jump", "retried", "explicit", "deleted", "factory-error",
          "validated-draw", "null-draw", "nested", "nested-draw", "sized-by-factory")


class SourceError(Exception):
    """The entropy source or clock is unavailable."""


# Failures come as all kinds of exceptions, whatever the library may catch elsewhere.
SOURCE_ERRORS = (SourceError,) + tuple(
    type("Source" + base.__name__, (SourceError, base), {})
    for base in (KeyError, IndexError, ValueError, TypeError, AttributeError, OSError,
                 ArithmeticError, EOFError, StopIteration, NotImplementedError)
)


class Source:
    """A factory that's different every time: the simulated world behind it moves on."""

    def __init__(self, sim, kind, what):
        self.sim = sim
        self.kind = kind
        self.what = what
        self.n = 0
        self.now = 1_500_000_000
        self.queue = None
        self.value = kind.trivial()  # for the model only; replaced by what was drawn
        self.draws = []  # (task or None, value)
        self.fail_next = 0
        self.nullable = False

    def __repr__(self):
        return f"Source({self.what})"

    def draw(self):
        ch = self.sim.ch
        self.n += 1
        if self.fail_next:
            self.fail_next -= 1
            if not self.fail_next:
                self.sim.fault("factory-error", self.what)
                self.sim.hit("factory-error")
                raise ch.pick(SOURCE_ERRORS)(self.what)
        if self.what == "clock":
            self.now += 1 + ch.below(5)
            if ch.chance(8):
                self.now -= 3600
                self.sim.fault("clock-jump", -3600)
                self.sim.hit("clock-jump")
            v = self.kind.from_us(self.now * 10**6)
        elif self.what == "counter":
            v = (self.n - 1) % (self.kind.hi + 1)
        else:
            v = self.kind.gen(ch, model.Env({}, None))
        self.sim.hit(self.what)
        if self.nullable and (ch.chance(25) or v == -1 or v == self.kind.fixed * b"\xff"):
            v = None  # nothing's available
            self.sim.hit("null-draw")
        task = sched.current_task()
        self.draws.append((task, v))
        return v


def declare(sim, rt, gen, name, nest=None):
    ch = sim.ch
    p = "" if name == "Outer" else "in_"  # callbacks tell structs apart by field names
    fields = []
    sources = {}
    order = ["seq", "at", "uid", "body"]
    if nest is not None:
        order.append("sub")
    order = ch.shuffle(order)
    order = order[: ch.between(1, len(order))]
    targets = []
    sized = None
    for what in order:
        opts = {}
        if what == "seq":
            kind = schema.IntKind(ch.pick([1, 2, 4]), False, "big")
            source = Source(sim, kind, "counter")
        elif what == "at":
            kind = schema.TsKind(rt, ch.pick([4, 8]), "s", ch.chance(60), "little", True)
            source = Source(sim, kind, "clock")
        elif what == "uid":
            kind = ch.pick([schema.UuidKind(ch.pick(["binary_var_1", "hex_string"])), schema.BytesKind(6),
                            schema.IntKind(8, True, "little")]) if ch.chance(70) else (
                schema.VarIntKind("vlq"))
            source = Source(sim, kind, "random")
        elif what == "body":
            comp = schema.FieldSpec(None, schema.IntKind(ch.pick([1, 2]), False, "big"))
            kind = ch.pick([
                lambda: schema.ArrayKind(comp, p + "n"),
                lambda: schema.StringZKind(None, "utf-8", None),
            ])()
            if kind.refs:
                fields.append(schema.FieldSpec(
                    p + "n", schema.IntKind(1, False, "big"),
                    compute=schema.Compute("count", [p + "body"]),
                ))
                sim.hit("sized-by-factory")
                sized = p + "n"
                source = _FreeArray(sim, kind, "random")
            else:
                source = Source(sim, kind, "random")
        else:
            kind = schema.NestedKind(nest[0])
            sim.hit("nested")
            fields.append(schema.FieldSpec("sub", kind))
            continue
        if kind.fixed is not None and ch.chance(25):
            opts["null"] = b"\xff" * kind.fixed
            source.nullable = True
        sources[p + what] = source
        if ch.chance(50):
            opts["validators"] = [schema.Pred("any")]
        fields.append(schema.FieldSpec(
            p + what, kind, factory=source, ref_by_name=True, **opts))
        if not isinstance(kind, (schema.TsKind, schema.UuidKind)):
            targets.append(p + what)
        if ch.chance(15):
            fields.append(schema.FieldSpec(
                f"{p}plain_{what}", schema.IntKind(1, False, "big"), default=7))
    if targets and ch.chance(80):
        c = schema.FieldSpec(
            p + "check", schema.IntKind(4, False, "little"),
            compute=schema.Compute("sum", targets, base=len(targets), mod=65521),
        )
        # What's computed can come before what it's computed from.
        fields.insert(ch.below(len(fields) + 1), c)
        sim.hit("computed-from-factory")
    if not any(f.factory_obj for f in fields):
        return None
    spec = schema.StructSpec(name, fields, style=ch.pick(["assign", "dataclass"]))
    ints = [f.name for f in fields
            if f.factory_obj is not None and isinstance(f.kind, schema.IntKind)]
    if ints and ch.chance(50):
        spec.struct_validators.append(schema.StructPred(ints[0], ints[-1], 10**9, -1))
    for f in fields:
        if f.factory_obj is not None and ch.chance(30):
            spec.method_validators.setdefault(f.name, [])
            spec.multi_validators.append(((f.name,), schema.Pred("any")))
    out = attempt(spec.build, rt)
    sim.log("spec", spec, sized)
    if not out.ok:
        sim.fail("declaration", f"can't declare {spec!r}: {out!r}")
    sim.mark("spec", repr(spec))
    return spec, sources


class _FreeArray(Source):
    def draw(self):
        task = sched.current_task()
        v = [self.kind.comp.kind.gen(self.sim.ch, None)
             for _ in range(self.sim.ch.below(5))]
        self.n += 1
        self.sim.hit("random")
        self.draws.append((task, v))
        return v


class Watch:
    """What the callbacks of each task were shown since the last reset."""

    def __init__(self, rt):
        self.seen = {}
        rt.hook = self.hook

    def hook(self, kind, name, info):
        log = self.seen.setdefault(sched.current_task(), [])
        if "value" in info:
            log.append((kind, name, {name: info["value"]}))
        elif "fields" in info and info["fields"] is not None:
            log.append((kind, name, info["fields"]))

    def take(self):
        return self.seen.pop(sched.current_task(), [])


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, frozenset({"styles"}))
    nest = declare(sim, rt, gen, "Inner") if ch.chance(30) else None
    made = declare(sim, rt, gen, "Outer", nest)
    if made is None:
        return
    spec, sources = made
    watch = Watch(rt)
    every = dict(sources)
    if "sub" in spec.by_name:
        every.update(nest[1])
    if ch.chance(40):
        s = sched.Scheduler(sim)
        results = []
        for t in range(ch.between(2, 3)):
            plan = [ch.pick(["dump", "dump", "to_dict", "partial"])
                    for _ in range(ch.between(1, 3))]
            lib = {}
            if "sub" in spec.by_name:
                lib["sub"] = ch.pick([dict, nest[0].cls])()
            s.spawn(f"t{t}", lambda task, plan=plan, lib=lib: work(
                spec, every, watch, plan, lib))
        s.run()
        sim.hit("threads")
        for task in s.tasks:
            if task.error is not None:
                raise task.error
            for what, out, data, marks, seen in task.result:
                sim.log("outcome", task.name, what, out)
                judge(sim, rt, spec, sources, what, {}, out, data, marks, seen, task,
                      nest[1] if "sub" in spec.by_name else {})
        return
    history(sim, rt, spec, sources, watch, nest)


def work(spec, sources, watch, plan, lib):
    out = []
    for what in plan:
        watch.take()
        inst = spec.cls(**lib)
        marks = {n: len(s.draws) for n, s in sources.items()}
        try:
            got, data = run_op(inst, what)
        except (SimAbort, SimHang, SimWall, Violation, sched._Stop):
            raise
        marks = {n: (m, len(sources[n].draws)) for n, m in marks.items()}
        out.append((what, got, data, marks, watch.take()))
    return out


def run_op(inst, what, stream=None):
    if what == "to_dict":
        return attempt_(lambda: inst.to_dict(keep_discardable=True)), None
    s = io.BytesIO() if stream is None else stream
    if what == "partial":
        got = attempt_(lambda: inst.partial_dump(s))
    else:
        got = attempt_(lambda: inst.to_stream(s))
    return got, (s.getvalue() if stream is None else None)


def attempt_(fn):
    try:
        return Outcome(fn())
    except (SimAbort, SimHang, SimWall, Violation, sched._Stop):
        raise
    except BaseException as err:  # noqa: BLE001
        return Outcome(error=err)


def judge(sim, rt, spec, sources, what, explicit, out, data, marks, seen, task=None,
          nested=()):
    """Does everything that was shown and written agree?"""
    desc = f"{what} of {explicit!r} as {spec!r}"
    sim.check(out.ok, "dump-failed", lambda: f"{desc}: {out!r}")
    if what == "to_dict":
        have = {n: spec.by_name[n].from_lib(v) if n != "sub" else model.ANYTHING
                for n, v in out.value.items()}
    else:
        loaded = attempt(model.load, spec, data)
        sim.check(
            loaded.ok and loaded.value.pos == len(data), "inconsistent",
            lambda: f"{desc}: {data!r} doesn't fit together: {loaded!r}",
        )
        have = loaded.value.values
    for f in spec.fields:
        n = f.name
        if n in explicit:
            sim.check(
                model.same(have.get(n), explicit[n]), "explicit-value-ignored",
                lambda: f"{desc}: {n} is {have.get(n)!r}",
            )
        elif n in sources:
            a, b = marks[n] if isinstance(marks[n], tuple) else (marks[n], None)
            fresh = [v for t, v in sources[n].draws[a:b] if t is task]
            sim.check(
                any(model.same(seconds(have[n]), seconds(v)) for v in fresh),
                "stale-value",
                lambda: f"{desc}: {n} is {have[n]!r}, which isn't what its factory gave"
                f" for this dump: {fresh!r}",
            )
            sim.check(
                len(fresh) == 1 or what == "to_dict", "drawn-twice",
                lambda: f"{desc}: the factory of {n} was called {len(fresh)} times:"
                f" {fresh!r}",
            )
            sim.nontrivial = True
        elif isinstance(f.kind, schema.NestedKind):
            inner = have[n]
            if isinstance(inner, dict):
                judge_nested(sim, f.kind.spec, nested, inner, marks, seen, task, desc)
                for g in f.kind.spec.fields:
                    if g.compute is not None:
                        want = g.compute.model(lambda t: inner[t])
                        sim.check(
                            inner[g.name] == want, "inconsistent",
                            lambda: f"{desc}: {g.name} is {inner[g.name]!r}, but it's"
                            f" {want!r} for {inner!r}",
                        )
        elif f.compute is not None:
            want = f.compute.model(lambda t: have[t])
            sim.check(
                have[n] == want, "inconsistent",
                lambda: f"{desc}: {n} is {have[n]!r}, but it's {want!r} for the values in"
                f" the same dump: {have!r}",
            )
    for kind, name, shown in seen:
        for n in sources:
            f = spec.by_name.get(n)
            if n in explicit:
                continue
            v = attempt(lambda: shown[n])
            if not v.ok:
                continue
            v = v.value
            if kind in ("validator", "method_validator") and name != n:
                continue
            v = f.from_lib(v)
            if kind in ("validator", "method_validator"):
                sim.hit("validated-draw")
            sim.check(
                model.same(seconds(v), seconds(have[n])), "inconsistent",
                lambda: f"{desc}: the {kind} of {name or 'the struct'} was shown {v!r} as"
                f" {n}, but it's {have[n]!r}",
            )


def judge_nested(sim, spec, sources, inner, marks, seen, task, desc):
    """The same, for what's within the nested struct."""
    for n, source in sources.items():
        a, b = marks[n] if isinstance(marks[n], tuple) else (marks[n], None)
        fresh = [v for t, v in source.draws[a:b] if t is task]
        sim.check(
            any(model.same(seconds(inner[n]), seconds(v)) for v in fresh),
            "stale-value",
            lambda: f"{desc}: {n} is {inner[n]!r}, which isn't what its factory gave"
            f" for this dump: {fresh!r}",
        )
        sim.check(
            len(fresh) == 1, "drawn-twice",
            lambda: f"{desc}: the factory of {n} was called {len(fresh)} times:"
            f" {fresh!r}",
        )
        sim.hit("nested-draw")
    for kind, name, shown in seen:
        for n in sources:
            v = attempt(lambda: shown[n])
            if not v.ok or kind in ("validator", "method_validator") and name != n:
                continue
            v = spec.by_name[n].from_lib(v.value)
            sim.check(
                model.same(seconds(v), seconds(inner[n])), "inconsistent",
                lambda: f"{desc}: the {kind} of {name or 'the struct'} was shown {v!r} as"
                f" {n}, but it's {inner[n]!r}",
            )


def seconds(v):
    if isinstance(v, datetime.datetime):
        return v.timestamp() if v.tzinfo else v.replace(
            tzinfo=datetime.timezone.utc).timestamp()
    return v


def history(sim, rt, spec, sources, watch, nest):
    ch = sim.ch
    lib = {}
    if "sub" in spec.by_name:
        lib["sub"] = ch.pick([dict, nest[0].cls])()
    inst = spec.cls(**lib)
    nested = nest[1] if lib else {}
    every = {**sources, **nested}
    explicit = {}
    for _ in range(ch.between(2, 7)):
        op = ch.pick(["dump", "dump", "partial", "to_dict", "len", "set", "del", "faulty",
                      "source-fails"])
        before = snapshot(inst)
        marks = {n: len(s.draws) for n, s in every.items()}
        watch.take()
        if op in ("dump", "partial", "to_dict"):
            out, data = run_op(inst, op)
            sim.log(op, out, data)
            sim.mark(op)
            judge(sim, rt, spec, sources, op, explicit, out, data, marks, watch.take(),
                  nested=nested)
        elif op == "len":
            out = attempt(len, inst)
            sim.log("len", out)
            sim.check(out.ok, "len-failed", lambda: f"len() of {spec!r}: {out!r}")
        elif op == "set":
            n = ch.pick(list(sources))
            f = spec.by_name[n]
            v = sources[n].draw()
            inst[n] = f.to_lib(v, rt)
            explicit[n] = v
            sim.hit("explicit")
            sim.log("set", n, v)
            continue
        elif op == "del":
            n = ch.pick(list(sources))
            del inst[n]
            explicit.pop(n, None)
            sim.hit("deleted")
            sim.log("del", n)
            continue
        elif op == "faulty":
            file = streams.SimFile()
            crash = ch.chance(40)
            at = ch.below(12)
            raw = streams.SimRaw(
                sim, file, "w", 0,
                **({"crash_at": at} if crash else {"write_error": (at, 1)}),
            )
            out, _ = run_op(inst, "dump", raw)
            sim.log("faulty", out)
            sim.hit("crash" if crash else "write-error")
            if raw.failed or isinstance(out.error, SimCrash):
                sim.check(
                    isinstance(out.error, SimCrash if crash else SimOSError),
                    "io-error-hidden", lambda: f"{out!r}",
                )
                sim.hit("retried")
            else:
                judge(sim, rt, spec, sources, "dump", explicit, out, bytes(file.data),
                      marks, watch.take(), nested=nested)
        elif op == "source-fails":
            n = ch.pick(list(every))
            if isinstance(every[n], _FreeArray):
                continue
            every[n].fail_next = ch.pick([1, 1, 2])
            out, data = run_op(inst, ch.pick(["dump", "partial", "to_dict"]))
            failed = not every[n].fail_next
            every[n].fail_next = 0
            sim.log("source-fails", n, out)
            if failed:
                sim.check(
                    isinstance(out.error, SourceError), "factory-error-hidden",
                    lambda: f"the factory of {n} of {spec!r} failed, but {out!r}",
                )
                # (A nested struct's values are drawn when it's its turn.)
                sim.check(
                    n in nested or not data, "wrong-bytes",
                    lambda: f"{data!r} written even though a factory failed",
                )
        sim.check(
            model.same(before, snapshot(inst)), "dump-mutates",
            lambda: f"{op} of {spec!r} changed {before!r} to {snapshot(inst)!r}",
        )
