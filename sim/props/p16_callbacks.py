"""P16: callbacks are shown the truth, and what they raise reaches the caller unchanged."""

from __future__ import annotations

import io

import binobj
from binobj import fields

from .. import model
from .. import schema
from .. import streams
from ..common import CTXS
from ..common import attempt
from ..common import check_dump
from ..common import check_load
from ..common import contents
from ..common import draw_struct
from ..common import errors
from ..common import instance
from ..common import model_load
from ..common import snapshot
from ..common import world

ID = "P16"
LEVEL = "exploration"
RULE = (
    "a run is a sequence of loads, dumps and lookups of one drawn declaration and values"
    " where each callback checks what it's shown, and one of them may raise one of many"
    " kinds of errors; non-trivial if a callback with fields or a context was checked or"
    " one raised; distinct by declaration, values, operations and the failing call"
)
RUNS = {"quick": 70000, "thorough": 1000000}
PROBES = ("callback-error", "library-error", "shown-fields", "shown-context", "shown-value",
          "validator", "method_validator", "struct_validator", "present", "halt",
          "load_decider", "dump_decider", "compute", "factory", "own_load", "own_dump",
          "shown-stream", "shown-elements", "popped-sentinel")


class Context(dict):
    """A context that's recognized by its identity."""


class Odd1(Exception):
    pass


class OddKey(KeyError):
    pass


class OddIndex(IndexError):
    pass


class OddAttr(AttributeError):
    pass


class OddStop(StopIteration):
    pass


class OddType(TypeError):
    pass


class OddValue(ValueError):
    pass


class OddOS(OSError):
    pass


class OddEOF(EOFError):
    pass


class OddInterrupt(KeyboardInterrupt):
    pass


class OddExit(SystemExit):
    pass


class OddMemory(MemoryError):
    pass


class OddNotImplemented(NotImplementedError):
    pass


class OddUnicode(UnicodeError):
    pass


class OddArithmetic(OverflowError):
    pass


ODD = [Odd1, OddKey, OddIndex, OddAttr, OddStop, OddType, OddValue, OddOS, OddEOF,
       OddInterrupt, OddExit, OddMemory, OddNotImplemented, OddUnicode, OddArithmetic]


class OwnField(errors.Error):
    """An application's error that's about a field of its own."""

    field = property(lambda self: "mine")


class OwnValidation(errors.ValidationError):
    def __init__(self, text):
        super().__init__(text, field="mine", value=text)


class OwnDeserialization(errors.DeserializationError):
    offset = property(lambda self: 99, lambda self, value: None)


OWN = [
    OwnField, OwnValidation, OwnDeserialization,
    lambda t: errors.ValidationError(t, field="mine", value=t),
    lambda t: errors.ConfigurationError(t, field="mine"),
    lambda t: errors.SerializationError(t, field="mine", value=t),
    lambda t: errors.DeserializationError(t, field="mine"),
    lambda t: errors.UnserializableValueError(reason=t, field="mine", value=t),
    lambda t: errors.MissingRequiredValueError(field="mine"),
    lambda t: errors.FieldReferenceError(t, field="mine"),
    lambda t: errors.UndefinedSizeError(field="mine"),
    lambda t: errors.UnexpectedEOFError(field=None, size=7, offset=99),
    lambda t: errors.ArraySizeError(field="mine", n_expected=7, n_given=8),
    lambda t: errors.ExtraneousDataError(t, offset=99),
    lambda t: errors.UnexpectedValueError(struct=None, name="mine"),
]
"""The library's own errors.  Loading makes those about bad data name the field."""


def popping(sim):
    """A halt check may remove a sentinel from the end of what has been loaded."""
    ch = sim.ch
    lib = binobj
    wide = ch.pick([lib.fields.UInt8, lib.fields.UInt16, lib.fields.UInt32])
    size = {lib.fields.UInt8: 1, lib.fields.UInt16: 2, lib.fields.UInt32: 4}[wide]
    stop = ch.pick([0, 255, 7])
    keep = ch.chance(30)

    class Stopped(lib.fields.Array):
        @staticmethod
        def should_halt(seq, stream, values, context, loaded_fields):
            return halt(seq, stream, values, context, loaded_fields)

    def halt(seq, stream, values, context, loaded_fields):
        if values and values[-1] == stop:
            if not keep:
                del values[-1]
            return True
        return False

    order = ch.pick(["little", "big"])
    if ch.chance(50):
        items = Stopped(wide(endian=order))
    else:
        items = lib.fields.Array(wide(endian=order), halt_check=halt)
    n = ch.below(ch.pick([3, 10, 80]))
    rows = [x for x in (ch.below(256) for _ in range(n)) if x != stop]
    after = ch.below(256)
    enc = b"".join(x.to_bytes(size, order) for x in rows + [stop])

    class Popping(lib.Struct):
        head = lib.fields.UInt8()
        rows = items
        tail = lib.fields.UInt8()

    junk = ch.bytes(ch.pick([0, 2]))
    buf = junk + b"\x05" + enc + bytes([after]) + ch.bytes(ch.pick([0, 3]))
    end = len(junk) + 2 + len(enc)
    want = {"head": 5, "rows": rows + [stop] if keep else rows, "tail": after}
    sim.mark("popping", size, stop, keep, rows)
    for _ in range(ch.between(1, 3)):
        op = ch.pick(["load", "get_field", "partial_load"])
        reader = streams.open_reader(sim, buf, len(junk))
        if op == "load":
            got = attempt(lambda: Popping.from_stream(reader).to_dict())
            at = reader.tell()
            sim.check(
                got.error is None and got.value == want and at == end, "popped-sentinel",
                lambda: f"loading {buf!r} at {len(junk)} gave {got!r} up to {at}, not"
                f" {want!r} up to {end}",
            )
        elif op == "partial_load":
            part = {k: want[k] for k in ("head", "rows")}
            got = attempt(lambda: Popping.partial_load(reader, "rows"))
            sim.check(
                got.error is None and got.value["rows"] == part["rows"]
                and got.value["head"] == 5 and reader.tell() == end - 1,
                "popped-sentinel",
                lambda: f"loading a part of {buf!r} at {len(junk)} gave {got!r}",
            )
        else:
            which = ch.pick(["rows", "tail"])
            got = attempt(lambda: Popping.get_field(reader, which))
            sim.check(
                got.error is None and got.value == want[which], "popped-sentinel",
                lambda: f"{which} of {buf!r} at {len(junk)} is {got!r}, not"
                f" {want[which]!r}",
            )
        sim.hit("popped-sentinel")
        sim.nontrivial = True


def scenario(sim):
    ch = sim.ch
    if ch.chance(4):
        popping(sim)
        return
    flat = ch.chance(50)
    features = schema.ALL_FEATURES - {"nested"} if flat else schema.ALL_FEATURES
    rt, gen = world(sim, features)
    base = ch.pick(CTXS)
    ctx = None if base is None else Context(base)
    spec, values = draw_struct(sim, gen, rt, ctx)
    want = model.dump(spec, values, ctx)
    sim.mark("values", repr(values))
    for step in range(ch.between(1, 4)):
        if step and ch.chance(60):
            values = schema.gen_struct_values(ch, spec, ctx)
            want = model.dump(spec, values, ctx)
            sim.mark("values", repr(values))
        ops = ["dump", "partial_dump", "len", "to_dict"]
        if want.ok:
            ops += ["load", "load", "get_field", "partial_load"]
        Step(sim, rt, spec, values, want, ctx, ch.pick(ops), flat).run()


class Step:
    def __init__(self, sim, rt, spec, values, want, ctx, op, flat):
        self.sim, self.rt, self.spec, self.values = sim, rt, spec, values
        self.want, self.ctx, self.op, self.flat = want, ctx, op, flat
        self.armed = None
        self.blown = None
        self.failing = None
        self.calls = []

    def __repr__(self):
        return (f"{self.op} of {self.values!r} as {self.spec!r} with context"
                f" {self.ctx!r}")

    def hook(self, kind, name, info):
        sim = self.sim
        self.calls.append((kind, name, info))
        if self.failing == (kind, name):
            raise self.blown
        if self.armed is not None and self.blown is None and (
            len(self.calls) >= self.armed
        ):
            cls = sim.ch.pick(ODD)
            if (
                self.op in ("load", "get_field", "partial_load")
                or self.op == "dump" and self.want.ok
            ) and sim.ch.chance(35):
                # (Elsewhere, some of these mean that there's no value, or that another
                # one is looked at first.)
                cls = sim.ch.pick(OWN)
                sim.hit("library-error")
            self.blown = cls(f"{kind} {name}")
            cls = type(self.blown)
            self.carried = dict(vars(self.blown))
            if isinstance(self.blown, errors.DeserializationError):
                self.carried.pop("field", None)
            self.failing = (kind, name)  # ... from now on
            sim.fault("callback-error", cls.__name__, kind, name)
            sim.hit("callback-error")
            sim.hit(kind)
            sim.nontrivial = True
            raise self.blown
        self.check_shown(kind, name, info)

    def check_place(self, kind, name, stream):
        """The stream a callback may peek at is where the field is."""
        spans, sim = self.spans, self.sim
        if kind == "present":
            sim.check(
                stream is not None, "no-stream",
                lambda: f"{self!r}: the {kind} callback of {name} got no stream",
            )
            low, high = spans.get(name, (None, None))
            high = low
        else:
            mine = [
                (f, spans.get(f.name, (None, None))) for f in self.spec.fields
                if getattr(getattr(f.kind, "comp", f.kind), "tag", None) == name
            ]
            if len(mine) != 1:
                return
            f, (low, high) = mine[0]
            if not isinstance(f.kind, schema.ArrayKind):
                high = low
        if low is None or high is None:
            return
        at = stream.tell()
        sim.check(
            low <= at <= high, "misplaced-stream",
            lambda: f"{self!r}: the {kind} callback of {name} got the stream at {at}, not"
            f" at {low} ({spans!r})",
        )
        sim.hit("shown-stream")

    def check_elements(self, seq, values, stream):
        """A halt check sees the elements so far, and the stream right after them."""
        sim, name = self.sim, seq.name
        f = self.spec.by_name.get(name)
        truth = self.truth().get(name)
        if (
            f is None or not isinstance(f.kind, schema.ArrayKind)
            or f.kind.halt is None or not isinstance(truth, list)
        ):
            return
        seen = [f.kind.comp.from_lib(v) for v in values]
        sim.check(
            model.same(seen, truth[: len(seen)]), "wrong-elements",
            lambda: f"{self!r}: the halt check of {name} was shown {seen!r}, but it's"
            f" {truth!r}",
        )
        low, high = self.spans.get(name, (None, None))
        if low is not None:
            at = stream.tell()
            sim.check(
                low <= at <= high and (len(seen) < len(truth) or at == high)
                and (seen or at == low),
                "misplaced-stream",
                lambda: f"{self!r}: the halt check of {name} got the stream at {at} after"
                f" {seen!r} ({self.spans!r})",
            )
        sim.hit("shown-elements")

    def check_shown(self, kind, name, info):
        sim = self.sim
        sim.hit(kind)
        if kind == "halt" and self.flat and self.op in (
            "load", "get_field", "partial_load"
        ):
            self.check_elements(info["seq"], info["values"], info["at"])
        if self.flat and "stream" in info and self.op in (
            "load", "get_field", "partial_load"
        ):
            self.check_place(kind, name, info["stream"])
        if kind == "compute":
            sim.check(
                isinstance(info["me"], fields.Field) and info["me"].name == name,
                "wrong-self", lambda: f"{self!r}: {name} computes with {info['me']!r}",
            )
        if kind == "method_validator":
            me = info["me"]
            sim.check(
                isinstance(me, binobj.Struct) and hasattr(type(me), name), "wrong-self",
                lambda: f"{self!r}: {name} is validated with {me!r}",
            )
        if "context" in info:
            # (validate_contents() and len() know of no context.)
            loading = self.op in ("load", "get_field", "partial_load")
            c = info["context"]
            lax = not loading and kind == "present" or self.op in ("len", "to_dict")
            if kind == "own_dump" and (loading or "null=" in repr(self.spec)):
                lax = True  # for the representation of null
            sim.check(
                c is self.ctx or lax and c is None, "wrong-context",
                lambda: f"{self!r}: the {kind} callback of {name} got {c!r}",
            )
            sim.hit("shown-context")
            sim.nontrivial = True
        if not self.flat:
            return
        shown = info.get("fields")
        if shown is not None:
            truth = self.truth()
            if truth is None:
                return
            try:
                names = [n for n in shown]  # (list() would call len() as well)
            except Exception as err:  # noqa: BLE001
                sim.fail("bad-fields", f"{self!r}: {kind} of {name} got {shown!r}: {err!r}")
            for n in names:
                if n not in self.spec.by_name:
                    sim.fail("bad-fields", f"{self!r}: {kind} of {name} got {names!r}")
                t = truth.get(n, model.MISSING)
                if t is model.MISSING or t is model.NP:
                    continue
                v = self.spec.by_name[n].from_lib(self.lists(shown[n]))
                if v is model.NP:
                    continue
                sim.check(
                    model.same(v, t), "wrong-fields",
                    lambda: f"{self!r}: the {kind} callback of {name} was shown {v!r} as"
                    f" {n}, but it's {t!r}",
                )
            if self.op == "dump" and self.want.ok and kind in (
                "dump_decider", "compute", "own_dump"
            ):
                for n, t in truth.items():
                    sim.check(
                        t is model.MISSING or t is model.NP or n in names
                        # (What's not set can still be asked for.)
                        or kind == "compute" and n not in self.values,
                        "wrong-fields",
                        lambda: f"{self!r}: the {kind} callback of {name} was shown"
                        f" {names!r}, but not {n}, which is {t!r}",
                    )
            sim.hit("shown-fields")
            sim.nontrivial = True
            loading = self.op in ("load", "partial_load", "get_field")
            whose = None
            if loading and kind == "present":
                whose = name
            elif loading and kind == "halt":
                whose = info["seq"].name
            elif loading and kind == "load_decider":
                mine = [
                    f.name for f in self.spec.fields
                    if getattr(getattr(f.kind, "comp", f.kind), "tag", None) == name
                ]
                whose = mine[0] if len(mine) == 1 else None
            if whose in self.spec.by_name:
                before = []
                for f in self.spec.fields:
                    if f.name == whose:
                        break
                    before.append(f.name)
                sim.check(
                    sorted(names) == sorted(before), "wrong-fields",
                    lambda: f"{self!r}: the {kind} callback of {whose} was shown {names!r},"
                    f" but {before!r} have been loaded",
                )
        if "value" in info and name in self.spec.by_name:
            truth = self.truth()
            t = truth.get(name, model.MISSING) if truth else model.MISSING
            if t is model.MISSING or t is model.NP or info["value"] is None:
                return
            v = self.spec.by_name[name].from_lib(self.lists(info["value"]))
            if self.op in ("load", "get_field", "partial_load"):
                sim.check(
                    model.same(v, t), "wrong-value",
                    lambda: f"{self!r}: the {kind} of {name} was shown {v!r}, not {t!r}",
                )
                sim.hit("shown-value")
            elif not isinstance(v, schema.Bad):
                sim.check(
                    model.same(v, t), "wrong-value",
                    lambda: f"{self!r}: the {kind} of {name} was shown {v!r}, not {t!r}",
                )
                sim.hit("shown-value")

    def lists(self, v):
        """Users may pass tuples for arrays."""
        if self.op in ("load", "get_field", "partial_load"):
            return v
        if isinstance(v, (list, tuple)):
            return [self.lists(x) for x in v]
        return v

    def truth(self):
        return self._truth

    def unsized(self, inst):
        """Arrays nobody else looks at can come from iterators."""
        spec = self.spec
        seen = set()
        for f in spec.fields:
            if f.compute is not None:
                seen.update(f.compute.targets)
        for sv in spec.struct_validators:
            seen.update((sv.a, sv.b))
        for ns, _ in spec.multi_validators:
            seen.update(ns)
        for f in spec.fields:
            if (
                isinstance(f.kind, schema.ArrayKind)
                and isinstance(self.values.get(f.name), list)
                and not f.validators
                and not spec.method_validators.get(f.name)
                and f.settable
                and f.name not in seen
                and isinstance(inst[f.name], (list, tuple))
            ):
                inst[f.name] = (x for x in inst[f.name])
                self._truth.pop(f.name, None)
                self.sim.hit("array-from-generator")

    def run(self):
        sim, ch, spec = self.sim, self.sim.ch, self.spec
        if ch.chance(45):
            self.armed = 1 + ch.below(ch.pick([3, 10, 30]))
        names = [f.name for f in spec.fields]
        which = ch.pick(names)
        self._truth = {}
        inst = None
        if self.op in ("load", "get_field", "partial_load"):
            junk = ch.bytes(ch.pick([0, 2]))
            buf = junk + self.want.data
            loaded, werr = model_load(spec, buf, len(junk), self.ctx)
            ends = []
            try:
                model.load_fields(spec, buf, len(junk), self.ctx, ends=ends)
            except model.LoadError:
                pass
            self._truth = {n: v for n, _, v in ends}
            self.spans, start = {}, len(junk)
            for n, end, _ in ends:
                self.spans[n] = start, end
                start = end
            reader = streams.open_reader(sim, buf, len(junk))
            run = {
                "load": lambda: spec.cls.from_stream(reader, self.ctx),
                "get_field": lambda: spec.cls.get_field(reader, which, self.ctx),
                "partial_load": lambda: spec.cls.partial_load(reader, which, self.ctx),
            }[self.op]
        else:
            for n in names:
                v = model.resolve(spec, self.values, self.ctx, n)
                f = spec.by_name[n]
                if f.factory_obj is not None and n not in self.values:
                    continue
                if f.present is not None or f.compute is not None:
                    # May depend on the context, or on others that do.
                    continue
                self._truth[n] = v
            inst = instance(sim, spec, self.values, self.rt)
            if self.op == "dump" and ch.chance(60):
                self.unsized(inst)
            out = io.BytesIO()
            run = {
                "dump": lambda: inst.to_stream(out, self.ctx),
                "partial_dump": lambda: inst.partial_dump(
                    out, ch.pick([None, which]), self.ctx),
                "len": lambda: len(inst),
                "to_dict": lambda: inst.to_dict(),
            }[self.op]
            before = snapshot(inst)
        self.rt.hook = self.hook
        try:
            got = attempt(run)
        finally:
            self.rt.hook = None
        sim.log(self.op, which, self.blown, got)
        sim.mark(self.op, which, self.armed, type(self.blown).__name__)
        if self.blown is not None:
            kind = type(self.blown).__name__
            same = got.error is self.blown or (
                # PEP 479
                isinstance(self.blown, StopIteration)
                and isinstance(got.error, RuntimeError)
                and got.error.__cause__ is self.blown
            )
            sim.check(
                same, "callback-error-hidden",
                lambda: f"{self!r}: a callback raised {kind}({self.blown}), but the result"
                f" is {got!r}",
            )
            carries = {n: vars(self.blown).get(n) for n in self.carried}
            sim.check(
                carries == self.carried, "callback-error-changed",
                lambda: f"{self!r}: a callback raised {kind}({self.blown}) with"
                f" {self.carried!r}, which became {carries!r}",
            )
        elif self.op == "dump":
            check_dump(sim, got, out.getvalue(), self.want, repr(self))
        elif self.op == "load" and loaded is not None:
            if check_load(sim, spec, got, loaded, werr, repr(self)):
                contents(sim, spec, got.value, repr(self))
        if inst is not None:
            sim.check(
                model.same(before, snapshot(inst)), "dump-mutates",
                lambda: f"{self!r}: changed from {before!r} to {snapshot(inst)!r}",
            )
