"""What the property scenarios share."""

from __future__ import annotations

import io

import binobj
import binobj.errors
import binobj.fields

from . import model
from . import schema
from . import tz
from .engine import SimAbort
from .engine import SimHang
from .engine import SimWall
from .engine import Violation
from .streams import SimOSError

errors = binobj.errors

LIB_ERRORS = (errors.Error,)
VALUE_ERRORS = (
    errors.Error, ValueError, TypeError, OverflowError, KeyError, AttributeError,
    OSError, ArithmeticError,
)


class Outcome:
    __slots__ = ("value", "error")

    def __init__(self, value=None, error=None):
        self.value = value
        self.error = error

    @property
    def ok(self):
        return self.error is None

    def __repr__(self):
        if self.ok:
            return f"ok({self.value!r})"
        return f"{type(self.error).__name__}({str(self.error)[:200]})"


def attempt(fn, *args, **kw):
    """Run library code; simulation-control exceptions pass through."""
    try:
        return Outcome(fn(*args, **kw))
    except (SimAbort, SimHang, SimWall, Violation):
        raise
    except BaseException as err:  # noqa: BLE001
        return Outcome(error=err)


def world(sim, features=schema.ALL_FEATURES, **kw):
    tz.reset()
    schema.user_values.clear()
    rt = schema.Runtime(binobj)
    return rt, schema.Gen(sim.ch, rt, features, **kw)


LONG = schema.ALL_FEATURES | {"long"}
"""Texts of more than 64 KiB too."""

CTXS = [None, {"opt": 1}, {"opt": 0}, {}]


def draw_struct(sim, gen, rt, ctx, **kw):
    """Declare a random struct and draw one set of values for it."""
    depth = sim.ch.pick([1, 0, 2])
    kw.setdefault("tail_eof", True)
    spec, values = schema.consistent_struct(sim.ch, gen, ctx, depth=depth, **kw)
    out = attempt(spec.build, rt)
    sim.log("spec", spec)
    if not out.ok:
        sim.fail("declaration", f"can't declare {spec!r}: {out!r}")
    sim.mark("spec", repr(spec))
    for f in spec.fields:
        sim.hit("kind:" + type(f.kind).__name__)
        if f.present is not None:
            sim.hit("conditional-field")
        if f.null is not model.MISSING:
            sim.hit("nullable-field")
        if f.discard:
            sim.hit("discard-field")
        if f.compute is not None:
            sim.hit("computed-field")
        if f.factory_obj is not None:
            sim.hit("factory-field")
        if f.kind.eof:
            sim.hit("array-to-eof")
    if spec.split:
        sim.hit("inherited-fields")
    sim.hit("style:" + spec.style)
    return spec, values


def instance(sim, spec, values, rt, how=None):
    """Create an instance through a drawn mix of constructor and assignment."""
    ch = sim.ch
    lib = spec.to_lib(values, rt, ch)
    if how is None:
        how = ch.pick(["init", "mixed"])
    if how == "init":
        return spec.cls(**lib)
    at_init = {
        n: v for n, v in lib.items()
        if not spec.by_name[n].settable or values[n] is model.NP or ch.chance(50)
    }
    inst = spec.cls(**at_init)
    for n, v in lib.items():
        if n in at_init:
            continue
        # Assigning an invalid value is rejected on the spot; values like that can
        # only come in through the constructor.
        if not all(p.ok(values[n]) for p in spec.by_name[n].validators):
            inst = spec.cls(**{**{k: inst[k] for k in inst}, n: v})
            continue
        if ch.chance(50):
            inst[n] = v
        else:
            setattr(inst, n, v)
    return inst


def change_inside(sim, spec, inst, values, rt, ctx):
    """Change a list or struct that an instance holds, in place.

    Returns what the instance's values are then.
    """
    ch = sim.ch
    values = clone(values)
    places = []

    def search(spec, inst, values):
        for n, v in values.items():
            f = spec.by_name[n]
            kind = f.kind
            if f.present is not None or f.compute is not None:
                continue
            if isinstance(kind, schema.NestedKind) and isinstance(v, dict):
                places.append((f, inst[n], v))
                search(kind.spec, inst[n], v)
            elif isinstance(kind, schema.ArrayKind) and isinstance(v, list):
                if type(inst[n]) is list and not isinstance(
                    kind.comp.kind, schema.UnionKind
                ):
                    places.append((f, inst[n], v))

    search(spec, inst, values)
    if not places:
        return values
    f, have, v = ch.pick(places)
    kind = f.kind
    if isinstance(kind, schema.ArrayKind):
        how = ch.pick(["replace", "replace", "append", "pop", "spoil"])
        if not v or how == "append":
            x = (
                kind.comp.kind.trivial() if kind.comp.kind.refs
                else schema.gen_value(ch, kind.comp, model.Env({}, ctx))
            )
            v.append(x)
            have.append(kind.comp.to_lib(x, rt, ch))
        elif how == "pop":
            i = ch.below(len(v))
            del v[i], have[i]
        else:
            i = ch.below(len(v))
            if how == "replace":
                # (It needn't be one that a validator likes.)
                x = (
                    kind.comp.kind.trivial() if kind.comp.kind.refs
                    else kind.comp.kind.gen(ch, model.Env({}, ctx))
                )
            else:
                x = schema.spoil_value(ch, kind.comp, v[i], model.Env({}, ctx))
            v[i] = x
            have[i] = kind.comp.to_lib(x, rt, ch)
        sim.log("inside", f.name, how, v)
        return values
    fresh = schema.gen_struct_values(ch, kind.spec, ctx)
    for n, x in fresh.items():
        g = kind.spec.by_name[n]
        if not g.settable or x is model.NP or not all(p.ok(x) for p in g.validators):
            continue
        if any(
            h.present is not None and n in h.present.args and h.validators
            for h in kind.spec.fields
        ):
            # Whether a value that's then absent is validated is nobody's concern.
            continue
        have[n] = g.to_lib(x, rt, ch)
        v[n] = x
        sim.log("inside", f.name, n, x)
        break
    return values


def clone(v):
    """A copy of a value in the model's terms."""
    if type(v) is dict:
        return {k: clone(x) for k, x in v.items()}
    if type(v) is list:
        return [clone(x) for x in v]
    return v


def contents(sim, spec, inst, what="contents"):
    """Public contents of an instance in the model's terms."""
    if not isinstance(inst, spec.cls):
        sim.fail("wrong-type", f"{what}: got {type(inst).__name__}, not {spec.cls.__name__}")
    return spec.from_lib(inst)


def load_error_matches(kind, err):
    if kind in ("any", "bad"):
        return isinstance(err, VALUE_ERRORS)
    if kind == "eof":
        return isinstance(err, errors.UnexpectedEOFError)
    if kind == "validation":
        return isinstance(err, errors.ValidationError)
    if kind == "invalid":
        return isinstance(err, VALUE_ERRORS) and not isinstance(
            err, (errors.UnexpectedEOFError, errors.ValidationError, SimOSError)
        )
    raise AssertionError(kind)


def model_load(spec, buf, pos=0, ctx=None, init=None):
    """(Loaded or None, LoadError or None)"""
    try:
        return model.load(spec, buf, pos, ctx, init), None
    except model.LoadError as err:
        return None, err


def check_load(sim, spec, out, want, werr, what):
    """Compare the outcome of loading with the model's.  True if it's a success."""
    if werr is not None:
        if werr.kind == "any":
            return False
        sim.check(
            not out.ok, "accepted-bad-data",
            lambda: f"{what}: expected a failure ({werr}), got {out!r}",
        )
        sim.check(
            load_error_matches(werr.kind, out.error), "wrong-error",
            lambda: f"{what}: expected {werr}, got {out!r}",
        )
        return False
    sim.check(out.ok, "load-failed", lambda: f"{what}: expected success, got {out!r}")
    got = contents(sim, spec, out.value, what)
    sim.check(
        model.same(got, want.values), "wrong-values",
        lambda: f"{what}: loaded {got!r}, expected {want.values!r}",
    )
    return True


def check_dump(sim, out, data, want, what):
    """``data``: what was written.  True if it's a success."""
    if want.ok:
        sim.check(out.ok, "dump-failed", lambda: f"{what}: expected success, got {out!r}")
        sim.check(
            data == want.data, "wrong-bytes",
            lambda: f"{what}: wrote {data!r}, expected {want.data!r}",
        )
        return True
    kind = want.error.kind
    if kind == "unspecified":
        return False
    sim.check(
        not out.ok, "dumped-invalid",
        lambda: f"{what}: expected a failure ({want.error}), wrote {data!r}",
    )
    good = isinstance(out.error, VALUE_ERRORS)
    if kind in ("missing", "validation"):
        # There can be something else wrong as well, and computed fields can stumble
        # over what's missing.
        good = isinstance(
            out.error,
            (errors.ValidationError, errors.MissingRequiredValueError, KeyError),
        )
    sim.check(
        good, "wrong-error", lambda: f"{what}: expected {want.error}, got {out!r}"
    )
    return False


class Record:
    """One record in a simulated file."""

    def __init__(self, spec, values, start, dumped):
        self.spec = spec
        self.values = values
        self.start = start
        self.dumped = dumped
        self.data = dumped.data
        self.end = start + len(self.data)

    def __repr__(self):
        return f"<{self.spec.name} {self.start}:{self.end}>"


def stored_records(sim, rt, gen, ctx, n_specs, n_records, prefix=b"", **kw):
    """A file with records in it, written by the reference model.

    Returns (bytes of the file, records).  Nothing here depends on the library's dumper.
    """
    ch = sim.ch
    specs = [draw_struct(sim, gen, rt, ctx, **kw) for _ in range(n_specs)]
    data = bytearray(prefix)
    records = []
    for i in range(n_records):
        spec, values = specs[ch.below(len(specs))] if i else specs[0]
        if i:
            values = schema.gen_struct_values(ch, spec, ctx)
        dumped = model.dump(spec, values, ctx)
        if not dumped.ok:
            sim.hit("undumpable-values")
            continue
        r = Record(spec, values, len(data), dumped)
        records.append(r)
        data += r.data
        sim.mark("values", repr(values))
        if any(f.kind.eof for f in spec.fields):
            break  # everything after this would be part of it
    sim.log("file", [(r.spec.name, r.start, r.end) for r in records], bytes(data))
    return bytes(data), records


def reading_boundaries(spec, buf, pos, ctx):
    """[(field name, start, end, value)] of as many fields as the model can load."""
    ends = []
    try:
        model.load_fields(spec, buf, pos, ctx, ends=ends)
    except model.LoadError:
        pass
    out = []
    for n, end, v in ends:
        out.append((n, pos, end, v))
        pos = end
    return out


def freeze(v):
    """A user-visible value, frozen for comparing with :func:`model.same`."""
    if isinstance(v, binobj.Struct):
        return {"struct": type(v).__name__, "fields": {n: freeze(v[n]) for n in v}}
    if isinstance(v, dict):
        return {"dict": {k: freeze(x) for k, x in v.items()}}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [freeze(x) for x in v]
    return v


def snapshot(inst):
    """Everything a user can see about the instance without computing anything."""
    return freeze(inst)


# --- single operations, for scenarios which run many of them in some disturbed way ------


class Op:
    """One library call with its expected outcome."""

    def __init__(self, name, run, check):
        self.name = name
        self.run = run  # () -> anything
        self.check = check  # (Outcome) -> None

    def __repr__(self):
        return self.name


def op_load(sim, spec, buf, pos, ctx, via):
    want, werr = model_load(spec, buf, pos, ctx)
    what = f"{via} of {spec!r} at {pos} of {buf!r}"
    if via == "from_bytes":
        piece = buf[pos : want.pos] if want is not None else buf[pos:]
        if want is not None:
            want, werr = model_load(spec, piece, 0, ctx)

        def run():
            return spec.cls.from_bytes(piece, ctx)

    else:

        def run():
            s = io.BytesIO(buf)
            s.seek(pos)
            return spec.cls.from_stream(s, ctx)

    def check(out):
        if werr is None and want.pos != len(buf) - pos and via == "from_bytes" and (
            want.pos != len(piece)
        ):
            sim.check(
                isinstance(out.error, errors.ExtraneousDataError), "wrong-error",
                lambda: f"{what}: {out!r}",
            )
            return
        check_load(sim, spec, out, want, werr, what)

    return Op(f"{via} {spec.name}", run, check)


def op_get_field(sim, spec, buf, pos, ctx, name):
    try:
        values, _ = model.load_fields(spec, buf, pos, ctx, last=name)
    except model.LoadError:
        values = None

    def run():
        s = io.BytesIO(buf)
        s.seek(pos)
        v = spec.cls.get_field(s, name, ctx)
        return v, s.tell()

    def check(out):
        if values is None:
            return
        what = f"get_field({name}) of {spec!r} at {pos} of {buf!r}"
        sim.check(out.ok, "lookup-failed", lambda: f"{what}: {out!r}")
        v, where = out.value
        have = spec.by_name[name].from_lib(v)
        sim.check(
            model.same(have, values[name]) and where == pos, "wrong-value",
            lambda: f"{what}: got {have!r} (stream at {where}), not {values[name]!r}",
        )

    return Op(f"get_field {spec.name}.{name}", run, check)


def op_partial_load(sim, spec, buf, pos, ctx, last):
    values, end, err = model.partial_load(spec, buf, pos, ctx, last)

    def run():
        s = io.BytesIO(buf)
        s.seek(pos)
        return spec.cls.partial_load(s, last, ctx), s.tell()

    def check(out):
        what = f"partial_load({last}) of {spec!r} at {pos} of {buf!r}"
        if err is None or (err.kind == "eof" and last is None):
            sim.check(out.ok, "partial-load-failed", lambda: f"{what}: {out!r}")
            inst, where = out.value
            have = contents(sim, spec, inst, what)
            sim.check(
                model.same(have, values) and where == end, "wrong-values",
                lambda: f"{what}: got {have!r} up to {where}, not {values!r} up to {end}",
            )
        elif err.kind != "any" and not (err.kind == "bad" and last is None):
            sim.check(
                not out.ok and load_error_matches(err.kind, out.error), "wrong-error",
                lambda: f"{what}: expected {err}, got {out!r}",
            )

    return Op(f"partial_load {spec.name}", run, check)


def op_dump(sim, spec, values, rt, ctx, via):
    want = model.dump(spec, values, ctx)
    what = f"{via} of {values!r} as {spec!r}"
    # Drawn now: which forms the values take.
    lib = spec.to_lib(values, rt, sim.ch)

    if via == "to_bytes":

        def run():
            return spec.cls(**lib).to_bytes(ctx)

    else:

        def run():
            s = io.BytesIO()
            spec.cls(**lib).to_stream(s, ctx)
            return s.getvalue()

    def check(out):
        check_dump(sim, out, out.value if out.ok else b"", want, what)

    return Op(f"{via} {spec.name}", run, check)


def op_partial_dump(sim, spec, values, rt, ctx, last):
    want = model.partial_dump(spec, values, last, ctx)
    lib = spec.to_lib(values, rt, sim.ch)

    def run():
        s = io.BytesIO()
        spec.cls(**lib).partial_dump(s, last, ctx)
        return s.getvalue()

    def check(out):
        what = f"partial_dump({last}) of {values!r} as {spec!r}"
        sim.check(out.ok == want.ok, "wrong-outcome",
                  lambda: f"{what}: expected {want.error or want.data!r}, got {out!r}")
        if want.ok:
            sim.check(
                out.value == want.data, "wrong-bytes",
                lambda: f"{what}: got {out.value!r}, not {want.data!r}",
            )

    return Op(f"partial_dump {spec.name}", run, check)


def op_len(sim, spec, values, rt):
    want = model.dump(spec, values, None)
    lib = spec.to_lib(values, rt, sim.ch)

    def run():
        return len(spec.cls(**lib))

    def check(out):
        if want.ok:
            sim.check(
                out.ok and out.value == len(want.data), "wrong-length",
                lambda: f"len() of {values!r} as {spec!r} is {out!r},"
                f" not {len(want.data)}",
            )

    return Op(f"len {spec.name}", run, check)


def simple_size(spec):
    """The size of structs of nothing but plain fixed-size fields."""
    total = 0
    for f in spec.fields:
        if f.present is not None or not isinstance(
            f.kind, (schema.IntKind, schema.FloatKind, schema.BytesKind, schema.UuidKind,
                     schema.StringKind, schema.TsKind)
        ) or f.kind.fixed is None or isinstance(f.null, bytes):
            return None
        total += f.kind.fixed
    return total


def known_offset(spec, f):
    pos = 0
    for g in spec.fields:
        if g is f:
            return pos
        if g.present is not None or not isinstance(
            g.kind, (schema.IntKind, schema.FloatKind, schema.UuidKind, schema.BytesKind)
        ) or g.kind.fixed is None:
            return None
        pos += g.kind.fixed
    return None


def op_size(sim, spec):
    """What the class and its fields say about their sizes and places."""
    names = [f.name for f in spec.fields]

    def run():
        return spec.cls.get_size(), [getattr(spec.cls, n).offset for n in names]

    def check(out):
        sim.check(out.ok, "wrong-fixed-size", lambda: f"size of {spec!r}: {out!r}")
        size, offsets = out.value
        sim.check(
            size in (None, model.fixed_size(spec)) and simple_size(spec) in (None, size),
            "wrong-fixed-size",
            lambda: f"get_size() of {spec!r} is {size!r}, not {model.fixed_size(spec)}",
        )
        for f, at in zip(spec.fields, offsets):
            want = known_offset(spec, f)
            sim.check(
                want in (None, at), "wrong-offset",
                lambda: f"{f.name} of {spec!r} says it's at {at}, not {want}",
            )

    return Op(f"size {spec.name}", run, check)


def refused_value(ch, spec):
    """(field, value of it that some validator refuses), or None."""
    bad = []
    for f in spec.fields:
        if f.const is not model.MISSING or not isinstance(f.kind, schema.IntKind):
            continue
        for p in f.validators + spec.method_validators.get(f.name, []):
            if p.op in ("mod", "max"):
                v = {"mod": p.args[-1], "max": p.args[0] + 1}[p.op]
                if f.kind.lo <= v <= f.kind.hi and v != f.null:
                    bad.append((f, v))
    return ch.pick(bad) if bad else None


OPS = ["from_stream", "dump", "from_bytes", "get_field", "partial_load", "partial_dump",
       "len", "refused", "size"]


def draw_op(sim, rt, spec, buf, pos, ctx, what=None):
    ch = sim.ch
    what = what or ch.pick(OPS)
    if what == "refused":
        what = ch.pick(["from_stream", "dump"])
        bad = refused_value(ch, spec)
        if bad is not None:
            f, v = bad
            if what == "dump":
                values = schema.gen_struct_values(ch, spec, ctx)
                if f.settable and values.get(f.name) is not model.NP:
                    values[f.name] = v
                return op_dump(sim, spec, values, rt, ctx, "to_bytes")
            counts = any(f.name in g.kind.refs for g in spec.fields)
            for name, start, end, _ in reading_boundaries(spec, buf, pos, ctx):
                # (A huge number of elements takes too long in threads.)
                if name == f.name and end > start and not counts:
                    buf = buf[:start] + f.kind.enc(v, None) + buf[end:]
    if what in ("from_stream", "from_bytes"):
        return op_load(sim, spec, buf, pos, ctx, what)
    if what == "size":
        return op_size(sim, spec)
    names = [f.name for f in spec.fields]
    if what == "get_field":
        return op_get_field(sim, spec, buf, pos, ctx, ch.pick(names))
    if what == "partial_load":
        return op_partial_load(sim, spec, buf, pos, ctx, ch.pick([None] + names))
    values = schema.gen_struct_values(ch, spec, ctx)
    if what == "partial_dump":
        return op_partial_dump(sim, spec, values, rt, ctx, ch.pick([None] + names))
    if what == "len":
        return op_len(sim, spec, values, rt)
    return op_dump(sim, spec, values, rt, ctx, ch.pick(["to_bytes", "to_stream"]))
