"""P23: a failure says which field, value and offset it's about, and they're the right ones."""

from __future__ import annotations

import io

from .. import model
from .. import sched
from .. import schema
from .. import streams
from ..common import CTXS
from ..common import Op
from ..common import attempt
from ..common import errors
from ..common import load_error_matches
from ..common import model_load
from ..common import refused_value
from ..common import stored_records
from ..common import world
from .p08_threads import try_
from .p12_corruption import damage

ID = "P23"
LEVEL = "exploration"
RULE = (
    "a run is one file of drawn records, cut and damaged in drawn ways, on which 2-8"
    " drawn operations fail, one after the other or from 2-3 threads under one drawn"
    " interleaving; non-trivial if the details of a failure were compared; distinct by"
    " declarations, damage, operations and interleaving"
)
RUNS = {"quick": 24000, "thorough": 600000}
PROBES = ("report:eof", "report:eof-whole", "report:invalid", "report:validation", "report:extra",
          "report:missing", "report:missing-partial", "report:range", "report:refused", "report:count",
          "report:unknown", "report:immutable", "report:nested", "float-range")


# Kinds of fields that are read in one piece; the report is about all of it.
WHOLE = (schema.IntKind, schema.FloatKind, schema.BytesKind, schema.StringKind,
         schema.TsKind)


def field_name(f):
    return f if f is None or isinstance(f, str) else f.name


def check_where(sim, spec, err, path, what):
    """The field is the one that failed, or one of those it's nested in."""
    name = field_name(err.field)
    sim.check(
        name in path, "wrong-field",
        lambda: f"{what}: {err!r} is about {name!r}, but {path[::-1]!r} failed",
    )
    if name == path[-1] and name is not None and not isinstance(err.field, str):
        sim.check(
            err.field is getattr(spec.cls, name), "wrong-field",
            lambda: f"{what}: {err!r} carries another field called {name!r}",
        )
    if len(path) > 1:
        sim.hit("report:nested")
    sim.nontrivial = True


def check_load_report(sim, spec, err, werr, values, start, end, what):
    """``start``: where the failing field starts; ``end``: of the data."""
    path = werr.path
    if not path or werr.kind == "any" or not load_error_matches(werr.kind, err):
        return  # other properties look after that
    if werr.kind == "eof":
        sim.hit("report:eof")
        check_where(sim, spec, err, path, what)
        sim.check(
            type(err.offset) is int and type(err.size) is int
            and start <= err.offset <= end < err.offset + err.size,
            "wrong-offset",
            lambda: f"{what}: {err!r} says {err.size!r} bytes at {err.offset!r} are more"
            f" than there are, but the data ends at {end}, and {path[-1]} starts at"
            f" {start}",
        )
        f = spec.by_name.get(path[-1])
        if (len(path) == 1 and f.null is model.MISSING and f.kind.fixed is not None
                and isinstance(f.kind, WHOLE)):
            sim.hit("report:eof-whole")
            sim.check(
                (err.offset, err.size) == (start, f.kind.fixed), "wrong-offset",
                lambda: f"{what}: {err!r} is about {err.size!r} bytes at {err.offset!r},"
                f" but {path[0]} is {f.kind.fixed} bytes at {start}",
            )
        sim.check(
            str(err.offset) in str(err) and str(err.size) in str(err), "wrong-message",
            lambda: f"{what}: {err}",
        )
    elif isinstance(err, errors.DeserializationError):
        sim.hit("report:invalid")
        check_where(sim, spec, err, path, what)
        sim.check(
            err.offset is None or start <= err.offset <= end, "wrong-offset",
            lambda: f"{what}: {err!r} is about {err.offset}; {path[-1]} starts at"
            f" {start}, and the data ends at {end}",
        )
    elif isinstance(err, errors.ValidationError):
        sim.hit("report:validation")
        check_validation(sim, spec, err, werr, values, what)


def refuses(spec, values, name, v):
    """Would some check of the field refuse this, which is the value it has?"""
    if name not in spec.by_name:
        return False
    f = spec.by_name[name]
    if name in values and not model.same(values[name], v):
        return False
    if f.const is not model.MISSING and v != f.const:
        return True
    preds = f.validators + spec.method_validators.get(name, [])
    return not all(p.ok(v) for p in preds)


def check_validation(sim, spec, err, fail, values, what):
    """There can be several values that are refused; it has to be one of them."""
    name = field_name(err.field)
    path = fail.path or [fail.where]
    if name in spec.by_name and name is not None and len(path) == 1:
        v = spec.by_name[name].from_lib(err.value)
        if refuses(spec, values, name, v):
            sim.nontrivial = True
            return
        if err.value is None and any(
            name == p.a and not p.ok_struct(values)
            for p in spec.struct_validators if p.a in values and p.b in values
        ):
            return
    if len(path) > 1 and name in fail.others:
        return
    check_where(sim, spec, err, path, what)
    check_value(sim, spec, err, path, fail.value, what)


def check_value(sim, spec, err, path, want, what):
    if want is model.MISSING or len(path) > 1 or err.value is None and want is None:
        return
    f = spec.by_name[path[0]]
    have = f.from_lib(err.value)
    sim.check(
        model.same(have, want), "wrong-value",
        lambda: f"{what}: {err!r} is about {have!r}, but it's {want!r} of {path[0]} that's"
        " refused",
    )


def op_load(sim, spec, buf, start, ctx, via, last=None):
    if via == "from_bytes":
        buf = buf[start:]
        start = 0
    ends = []
    want, werr = None, None
    try:
        if via in ("get_field", "partial_load"):
            model.load_fields(spec, buf, start, ctx, last=last, ends=ends)
        else:
            model.load_fields(spec, buf, start, ctx, ends=ends)
            want = model.load(spec, buf, start, ctx)
    except model.LoadError as err:
        werr = err
    where = ends[-1][1] if ends else start

    def run(reader=None):
        if via == "from_bytes":
            return spec.cls.from_bytes(buf, ctx)
        if reader is None:
            reader = io.BytesIO(buf)
            reader.seek(start)
        if via == "get_field":
            return spec.cls.get_field(reader, last, ctx)
        if via == "partial_load":
            return spec.cls.partial_load(reader, last, ctx)
        return spec.cls.from_stream(reader, ctx)

    what = f"{via} {last or ''} of {spec!r} at {start} of {buf!r}"

    def check(out):
        if werr is not None:
            if via == "get_field" and werr.path[-1:] != [last]:
                return  # it may have been skipped
            if not out.ok:
                values = {n: v for n, _, v in ends}
                check_load_report(sim, spec, out.error, werr, values, where, len(buf), what)
        elif via == "from_bytes" and want.pos < len(buf):
            if isinstance(out.error, errors.ExtraneousDataError):
                sim.hit("report:extra")
                sim.nontrivial = True
                sim.check(
                    out.error.offset == want.pos, "wrong-offset",
                    lambda: f"{what}: {out.error!r} is about {out.error.offset}, but the"
                    f" excess data starts at {want.pos}",
                )

    op = Op(f"{via} {spec.name} {start} {last}", run, check)
    op.reader = None if via == "from_bytes" else (buf, start)
    return op


def unset(spec, values, ctx):
    """Names of all the fields without a value, also of nested structs."""
    out = set()
    all_values = model.resolve_all(spec, values, ctx)
    for f in spec.fields:
        v = all_values[f.name]
        if v is model.MISSING:
            out.add(f.name)
        out |= _unset_in(f.kind, v, ctx)
    return out


def _unset_in(kind, v, ctx):
    if isinstance(v, list) and isinstance(kind, schema.ArrayKind):
        return set().union(*[_unset_in(kind.comp.kind, x, ctx) for x in v])
    if isinstance(v, dict):
        if isinstance(kind, schema.NestedKind):
            return unset(kind.spec, v, ctx)
        if isinstance(kind, schema.UnionKind):
            return set().union(*[
                unset(c, v, ctx) for c in kind.choices if isinstance(c, schema.StructSpec)
            ])
    return set()


def misfits(spec, values, ctx):
    """{array: (declared number of elements, actual number of elements)}"""
    out = {}
    for f in spec.fields:
        v = values[f.name]
        if isinstance(f.kind, schema.ArrayKind) and isinstance(v, list):
            n = f.kind.n_in(model.Env(values, ctx))
            if n is not None and n != len(v):
                out[f.name] = n, len(v)
    return out


def op_dump(sim, rt, spec, ctx):
    """Dump something that can't be dumped."""
    ch = sim.ch
    values = schema.gen_struct_values(ch, spec, ctx)
    how = ch.pick(["missing", "range", "refused", "count"])
    name = bad = None
    plain = [f for f in spec.fields if f.name in values and values[f.name] is not model.NP]
    if how == "missing":
        for n in list(values):
            if ch.chance(50):
                del values[n]
    elif how == "range":
        numbers = [f for f in plain if isinstance(
            f.kind, (schema.IntKind, schema.FloatKind, schema.TsKind))]
        if not numbers:
            return None
        f = ch.pick(numbers)
        name, bad = f.name, schema.spoil_value(ch, f, values[f.name], model.Env(values, ctx))
        if isinstance(f.kind, schema.FloatKind) and bad is not None:
            sim.hit("float-range")
        values[name] = bad
    elif how == "refused":
        pair = refused_value(ch, spec)
        if pair is None:
            return None
        f, bad = pair
        name = f.name
        values[name] = bad
    else:
        arrays = [f for f in plain if isinstance(f.kind, schema.ArrayKind)
                  and isinstance(f.kind.count, int) and isinstance(values[f.name], list)]
        if not arrays:
            return None
        f = ch.pick(arrays)
        name = f.name
        v = values[name]
        bad = v[:-1] if v and ch.chance(50) else v + [
            v[-1] if v else f.kind.comp.kind.trivial()]
        values[name] = bad
    want = model.dump(spec, values, ctx)
    lib = spec.to_lib(values, rt)
    missing = unset(spec, values, ctx) | unset(spec, values, None)
    last = ch.pick(spec.fields).name if how == "missing" and ch.chance(40) else None
    what = f"dumping {values!r} as {spec!r} up to {last or 'the end'}"

    def run():
        if last is not None:
            s = io.BytesIO()
            spec.cls(**lib).partial_dump(s, last, ctx)
            return s.getvalue()
        return spec.cls(**lib).to_bytes(ctx)

    def check(out):
        err = out.error
        if out.ok or want.ok:
            return
        if isinstance(err, errors.MissingRequiredValueError):
            sim.hit("report:missing" if last is None else "report:missing-partial")
            sim.nontrivial = True
            n = field_name(err.field)
            sim.check(
                n in missing and n in str(err), "wrong-field",
                lambda: f"{what}: {err!r} is about {n!r}, but it's {missing!r} that"
                " have no value",
            )
        elif isinstance(err, errors.ValidationError):
            if how == "refused" and want.error.kind == "validation" and not missing:
                sim.hit("report:refused")
                check_validation(
                    sim, spec, err, want.error, model.resolve_all(spec, values, ctx), what)
        elif how == "range" and isinstance(err, errors.SerializationError):
            n = field_name(err.field)
            computed = [f.name for f in spec.fields if f.compute is not None]
            if n in computed or want.error.kind != "range":
                return
            sim.hit("report:range")
            check_where(sim, spec, err, [name], what)
            sim.check(
                err.value == bad, "wrong-value",
                lambda: f"{what}: {err!r} is about {err.value!r}, not {bad!r}",
            )
        elif how == "count" and isinstance(err, errors.ArraySizeError):
            counts = misfits(spec, model.resolve_all(spec, values, ctx), ctx)
            if want.error.kind != "count" or len(want.error.path) != 1:
                return
            sim.hit("report:count")
            sim.nontrivial = True
            n = field_name(err.field)
            sim.check(
                n in counts and err.field is getattr(spec.cls, n)
                and (err.n_expected, err.n_given) == counts[n], "wrong-count",
                lambda: f"{what}: {err!r} of {n!r}: expected {err.n_expected}, and given"
                f" {err.n_given}; {counts!r}",
            )

    return Op(f"dump {spec.name} {how} {name} {bad!r}", run, check)


def op_names(sim, spec):
    ch = sim.ch
    extra = {f"no_{i}" for i in range(ch.between(1, 3))}
    if ch.chance(50):
        # A computed or constant field can't be assigned to.
        fixed = [f for f in spec.fields if not f.settable]
        if fixed:
            f = ch.pick(fixed)

            def run():
                spec.cls()[f.name] = 1

            def check(out):
                if isinstance(out.error, errors.ImmutableFieldError):
                    sim.hit("report:immutable")
                    check_where(sim, spec, out.error, [f.name], f"assigning {f.name}")

            return Op(f"assign {f.name}", run, check)

    def run():
        return spec.cls(**dict.fromkeys(extra, 1))

    def check(out):
        if isinstance(out.error, errors.UnexpectedValueError):
            sim.hit("report:unknown")
            sim.nontrivial = True
            sim.check(
                out.error.names == extra and all(n in str(out.error) for n in extra)
                and type(out.error.struct) is spec.cls,
                "wrong-names",
                lambda: f"{spec.name} with {extra}: {out!r} names {out.error.names}",
            )

    return Op(f"unknown {len(extra)}", run, check)


def draw(sim, rt, bad, r, ctx):
    ch = sim.ch
    spec = r.spec
    names = [f.name for f in spec.fields]
    how = ch.below(10)
    if how < 5 and r.start <= len(bad):
        via = ch.pick(["from_stream", "from_stream", "from_bytes", "get_field",
                       "partial_load"])
        last = ch.pick(names) if via in ("get_field", "partial_load") else None
        return op_load(sim, spec, bad, r.start, ctx, via, last)
    if how < 9:
        op = op_dump(sim, rt, spec, ctx)
        if op is not None:
            return op
    return op_names(sim, spec)


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, max_groups=ch.pick([3, 5]))
    gen.strict = ch.chance(30)
    ctx = ch.pick(CTXS)
    data, records = stored_records(
        sim, rt, gen, ctx, ch.pick([1, 1, 2]), ch.between(1, 3),
        prefix=ch.bytes(ch.pick([0, 0, 3])),
    )
    if not any(r.data for r in records):
        return
    bad = data
    threads = ch.chance(40)
    if not threads and ch.chance(60):
        # (Damaged counts can take threads an eternity of simulated time.)
        bad = damage(sim, bad, records)
    if ch.chance(60):
        cut = ch.below(len(bad) + 1)
        sim.fault("truncated-file", cut)
        bad = bad[:cut]
    sim.log("damaged", bad)
    sim.mark("bad", bad)
    ops = [draw(sim, rt, bad, ch.pick(records), ctx) for _ in range(ch.between(2, 8))]
    sim.mark("ops", tuple(map(repr, ops)))
    if not threads:
        for op in ops:
            if getattr(op, "reader", None) and ch.chance(60):
                out = attempt(op.run, streams.open_reader(sim, *op.reader))
            else:
                out = attempt(op.run)
            sim.log("outcome", op, out)
            op.check(out)
        return
    s = sched.Scheduler(sim)
    plans = []
    for t in range(ch.between(2, 3)):
        mine = [ch.pick(ops) for _ in range(ch.between(1, 3))]
        plans.append(mine)
        s.spawn(f"t{t}", lambda task, mine=mine: [try_(op.run) for op in mine])
    s.run()
    seen = []
    for task, mine in zip(s.tasks, plans):
        if task.error is not None:
            raise task.error
        for op, out in zip(mine, task.result):
            sim.log("outcome", task.name, op, out)
            op.check(out)
            if out.error is not None:
                sim.check(
                    not any(out.error is e for e in seen), "shared-error",
                    lambda: f"{op} of {task.name} raised another one's {out.error!r}",
                )
                seen.append(out.error)
