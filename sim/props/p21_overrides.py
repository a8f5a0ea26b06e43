"""P21: values given when loading take precedence, and nothing else changes."""

from __future__ import annotations

import copy

from .. import model
from .. import schema
from .. import streams
from ..common import CTXS
from ..common import attempt
from ..common import binobj
from ..common import check_dump
from ..common import errors
from ..common import freeze
from ..common import load_error_matches
from ..common import stored_records
from ..common import LONG
from ..common import world
from ..streams import SimOSError

ID = "P21"
LEVEL = "exploration"
RULE = (
    "a run is one file of drawn records read one after the other with drawn values given"
    " for some of the fields (and for the constructor), from streams that chop and fail,"
    " with retries, the loaded structs being modified in between; non-trivial if a record"
    " was loaded with a value given; distinct by declarations, values, overrides and faults"
)
RUNS = {"quick": 50000, "thorough": 900000}
PROBES = ("overridden", "override-changes-layout", "extra-argument", "unknown-name",
          "read-error", "retry-ok", "modified-in-between", "discarded-override",
          "invalid-override", "from_bytes", "from_stream")


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, LONG)
    ctx = ch.pick(CTXS)
    data, records = stored_records(sim, rt, gen, ctx, 1, ch.between(1, 3),
                                   prefix=ch.bytes(ch.pick([0, 0, 3])))
    if not records:
        return
    spec = records[0].spec
    cls = spec.cls
    extra = ch.chance(40)
    if extra:
        # Applications can have constructors that take more than the fields.
        parent = cls

        def __init__(self, required, **values):
            parent.__init__(self, **values)
            self.required = required

        cls = type(spec.name + "WithArgs", (parent,), {"__init__": __init__})
        sim.hit("extra-argument")
    given, init = overrides(sim, spec, rt, ctx)
    if extra:
        init["required"] = {"nested": ["item", 1]}
    unknown = ch.chance(4)
    if unknown:
        init["nosuch"] = 1
        sim.hit("unknown-name")
    pristine = freeze(copy.deepcopy(init))
    file = streams.SimFile(data)
    loaded = []
    extras = {}
    for r in records:
        file_pos = r.start
        plan = {}
        if ch.chance(30) and r.data:
            plan["read_error"] = (r.start + ch.below(len(r.data)), ch.between(1, 2))
        if ch.chance(50):
            plan["short_read"] = ch.pick([50, 100])
        via = ch.pick(["from_stream", "from_bytes"])
        want, werr = model_load_with(spec, data, r.start, ctx, given)
        if via == "from_bytes":
            piece = data[r.start : want.pos] if want else data[r.start :]
            stream = None
        else:
            raw = streams.SimRaw(sim, file, "r", r.start, **plan)
            stream = raw
        sim.mark("load", via, repr(sorted(plan.items())))
        what = f"{via} of {spec!r} at {r.start} of {data!r} given {given!r}"
        for trial in range(6):
            if via == "from_bytes":
                out = attempt(cls.from_bytes, piece, ctx, ch.chance(50), init)
            else:
                stream.seek(file_pos)
                out = attempt(cls.from_stream, stream, ctx, init)
            sim.log("load", via, trial, out)
            sim.check(
                model.same(freeze(init), pristine), "arguments-changed",
                lambda: f"{what}: init_kwargs are now {init!r}",
            )
            if not isinstance(out.error, SimOSError):
                break
            sim.hit("read-error")
        else:
            sim.fail("stuck", f"{what}: still failing after the error is gone: {out!r}")
        if unknown:
            sim.check(
                isinstance(out.error, errors.UnexpectedValueError)
                or (werr is not None and not out.ok),
                "accepted-unknown", lambda: f"{what}: {out!r}",
            )
            return
        sim.hit(via)
        if werr is not None:
            if werr.kind == "validation":
                sim.hit("invalid-override")
            sim.check(
                werr.kind == "any"
                or (not out.ok and load_error_matches(werr.kind, out.error)),
                "wrong-error", lambda: f"{what}: expected {werr}, got {out!r}",
            )
            continue
        if trial:
            sim.hit("retry-ok")
        sim.check(out.ok, "load-failed", lambda: f"{what}: {out!r}")
        if via == "from_stream":
            sim.check(
                stream.tell() == want.pos, "wrong-position",
                lambda: f"{what}: stream is at {stream.tell()}, not {want.pos}",
            )
        check_contents(sim, spec, cls, out.value, want.values, what)
        if extra:
            sim.check(
                out.value.required == {"nested": ["item", 1]}
                and out.value.required is not init["required"],
                "arguments-changed", lambda: f"{what}: got {out.value.required!r}",
            )
        sim.hit("overridden" if given else "nothing-given")
        if given:
            sim.nontrivial = True
            if want.pos != r.end:
                sim.hit("override-changes-layout")
        loaded.append((out.value, dict(want.values), what))
        if ch.chance(40):
            modify(sim, loaded, extras, pristine, init, what)
        for inst, values, why in loaded:
            check_contents(sim, spec, cls, inst, values, why + " (later)")
            if extra:
                sim.check(
                    inst.required == {"nested": extras.get(id(inst), ["item", 1])},
                    "arguments-shared",
                    lambda i=inst, w=why: f"{w}: its argument is now {i.required!r}",
                )
    for inst, values, why in loaded:
        if ch.chance(30):
            d = model.dump(spec, values, ctx)
            out = attempt(inst.to_bytes, ctx)
            check_dump(sim, out, out.value if out.ok else b"", d, f"dump after {why}")


def overrides(sim, spec, rt, ctx):
    """(values in the model's terms, as given to the library)"""
    ch = sim.ch
    source = schema.gen_struct_values(ch, spec, ctx)
    given = {}
    for f in spec.fields:
        if not ch.chance(35) or has_union(f.kind):
            continue
        v = source.get(f.name, model.MISSING)
        if f.present is not None and f.settable and ch.chance(15):
            sim.hit("absent-override")
            v = model.NP
        if v is model.MISSING or not f.settable:
            continue
        given[f.name] = v
        if f.discard:
            sim.hit("discarded-override")
        if ch.chance(5) and isinstance(f.kind, schema.IntKind):
            given[f.name] = ch.pick([f.kind.hi, 6, 17])
    sim.mark("given", repr(given))
    sim.log("given", given)
    return given, {n: spec.by_name[n].to_lib(v, rt) for n, v in given.items()}


def has_union(kind):
    if isinstance(kind, schema.UnionKind):
        return True
    if isinstance(kind, schema.NestedKind):
        return any(has_union(f.kind) for f in kind.spec.fields)
    return isinstance(kind, schema.ArrayKind) and has_union(kind.comp.kind)


def model_load_with(spec, data, pos, ctx, given):
    try:
        return model.load(spec, data, pos, ctx, given), None
    except model.LoadError as err:
        return None, err


def check_contents(sim, spec, cls, inst, want, what):
    sim.check(isinstance(inst, cls), "wrong-type", lambda: f"{what}: {inst!r}")
    have = spec.from_lib(inst)
    sim.check(
        model.same(have, want), "wrong-values",
        lambda: f"{what}: holds {have!r}, expected {want!r}",
    )


def pop_somewhere(ch, v, m):
    """Take the last element off a list inside of ``v``, and of its model ``m``."""
    if isinstance(v, list):
        inner = [i for i, x in enumerate(v) if isinstance(x, (list, dict, binobj.Struct))]
        if inner and ch.chance(60):
            i = ch.pick(inner)
            if pop_somewhere(ch, v[i], m[i]):
                return True
        if v:
            v.pop()
            m.pop()
            return True
        return False
    if not isinstance(m, dict):
        return False
    names = [n for n in v if n in m and isinstance(v[n], (list, dict, binobj.Struct))]
    return bool(names) and any(pop_somewhere(ch, v[n], m[n]) for n in names)


def modify(sim, loaded, extras, pristine, init, what):
    """What's loaded is the application's to change in place."""
    ch = sim.ch
    inst, values, _ = ch.pick(loaded)
    for n in list(values):
        v = inst[n]
        if isinstance(v, (list, dict, binobj.Struct)):
            m = copy.deepcopy(values[n])
            if pop_somewhere(ch, v, m):
                values[n] = m
                sim.hit("modified-in-between")
                sim.log("pop", n, m)
    if hasattr(inst, "required"):
        inst.required["nested"].append(len(inst.required["nested"]))
        extras[id(inst)] = list(inst.required["nested"])
    sim.check(
        model.same(freeze(init), pristine), "arguments-changed",
        lambda: f"{what}: changing a loaded struct changed init_kwargs to {init!r}",
    )


