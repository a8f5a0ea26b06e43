"""P13: reported sizes and offsets are true: storage laid out by them never collides."""

from __future__ import annotations

from .. import model
from .. import schema
from .. import streams
from ..common import CTXS
from ..common import attempt
from ..common import check_load
from ..common import contents
from ..common import draw_struct
from ..common import instance
from ..common import known_offset
from ..common import model_load
from ..common import simple_size
from ..common import stored_records
from ..common import LONG
from ..common import world
from ..engine import SimCrash
from ..streams import SimOSError

ID = "P13"
LEVEL = "exploration"
RULE = (
    "a run is either a sequence of structs dumped to disks with exactly as much or one byte"
    " less room than they report to need, or a file of records whose fields are patched in"
    " place by their reported offsets, some of the patches being torn by a crash;"
    " non-trivial if a size or a patch was compared; distinct by declarations, values and"
    " patches"
)
RUNS = {"quick": 70000, "thorough": 900000}
PROBES = ("exact-fit", "enospc", "fixed-size", "patched", "torn-patch", "crash",
          "offset-checked", "changed-then-measured", "refilled", "expected-size",
          "element-count")


def scenario(sim):
    rt, gen = world(sim, LONG)
    if sim.ch.chance(50):
        capacity(sim, rt, gen)
    else:
        patches(sim, rt, gen)


def capacity(sim, rt, gen):
    ch = sim.ch
    spec, values = draw_struct(sim, gen, rt, None)
    inst = instance(sim, spec, values, rt)
    explicit = dict(values)
    for step in range(ch.between(1, 3)):
        if step:
            # It's changed, and it may have another size now.
            new = schema.gen_struct_values(ch, spec, None)
            for n, v in new.items():
                f = spec.by_name[n]
                if not f.settable or v is model.NP or ch.chance(30):
                    continue
                if not all(p.ok(v) for p in f.validators):
                    continue
                if (
                    n in explicit and isinstance(v, list) and ch.chance(50)
                    and isinstance(inst[n], list)
                ):
                    # The very same list, with something else in it
                    inst[n][:] = [f.kind.comp.to_lib(x, rt, ch) for x in v]
                    explicit[n] = v
                    sim.log("refill", n, v)
                    sim.hit("refilled")
                    continue
                inst[n] = f.to_lib(v, rt, ch)
                explicit[n] = v
                sim.log("set", n, v)
            sim.hit("changed-then-measured")
        want = model.dump(spec, explicit, None)
        if not want.ok:
            continue
        out = attempt(len, inst)
        what = f"{explicit!r} as {spec!r}"
        sim.log("len", out)
        sim.mark("len", repr(explicit))
        sim.check(
            out.ok and out.value == len(want.data), "wrong-length",
            lambda: f"len() of {what} is {out!r}, not {len(want.data)}",
        )
        n = out.value
        sim.nontrivial = True
        size = attempt(spec.cls.get_size)
        sim.check(
            size.ok and size.value in (None, n), "wrong-fixed-size",
            lambda: f"get_size() of {spec!r} is {size!r}, but {explicit!r} takes {n}",
        )
        if simple_size(spec) is not None:
            sim.hit("fixed-size")
            sim.check(
                size.value == n, "wrong-fixed-size",
                lambda: f"get_size() of {spec!r} is {size!r}, not {n}",
            )
        parts(sim, spec, inst, want, what)
        for room in (n, n - 1):
            if room < 0:
                continue
            start = ch.pick([0, 3])
            file = streams.SimFile(bytes(start))
            raw = streams.SimRaw(
                sim, file, "disk", start, write_limit=start + room,
                torn=ch.chance(50), short_write=ch.pick([0, 50]),
            )
            out = attempt(inst.to_stream, raw)
            sim.log("dump", room, out)
            if room == n:
                sim.hit("exact-fit")
                sim.check(
                    out.ok and bytes(file.data[start:]) == want.data, "does-not-fit",
                    lambda: f"{what}, {n} bytes, doesn't fit in {n} bytes: {out!r}"
                    f" {bytes(file.data)!r}",
                )
            else:
                sim.check(
                    isinstance(out.error, SimOSError), "shorter-than-reported",
                    lambda: f"{what}, {n} bytes, went into {room}: {out!r}"
                    f" {bytes(file.data)!r}",
                )


def parts(sim, spec, inst, want, what):
    """What the fields, and the class given the values, say about sizes."""
    held = attempt(inst.to_dict, True)
    if not held.ok:
        return
    for f in spec.fields:
        if f.factory_obj is not None:
            return  # a new draw isn't what has been dumped
    native = held.value
    size = attempt(spec.cls.__binobj_struct__.get_size, native)
    sim.check(
        size.ok and size.value in (None, len(want.data)), "wrong-size-of-values",
        lambda: f"get_size({native!r}) of {spec!r} is {size!r}, not {len(want.data)}",
    )
    for n, start, end in want.offsets():
        obj = getattr(spec.cls, n)
        size = attempt(obj.get_expected_size, native)
        if size.ok:
            sim.hit("expected-size")
            sim.check(
                size.value == end - start, "wrong-expected-size",
                lambda n=n, size=size, k=end - start: f"{n} of {what} is said to take"
                f" {size!r}, not {k}",
            )
        elif obj.has_fixed_size:
            sim.fail("wrong-expected-size", f"{n} of {what}: {size!r}")
        f = spec.by_name[n]
        if isinstance(f.kind, schema.ArrayKind) and isinstance(native.get(n), list):
            count = attempt(obj.get_final_element_count, native)
            sim.hit("element-count")
            sim.check(
                count.ok and (f.kind.count is None or count.value == len(native[n])),
                "wrong-element-count",
                lambda n=n, count=count: f"{n} of {what} is said to have {count!r}"
                " elements",
            )


def patches(sim, rt, gen):
    ch = sim.ch
    ctx = ch.pick(CTXS)
    data, records = stored_records(
        sim, rt, gen, ctx, ch.pick([1, 1, 2]), ch.between(1, 3),
        prefix=ch.bytes(ch.pick([0, 0, 3])),
    )
    if not records:
        return
    file = streams.SimFile(data)
    for _ in range(ch.between(1, 6)):
        r = ch.pick(records)
        spec = r.spec
        places = {n: (s, e) for n, s, e in r.dumped.offsets()}
        f = ch.pick(spec.fields)
        obj = getattr(spec.cls, f.name)
        offset = obj.offset
        if f.name not in places:
            continue
        start, end = places[f.name]
        if offset is not None:
            sim.hit("offset-checked")
            sim.check(
                offset == start, "wrong-offset",
                lambda: f"{f.name} of {spec!r} is at {start} in {r.data!r}, but says"
                f" {offset}",
            )
            sim.nontrivial = True
        if known_offset(spec, f) is not None:
            sim.check(
                offset == start, "wrong-offset",
                lambda: f"{f.name} of {spec!r} is at {start}, but says {offset}",
            )
        size = attempt(lambda: obj.size)
        if isinstance(size.value, int) and not isinstance(f.null, bytes):
            sim.check(
                size.value == end - start, "wrong-field-size",
                lambda: f"{f.name} of {spec!r} takes {end - start} bytes in {r.data!r},"
                f" but says {size.value}",
            )
        if offset is None or f.kind.fixed is None or not f.settable:
            continue
        old, err = model_load(spec, bytes(file.data), r.start, ctx)
        if err is not None or f.kind.refs or isinstance(f.kind, schema.NestedKind):
            continue
        if f.present is not None or referenced(spec, f.name):
            continue
        v = schema.gen_value(ch, f, model.Env({}, ctx))
        if v is None or not all(p.ok(v) for p in f.validators):
            continue
        try:
            piece = f.encode(v, model.Env({}, ctx))
        except model.DumpError:
            continue
        before = bytes(file.data)
        at = r.start + offset
        torn = piece and ch.chance(30)
        raw = streams.SimRaw(
            sim, file, "patch", at, short_write=ch.pick([0, 60]),
            **({"crash_at": at + ch.below(len(piece))} if torn else {}),
        )
        out = attempt(obj.to_stream, raw, f.to_lib(v, rt), ctx)
        sim.log("patch", spec.name, f.name, v, at, out)
        sim.mark("patch", r.start, f.name, repr(v), torn)
        what = f"patching {f.name} of {spec!r} to {v!r} at {at} of {before!r}"
        after = bytes(file.data)
        sim.check(
            after[:at] == before[:at] and after[at + len(piece):] == before[at + len(piece):],
            "patched-too-much", lambda: f"{what}: {after!r}",
        )
        if torn:
            sim.hit("torn-patch")
            sim.check(
                isinstance(out.error, SimCrash)
                and piece.startswith(after[at : raw.pos]),
                "wrong-bytes", lambda: f"{what}: {out!r} {after!r}",
            )
            # The journal replays it after the restart.
            file.data[at : at + len(piece)] = piece
        else:
            sim.check(
                out.ok and after[at : at + len(piece)] == piece, "wrong-bytes",
                lambda: f"{what}: {out!r} {after!r}, expected {piece!r}",
            )
        want, werr = model_load(spec, bytes(file.data), r.start, ctx)
        got = attempt(
            spec.cls.from_stream,
            streams.open_reader(sim, bytes(file.data), r.start), ctx,
        )
        if check_load(sim, spec, got, want, werr, what):
            sim.hit("patched")
            have = contents(sim, spec, got.value, what)
            for n, x in old.values.items():
                if n != f.name:
                    sim.check(
                        model.same(x, have.get(n, model.MISSING)), "patch-spilled",
                        lambda n=n: f"{what}: {n} changed from {old.values[n]!r} to"
                        f" {have.get(n)!r}",
                    )


def referenced(spec, name):
    """Does anything else depend on this field?"""
    for g in spec.fields:
        if name in g.kind.refs:
            return True
        if g.present is not None and name in g.present.args:
            return True
    return False
