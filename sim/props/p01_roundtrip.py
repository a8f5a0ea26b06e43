"""P01: a sequence of records survives storage byte for byte, whatever the I/O slicing."""

from __future__ import annotations

import io

from .. import model
from .. import streams
from ..common import CTXS
from ..common import attempt
from ..common import check_dump
from ..common import check_load
from ..common import draw_struct
from ..common import instance
from ..common import model_load
from ..common import snapshot
from ..common import LONG
from ..common import world
from .. import schema

ID = "P01"
LEVEL = "exploration"
RULE = (
    "a run is one drawn set of struct declarations, record values, I/O slicing and read"
    " order; non-trivial if at least one record was stored and read back through a"
    " simulated stream; distinct by declarations, values, stream kinds and slicing"
)
RUNS = {"quick": 60000, "thorough": 600000}
PROBES = ("short-read", "short-write")


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, LONG)
    ctx = ch.pick(CTXS)
    specs = []
    for _ in range(ch.pick([1, 1, 2])):
        specs.append(draw_struct(sim, gen, rt, ctx))
    n = ch.between(1, 4)
    records = []
    for i in range(n):
        spec, first = specs[ch.below(len(specs))]
        values = first if i < 1 and spec is specs[0][0] else (
            schema.gen_struct_values(ch, spec, ctx)
        )
        records.append((spec, values))
        if any(f.kind.eof for f in spec.fields):
            break  # everything after this would be part of it

    # Writing.
    prefix = ch.bytes(ch.pick([0, 0, 3, 17]))
    file = streams.SimFile(prefix)
    how = ch.pick(["raw", "short", "buffered"])
    raw = streams.SimRaw(
        sim, file, "w", len(prefix), short_write=ch.pick([50, 100]) if how == "short" else 0
    )
    out = io.BufferedWriter(raw, buffer_size=ch.pick([8192, 16])) if how == "buffered" else raw
    sim.mark("writer", how)
    expected = bytearray(prefix)
    stored = []
    for spec, values in records:
        inst = instance(sim, spec, values, rt)
        before = snapshot(inst)
        want = model.dump(spec, values, ctx)
        via = ch.pick(["to_stream", "to_bytes", "to_stream"])
        start = len(expected)
        if via == "to_stream":
            got = attempt(inst.to_stream, out, ctx)
            if how == "buffered":
                out.flush()
            data = bytes(file.data[start:])
        else:
            got = attempt(inst.to_bytes, ctx)
            data = got.value if got.ok else b""
            if got.ok:
                file.data += data
                raw.seek(len(file.data))
                if how == "buffered":
                    out.seek(len(file.data))
            if got.ok and ctx is None and ch.chance(30):
                again = attempt(bytes, inst)
                sim.check(
                    again.ok and again.value == data, "bytes-differ",
                    lambda: f"bytes() gave {again!r}, to_bytes() {data!r}",
                )
        sim.log("dump", spec.name, values, via, got, data)
        sim.mark("values", repr(values), via)
        if not check_dump(sim, got, data, want, f"dumping {spec.name} {values!r}"):
            # Only an error: get rid of what was written before it.
            del file.data[start:]
            raw.seek(start)
            continue
        after = snapshot(inst)
        sim.check(
            model.same(before, after), "dump-mutates",
            lambda: f"dumping changed the struct from {before!r} to {after!r}",
        )
        sim.check(
            out.tell() == len(file.data), "wrong-position",
            lambda: f"stream at {out.tell()} after {len(file.data)} bytes",
        )
        stored.append((spec, values, start))
        expected += want.data
    sim.check(
        bytes(file.data) == bytes(expected), "wrong-file",
        lambda: f"file has {bytes(file.data)!r}, expected {bytes(expected)!r}",
    )

    # Reading everything back.
    tail = ch.bytes(ch.pick([0, 0, 5]))
    data = bytes(expected) + tail
    reader = streams.open_reader(sim, data, len(prefix))
    for spec, values, start in stored:
        sim.check(
            reader.tell() == start, "wrong-position",
            lambda: f"reader at {reader.tell()}, record starts at {start}",
        )
        want, werr = model_load(spec, data, start, ctx)
        got = attempt(spec.cls.from_stream, reader, ctx)
        sim.log("load", spec.name, start, got)
        ok = check_load(sim, spec, got, want, werr, f"loading {spec.name} at {start}")
        if ok:
            sim.hit("record-read-back")
            sim.nontrivial = True
            sim.check(
                reader.tell() == want.pos, "wrong-position",
                lambda: f"reader at {reader.tell()} after the record, expected {want.pos}",
            )
            faithful(sim, spec, values, ctx, want.values)
            # Written back out, it's the same bytes (unless something's discarded).
            if ch.chance(40):
                redump(sim, spec, got.value, want, ctx, data[start : want.pos])
        else:
            reader.seek(_end(stored, start, len(expected)))


def _end(stored, start, total):
    later = [s for _, _, s in stored if s > start]
    return min(later) if later else total


def faithful(sim, spec, explicit, ctx, loaded):
    """What was put in comes back out (for encodings that keep everything)."""
    for f in spec.fields:
        if f.name not in loaded or f.name not in explicit or f.null is not model.MISSING:
            continue
        if not isinstance(f.kind, (schema.IntKind, schema.VarIntKind, schema.BytesKind,
                                   schema.UuidKind)):
            continue
        if f.present is not None and loaded[f.name] is not explicit[f.name]:
            if not f.present.model(lambda n: loaded.get(n, explicit.get(n)), ctx):
                continue
        if f.kind.refs and f.discard:
            continue
        sim.check(
            model.same(loaded[f.name], explicit[f.name]), "unfaithful",
            lambda f=f: f"{f.name} was {explicit[f.name]!r}, came back as"
            f" {loaded[f.name]!r}",
        )


def redump(sim, spec, inst, loaded, ctx, raw):
    want = model.dump(spec, loaded.values, ctx)
    got = attempt(inst.to_bytes, ctx)
    sim.log("redump", got)
    check_dump(sim, got, got.value if got.ok else b"", want, f"redumping {spec.name}")
    if want.ok and want.data == raw:
        sim.hit("identical-redump")
