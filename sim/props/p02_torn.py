"""P02: a record cut short by a crash is reported as cut short, never made up."""

from __future__ import annotations

from .. import model
from .. import streams
from ..common import CTXS
from ..common import attempt
from ..common import check_load
from ..common import instance
from ..common import model_load
from ..common import stored_records
from ..common import LONG
from ..common import world
from ..engine import SimCrash

ID = "P02"
LEVEL = "exploration"
RULE = (
    "a run is one drawn set of declarations and record values, one crash offset and the"
    " I/O slicing of writer and readers; non-trivial if a crash hit a record; distinct"
    " by declarations, values, crash offset and reader kinds"
)
RUNS = {"quick": 60000, "thorough": 900000}
PROBES = ("torn-record", "whole-record-before-crash", "torn:eof")


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, LONG)
    ctx = ch.pick(CTXS)
    data, records = stored_records(sim, rt, gen, ctx, ch.pick([1, 1, 2]), ch.between(1, 3))
    if not records or not data:
        return

    # The crash: the process dies while one of the records is being written.
    durable = b""
    if ch.chance(70):
        crash = ch.below(len(data))
    else:
        # Around the boundaries between fields.
        r = ch.pick(records)
        edges = [r.start + e for _, _, e in r.dumped.offsets()] or [r.start]
        crash = max(0, min(len(data) - 1, ch.pick(edges) - ch.between(0, 2)))
    file = streams.SimFile()
    raw = streams.SimRaw(sim, file, "w", 0, crash_at=crash, short_write=ch.pick([0, 60]))
    if ch.chance(40):
        # With the library as the writer.
        try:
            for r in records:
                instance(sim, r.spec, r.values, rt).to_stream(raw, ctx)
        except SimCrash:
            pass
    else:
        try:
            raw.write(data) if not raw.plan["short_write"] else streams_write(raw, data)
        except SimCrash:
            pass
    durable = bytes(file.data)
    sim.check(
        durable == data[:crash], "wrong-bytes-before-crash",
        lambda: f"{durable!r} on disk after a crash at {crash} while writing {data!r}",
    )
    sim.mark("crash", crash)
    sim.log("durable", durable)

    # After the restart.
    for r in records:
        if r.start > len(durable):
            break
        whole = r.end <= crash
        sim.hit("whole-record-before-crash" if whole else "torn-record")
        want, werr = model_load(r.spec, durable, r.start, ctx)
        reader = streams.open_reader(sim, durable, r.start)
        got = attempt(r.spec.cls.from_stream, reader, ctx)
        sim.log("load", r, got)
        what = f"loading {r.spec.name} at {r.start} of {durable!r} (crash at {crash})"
        if check_load(sim, r.spec, got, want, werr, what):
            sim.check(
                reader.tell() == want.pos, "wrong-position",
                lambda: f"{what}: stream at {reader.tell()}, expected {want.pos}",
            )
        if werr is not None:
            sim.hit("torn:" + werr.kind)
        if werr is None:
            again = attempt(
                r.spec.cls.from_bytes, durable[r.start : want.pos], ctx, exact=True
            )
            check_load(sim, r.spec, again, *model_load(
                r.spec, durable[r.start : want.pos], 0, ctx), what + " (from_bytes)")
        else:
            piece = durable[r.start :]
            exact = ch.chance(50)
            want, werr = model_load(r.spec, piece, 0, ctx)
            again = attempt(r.spec.cls.from_bytes, piece, ctx, exact=exact)
            check_load(sim, r.spec, again, want, werr, what + " (from_bytes)")


def streams_write(raw, data):
    data = memoryview(data)
    while data:
        data = data[raw.write(data) :]
