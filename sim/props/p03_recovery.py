"""P03: partial_load recovers exactly what's complete; a tailing reader misses nothing."""

from __future__ import annotations

from .. import model
from .. import schema
from .. import streams
from ..common import CTXS
from ..common import attempt
from ..common import check_load
from ..common import contents
from ..common import errors
from ..common import load_error_matches
from ..common import model_load
from ..common import stored_records
from ..common import world
from .p12_corruption import damage

ID = "P03"
LEVEL = "exploration"
RULE = (
    "a run is one file of drawn records seen through a drawn sequence of cuts/appends;"
    " non-trivial if at least one cut fell inside a record; distinct by declarations,"
    " values and cut/append offsets"
)
RUNS = {"quick": 60000, "thorough": 700000}
PROBES = ("recovered-prefix", "partial:eof-with-last", "tail-waits", "tail-delivered",
          "damaged")


def scenario(sim):
    rt, gen = world(sim)
    ctx = sim.ch.pick(CTXS)
    if sim.ch.chance(50):
        tail(sim, rt, gen, ctx)
    else:
        recover(sim, rt, gen, ctx)


def check_partial(sim, spec, buf, pos, ctx, last):
    """One partial_load() at ``pos`` of ``buf``.  Returns the fields it got."""
    values, end, err = model.partial_load(spec, buf, pos, ctx, last)
    reader = streams.open_reader(sim, buf, pos)
    got = attempt(spec.cls.partial_load, reader, last, ctx)
    sim.log("partial_load", spec.name, pos, last, got)
    what = f"partial_load({last!r}) of {spec.name} at {pos} of {bytes(buf)!r}"
    if err is not None and err.kind == "any":
        return None
    if err is not None and err.kind == "bad":
        # Garbage that may be noticed before the missing terminator.
        if got.ok and last is not None:
            sim.fail("accepted-bad-data", f"{what}: expected {err}, got {got!r}")
        return None
    if err is None or (err.kind == "eof" and last is None):
        sim.check(got.ok, "partial-load-failed", lambda: f"{what}: {got!r}")
        have = contents(sim, spec, got.value, what)
        sim.check(
            model.same(have, values), "wrong-values",
            lambda: f"{what}: got {have!r}, expected {values!r}",
        )
        sim.check(
            reader.tell() == end, "wrong-position",
            lambda: f"{what}: stream at {reader.tell()}, expected {end}",
        )
        sim.hit("recovered-prefix" if err is not None else "recovered-all")
        return values
    if err.kind == "eof":
        sim.hit("partial:eof-with-last")
    sim.check(
        not got.ok and load_error_matches(err.kind, got.error), "wrong-error",
        lambda: f"{what}: expected {err}, got {got!r}",
    )
    return None


def recover(sim, rt, gen, ctx):
    ch = sim.ch
    data, records = stored_records(
        sim, rt, gen, ctx, 1, ch.between(1, 2), prefix=ch.bytes(ch.pick([0, 0, 2]))
    )
    if not records:
        return
    r = ch.pick(records)
    previous = None
    damaged = ch.chance(25)
    if damaged:
        # What's complete but invalid isn't taken for something that's still to come.
        data = damage(sim, data, records) if ch.chance(50) else garbled(sim, data, r)
        sim.mark("damaged", data)
        sim.hit("damaged")
        if r.start > len(data):
            return
    for cut in sorted({ch.between(r.start, len(data)) for _ in range(ch.between(1, 4))}):
        sim.fault("truncated-file", cut)
        sim.mark("cut", cut)
        buf = data[:cut]
        last = ch.pick([None] + [f.name for f in r.spec.fields])
        if damaged and ch.chance(50):
            last = None
        values = check_partial(sim, r.spec, buf, r.start, ctx, last)
        if last is None and values is not None and not damaged:
            # More data never takes anything away, except what was read until EOF.
            if previous is not None:
                for n, v in previous.items():
                    kind = r.spec.by_name[n].kind
                    sim.check(
                        kind.eof or n in values and (model.same(v, values[n])
                                                     or _open_ended(kind)),
                        "not-monotonic",
                        lambda n=n: f"{n} was {previous[n]!r}, and with more data it's"
                        f" {values.get(n)!r}",
                    )
            previous = {n: v for n, v in values.items()
                        if r.spec.by_name[n].null is model.MISSING}


def garbled(sim, data, r):
    """Text that has no terminator, UUIDs that aren't any, negative sizes..."""
    ch = sim.ch
    spots = [
        (r.start + a, r.start + b) for n, a, b in r.dumped.offsets()
        if b > a and isinstance(
            r.spec.by_name[n].kind, (schema.StringZKind, schema.UuidKind, schema.TsKind)
        )
    ] or [(r.start + a, r.start + b) for _, a, b in r.dumped.offsets() if b > a]
    if not spots:
        return data
    a, b = ch.pick(spots)
    sim.fault("garbled", a, b)
    return data[:a] + ch.pick([b"z", b"\xff", b"\x7a"]) * (b - a) + data[b:]


def _open_ended(kind):
    return getattr(kind, "halt", None) is not None or kind.refs or not isinstance(
        kind.fixed, int
    )


def tail(sim, rt, gen, ctx):
    """A writer appends records bit by bit while a reader polls the end of the file."""
    ch = sim.ch
    data, records = stored_records(sim, rt, gen, ctx, ch.pick([1, 2]), ch.between(1, 4))
    # A reader can't tell when a record is complete if it ends with EOF, and an empty one
    # or one with only an apparent null value in it is complete before it's written.
    records = [r for r in records if r.data and not _ambiguous(r.spec)]
    data = b"".join(r.data for r in records)
    if not records:
        return
    pos = 0
    bounds = []
    for r in records:
        bounds.append((pos, pos + len(r.data)))
        pos += len(r.data)
    file = streams.SimFile()
    handle = None
    how = ch.pick(["raw", "short", "reopen"])
    if how != "reopen":
        handle = streams.SimRaw(
            sim, file, "tail", 0, short_read=60 if how == "short" else 0
        )
    delivered = 0
    where = 0
    written = 0
    stuck = 0
    while delivered < len(records):
        # The scheduler decides who goes next.
        if written < len(data) and ch.chance(60):
            n = min(len(data) - written, ch.pick([1, 1, 2, 3, 7, 64]) + len(data) // 64)
            file.data += data[written : written + n]
            written += n
            sim.steps += 1
            sim.fault("partial-append", written)
            sim.mark("append", written)
            continue
        r = records[delivered]
        start, end = bounds[delivered]
        sim.check(where == start, "wrong-position", f"reader at {where}, not {start}")
        if how == "reopen":
            handle = streams.open_reader(sim, bytes(file.data), where,
                                         kinds=("bytesio", "short", "buffered"))
        else:
            handle.ops = 0  # the bound is for one operation of the library
        handle.seek(where)
        got = attempt(r.spec.cls.from_stream, handle, ctx)
        sim.log("poll", where, written, got)
        if written >= end:
            # All of it is there: it has to be delivered, now.
            want, werr = model_load(r.spec, data, start, ctx)
            what = f"record {delivered} at {start} of {bytes(file.data)!r}"
            if not check_load(sim, r.spec, got, want, werr, what):
                sim.hit("invalid-record")
                handle.seek(end)
            where = handle.tell()
            sim.check(
                where == end, "wrong-position", lambda: f"{what}: {where}, expected {end}"
            )
            delivered += 1
            stuck = 0
            sim.hit("tail-delivered")
        else:
            sim.hit("tail-waits")
            _, werr = model_load(r.spec, bytes(file.data), start, ctx)
            sim.check(
                werr is not None, "model", f"record isn't torn: {r.spec!r} {data!r}"
            )
            sim.check(
                not got.ok, "delivered-early",
                lambda: f"record {delivered} delivered with {written} of {end} bytes:"
                f" {got!r}",
            )
            if werr.kind == "eof":
                sim.check(
                    isinstance(got.error, errors.UnexpectedEOFError), "wrong-error",
                    lambda: f"incomplete record gave {got!r}",
                )
            if ch.chance(30):
                check_partial(sim, r.spec, bytes(file.data), start, ctx, None)
            stuck += 1
            if stuck > 20 and written < len(data):
                # Fairness: the writer makes progress eventually.
                n = min(len(data) - written, 16 + len(data) // 8)
                file.data += data[written : written + n]
                written += n
                stuck = 0
    sim.check(where == len(data), "lost-bytes", f"{where} of {len(data)} bytes consumed")
    sim.nontrivial = True


def _ambiguous(spec):
    for f in spec.fields:
        if _ambiguous_field(f):
            return True
    return False


def _ambiguous_field(f):
    if f.null is not model.MISSING or f.kind.eof:
        return True
    if getattr(f.kind, "halt", None) is not None and f.kind.halt[0] == "peek":
        return False
    for s in _subs(f.kind):
        if _ambiguous(s):
            return True
    comp = getattr(f.kind, "comp", None)
    if comp is not None and _ambiguous_field(comp):
        return True
    for c in getattr(f.kind, "choices", ()):
        if not hasattr(c, "fields") and _ambiguous_field(c):
            return True
    return False


def _subs(kind):
    if hasattr(kind, "spec"):
        yield kind.spec
    for c in getattr(kind, "choices", ()):
        if hasattr(c, "fields"):
            yield c


