"""P04: get_field reads what a full load would, and always puts the stream back."""

from __future__ import annotations

from .. import model
from .. import streams
from ..common import CTXS
from ..common import attempt
from ..common import errors
from ..common import reading_boundaries
from ..common import stored_records
from ..common import LONG
from ..common import world

ID = "P04"
LEVEL = "exploration"
RULE = (
    "a run is one file of drawn records and a drawn sequence of field look-ups, some of"
    " them on a cut file or with unreadable bytes; non-trivial if a look-up was compared;"
    " distinct by declarations, values, faults and the look-ups"
)
RUNS = {"quick": 60000, "thorough": 900000}
PROBES = ("lookup-ok", "lookup-eof", "lookup-io-error", "read-error")


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, LONG)
    ctx = ch.pick(CTXS)
    data, records = stored_records(
        sim, rt, gen, ctx, ch.pick([1, 1, 2]), ch.between(1, 3),
        prefix=ch.bytes(ch.pick([0, 0, 5])),
    )
    if not records:
        return
    cut = len(data)
    if ch.chance(35):
        cut = ch.between(records[0].start, len(data))
        sim.fault("truncated-file", cut)
    buf = data[:cut]
    fault_at = None
    if ch.chance(30) and buf:
        fault_at = ch.below(len(buf))
    handle = streams.open_reader(sim, buf, 0, kinds=("bytesio", "raw", "short", "buffered"))
    raw = handle if isinstance(handle, streams.SimRaw) else getattr(handle, "raw", None)
    for _ in range(ch.between(1, 6)):
        r = ch.pick(records)
        if r.start > cut:
            continue
        f = ch.pick(r.spec.fields)
        if ch.chance(8):
            # No such field.
            handle.seek(r.start)
            how = ch.pick(["get_field", "partial_load"])
            out = attempt(getattr(r.spec.cls, how), handle, "nosuch", ctx)
            sim.log("no such field", how, out)
            sim.hit("no-such-field")
            sim.check(
                isinstance(out.error, ValueError) and handle.tell() == r.start,
                "wrong-error",
                lambda: f"{how}('nosuch') of {r.spec!r} at {r.start}: {out!r}, stream at"
                f" {handle.tell()}",
            )
            continue
        faulty = fault_at is not None and isinstance(raw, streams.SimRaw) and ch.chance(60)
        handle.seek(r.start)
        if faulty:
            if raw is not handle:
                continue  # the bytes may have been buffered already
            raw.plan["read_error"] = (fault_at, 1)
            raw.plan["signals"] = True
        sim.mark("lookup", r.start, f.name, faulty)
        failed = raw.failed if raw is not None else 0
        got = attempt(r.spec.cls.get_field, handle, f.name, ctx)
        io_failed = raw is not None and raw.failed != failed
        if faulty:
            raw.plan["read_error"] = None
        sim.log("get_field", r.spec.name, r.start, f.name, got)
        what = f"get_field({f.name}) of {r.spec!r} at {r.start} of {buf!r}"
        where = handle.tell()
        sim.check(
            where == r.start, "position-not-restored",
            lambda: f"{what}: stream left at {where} after {got!r}",
        )
        if io_failed:
            sim.hit("lookup-io-error")
            sim.check(
                raw.surfaced(got.error), "io-error-hidden",
                lambda: f"{what}: reading failed, but got {got!r}",
            )
            # The error is gone; so is its effect.
            got = attempt(r.spec.cls.get_field, handle, f.name, ctx)
            sim.check(
                handle.tell() == r.start, "position-not-restored",
                lambda: f"{what}: stream left at {handle.tell()} after {got!r}",
            )
        check_lookup(sim, r.spec, f, buf, r.start, ctx, got, what)


def fixed_offset(spec, name):
    pos = 0
    for f in spec.fields:
        if f.name == name:
            return pos
        if f.present is not None or f.kind.fixed is None:
            return None
        pos += f.kind.fixed
    return None


def check_lookup(sim, spec, f, buf, start, ctx, got, what):
    err = None
    values = {}
    try:
        values, _ = model.load_fields(spec, buf, start, ctx, last=f.name)
    except model.LoadError as e:
        err = e
    if err is None:
        sim.nontrivial = True
        sim.hit("lookup-ok")
        sim.check(got.ok, "lookup-failed", lambda: f"{what}: {got!r}")
        have = f.from_lib(got.value)
        sim.check(
            model.same(have, values[f.name]), "wrong-value",
            lambda: f"{what}: got {have!r}, a full load gives {values[f.name]!r}",
        )
        return
    done = [n for n, _, _, _ in reading_boundaries(spec, buf, start, ctx)]
    before = [x.name for x in spec.fields][: [x.name for x in spec.fields].index(f.name)]
    if err.kind == "eof" and len(done) == len(before):
        # It's this field which is cut off.
        sim.hit("lookup-eof")
        sim.check(
            isinstance(got.error, errors.UnexpectedEOFError), "wrong-error",
            lambda: f"{what}: the field is incomplete, but got {got!r}",
        )
        return
    if err.kind == "any" or not got.ok:
        return
    # An earlier field is bad, and the library didn't need it.
    at = fixed_offset(spec, f.name)
    if f.kind.zero_size:
        return  # an empty field is complete even if there is nothing there
    sim.check(
        at is not None and err.kind != "eof", "made-up-value",
        lambda: f"{what}: can't be read ({err}), but got {got!r}",
    )
    try:
        v, _ = f.decode(buf, start + at, model.Env({}, ctx))
    except (model.LoadError, KeyError) as e:
        sim.fail("made-up-value", f"{what}: can't be read ({e}), but got {got!r}")
    have = f.from_lib(got.value)
    sim.check(
        model.same(have, v), "wrong-value",
        lambda: f"{what}: got {have!r}, expected {v!r}",
    )
