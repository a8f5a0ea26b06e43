"""P12: damaged data loads as what it says now or is rejected; checks are never skipped."""

from __future__ import annotations

from .. import model
from .. import schema
from .. import streams
from ..common import CTXS
from ..common import attempt
from ..common import check_dump
from ..common import check_load
from ..common import model_load
from ..common import op_get_field
from ..common import op_partial_load
from ..common import stored_records
from ..common import world

ID = "P12"
LEVEL = "exploration"
RULE = (
    "a run is one file of drawn records damaged in drawn ways, from which each record is"
    " then loaded; non-trivial if a damaged record was compared with the reference"
    " decoder; distinct by declarations, values and damage"
)
RUNS = {"quick": 70000, "thorough": 900000}
PROBES = ("accepted", "rejected:eof", "rejected:invalid", "rejected:validation",
          "bit-flip", "lost-bytes", "inserted-bytes", "zeroed", "misdirected", "garbage",
          "stable")


def damage(sim, data, records):
    ch = sim.ch
    data = bytearray(data)
    for _ in range(ch.between(1, 3)):
        r = ch.pick(records)
        if not r.data:
            continue
        # Sizes, counts and tags tend to be at the start.
        at = r.start + (ch.small(len(r.data) - 1) if ch.chance(50)
                        else ch.below(len(r.data)))
        at = min(at, len(data) - 1)
        if at < 0:
            break
        how = ch.pick(["bit", "byte", "lost", "inserted", "zeroed", "misdirected",
                       "garbage", "padded", "null", "default"])
        n = min(ch.pick([1, 1, 2, 4, 16]), len(data) - at)
        if how == "padded":
            pad(sim, data, r)
        elif how == "null":
            nullify(sim, data, r)
        elif how == "default":
            put_default(sim, data, r)
        elif how == "bit":
            data[at] ^= 1 << ch.below(8)
            sim.fault("bit-flip", at)
        elif how == "byte":
            data[at] = ch.pick([0xFF, 0x80, 0x7F, 0, 1, 0xD8])
            sim.fault("garbage", at, 1)
        elif how == "lost":
            del data[at : at + n]
            sim.fault("lost-bytes", at, n)
        elif how == "inserted":
            data[at:at] = ch.bytes(n)
            sim.fault("inserted-bytes", at, n)
        elif how == "zeroed":
            data[at : at + n] = bytes(n)
            sim.fault("zeroed", at, n)
        elif how == "misdirected":
            src = ch.pick(records).data
            data[at : at + len(src)] = src
            sim.fault("misdirected", at)
        else:
            data[at : at + n] = ch.bytes(n)
            sim.fault("garbage", at, n)
    return bytes(data)


def nullify(sim, data, r):
    """Another writer has put a null where there can be (but perhaps shouldn't be) one."""
    spots = []
    for n, a, b in r.dumped.offsets():
        f = r.spec.by_name[n]
        if f.null is not schema.MISSING and b > a:
            null = bytes(b - a)
            if f.null is not schema.DEFAULT and not f.kind.refs:
                null = f.null_repr(model.Env({}, None))
                if isinstance(f.kind, schema.VarIntKind) and sim.ch.chance(50):
                    null = longer(null, f.kind.fmt)
            spots.append((r.start + a, r.start + b, null))
    if not spots:
        return
    a, b, null = sim.ch.pick(spots)
    if a < len(data):
        sim.fault("null", a)
        data[a:b] = null


def put_default(sim, data, r):
    """A value that's the default of its field (which may be one that's refused)."""
    spots = []
    for n, a, b in r.dumped.offsets():
        f = r.spec.by_name[n]
        if isinstance(f.kind, schema.ArrayKind):
            f = f.kind.comp
        if f.default not in (schema.MISSING, None) and not f.kind.refs and b > a:
            try:
                spots.append((r.start + a, f.kind.enc(f.default, model.Env({}, None))))
            except model.DumpError:
                pass
    if not spots:
        return
    a, value = sim.ch.pick(spots)
    if a < len(data):
        sim.fault("default", a)
        data[a : a + len(value)] = value


def longer(old, fmt):
    """The same variable-length integer with one byte more."""
    if fmt == "vlq":
        return b"\x80" + old
    if fmt == "compact":
        return bytes([0x80 | old[0] & 0x40, old[0] & 0xBF]) + old[1:]
    more = 0x7F if fmt == "leb128" and old[-1] & 0x40 else 0
    return old[:-1] + bytes([old[-1] | 0x80, more])


def pad(sim, data, r):
    """Another encoding of the same variable-length integer, as other writers may do."""
    spots = [
        (r.start + a, r.start + b, f.kind.fmt)
        for (n, a, b) in r.dumped.offsets()
        for f in [r.spec.by_name[n]]
        if isinstance(f.kind, schema.VarIntKind) and b > a
    ]
    if not spots:
        return
    a, b, fmt = sim.ch.pick(spots)
    old = bytes(data[a:b])
    if len(old) != b - a or any(x < 0x80 for x in old[:-1]) or old[-1] >= 0x80:
        return  # damaged already
    new = longer(old, fmt)
    sim.fault("padded-varint", a)
    data[a:b] = new


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim)
    ctx = ch.pick(CTXS)
    data, records = stored_records(
        sim, rt, gen, ctx, ch.pick([1, 1, 2]), ch.between(1, 3),
        prefix=ch.bytes(ch.pick([0, 0, 3])),
    )
    if not any(r.data for r in records):
        return
    bad = damage(sim, data, records)
    sim.log("damaged", bad)
    sim.mark("bad", bad)
    for r in records:
        if r.start > len(bad):
            break
        spec = r.spec
        want, werr = model_load(spec, bad, r.start, ctx)
        reader = streams.open_reader(sim, bad, r.start)
        out = attempt(spec.cls.from_stream, reader, ctx)
        sim.log("load", r, out)
        what = f"loading {spec!r} at {r.start} of {bad!r} (was {data!r})"
        if check_load(sim, spec, out, want, werr, what):
            sim.hit("accepted")
            sim.check(
                reader.tell() == want.pos, "wrong-position",
                lambda: f"{what}: stream at {reader.tell()}, expected {want.pos}",
            )
            stable(sim, spec, out.value, want.values, ctx, what)
        else:
            sim.hit("rejected:" + werr.kind)
        # The other ways to read it agree.
        names = [f.name for f in spec.fields]
        op = (op_get_field(sim, spec, bad, r.start, ctx, ch.pick(names)) if ch.chance(50)
              else op_partial_load(sim, spec, bad, r.start, ctx, ch.pick([None] + names)))
        out = attempt(op.run)
        sim.log("other", op, out)
        op.check(out)


def stable(sim, spec, inst, values, ctx, what):
    """What was accepted can be written again (or not), and is then read as the same."""
    want = model.dump(spec, values, ctx)
    out = attempt(inst.to_bytes, ctx)
    if not check_dump(sim, out, out.value if out.ok else b"", want, f"redump after {what}"):
        return
    again, err = model_load(spec, out.value, 0, ctx)
    got = attempt(spec.cls.from_bytes, out.value, ctx, exact=False)
    if check_load(sim, spec, got, again, err, f"reload after {what}"):
        sim.hit("stable")
