"""P14: timestamps keep the instant, wherever and whenever they're written and read."""

from __future__ import annotations

import datetime
import warnings

from .. import model
from .. import schema
from .. import streams
from .. import tz
from ..common import CTXS
from ..common import VALUE_ERRORS
from ..common import attempt
from ..common import world

ID = "P14"
LEVEL = "exploration"
RULE = (
    "a run is a history of dumps, loads and redumps of drawn timestamp fields on a host"
    " whose time zone keeps moving (including to zones with DST, around its changes);"
    " non-trivial if the zone moved between writing and reading; distinct by"
    " declarations, instants and zones"
)
RUNS = {"quick": 60000, "thorough": 900000}
PROBES = ("zone-moved", "ambiguous-time", "dst-change", "pre-epoch", "sub-second",
          "out-of-range", "aware", "naive", "redumped", "mixed", "nanoseconds")
ASSUMPTIONS = (
    "glibc's and zoneinfo's reading of the same POSIX time zone rules agree from 1970 to"
    " 2100 (the simulated range for zones with DST)",
)

DAY = 86400 * 10**6


def instants(sim, kind, zone_name):
    """A drawn instant (in microseconds since the epoch) the field can hold."""
    ch = sim.ch
    lo, hi = kind.bounds_us()
    if zone_name in tz.DST and not kind.aware:
        lo, hi = max(lo, DAY), min(hi, 4102444800 * 10**6)
    how = ch.below(5)
    if how == 0:
        us = ch.below(2 * 10**9) * 10**6
    elif how == 1:
        us = lo + ch.below(hi - lo + 1)
    elif how == 2:
        us = -ch.below(2 * 10**9) * 10**6 - ch.below(10**6)
    else:
        # Around a change of DST: somewhere at its hour, in minutes.
        year = ch.between(1971, 2037)
        month, day = ch.pick([(3, 8), (11, 1), (10, 1), (4, 1), (3, 25), (10, 25)])
        base = datetime.datetime(year, month, day, tzinfo=datetime.timezone.utc)
        us = (base - model.EPOCH) // datetime.timedelta(microseconds=1)
        us += ch.below(7 * 24 * 60) * 60 * 10**6
        if zone_name in tz.DST:
            near = nearest_change(zone_name, us)
            if near is not None:
                sim.hit("dst-change")
                us = near + ch.between(-130, 130) * 60 * 10**6
    if ch.chance(60):
        us += ch.pick([1, 999_999, 500_000, 1000, 123_456, 999_000])
        sim.hit("sub-second")
    return max(lo, min(hi, us))


def nearest_change(zone_name, us):
    """The next change of the zone's offset within eight days."""
    zone = tz.ZONES[zone_name]

    def off(u):
        return (model.EPOCH + datetime.timedelta(microseconds=u)).astimezone(
            zone
        ).utcoffset()

    lo, hi = us, us + 8 * DAY
    if off(lo) == off(hi):
        return None
    while hi - lo > 10**6:
        mid = (lo + hi) // 2
        if off(mid) == off(lo):
            lo = mid
        else:
            hi = mid
    return hi - hi % (60 * 10**6)


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, frozenset({"styles", "ts", "arrays"}))
    try:
        history(sim, ch, rt, gen)
    finally:
        tz.reset()


def ts_kind(ch, rt):
    res = ch.pick(["s", "ms", "us", "ns"])
    size = ch.pick({"s": [4, 8, 5], "ms": [8, 6, 12], "us": [8, 7, 12],
                    "ns": [12, 8]}[res])
    return schema.TsKind(
        rt, size, res, ch.chance(50), ch.pick(schema.ENDIANS), not ch.chance(20)
    )


def history(sim, ch, rt, gen):
    zone = ch.pick(list(tz.RULES))
    rt.local_tz = tz.move_host(sim, zone)
    fields = []
    for i in range(ch.between(1, 4)):
        kind = ts_kind(ch, rt)
        sim.hit("aware" if kind.aware else "naive")
        if ch.chance(20):
            kind = schema.ArrayKind(schema.FieldSpec(None, kind), 2)
        fields.append(schema.FieldSpec(f"t{i}", kind))
    spec = schema.StructSpec("Stamped", fields, style=ch.pick(["assign", "dataclass"]))
    spec.build(rt)
    sim.log("spec", spec)
    sim.mark("spec", repr(spec))
    file = streams.SimFile()
    stored = []  # (offset, {name: stamps})
    for _ in range(ch.between(1, 3)):
        if any(leaf(f.kind).res == "ns" for f in fields) and ch.chance(50):
            # Something with a finer clock wrote this.
            foreign(sim, rt, spec, zone)
        if ch.chance(60):
            new = ch.pick(list(tz.RULES))
            rt.local_tz = tz.move_host(sim, new)
            zone = new
            sim.fault("zone-moved", zone)
            sim.hit("zone-moved")
        values = {f.name: draw(sim, f.kind, rt, zone) for f in fields}
        sim.log("values", zone, values)
        sim.mark("values", repr(values), zone)
        want = model.dump(spec, values)
        start = len(file.data)
        raw = streams.SimRaw(sim, file, "w", start)
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            out = attempt(spec.cls(**spec.to_lib(values, rt)).to_stream, raw)
        what = f"dumping {values!r} as {spec!r} in {zone}"
        warned = any(
            issubclass(w.category, DeprecationWarning) and "zone" in str(w.message)
            for w in seen
        )
        mixed = any(
            (x.tzinfo is not None) != leaf(f.kind).aware
            for f in fields
            for x in (values[f.name] if type(values[f.name]) is list
                      else [values[f.name]])
        )
        sim.check(
            warned == mixed or not want.ok and not warned, "wrong-warning",
            lambda: f"{what}: {[str(w.message) for w in seen]!r}",
        )
        if not want.ok:
            sim.check(
                isinstance(out.error, VALUE_ERRORS), "dumped-invalid",
                lambda: f"{what}: {out!r}",
            )
            del file.data[start:]
            continue
        sim.check(
            out.ok and bytes(file.data[start:]) == want.data, "wrong-instant",
            lambda: f"{what}: {out!r} {bytes(file.data[start:])!r}, expected"
            f" {want.data!r}",
        )
        stored.append((start, stamps(spec, values, rt)))
    # Later, elsewhere.
    for _ in range(ch.between(1, 2)):
        new = ch.pick(list(tz.RULES))
        if ch.chance(80) and safe(new, stored, spec):
            rt.local_tz = tz.move_host(sim, new)
            sim.fault("zone-moved", new)
            sim.hit("zone-moved")
            zone = new
        elif not safe(zone, stored, spec):
            continue
        for start, held in stored:
            load(sim, rt, spec, file, start, held, zone)


def foreign(sim, rt, spec, zone):
    """Stamps between two microseconds are loaded as the microsecond they're in."""
    ch = sim.ch
    data = b""
    held = {}
    for f in spec.fields:
        kind = leaf(f.kind)
        held[f.name] = []
        for _ in range(2 if isinstance(f.kind, schema.ArrayKind) else 1):
            stamp = model.stamp_from_us(instants(sim, kind, zone), kind.res)
            if kind.res == "ns":
                ns = ch.pick([0, 1, 499, 500, 501, 999, ch.below(1000)])
                if stamp // 1000 * 1000 + ns < 1 << kind.size * 8 - kind.signed:
                    stamp = stamp // 1000 * 1000 + ns
            held[f.name].append(model.us_from_stamp(stamp, kind.res))
            data += stamp.to_bytes(kind.size, kind.eff, signed=kind.signed)
    sim.hit("nanoseconds")
    if safe(zone, [(0, held)], spec):
        load(sim, rt, spec, streams.SimFile(data), 0, held, zone, redump=False)


def draw(sim, kind, rt, zone):
    ch = sim.ch
    if isinstance(kind, schema.ArrayKind):
        return [draw(sim, kind.comp.kind, rt, zone) for _ in range(2)]
    us = instants(sim, kind, zone)
    if us < 0:
        sim.hit("pre-epoch")
    if ch.chance(3):
        # More than the field can hold (if that's still a valid date).
        lo, hi = kind.bounds_us()
        us = ch.pick([hi + 86400 * 10**6, lo - 86400 * 10**6])
        sim.hit("out-of-range")
    dt = kind.from_us(us)
    if ch.chance(8) and (zone not in tz.DST or DAY <= us <= 4102444800 * 10**6):
        # The other sort of datetime: deprecated, but it's still the same instant.
        sim.hit("mixed")
        dt = model.EPOCH + datetime.timedelta(microseconds=us)
        if kind.aware:
            dt = dt.astimezone(rt.local_tz).replace(tzinfo=None)
    elif kind.aware:
        if ch.chance(60):
            name = ch.pick(list(tz.RULES))
            if name in tz.DST and not DAY <= us <= 4102444800 * 10**6:
                name = "+05:45"
            dt = dt.astimezone(tz.ZONES[name])
    elif dt.fold:
        sim.hit("ambiguous-time")
    return dt


def stamps(spec, values, rt):
    out = {}
    for f in spec.fields:
        v = values[f.name]
        k = f.kind
        if isinstance(k, schema.ArrayKind):
            out[f.name] = [
                model.us_from_stamp(
                    model.stamp_from_us(model.instant_us(x, rt.local_tz), k.comp.kind.res),
                    k.comp.kind.res)
                for x in v
            ]
        else:
            out[f.name] = [model.us_from_stamp(
                model.stamp_from_us(model.instant_us(v, rt.local_tz), k.res), k.res)]
    return out


def safe(zone, stored, spec):
    """Is the oracle sure about all these instants in this zone?"""
    if zone not in tz.DST:
        return True
    return all(
        DAY <= us <= 4102444800 * 10**6 or leaf(spec.by_name[n].kind).aware
        for _, held in stored for n, all_us in held.items() for us in all_us
    )


def leaf(kind):
    return kind.comp.kind if isinstance(kind, schema.ArrayKind) else kind


def load(sim, rt, spec, file, start, held, zone, redump=True):
    reader = streams.open_reader(sim, bytes(file.data), start)
    out = attempt(spec.cls.from_stream, reader)
    sim.log("load", zone, out)
    what = f"loading {spec!r} at {start} of {bytes(file.data)!r} in {zone}"
    sim.check(out.ok, "load-failed", lambda: f"{what}: {out!r}")
    inst = out.value
    for f in spec.fields:
        v = inst[f.name]
        got = list(v) if isinstance(v, list) else [v]
        sim.check(len(got) == len(held[f.name]), "wrong-count", what)
        for x, us in zip(got, held[f.name]):
            sim.check(
                isinstance(x, datetime.datetime)
                and (x.tzinfo is not None) == leaf(f.kind).aware,
                "wrong-type", lambda: f"{what}: {f.name} is {x!r}",
            )
            have = model.instant_us(x, rt.local_tz)
            sim.check(
                have == us, "wrong-instant",
                lambda: f"{what}: {f.name} is {x!r} = {have} us, expected {us}",
            )
            if leaf(f.kind).aware:
                sim.check(
                    x.utcoffset() == datetime.timedelta(0), "not-utc",
                    lambda: f"{what}: {f.name} is {x!r}",
                )
    sim.nontrivial = True
    if not redump:
        return
    # Written again where it was read.
    again = attempt(inst.to_bytes)
    n = reader.tell() - start
    sim.check(
        again.ok and again.value == bytes(file.data[start : start + n]), "wrong-redump",
        lambda: f"{what}: written again as {again!r}",
    )
    sim.hit("redumped")
