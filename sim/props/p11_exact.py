"""P11: a record is exactly its bytes: no more are needed, no more are accepted."""

from __future__ import annotations

from .. import model
from .. import sched
from .. import schema
from .. import streams
from ..common import CTXS
from ..common import Outcome
from ..common import attempt
from ..common import check_dump
from ..common import check_load
from ..common import draw_struct
from ..common import errors
from ..common import instance
from ..common import model_load
from ..common import stored_records
from ..common import world
from ..streams import SimOSError
from .p21_overrides import overrides
from .p03_recovery import _ambiguous
from .p08_threads import try_

ID = "P11"
LEVEL = "exploration"
RULE = (
    "a run is either a conversation of two simulated peers over wires that deliver drawn"
    " pieces (and may break), or a drawn set of records parsed with drawn trailing bytes;"
    " non-trivial if a record was received or trailing bytes were presented; distinct by"
    " declarations, values, trailing bytes and schedule"
)
RUNS = {"quick": 21000, "thorough": 400000}
PROBES = ("conversation", "exchanged", "connection-lost", "trailing-rejected",
          "trailing-ignored", "field-trailing-rejected", "patient-reads", "bytearray", "wide-items",
          "values-given")

FEATURES = schema.ALL_FEATURES - {"eof"}


def scenario(sim):
    if sim.ch.chance(45):
        conversation(sim)
    else:
        trailing(sim)


# --- trailing bytes -----------------------------------------------------------------------


def trailing(sim):
    ch = sim.ch
    rt, gen = world(sim)
    ctx = ch.pick(CTXS)
    data, records = stored_records(sim, rt, gen, ctx, ch.pick([1, 2]), ch.between(1, 3))
    for r in records:
        how = ch.below(4)
        if how == 0:
            extra = bytes(ch.between(1, 3))
        elif how == 1:
            extra = ch.pick(records).data
        elif how == 2:
            extra = ch.bytes(ch.between(1, 12))
        else:
            extra = b"\xff" * ch.pick([1, 2, 300])
        buf = r.data + extra
        sim.mark("extra", extra)
        sim.fault("trailing-bytes", len(extra))
        values, init = {}, None
        if ch.chance(25):
            values, init = overrides(sim, r.spec, rt, ctx)
            sim.hit("values-given")
        want, werr = model_load(r.spec, buf, 0, ctx, values)
        for exact in (True, False):
            given = bytes_like(sim, buf)
            if exact and ch.chance(30):
                out = attempt(r.spec.cls.from_bytes, given, ctx, init_kwargs=init)
            elif init is None and ch.chance(50):
                out = attempt(r.spec.cls.from_bytes, given, ctx, exact)
            else:
                out = attempt(r.spec.cls.from_bytes, given, ctx, exact, init)
            if isinstance(given, bytearray):
                # What was loaded doesn't depend on the buffer any longer.
                for i in range(len(given)):
                    given[i] ^= 0x5A
            sim.log("from_bytes", r.spec.name, type(given).__name__, buf, exact, out)
            what = f"from_bytes({buf!r}, exact={exact}, {init!r}) of {r.spec!r}"
            if werr is None and want.pos < len(buf) and exact:
                sim.hit("trailing-rejected")
                sim.check(
                    isinstance(out.error, errors.ExtraneousDataError),
                    "accepted-trailing-bytes",
                    lambda: f"{what}: {len(buf) - want.pos} bytes too many, but {out!r}",
                )
                sim.check(
                    out.error.offset == want.pos, "wrong-offset",
                    lambda: f"{what}: the error says {out.error.offset}, not {want.pos}",
                )
            else:
                if not exact and extra:
                    sim.hit("trailing-ignored")
                check_load(sim, r.spec, out, want, werr, what)
        fields(sim, r, ctx, extra)


def bytes_like(sim, data):
    """The same bytes as another kind of object."""
    how = sim.ch.below(10)
    if how == 0:
        sim.hit("bytearray")
        return bytearray(data)
    if how == 1:
        return memoryview(data)
    if how == 2 and data:
        sim.hit("wide-items")
        for code, n in ((("Q", 8), ("I", 4), ("H", 2)) if sim.ch.chance(50)
                        else (("H", 2),)):
            if len(data) % n == 0:
                return memoryview(data).cast(code)
        return memoryview(data).cast("B", (1, len(data)))
    return data


def fields(sim, r, ctx, extra):
    """The same for single fields, used without their struct."""
    ch = sim.ch
    f = ch.pick(r.spec.fields)
    try:
        values, _ = model.load_fields(r.spec, r.data, 0, ctx)
    except model.LoadError:
        return
    before = {}
    for g in r.spec.fields:
        if g is f:
            break
        before[g.name] = values[g.name]
    if not extra or f.kind.eof or f.present is not None:
        return
    start, end = [(s, e) for n, s, e in offsets(r) if n == f.name][0]
    piece = r.data[start:end]
    try:
        want, pos = f.decode(piece, 0, model.Env(before, ctx))
        want2, pos2 = f.decode(piece + extra, 0, model.Env(before, ctx))
    except model.LoadError:
        return
    if pos != len(piece) or pos2 != pos or _ambiguous_halt(f):
        return
    obj = r.spec.cls.__binobj_struct__.components[f.name]
    lib_before = {n: r.spec.by_name[n].to_lib(v, None) for n, v in before.items()
                  if isinstance(v, (int, bytes, str))}
    out = attempt(
        obj.from_bytes, bytes_like(sim, piece), ctx, loaded_fields=dict(lib_before))
    what = f"field {f!r} from {piece!r}"
    sim.check(
        out.ok and model.same(f.from_lib(out.value), want), "field-load",
        lambda: f"{what}: {out!r}, expected {want!r}",
    )
    out = attempt(
        obj.from_bytes, bytes_like(sim, piece + extra), ctx,
        loaded_fields=dict(lib_before))
    sim.check(
        isinstance(out.error, errors.ExtraneousDataError), "accepted-trailing-bytes",
        lambda: f"{what} + {extra!r}: {out!r}",
    )
    sim.check(
        out.error.offset == len(piece) and out.error.field is obj, "wrong-offset",
        lambda: f"{what} + {extra!r}: the error says {out.error.offset} and"
        f" {out.error.field!r}",
    )
    out = attempt(obj.from_bytes, piece + extra, ctx, False, dict(lib_before))
    sim.check(
        out.ok and model.same(f.from_lib(out.value), want), "field-load",
        lambda: f"{what} + {extra!r}, not exact: {out!r}, expected {want!r}",
    )
    sim.hit("field-trailing-rejected")



def _ambiguous_halt(f):
    return getattr(f.kind, "halt", None) is not None


def offsets(r):
    done = {n: (s, e) for n, s, e in r.dumped.offsets()}
    pos = 0
    for f in r.spec.fields:
        if f.name in done:
            pos = done[f.name][1]
            yield (f.name,) + done[f.name]
        else:
            yield f.name, pos, pos


# --- conversations ------------------------------------------------------------------------


def conversation(sim):
    ch = sim.ch
    rt, gen = world(sim, FEATURES, max_groups=ch.pick([2, 4]))
    ctx = ch.pick(CTXS)
    kinds = []
    for _ in range(ch.pick([1, 2])):
        spec, values = draw_struct(sim, gen, rt, ctx)
        if _ambiguous(spec) or not model.dump(spec, values, ctx).data:
            return
        kinds.append((spec, values))
    rounds = []
    for _ in range(ch.between(1, 4)):
        pair = []
        for spec, values in (kinds[0], kinds[-1]):
            if ch.chance(50):
                values = schema.gen_struct_values(ch, spec, ctx)
            want = model.dump(spec, values, ctx)
            if not want.ok or not want.data:
                return
            loaded, err = model_load(spec, want.data, 0, ctx)
            if err is not None or loaded.pos != len(want.data):
                return
            pair.append((spec, values, want, loaded))
        rounds.append(pair)
    sim.hit("conversation")
    patient = ch.chance(40)
    if patient:
        sim.hit("patient-reads")
    sim.mark("values", patient, [[repr(p[1]) for p in pair] for pair in rounds])

    s = sched.Scheduler(sim)
    there = streams.Wire(sim, "requests", ch.pick([1, 4, 64, 10**6]))
    back = streams.Wire(sim, "replies", ch.pick([1, 4, 64, 10**6]))
    if ch.chance(25):
        w, i = ch.pick([(there, 0), (back, 1)])
        w.ends_at = ch.below(sum(len(pair[i][2].data) for pair in rounds) + 1)
    done = []

    def peer(task, out_wire, in_wire, mine, theirs, first):
        reader = streams.WireReader(in_wire, task, patient)
        writer = streams.WireWriter(out_wire, task)
        log = []
        try:
            for pair in rounds:
                for step in ("send", "receive") if first else ("receive", "send"):
                    if step == "send":
                        spec, values, _, _ = pair[mine]
                        out = try_(lambda: objects[id(pair), mine].to_stream(writer, ctx))
                    else:
                        spec = pair[theirs][0]
                        out = try_(lambda: spec.cls.from_stream(reader, ctx))
                    log.append((step, pair, out, reader.pos))
                    if not out.ok:
                        return log
            return log
        finally:
            done.append(task)
            if not _ok(log):
                in_wire.closed = out_wire.closed = True

    def network(task):
        while len(done) < 2:
            task.wait_until(
                lambda: any(w.in_flight or (w.ends_at == w.delivered and not w.closed)
                            for w in (there, back)) or len(done) == 2,
                "traffic",
            )
            w = ch.pick([there, back])
            w.deliver(ch.pick([1, 1, 2, 3, 8, 1000]))
            task.pause()

    objects = {}
    for pair in rounds:
        for i in (0, 1):
            objects[id(pair), i] = instance(sim, pair[i][0], pair[i][1], rt)
    s.spawn("client", lambda t: peer(t, there, back, 0, 1, True))
    s.spawn("server", lambda t: peer(t, back, there, 1, 0, False))
    s.spawn("network", network)
    s.run()
    for task in s.tasks[:2]:
        if task.error is not None:
            raise task.error
        theirs = 1 if task.name == "client" else 0
        in_wire = back if task.name == "client" else there
        lost = there.ends_at is not None or back.ends_at is not None
        at = 0
        if not lost:
            sim.check(
                len(task.result) == 2 * len(rounds) and _ok(task.result),
                "conversation-failed", lambda: f"{task.name}: {task.result[-1][2]!r}",
            )
        for step, pair, out, pos in task.result:
            sim.log(task.name, step, out)
            if step == "send":
                if not out.ok:
                    sim.check(
                        lost and isinstance(out.error, SimOSError), "send-failed",
                        lambda: f"{task.name}: {out!r}",
                    )
                continue
            spec, values, want, loaded = pair[theirs]
            what = f"{task.name} receiving {want.data!r} as {spec!r}"
            at += len(want.data)
            if lost and not out.ok:
                sim.check(
                    isinstance(out.error, errors.UnexpectedEOFError)
                    and in_wire.delivered < at,
                    "wrong-error", lambda: f"{what}: {out!r}",
                )
                break
            check_load(sim, spec, out, loaded, None, what)
            sim.check(pos == at, "wrong-position", lambda: f"{what}: at {pos}, not {at}")
            sim.hit("exchanged")
            sim.nontrivial = True
    # What's on the wires is the records and nothing else.
    for i, w in ((0, there), (1, back)):
        everything = b"".join(pair[i][2].data for pair in rounds)
        sim.check(
            everything.startswith(bytes(w.sent))
            and (w.ends_at is not None or back.ends_at is not None
                 or there.ends_at is not None or len(everything) == len(w.sent)),
            "wrong-bytes",
            lambda: f"{w.name} carried {bytes(w.sent)!r}, expected {everything!r}",
        )


def _ok(log):
    return all(out.ok for _, _, out, _ in log)
