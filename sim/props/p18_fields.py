"""P18: fields and codecs used by themselves, on streams that chop, tear and fail."""

from __future__ import annotations


from binobj import helpers
from binobj import varints

from .. import model
from .. import schema
from .. import streams
from ..common import VALUE_ERRORS
from ..common import attempt
from ..common import errors
from ..common import load_error_matches
from ..common import world
from ..engine import SimCrash
from ..streams import SimOSError

ID = "P18"
LEVEL = "exploration"
RULE = (
    "a run is a log of drawn values written one by one by drawn standalone fields, integer"
    " helpers and variable-length integer codecs to a stream with drawn faults, and read"
    " back, once whole and once cut off at a drawn point, from chopped streams;"
    " non-trivial if something was read back; distinct by fields, values and faults"
)
RUNS = {"quick": 120000, "thorough": 1200000}
PROBES = ("field", "varint", "helper-int", "peek", "cut", "write-error", "crash",
          "trailing-bytes", "default", "read-error", "garbage", "rejected-value", "const",
          "null", "iter-bytes", "by-reference", "other-reference", "unsized-null",
          "conditional", "no-value")

CODECS = {
    "compact": varints.VarIntEncoding.COMPACT_INDICES,
    "leb128": varints.VarIntEncoding.LEB128,
    "uleb128": varints.VarIntEncoding.ULEB128,
    "vlq": varints.VarIntEncoding.VLQ,
}


def composite(item):
    return isinstance(item, FieldItem) and isinstance(
        item.spec.kind, (schema.ArrayKind, schema.NestedKind, schema.UnionKind)
    )


CTX = [None, {"opt": True}, {"opt": False}]


def by_reference(ch, gen):
    """A kind whose size, count or type is the value of a field named ``n``."""
    how = ch.below(6)
    if how == 0:
        kind = schema.ArrayKind(gen.component(0), "n")
        kind.comp.name = None
        return kind
    if how == 1:
        return schema.UnionKind(
            "n", [schema.FieldSpec(None, gen.scalar_kind(nonzero=True)) for _ in range(2)])
    if how == 2:
        enc = ch.pick(["iso-8859-1", "utf-8", "utf-16-le"])
        return schema.StringZKind("n", enc, ch.pick([b" ", b"\0", None]))
    if how == 3:
        enc = ch.pick(["iso-8859-1", "utf-8", "ascii"])
        return schema.StringKind("n", enc, ch.pick([b" ", None]))
    return schema.BytesKind("n")


def unsized_null(ch):
    """Something whose null can't be told for want of a size."""
    how = ch.below(3)
    if how == 0:
        kind = schema.StringZKind(None, ch.pick(["utf-8", "iso-8859-1"]), None)
    elif how == 1:
        kind = schema.VarIntKind(ch.pick(list(CODECS)))
    else:
        kind = schema.ArrayKind(
            schema.FieldSpec(None, schema.IntKind(2, False, None)),
            halt=("sentinel", 7))
    return schema.FieldSpec(None, kind, null=model.DEFAULT)


class FieldItem:
    """A standalone field."""

    spoiled = False

    def __init__(self, sim, rt, gen):
        ch = sim.ch
        style = ch.below(12)
        env = model.Env({}, ch.pick(CTX))
        if style < 2:
            kind = by_reference(ch, gen)
            comp = schema.FieldSpec(None, kind)
            if ch.chance(20) and not isinstance(
                kind, (schema.ArrayKind, schema.UnionKind)
            ):
                comp.null = model.DEFAULT
            env.fields["n"] = (
                ch.between(4, 12) // 4 * 4 if isinstance(kind, schema.StringZKind)
                else ch.below(7))
            sim.hit("by-reference")
        elif style == 2:
            comp = unsized_null(ch)
            sim.hit("unsized-null")
        else:
            comp = gen.component(0) if ch.chance(75) else gen.component(1)
        comp.name = None
        if style in (0, 3) and ch.chance(70):
            # Only loading depends on it; a value for dumping was asked for explicitly.
            env.fields.setdefault("flags", ch.below(4))
            comp.present = ch.pick([
                schema.Present("flag", "flags", 1), schema.Present("ctx", "opt")])
            comp.npv = ch.pick([model.NP, model.NP, None])
            sim.hit("conditional")
        self.spec = comp
        for s in schema._specs_in(comp.kind):  # noqa: SLF001
            if s.cls is None:
                s.build(rt)
        self.env = env
        self.value = schema.gen_value(ch, comp, self.env)
        self.rt = rt
        how = ch.below(12)
        if (
            how == 0 and self.value is not None and style > 2
            # (a constant one is of a fixed size)
            and not isinstance(comp.kind, schema.StringZKind)
        ):
            comp.const = self.value
            comp.default = model.MISSING
            if isinstance(comp.kind, schema.VarIntKind):
                comp.kind.fixed = len(comp.kind.enc(self.value, None))
            comp.validators = []
            comp.null = model.MISSING
            sim.hit("const")
        elif how == 1 and style > 2:
            comp.default = self.value
        elif how in (2, 3):
            self.value = schema.spoil_value(ch, comp, self.value, self.env)
            self.spoiled = True
        if self.value is None:
            sim.hit("null")
        self.obj = comp.make(rt, lambda x: x, in_array=True)
        self.omit = comp.const is not model.MISSING or (
            how == 1 and style > 2 and ch.chance(70))
        self.via = ch.pick(["stream", "bytes"])
        self.lib = comp.to_lib(self.value, rt, ch)
        sim.hit("field")

    def __repr__(self):
        return (
            f"{self.spec!r} {self.value!r} ({self.via}{' omitted' * self.omit}) with"
            f" {self.env.fields!r} {self.env.ctx!r}"
        )

    def encode(self):
        return self.spec.encode(self.value, self.env)

    def args(self, which, env=None):
        env = env or self.env
        kw = {}
        if env.fields:
            kw[which] = dict(env.fields)
        if env.ctx is not None:
            kw["context"] = env.ctx
        return kw

    def write(self, stream, omit=False):
        args = () if self.omit or omit else (self.lib,)
        kw = self.args("all_fields")
        if self.via == "bytes":
            data = self.obj.to_bytes(*args, **kw)
            write_all(stream, data)
        else:
            self.obj.to_stream(stream, *args, **kw)

    def decode(self, buf, pos):
        return self.spec.decode(buf, pos, self.env)

    def read(self, stream, env=None):
        return self.spec.from_lib(
            self.obj.from_stream(stream, **self.args("loaded_fields", env)))

    def from_bytes(self, data, exact):
        return self.spec.from_lib(
            self.obj.from_bytes(data, exact=exact, **self.args("loaded_fields")))

    def refusal(self, err):
        """What a value that can't be dumped is refused with, if that's documented."""
        k = self.spec.kind
        if len(err.path) != 1:
            return VALUE_ERRORS
        if err.kind == "null":
            return errors.UnserializableValueError
        if err.kind == "validation":
            return errors.ValidationError
        if err.kind == "size" and isinstance(
            k, (schema.BytesKind, schema.StringKind, schema.StringZKind)
        ):
            return errors.ValueSizeError
        if err.kind == "count":
            return errors.ArraySizeError
        if err.kind == "range" and isinstance(
            k, (schema.IntKind, schema.VarIntKind, schema.TsKind)
        ):
            return errors.UnserializableValueError
        if err.kind == "range" and isinstance(k, schema.FloatKind):
            return errors.SerializationError
        return VALUE_ERRORS


class VarintItem:
    def __init__(self, sim, rt, gen):
        ch = sim.ch
        self.fmt = ch.pick(list(CODECS))
        self.kind = schema.VarIntKind(self.fmt)
        self.value = self.kind.gen(ch, None)
        if ch.chance(10) and not self.kind.signed:
            self.value = -1 - ch.below(300)
        self.codec = varints.INTEGER_ENCODING_MAP[CODECS[self.fmt]]
        sim.hit("varint")

    def __repr__(self):
        return f"{self.fmt} {self.value!r}"

    def encode(self):
        return self.kind.enc(self.value, None)

    def write(self, stream):
        write_all(stream, self.codec.encode(self.value))

    def decode(self, buf, pos):
        return self.kind.dec(buf, pos, None)

    def read(self, stream):
        return self.codec.decode(stream)


class IntItem:
    def __init__(self, sim, rt, gen):
        ch = sim.ch
        self.kind = schema.IntKind(
            ch.pick([1, 2, 3, 4, 7, 8, 16]), ch.chance(50), ch.pick(schema.ENDIANS))
        self.value = self.kind.gen(ch, None)
        if ch.chance(10):
            self.value = ch.pick([self.kind.hi + 1, self.kind.lo - 1])
        sim.hit("helper-int")

    def __repr__(self):
        return f"write_int({self.kind!r}) {self.value!r}"

    def encode(self):
        return self.kind.enc(self.value, None)

    def write(self, stream):
        helpers.write_int(
            stream, self.value, self.kind.size, self.kind.signed, self.kind.endian)

    def decode(self, buf, pos):
        return self.kind.dec(buf, pos, None)

    def read(self, stream):
        return helpers.read_int(
            stream, self.kind.size, self.kind.signed, self.kind.endian)


def write_all(stream, data):
    data = memoryview(data)
    while data:
        data = data[stream.write(data) :]


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, schema.ALL_FEATURES - {"eof", "halt"})
    items = []
    for _ in range(ch.between(1, 5)):
        cls = ch.pick([FieldItem, FieldItem, VarintItem, IntItem])
        items.append(cls(sim, rt, gen))
    sim.log("items", items)
    sim.mark("items", repr(items))
    data, stored = write(sim, items)
    read(sim, data, stored)


def write(sim, items):
    ch = sim.ch
    file = streams.SimFile()
    stored = []
    for item in items:
        start = len(file.data)
        try:
            want = item.encode()
        except model.DumpError as err:
            if err.kind == "unspecified":
                continue
            want = None
            refusal = VALUE_ERRORS
            if isinstance(item, FieldItem):
                refusal = item.refusal(err)
        plan = {"short_write": ch.pick([0, 0, 60])}
        fault = ch.pick(["none", "none", "error", "crash", "full"]) if want else "none"
        if fault == "error":
            plan["write_error"] = (start + ch.below(len(want)), 1)
        elif fault == "crash":
            plan["crash_at"] = start + ch.below(len(want))
        elif fault == "full":
            plan["write_limit"] = start + ch.below(len(want))
        plan["torn"] = ch.chance(50)
        plan["signals"] = True
        raw = streams.SimRaw(sim, file, "w", start, **plan)
        out = attempt(item.write, raw)
        got = bytes(file.data[start:])
        sim.log("write", item, fault, out, got)
        sim.mark("fault", repr(sorted(plan.items())))
        what = f"writing {item!r} ({fault})"
        if want is None:
            sim.hit("rejected-value")
            sim.check(
                isinstance(out.error, refusal) and not isinstance(out.error, SimOSError),
                "dumped-invalid", lambda: f"{what}: {out!r}, wrote {got!r}",
            )
            sim.check(
                not got or composite(item), "wrote-rejected",
                lambda: f"{what}: {out!r}, but wrote {got!r}",
            )
            del file.data[start:]
            continue
        if raw.failed or isinstance(out.error, SimCrash):
            sim.hit("crash" if fault == "crash" else "write-error")
            sim.check(
                (isinstance(out.error, SimCrash) or raw.surfaced(out.error))
                and want.startswith(got),
                "io-error-hidden",
                lambda: f"{what}: {out!r}, wrote {got!r} of {want!r}",
            )
            # Recovery: truncate the torn tail and write it again.
            del file.data[start:]
            raw = streams.SimRaw(sim, file, "w", start)
            out = attempt(item.write, raw)
            got = bytes(file.data[start:])
        sim.check(
            out.ok and got == want, "wrong-bytes",
            lambda: f"{what}: {out!r}, wrote {got!r}, expected {want!r}",
        )
        stored.append((item, start, start + len(want)))
        if isinstance(item, FieldItem) and not item.omit and ch.chance(30):
            omitted(sim, item)
    return bytes(file.data), stored


def omitted(sim, item):
    """There's nothing to dump unless there's a default value."""
    file = streams.SimFile()
    raw = streams.SimRaw(sim, file, "w", 0)
    out = attempt(item.write, raw, True)
    got = bytes(file.data)
    what = f"writing {item!r} without a value"
    if item.spec.default is not model.MISSING:
        try:
            want = item.spec.encode(item.spec.default, item.env)
        except model.DumpError as err:
            sim.check(
                not out.ok and (err.kind != "validation"
                                or isinstance(out.error, errors.ValidationError)),
                "dumped-invalid", lambda: f"{what}: {out!r}, wrote {got!r}")
            return
        sim.check(
            out.ok and got == want, "wrong-bytes",
            lambda: f"{what}: {out!r}, wrote {got!r}, expected {want!r}")
        return
    sim.hit("no-value")
    sim.check(
        isinstance(out.error, errors.MissingRequiredValueError) and not got,
        "dumped-invalid", lambda: f"{what}: {out!r}, wrote {got!r}",
    )


def outcome(item, buf, pos):
    """(value, end, error) as the model sees it."""
    try:
        v, end = item.decode(buf, pos)
        return v, end, None
    except model.LoadError as err:
        return None, None, err
    except model.DumpError as err:
        if err.kind == "null":
            return None, None, model.LoadError("unknown-null")
        return None, None, model.LoadError("any")


def references(sim, item, piece):
    """The same bytes, but something else came before them."""
    ch = sim.ch
    n = item.env.fields["n"]
    k = item.spec.kind
    fields = dict(item.env.fields)
    how = ch.below(4)
    if how == 0:
        del fields["n"]
    else:
        fields["n"] = ch.pick([n + 1, n - 1, 0, -1, -n - 1, 10**6, n])
    env = model.Env(fields, item.env.ctx)
    if isinstance(k, schema.ArrayKind) and fields.get("n", 0) < 0:
        return
    reader = streams.open_reader(sim, piece)
    out = attempt(item.read, reader, env)
    sim.hit("other-reference")
    what = f"reading {item!r} from {piece!r} with {fields!r}"
    p = item.spec.present
    absent = p is not None and not p.model(lambda f: fields[f], env.ctx)
    if "n" not in fields and not absent:
        if isinstance(k, schema.UnionKind):
            good = (KeyError,)  # from the decider
        elif isinstance(k, schema.ArrayKind):
            good = (errors.FieldReferenceError,)
        else:
            good = (errors.MissingRequiredValueError,)
        sim.check(
            isinstance(out.error, good), "wrong-error", lambda: f"{what}: {out!r}")
        return
    try:
        want, end = item.spec.decode(piece, 0, env)
        err = None
    except model.LoadError as exc:
        want, end, err = None, None, exc
    judge(sim, what, out, reader, want, end, err)


def judge(sim, what, out, reader, want, end, err):
    if err is None:
        sim.check(
            out.ok and model.same(out.value, want), "wrong-value",
            lambda: f"{what}: {out!r}, expected {want!r}",
        )
        if reader is not None:
            sim.check(
                reader.tell() == end, "wrong-position",
                lambda: f"{what}: stream at {reader.tell()}, not {end}",
            )
            sim.nontrivial = True
    elif err.kind == "unknown-null":
        sim.check(
            isinstance(out.error, errors.CannotDetermineNullError), "wrong-error",
            lambda: f"{what}: {out!r}, but what null looks like isn't known",
        )
    elif err.kind != "any":
        sim.check(
            not out.ok, "accepted-bad-data", lambda: f"{what}: {out!r}, expected {err}")
        sim.check(
            load_error_matches(err.kind, out.error), "wrong-error",
            lambda: f"{what}: {out!r}, expected {err}",
        )


def read(sim, data, stored):
    ch = sim.ch
    # All of it, through one stream.
    tail = ch.bytes(ch.pick([0, 0, 3]))
    whole = data + tail
    reader = streams.open_reader(sim, whole, stored[0][1] if stored else 0)
    for item, start, stop in stored:
        reader.seek(start)
        if ch.chance(15):
            n = ch.between(0, 9)
            full = n <= len(whole) - start
            strict = not full and ch.chance(60) or ch.chance(20)
            out = attempt(
                helpers.peek_bytes, reader, n, **({"short_read_okay": False} if strict
                                                  else {}))
            good = out.ok and out.value == whole[start : start + n]
            if strict and not full:
                good = isinstance(out.error, EOFError)
                sim.hit("strict-peek")
            sim.check(
                good and reader.tell() == start, "wrong-peek",
                lambda: f"peek_bytes({n}) at {start} of {whole!r} (strict: {strict}):"
                f" {out!r}, stream at {reader.tell()}",
            )
            sim.hit("peek")
        if ch.chance(10):
            n = ch.pick([None, 0, 1, 4])
            out = attempt(lambda: list(helpers.iter_bytes(reader, n)))
            rest = whole[start:] if n is None else whole[start : start + n]
            sim.check(
                out.ok and b"".join(out.value) == rest
                and all(len(b) == 1 for b in out.value)
                and reader.tell() == start + len(rest),
                "wrong-bytes",
                lambda: f"iter_bytes({n}) at {start} of {whole!r}: {out!r}",
            )
            reader.seek(start)
            sim.hit("iter-bytes")
        want, end, err = outcome(item, whole, start)
        out = attempt(item.read, reader)
        sim.log("read", item, start, out)
        judge(sim, f"reading {item!r} at {start} of {whole!r}", out, reader, want, end,
              err)

    for item, start, stop in stored:
        piece = data[start:stop]
        # Cut off.
        if piece and ch.chance(60):
            cut = ch.below(len(piece))
            want, end, err = outcome(item, piece[:cut], 0)
            reader = streams.open_reader(sim, piece[:cut])
            out = attempt(item.read, reader)
            sim.hit("cut")
            sim.log("cut", item, cut, out)
            sim.mark("cut", cut)
            judge(sim, f"reading {item!r} from {piece[:cut]!r}", out, reader, want, end,
                  err)
        # Damaged.
        if piece and ch.chance(30):
            bad = bytearray(piece)
            bad[ch.below(len(bad))] ^= 1 << ch.below(8)
            bad = bytes(bad)
            want, end, err = outcome(item, bad, 0)
            reader = streams.open_reader(sim, bad)
            out = attempt(item.read, reader)
            sim.hit("garbage")
            sim.fault("bit-flip")
            judge(sim, f"reading {item!r} from {bad!r}", out, reader, want, end, err)
        if isinstance(item, FieldItem) and "n" in item.env.fields:
            references(sim, item, piece)
        # A transient error, then again.
        if piece and ch.chance(30):
            at = ch.below(len(piece))
            raw = streams.SimRaw(
                sim, streams.SimFile(piece), "r", 0, read_error=(at, 1), signals=True,
                short_read=ch.pick([0, 50]))
            out = attempt(item.read, raw)
            if raw.failed:
                sim.hit("read-error")
                sim.check(
                    raw.surfaced(out.error), "io-error-hidden",
                    lambda: f"reading {item!r} with an error at {at}: {out!r}",
                )
            raw.seek(0)
            want, end, err = outcome(item, piece, 0)
            if raw.failed:
                out = attempt(item.read, raw)
                judge(sim, f"reading {item!r} again", out, raw, want, end, err)
        # As a byte string of its own.
        if isinstance(item, FieldItem):
            exact = ch.chance(60)
            extra = ch.bytes(ch.pick([0, 1, 4]))
            want, end, err = outcome(item, piece + extra, 0)
            out = attempt(item.from_bytes, piece + extra, exact)
            what = f"{item!r} from_bytes({piece + extra!r}, exact={exact})"
            if err is None and exact and end < len(piece + extra):
                sim.hit("trailing-bytes")
                sim.check(
                    isinstance(out.error, errors.ExtraneousDataError),
                    "accepted-bad-data", lambda: f"{what}: {out!r}",
                )
                sim.check(
                    out.error.offset == end, "wrong-offset",
                    lambda: f"{what}: the error says {out.error.offset}, not {end}",
                )
            else:
                judge(sim, what, out, None, want, end, err)
            if item.omit:
                sim.hit("default")
