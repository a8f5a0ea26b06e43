"""Executable reference model of binobj's documented behaviour.

Everything here works on plain Python values and byte strings and shares no code with the
library: integers are packed by hand, terminators are found by scanning code units,
variable-length integers are built from groups of bits, and timestamps are exact integer
arithmetic.  Simulated callbacks are described by data (see ``schema.py``), so the model
and the callbacks handed to the library cannot influence one another.
"""

from __future__ import annotations

import datetime
import math
import struct
import uuid


class _Token:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


NP = _Token("NOT_PRESENT")
MISSING = _Token("MISSING")
DEFAULT = _Token("DEFAULT")
ANYTHING = _Token("ANYTHING")  # for the few things the model can't know


class LoadError(Exception):
    """The model can't load this."""

    def __init__(self, kind, where=""):
        super().__init__(f"{kind} {where}")
        self.kind = kind  # "eof", "invalid" or "validation"
        self.path = []  # names of the fields concerned, the innermost first
        self.value = MISSING
        self.others = ()


class DumpError(Exception):
    def __init__(self, kind, where="", value=MISSING):
        super().__init__(f"{kind} {where}")
        self.kind = kind
        self.where = where
        self.path = []
        self.value = value
        self.others = ()  # names of all the fields that could have been refused first


class Env:
    """What a field sees while it's loaded or dumped."""

    __slots__ = ("fields", "ctx")

    def __init__(self, fields, ctx):
        self.fields = fields
        self.ctx = ctx


def take(buf, pos, n):
    if n < 0:
        raise LoadError("invalid", "negative size")
    if pos + n > len(buf):
        raise LoadError("eof")
    return bytes(buf[pos : pos + n]), pos + n


def int_to_bytes(value, size, signed, endian):
    if isinstance(value, float) or not isinstance(value, int):
        raise DumpError("type")
    lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (
        0,
        (1 << (8 * size)) - 1,
    )
    if not lo <= value <= hi:
        raise DumpError("range")
    value &= (1 << (8 * size)) - 1
    out = bytearray()
    for _ in range(size):
        out.append(value & 0xFF)
        value >>= 8
    if endian == "big":
        out.reverse()
    return bytes(out)


def int_from_bytes(data, signed, endian):
    if endian == "little":
        data = data[::-1]
    value = 0
    for b in data:
        value = value * 256 + b
    if signed and data and data[0] & 0x80:
        value -= 1 << (8 * len(data))
    return value


# --- variable-length integers -------------------------------------------------------


def _groups(value):
    """Base-128 digits of a non-negative integer, most significant first."""
    digits = [value % 128]
    value //= 128
    while value:
        digits.append(value % 128)
        value //= 128
    return digits[::-1]


def varint_encode(fmt, value):
    if not isinstance(value, int):
        raise DumpError("type")
    if fmt == "vlq":
        if value < 0:
            raise DumpError("range")
        d = _groups(value)
        return bytes([x | 0x80 for x in d[:-1]] + d[-1:])
    if fmt == "uleb128":
        if value < 0:
            raise DumpError("range")
        d = _groups(value)[::-1]
        return bytes([x | 0x80 for x in d[:-1]] + d[-1:])
    if fmt == "compact":
        mag = abs(value)
        tail = []
        while mag > 63:
            tail.append(mag % 128)
            mag //= 128
        d = [mag | (0x40 if value < 0 else 0)] + tail[::-1]
        return bytes([x | 0x80 for x in d[:-1]] + d[-1:])
    if fmt == "leb128":
        # Magnitude plus one sign bit, rounded up to whole groups.
        n = 1
        while value and abs(value) >= 1 << (7 * n - 1):
            n += 1
        value &= (1 << 7 * n) - 1
        out = [(value >> 7 * i) & 0x7F for i in range(n)]
        return bytes([x | 0x80 for x in out[:-1]] + out[-1:])
    raise AssertionError(fmt)


def varint_decode(fmt, buf, pos):
    digits = []
    while True:
        if pos >= len(buf):
            raise LoadError("eof")
        b = buf[pos]
        pos += 1
        digits.append(b & 0x7F)
        if b < 0x80:
            break
    if fmt == "vlq":
        v = 0
        for d in digits:
            v = v * 128 + d
    elif fmt == "uleb128":
        v = 0
        for d in reversed(digits):
            v = v * 128 + d
    elif fmt == "compact":
        v = digits[0] & 0x3F
        for d in digits[1:]:
            v = v * 128 + d
        if digits[0] & 0x40:
            v = -v
    else:
        v = 0
        for d in reversed(digits):
            v = v * 128 + d
        if digits[-1] & 0x40:
            v -= 1 << (7 * len(digits))
    return v, pos


# --- strings ------------------------------------------------------------------------

UNIT = {
    "iso-8859-1": 1,
    "ascii": 1,
    "utf-8": 1,
    "cp1252": 1,
    "cp037": 1,
    "koi8-r": 1,
    "utf-16-le": 2,
    "utf-16-be": 2,
    "utf-16": 2,
    "utf-32-le": 4,
    "utf-32-be": 4,
    "utf-8-sig": 1,
}


def find_terminator(buf, pos, limit, unit):
    """Offset just past the terminating null, or None."""
    i = pos
    zero = bytes(unit)
    while i + unit <= limit:
        if bytes(buf[i : i + unit]) == zero:
            return i + unit
        i += unit
    return None


# --- timestamps ---------------------------------------------------------------------

UNITS = {"s": 1, "ms": 1000, "us": 10**6, "ns": 10**9}
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)


def instant_us(dt, local_tz):
    """Microseconds since the epoch of an aware, or a naive-and-local, datetime."""
    if dt.utcoffset() is None:
        dt = dt.replace(tzinfo=local_tz)
        off = dt.utcoffset()
        naive = dt.replace(tzinfo=None) - off
        return (naive - datetime.datetime(1970, 1, 1)) // datetime.timedelta(
            microseconds=1
        )
    return (dt - EPOCH) // datetime.timedelta(microseconds=1)


def stamp_from_us(us, res):
    mag = abs(us) * UNITS[res] // 10**6
    return -mag if us < 0 else mag


def us_from_stamp(stamp, res):
    return stamp * 10**6 // UNITS[res]


MIN_US = -62135596800 * 10**6
MAX_US = 253402300799 * 10**6 + 999999


# --- comparing ----------------------------------------------------------------------


def same(a, b):
    """Are two model values the same?  Strict about types, sane about NaN."""
    if a is b or a is ANYTHING or b is ANYTHING:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, datetime.datetime) and isinstance(b, datetime.datetime):
        if (a.tzinfo is None) != (b.tzinfo is None):
            return False
        if a.tzinfo is None:
            return a == b and a.fold == b.fold
        return a == b and a.utcoffset() == b.utcoffset()
    return type(a) is type(b) and a == b


# --- structs ------------------------------------------------------------------------


class Dumped:
    """Outcome of dumping a struct in the model."""

    def __init__(self, segments, error=None, failed=None):
        self.segments = segments  # [(field name, bytes)]
        self.error = error
        self.failed = failed  # name of the field that failed, None: before any output

    @property
    def ok(self):
        return self.error is None

    @property
    def data(self):
        return b"".join(d for _, d in self.segments)

    def offsets(self):
        out, pos = [], 0
        for name, d in self.segments:
            out.append((name, pos, pos + len(d)))
            pos += len(d)
        return out


def resolve(spec, explicit, ctx, name, _seen=()):
    """Value of one field as the dumper determines it (NP: absent, MISSING: unset)."""
    f = spec.by_name[name]
    if name in explicit:
        v = explicit[name]
    elif f.default is not MISSING:
        v = f.default
    elif f.const is not MISSING:
        v = f.const
    elif f.factory is not MISSING:
        v = f.factory
    elif f.compute is not None:
        v = f.compute.model(lambda n: value_of(spec, explicit, n))
    else:
        v = MISSING
    if v is NP:
        return NP
    if f.present is not None:
        try:
            if not f.present.model(lambda n: value_of(spec, explicit, n), ctx):
                return NP
        except _Unset:
            return MISSING
    return v


class _Unset(Exception):
    pass


def value_of(spec, explicit, name):
    """Value of a field as seen by callbacks."""
    if name in explicit:
        return explicit[name]
    v = resolve(spec, explicit, None, name)
    if v is MISSING:
        raise _Unset
    return v


def resolve_all(spec, explicit, ctx):
    out = {}
    for f in spec.fields:
        try:
            out[f.name] = resolve(spec, explicit, ctx, f.name)
        except _Unset:
            out[f.name] = MISSING
    return out


def validate(spec, explicit):
    """Everything checked before anything is written."""
    values = {}
    bad = {}
    for f in spec.fields:
        if f.name in explicit:
            v = explicit[f.name]
        else:
            try:
                v = resolve(spec, explicit, None, f.name)
            except _Unset:
                v = MISSING
        if v is MISSING:
            if bad:
                break
            raise DumpError("missing", f.name)
        values[f.name] = v
        if v is not NP and refused(spec, f, v):
            bad[f.name] = v
    for n, v in bad.items():
        err = DumpError("validation", n, v)
        err.others = set(bad)
        raise err
    for p in spec.struct_validators:
        if not p.ok_struct(values):
            raise DumpError("validation", p.a)


def refused(spec, f, v):
    return not all(
        p.ok(v) for p in f.validators + spec.method_validators.get(f.name, [])
    )


def dump(spec, explicit, ctx=None):
    try:
        validate(spec, explicit)
    except DumpError as err:
        return Dumped([], err)
    values = resolve_all(spec, explicit, ctx)
    for f in spec.fields:
        if values[f.name] is MISSING:
            return Dumped([], DumpError("missing", f.name))
    return _dump_resolved(spec, values, ctx, None)


def _dump_resolved(spec, values, ctx, last):
    segs = []
    env = Env(values, ctx)
    for f in spec.fields:
        v = values[f.name]
        if v is MISSING:
            if last is None:
                return Dumped(segs)
            return Dumped(segs, DumpError("missing", f.name), f.name)
        if v is not NP:
            try:
                segs.append((f.name, f.encode(v, env)))
            except DumpError as err:
                return Dumped(segs, err, f.name)
        if f.name == last:
            break
    return Dumped(segs)


def partial_dump(spec, explicit, last=None, ctx=None):
    return _dump_resolved(spec, resolve_all(spec, explicit, ctx), ctx, last)


class Loaded:
    def __init__(self, values, pos, ends):
        self.values = values  # without discarded fields
        self.pos = pos
        self.ends = ends  # [(field name, end offset)]


def load_fields(spec, buf, pos, ctx, last=None, init=None, ends=None):
    """All fields in order, including discarded ones.  ``ends`` gets filled in."""
    values = dict(init or {})
    for f in spec.fields:
        v, pos = f.decode(buf, pos, Env(values, ctx))
        values.setdefault(f.name, v)
        if ends is not None:
            ends.append((f.name, pos, v))
        if f.name == last:
            break
    return values, pos


def load(spec, buf, pos=0, ctx=None, init=None):
    ends = []
    values, pos = load_fields(spec, buf, pos, ctx, init=init, ends=ends)
    try:
        validate(spec, values)
    except DumpError as err:
        new = LoadError("validation", str(err))
        new.path.append(err.where)
        new.value = err.value
        new.others = {
            f.name for f in spec.fields
            if values.get(f.name, NP) is not NP and refused(spec, f, values[f.name])
        }
        raise new from None
    for f in spec.fields:
        if f.discard:
            values.pop(f.name, None)
    return Loaded(values, pos, ends)


def partial_load(spec, buf, pos=0, ctx=None, last=None):
    """Returns (values without discarded ones, position, error or None)."""
    ends = []
    start = pos
    err = None
    try:
        load_fields(spec, buf, pos, ctx, last=last, ends=ends)
    except LoadError as e:
        err = e
    pos = ends[-1][1] if ends else start
    values = {n: v for n, _, v in ends if not spec.by_name[n].discard}
    return values, pos, err


def fixed_size(spec):
    total = 0
    for f in spec.fields:
        if f.present is not None or f.kind.fixed is None:
            return None
        total += f.kind.fixed
    return total


def uuid_encode(value, fmt):
    if fmt == "binary_var_1":
        return value.int.to_bytes(16, "big")
    if fmt == "binary_var_2":
        b = value.int.to_bytes(16, "big")
        return b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:]
    h = f"{value.int:032x}"
    if fmt == "hex_string":
        return h.encode()
    return f"{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}".encode()


def uuid_decode(data, fmt):
    if fmt == "binary_var_1":
        return uuid.UUID(int=int.from_bytes(data, "big"))
    if fmt == "binary_var_2":
        b = data[3::-1] + data[5:3:-1] + data[7:5:-1] + data[8:]
        return uuid.UUID(int=int.from_bytes(b, "big"))
    try:
        return uuid.UUID(hex=data.decode("ascii"))
    except ValueError:
        raise LoadError("invalid", "uuid") from None


def float_encode(value, fmt, endian):
    try:
        return struct.pack((">" if endian == "big" else "<") + fmt, value)
    except (struct.error, OverflowError):
        raise DumpError("range") from None


def float_decode(data, fmt, endian):
    return struct.unpack((">" if endian == "big" else "<") + fmt, data)[0]


# --- to_dict() ------------------------------------------------------------------------


class Incomplete(Exception):
    """Some required value is missing."""


def to_dict(spec, explicit, keep=False, ctx=None, loaded=False):
    """What ``to_dict()`` gives.  ``loaded``: structs in unions are instances."""
    out = {}
    values = resolve_all(spec, explicit, ctx)
    for f in spec.fields:
        if f.discard and not keep:
            continue
        v = values[f.name]
        if v is MISSING:
            raise Incomplete(f.name)
        out[f.name] = f.kind.native(v, keep, ctx, loaded)
    return out
