"""Simulated users of the library: random struct declarations, their values and callbacks.

A :class:`StructSpec` describes one struct twice: as data for the reference model
(``model.py``) and, through :meth:`StructSpec.build`, as classes declared with the real
library.  All user callbacks handed to the library (validators, ``present``, computed
fields, factories, union deciders, halt checks) are closures over the same data and go
through a :class:`Runtime`, which lets a property count calls or inject failures.
"""

from __future__ import annotations

import codecs
import datetime
import struct
import sys
import typing
import uuid

from . import model
from .model import DEFAULT
from .model import DumpError
from .model import LoadError
from .model import MISSING
from .model import NP

UTC = datetime.timezone.utc
NATIVE = sys.byteorder


# While this isn't empty, instances are allowed to hold what users may put into them but
# what's never loaded: a dictionary for a struct in a union.
user_values = []


class Bad:
    """A value of the wrong type that came out of the library; equals nothing."""

    def __init__(self, obj):
        self.text = f"{type(obj).__name__}: {obj!r}"

    def __repr__(self):
        return f"<unexpected {self.text}>"

    def __eq__(self, other):
        return False

    __hash__ = None


class Runtime:
    """Shared by all callbacks of one simulation."""

    def __init__(self, lib):
        self.lib = lib
        self.hook = None  # callable(kind, name, info)
        self.own = {}  # field classes of the "user's" own
        self.local_tz = UTC

    def on(self, kind, name, **info):
        if self.hook is not None:
            self.hook(kind, name, info)


# --- predicates, computations, presence -----------------------------------------------


class Pred:
    """A validator."""

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __repr__(self):
        return f"{self.op}{self.args}"

    def ok(self, v):
        a = self.args
        if self.op == "mod":
            return not isinstance(v, int) or v % a[0] != a[1]
        if self.op == "max":
            return not isinstance(v, (int, float)) or not v > a[0]
        if self.op == "maxlen":
            return not isinstance(v, (str, bytes, list)) or len(v) <= a[0]
        if self.op == "first":
            return (
                not isinstance(v, (str, bytes, list))
                or not len(v)
                or not model.same(v[0], a[0])
            )
        if self.op == "notnull":
            return v is not None
        if self.op == "any":
            return True
        raise AssertionError(self.op)


class StructPred:
    """A struct-level validator over two integer fields."""

    def __init__(self, a, b, m, r):
        self.a, self.b, self.m, self.r = a, b, m, r

    def __repr__(self):
        return f"({self.a}+{self.b})%{self.m}!={self.r}"

    def ok_struct(self, values):
        x, y = values[self.a], values[self.b]
        if not isinstance(x, int) or not isinstance(y, int):
            return True
        return (x + y) % self.m != self.r


class Compute:
    """A computed field."""

    def __init__(self, op, targets, **kw):
        self.op = op
        self.targets = targets
        self.kw = kw

    def __repr__(self):
        return f"{self.op}({','.join(self.targets)})"

    def model(self, lookup):
        vals = [lookup(t) for t in self.targets]
        if self.op == "count":
            return len(vals[0]) if isinstance(vals[0], (list, tuple)) else 0
        if self.op == "bytelen":
            v = vals[0]
            if isinstance(v, str):
                v = (v + self.kw.get("end", "")).encode(self.kw["encoding"], "replace")
            return len(v) if isinstance(v, (bytes, bytearray)) else 0
        if self.op == "sum":
            n = self.kw.get("base", 0)
            for v in vals:
                if isinstance(v, int):
                    n += v
                elif isinstance(v, (str, bytes, list)):
                    n += len(v)
            return n % self.kw["mod"]
        raise AssertionError(self.op)


class Present:
    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __repr__(self):
        return f"{self.op}{self.args}"

    def model(self, lookup, ctx):
        if self.op == "flag":
            v = lookup(self.args[0])
            return isinstance(v, int) and bool(v & self.args[1])
        if self.op == "eq":
            return model.same(lookup(self.args[0]), self.args[1])
        if self.op == "ctx":
            return isinstance(ctx, dict) and bool(ctx.get(self.args[0]))
        raise AssertionError(self.op)


class Factory:
    """A factory whose next value is decided by the simulation."""

    def __init__(self, value):
        self.value = value
        self.queue = None  # list of values still to hand out
        self.drawn = []

    def draw(self):
        if self.queue:
            self.value = self.queue.pop(0)
        self.drawn.append(self.value)
        return self.value

    def __repr__(self):
        return f"Factory({self.value!r})"


# --- kinds ----------------------------------------------------------------------------


class Kind:
    fixed = None  # size in bytes, if it's always the same
    refs = ()  # names of fields this one depends on
    zero_size = False  # can be zero bytes long
    eof = False  # swallows everything up to EOF

    def size_in(self, env):
        """Size of the field, if the field declares one (for null_value=DEFAULT)."""
        if self.fixed is None:
            raise DumpError("null")
        return self.fixed

    can_be_bare = False  # can be declared with just a class

    def to_lib(self, v, rt, form=None):
        return v

    def from_lib(self, v):
        return v

    def native(self, v, keep, ctx, loaded):
        """The value as to_dict() gives it."""
        return v

    def trivial(self):
        """Simplest value."""
        raise NotImplementedError


def _lib(rt):
    return rt.lib


class IntKind(Kind):
    def __init__(self, size, signed, endian, generic=False):
        self.size = self.fixed = size
        self.signed = signed
        self.endian = endian  # None: native, or the default from Meta
        self.eff = endian or NATIVE
        self.generic = generic

    def __repr__(self):
        return f"{'' if self.signed else 'U'}Int{self.size * 8}{self.eff[0]}"

    @property
    def lo(self):
        return -(1 << (8 * self.size - 1)) if self.signed else 0

    @property
    def hi(self):
        return (1 << (8 * self.size - (1 if self.signed else 0))) - 1

    def gen(self, ch, env):
        how = ch.below(6)
        if how <= 2:
            return ch.below(min(self.hi, 300) + 1)
        if how == 3:
            return ch.pick([self.hi, self.lo, self.hi - 1, self.lo + 1, 0x7F, 1])
        if how == 4 and self.signed:
            return -1 - ch.below(min(self.hi, 300) + 1)
        return self.lo + ch.below(self.hi - self.lo + 1)

    def trivial(self):
        return 0

    def enc(self, v, env):
        return model.int_to_bytes(v, self.size, self.signed, self.eff)

    def dec(self, buf, pos, env):
        d, pos = model.take(buf, pos, self.size)
        return model.int_from_bytes(d, self.signed, self.eff), pos

    def lib_class(self, rt):
        f = rt.lib.fields
        if not self.generic and self.size in (1, 2, 4, 8):
            return getattr(f, ("Int" if self.signed else "UInt") + str(8 * self.size))
        return f.Integer if self.signed else f.UnsignedInteger

    def make(self, rt, refs, kw):
        cls = self.lib_class(rt)
        if self.endian is not None:
            kw["endian"] = self.endian
        if cls in (rt.lib.fields.Integer, rt.lib.fields.UnsignedInteger):
            kw["size"] = self.size
        return cls(**kw)

    @property
    def can_be_bare(self):
        return not self.generic and self.size in (1, 2, 4, 8)

    def bare_class(self, rt):
        return self.lib_class(rt)


class VarIntKind(Kind):
    def __init__(self, fmt, max_bytes=None):
        self.fmt = fmt
        self.max_bytes = max_bytes

    def __repr__(self):
        return f"varint:{self.fmt}:{self.max_bytes}"

    @property
    def signed(self):
        return self.fmt in ("compact", "leb128")

    def gen(self, ch, env):
        if ch.chance(30):
            # The values next to those where another byte is needed
            bits = max(1, 7 * ch.between(1, 24) - ch.below(2))
        else:
            bits = ch.pick([6, 7, 13, 14, 20, 21, 28, 35, 63, 64, 70, 130])
        how = ch.below(4)
        if how == 0:
            v = ch.below(200)
        elif how == 1:
            v = (1 << bits) + ch.pick([0, -1, 1])
        else:
            v = ch.bits(bits)
        if self.signed and ch.chance(40):
            v = -v
        if self.max_bytes is not None:
            while len(model.varint_encode(self.fmt, v)) > self.max_bytes:
                v = v // 128 if v >= 0 else -(-v // 128)
        return v

    def trivial(self):
        return 0

    def enc(self, v, env):
        d = model.varint_encode(self.fmt, v)
        if self.max_bytes is not None and len(d) > self.max_bytes:
            raise DumpError("size")
        return d

    def dec(self, buf, pos, env):
        v, end = model.varint_decode(self.fmt, buf, pos)
        if self.fixed is not None and end - pos != self.fixed:
            raise LoadError("bad", "another size than the constant's")
        return v, end

    def make(self, rt, refs, kw):
        from binobj import varints

        if self.max_bytes is not None:
            kw["max_bytes"] = self.max_bytes
        return rt.lib.fields.VariableLengthInteger(
            vli_format=varints.VarIntEncoding(self.fmt), **kw
        )


class FloatKind(Kind):
    SIZES = {"e": 2, "f": 4, "d": 8}

    def __init__(self, fmt, endian):
        self.fmt = fmt
        self.endian = endian
        self.eff = endian or NATIVE
        self.fixed = self.SIZES[fmt]

    def __repr__(self):
        return f"float:{self.fmt}:{self.eff}"

    def gen(self, ch, env):
        how = ch.below(4)
        if how == 0:
            return float(ch.below(100))
        if how == 1:
            return ch.pick([0.5, -0.0, float("inf"), float("-inf"), -1.0, 65504.0])
        raw = ch.bytes(self.fixed)
        v = struct.unpack(">" + self.fmt, raw)[0]
        return 1.5 if v != v else v

    def trivial(self):
        return 0.0

    def enc(self, v, env):
        return model.float_encode(v, self.fmt, self.eff)

    def dec(self, buf, pos, env):
        d, pos = model.take(buf, pos, self.fixed)
        return model.float_decode(d, self.fmt, self.eff), pos

    def make(self, rt, refs, kw):
        cls = getattr(rt.lib.fields, f"Float{8 * self.fixed}")
        if self.endian is not None:
            kw["endian"] = self.endian
        return cls(**kw)

    @property
    def can_be_bare(self):
        return self.endian is None

    def bare_class(self, rt):
        return getattr(rt.lib.fields, f"Float{8 * self.fixed}")


class TsKind(Kind):
    def __init__(self, rt, size, res, aware, endian, signed):
        self.rt = rt
        self.size = self.fixed = size
        self.res = res
        self.aware = aware
        self.endian = endian
        self.eff = endian or NATIVE
        self.signed = signed

    def __repr__(self):
        return f"ts:{self.size}:{self.res}:{'aware' if self.aware else 'naive'}"

    def bounds_us(self):
        bits = 8 * self.size - (1 if self.signed else 0)
        unit = model.UNITS[self.res]
        hi = min((((1 << bits) - 1) * 10**6) // unit, model.MAX_US - 3 * 86400 * 10**6)
        lo = -hi if self.signed else 0
        return max(lo, model.MIN_US + 3 * 86400 * 10**6), hi

    def gen_us(self, ch):
        lo, hi = self.bounds_us()
        how = ch.below(4)
        if how == 0:
            us = ch.below(10**9) * 10**6
        elif how == 1:
            us = ch.below(2 * 10**9) * 10**6 + ch.pick([1, 999_999, 500_000, 123_456])
        elif how == 2:
            us = -ch.below(2 * 10**9) * 10**6 + ch.below(10**6)
        else:
            us = lo + ch.below(hi - lo + 1)
        us = max(lo, min(hi, us))
        if how in (0,):
            us -= us % 10**6
        return us

    def from_us(self, us):
        dt = model.EPOCH + datetime.timedelta(microseconds=us)
        if self.aware:
            return dt
        return dt.astimezone(self.rt.local_tz).replace(tzinfo=None)

    def gen(self, ch, env):
        us = self.gen_us(ch)
        dt = self.from_us(us)
        if self.aware and ch.chance(30):
            off = ch.between(-14 * 4, 14 * 4) * 15
            dt = dt.astimezone(datetime.timezone(datetime.timedelta(minutes=off)))
        return dt

    def trivial(self):
        return self.from_us(0)

    def enc(self, v, env):
        if not isinstance(v, datetime.datetime):
            raise DumpError("type")
        us = model.instant_us(v, self.rt.local_tz)
        return model.int_to_bytes(
            model.stamp_from_us(us, self.res), self.size, self.signed, self.eff
        )

    def dec(self, buf, pos, env):
        d, pos = model.take(buf, pos, self.size)
        stamp = model.int_from_bytes(d, self.signed, self.eff)
        us = model.us_from_stamp(stamp, self.res)
        day = 86400 * 10**6
        if us < model.MIN_US - 2 * day or us > model.MAX_US + 2 * day:
            raise LoadError("invalid", "timestamp")
        if us < model.MIN_US + 3 * day or us > model.MAX_US - 3 * day:
            raise LoadError("any", "timestamp")
        return self.from_us(us), pos

    def from_lib(self, v):
        # An aware datetime must come back in UTC (documented), so keep it as is.
        return v

    def make(self, rt, refs, kw):
        f = rt.lib.fields
        if self.endian is not None:
            kw["endian"] = self.endian
        if not self.signed:
            kw["signed"] = False
        if self.res != "s":
            kw["resolution"] = self.res
        if self.aware:
            kw["tz_aware"] = True
        if self.size in (4, 8):
            return getattr(f, f"Timestamp{8 * self.size}")(**kw)
        return f.Timestamp(size=self.size, **kw)

    @property
    def can_be_bare(self):
        return (
            self.endian is None and self.signed and self.res == "s" and not self.aware
            and self.size in (4, 8)
        )

    def bare_class(self, rt):
        return getattr(rt.lib.fields, f"Timestamp{8 * self.size}")


class UuidKind(Kind):
    def __init__(self, fmt):
        self.fmt = fmt
        self.fixed = {"hex_string": 32, "canonical_string": 36}.get(fmt, 16)

    def __repr__(self):
        return f"uuid:{self.fmt}"

    def gen(self, ch, env):
        return uuid.UUID(int=ch.bits(128))

    def trivial(self):
        return uuid.UUID(int=0)

    def enc(self, v, env):
        return model.uuid_encode(v, self.fmt)

    def dec(self, buf, pos, env):
        d, pos = model.take(buf, pos, self.fixed)
        return model.uuid_decode(d, self.fmt), pos

    def make(self, rt, refs, kw):
        from binobj.fields import stringlike

        return rt.lib.fields.UUID4(
            stored_as=stringlike.UUIDFormat(self.fmt), **kw
        )

    @property
    def can_be_bare(self):
        return self.fmt == "binary_var_1"

    def bare_class(self, rt):
        return rt.lib.fields.UUID4


class _Sized(Kind):
    """Something with ``size`` either an integer or the name of a field."""

    def __init__(self, size):
        self.size = size
        if isinstance(size, int):
            self.fixed = size
            self.zero_size = size == 0
        else:
            self.refs = (size,)
            self.zero_size = True

    def size_in(self, env):
        if isinstance(self.size, int):
            return self.size
        n = env.fields.get(self.size, MISSING)
        if not isinstance(n, int):
            raise DumpError("ref")
        return n


class BytesKind(_Sized):
    def __repr__(self):
        return f"bytes:{self.size}"

    def gen(self, ch, env):
        return ch.bytes(self.size_in(env))

    def trivial(self):
        return bytes(self.fixed or 0)

    def enc(self, v, env):
        if not isinstance(v, (bytes, bytearray)) or len(v) != self.size_in(env):
            raise DumpError("size")
        return bytes(v)

    def dec(self, buf, pos, env):
        return model.take(buf, pos, self.size_in(env))

    def make(self, rt, refs, kw):
        return rt.lib.fields.Bytes(size=refs(self.size), **kw)


# Fields of the "user's" own.  They follow what the documentation asks of them.


def take_from(stream, field, n, offset):
    data = b""
    while len(data) < n:
        got = stream.read(min(n - len(data), 1 << 16))
        if not got:
            from binobj import errors

            raise errors.UnexpectedEOFError(field=field, size=n, offset=offset)
        data += got
    return data


class XorIntKind(IntKind):
    """A built-in integer, extended."""

    MASK = 0x5A

    def __repr__(self):
        return "Xor" + super().__repr__()

    can_be_bare = False

    def enc(self, v, env):
        if not isinstance(v, int) or not 0 <= v <= self.hi:
            raise DumpError("range")
        return super().enc(v ^ self.MASK, env)

    def dec(self, buf, pos, env):
        v, pos = super().dec(buf, pos, env)
        return v ^ self.MASK, pos

    def lib_class(self, rt):
        base = super().lib_class(rt)
        name = "Xor" + base.__name__
        if name not in rt.own:
            mask = self.MASK

            class Xor(base):
                def _do_load(self, stream, context, loaded_fields):
                    rt.on("own_load", self.name, context=context, fields=loaded_fields)
                    return super()._do_load(stream, context, loaded_fields) ^ mask

                def _do_dump(self, stream, data, context, all_fields):
                    if isinstance(data, int) and 0 <= data < 256**self.size:
                        data ^= mask
                    super()._do_dump(stream, data, context, all_fields)

            Xor.__name__ = Xor.__qualname__ = name
            Xor.sized = base in (rt.lib.fields.Integer, rt.lib.fields.UnsignedInteger)
            rt.own[name] = Xor
        return rt.own[name]

    def make(self, rt, refs, kw):
        cls = self.lib_class(rt)
        kw["endian"] = self.endian
        if cls.sized:
            kw["size"] = self.size
        return cls(**kw)


class ReversedKind(BytesKind):
    """Bytes stored the other way round."""

    def __repr__(self):
        return "reversed-" + super().__repr__()

    def enc(self, v, env):
        return super().enc(v, env)[::-1]

    def dec(self, buf, pos, env):
        v, pos = super().dec(buf, pos, env)
        return v[::-1], pos

    def make(self, rt, refs, kw):
        if "reversed" not in rt.own:

            class Reversed(rt.lib.fields.Bytes):
                def _do_load(self, stream, context, loaded_fields):
                    rt.on("own_load", self.name, context=context, fields=loaded_fields)
                    return super()._do_load(stream, context, loaded_fields)[::-1]

                def _do_dump(self, stream, data, context, all_fields):
                    rt.on("own_dump", self.name, context=context, fields=all_fields)
                    super()._do_dump(stream, data[::-1], context, all_fields)

            rt.own["reversed"] = Reversed
        return rt.own["reversed"](size=refs(self.size), **kw)


class DottedKind(_Sized):
    """ASCII without dots, filled up with them, by means of ``_add_padding``."""

    def __repr__(self):
        return f"dotted:{self.size}"

    def gen(self, ch, env):
        n = self.size_in(env)
        return bytes(97 + ch.below(20) for _ in range(n - ch.below(n + 1)))

    def trivial(self):
        return b""

    def enc(self, v, env):
        if not isinstance(v, (bytes, bytearray)) or len(v) > self.size_in(env):
            raise DumpError("size")
        return bytes(v) + b"." * (self.size_in(env) - len(v))

    def dec(self, buf, pos, env):
        d, pos = model.take(buf, pos, self.size_in(env))
        return d.rstrip(b"."), pos

    def make(self, rt, refs, kw):
        if "dotted" not in rt.own:

            class Dotted(rt.lib.fields.Field):
                def _do_load(self, stream, context, loaded_fields):
                    rt.on("own_load", self.name, context=context, fields=loaded_fields)
                    offset = stream.tell()
                    n = self.get_expected_size(loaded_fields)
                    if n < 0:
                        raise rt.lib.errors.DeserializationError(
                            "negative size", field=self, offset=offset)
                    return take_from(stream, self, n, offset).rstrip(b".")

                def _do_dump(self, stream, data, context, all_fields):
                    rt.on("own_dump", self.name, context=context, fields=all_fields)
                    stream.write(data)

                def _add_padding(self, serialized, to_size):
                    return serialized + b"." * (to_size - len(serialized))

            rt.own["dotted"] = Dotted
        return rt.own["dotted"](size=refs(self.size), **kw)


class PascalKind(Kind):
    """Bytes preceded by their number."""

    def __repr__(self):
        return "pascal"

    def gen(self, ch, env):
        return ch.bytes(ch.pick([0, 1, 2, 3, 5, 8, 255]) if ch.chance(10) else ch.below(6))

    def trivial(self):
        return b""

    def enc(self, v, env):
        if not isinstance(v, (bytes, bytearray)) or len(v) > 255:
            raise DumpError("size")
        return bytes([len(v)]) + v

    def dec(self, buf, pos, env):
        n, pos = model.take(buf, pos, 1)
        return model.take(buf, pos, n[0])

    def make(self, rt, refs, kw):
        if "pascal" not in rt.own:

            class Pascal(rt.lib.fields.Field):
                def _do_load(self, stream, context, loaded_fields):
                    rt.on("own_load", self.name, context=context, fields=loaded_fields)
                    offset = stream.tell()
                    n = take_from(stream, self, 1, offset)[0]
                    return take_from(stream, self, n, offset + 1)

                def _do_dump(self, stream, data, context, all_fields):
                    rt.on("own_dump", self.name, context=context, fields=all_fields)
                    if len(data) > 255:
                        raise rt.lib.errors.ValueSizeError(field=self, value=data)
                    stream.write(bytes([len(data)]))
                    stream.write(data)

                def _size_for_value(self, value):
                    return 1 + len(value)

            rt.own["pascal"] = Pascal
        return rt.own["pascal"](**kw)


ALPHABET = {
    "ascii": "abcXYZ019 ~",
    "iso-8859-1": "abcXYZ019 é\xff",
    "cp1252": "abcXYZ019 €é",
    "koi8-r": "abc019 Яж",
    "cp037": "abcXYZ019",
    "utf-8": "abc019 é€\U0001f600Ā\ufeff",
    "utf-8-sig": "abc019 é€\ufeff",
    "utf-16-le": "abc0 ĀȀ€\U0001f600\ufeff",
    "utf-16-be": "abc0 ĀȀ€\U0001f600\ufeff",
    "utf-16": "abc0 Ā€\ufeff",
    "utf-32-le": "ab0Ā\U0001f600\ufeff",
    "utf-32-be": "ab0Ā\U0001f600\ufeff",
}


def gen_text(ch, encoding, max_bytes):
    """Text whose encoding (BOM included) fits; None if not even '' does."""
    if len("".encode(encoding)) > max_bytes:
        return None
    n = ch.below(9)
    out = ""
    for _ in range(n):
        nxt = out + ch.pick(ALPHABET[encoding])
        if len(nxt.encode(encoding)) > max_bytes:
            break
        out = nxt
    return out


def decode_text(data, encoding):
    try:
        return data.decode(encoding)
    except UnicodeError:
        raise LoadError("invalid", "text") from None


class StringKind(_Sized):
    def __init__(self, size, encoding, pad):
        super().__init__(size)
        self.encoding = encoding
        self.pad = pad

    def __repr__(self):
        return f"str:{self.size}:{self.encoding}:{self.pad}"

    def gen(self, ch, env):
        size = self.size_in(env)
        text = gen_text(ch, self.encoding, size)
        if text is None:
            text = ""
        if self.pad is None:
            # Must fill the field exactly.
            unit = len("a".encode(self.encoding)) - len("".encode(self.encoding))
            while len(text.encode(self.encoding)) + unit <= size:
                text += "a"
        return text

    def trivial(self):
        return "" if self.pad is not None else "a" * (self.fixed or 0)

    def enc(self, v, env):
        try:
            d = v.encode(self.encoding)
        except (UnicodeError, AttributeError):
            raise DumpError("text") from None
        size = self.size_in(env)
        if len(d) > size or (len(d) < size and self.pad is None):
            raise DumpError("size")
        return d + (self.pad or b"") * (size - len(d))

    def dec(self, buf, pos, env):
        d, pos = model.take(buf, pos, self.size_in(env))
        return decode_text(d, self.encoding), pos

    def make(self, rt, refs, kw):
        if self.encoding != "iso-8859-1":
            kw["encoding"] = self.encoding
        if self.pad is not None:
            kw["pad_byte"] = self.pad
        return rt.lib.fields.String(size=refs(self.size), **kw)


class StringZKind(Kind):
    implied = False  # the size follows from the constant
    long = False  # texts may be longer than what 16 bits can count

    def __init__(self, size, encoding, pad):
        self.size = size  # int, name of a field, or None
        if isinstance(size, str):
            self.refs = (size,)
            self.zero_size = True
        else:
            self.fixed = size
        self.encoding = encoding
        self.pad = pad

    def size_in(self, env):
        if self.size is None:
            return super().size_in(env)
        return _Sized.size_in(self, env)

    def __repr__(self):
        return f"strz:{self.size}:{self.encoding}:{self.pad}"

    def gen(self, ch, env):
        limit = 1 << 16
        if self.size is not None:
            size = self.size_in(env)
            limit = size - model.UNIT[self.encoding]
        text = gen_text(ch, self.encoding, limit) or ""
        if self.size is not None and self.pad is None:
            text = "a" * (size // model.UNIT[self.encoding] - 1)  # must fill the field
        elif self.size is None and ch.chance(2):
            text = text + "ab0" * ch.between(100, 400)
        elif self.long and ch.chance(10):
            text = text + "x23" * ch.pick([22000, 1366, 2731, 10923])
        return text

    def trivial(self):
        if self.fixed is not None and self.pad is None:
            return "a" * (self.fixed // model.UNIT[self.encoding] - 1)
        return ""

    def enc(self, v, env):
        try:
            d = (v + "\0").encode(self.encoding)
        except (UnicodeError, TypeError):
            raise DumpError("text") from None
        if self.size is None:
            return d
        size = self.size_in(env)
        if len(d) > size or (len(d) < size and self.pad is None):
            raise DumpError("size")
        return d + (self.pad or b"") * (size - len(d))

    def dec(self, buf, pos, env):
        size = None if self.size is None else self.size_in(env)
        if size is not None and size <= 0:
            raise LoadError("invalid", "no terminator")
        limit = len(buf) if size is None else min(len(buf), pos + size)
        end = model.find_terminator(buf, pos, limit, model.UNIT[self.encoding])
        if end is None:
            # Garbage can be noticed before it's noticed that there's no terminator.
            chunk = bytes(buf[pos:limit])
            try:
                codecs.getincrementaldecoder(self.encoding)().decode(chunk, False)
            except UnicodeError:
                raise LoadError("bad", "text") from None
            if size is not None and pos + size <= len(buf):
                raise LoadError("invalid", "no terminator")
            raise LoadError("eof")
        if self.encoding == "utf-16" and bytes(buf[pos : pos + 2]) not in (
            b"\xff\xfe", b"\xfe\xff"
        ):
            # Python itself is of two minds about a missing byte order mark.
            raise LoadError("any", "text")
        text = decode_text(bytes(buf[pos:end]), self.encoding)
        assert text.endswith("\0")
        if size is None:
            return text[:-1], end
        if pos + size > len(buf):
            raise LoadError("eof")
        return text[:-1], pos + size

    def make(self, rt, refs, kw):
        if self.encoding != "iso-8859-1":
            kw["encoding"] = self.encoding
        if self.pad is not None:
            kw["pad_byte"] = self.pad
        if self.size is not None and not self.implied:
            kw["size"] = refs(self.size)
        return rt.lib.fields.StringZ(**kw)

    @property
    def can_be_bare(self):
        return self.size is None and self.pad is None and self.encoding == "iso-8859-1"

    def bare_class(self, rt):
        return rt.lib.fields.StringZ


class ArrayKind(Kind):
    def __init__(self, comp, count=None, halt=None):
        self.comp = comp  # FieldSpec without a name
        self.count = count  # int, name of a field, or None
        self.halt = halt  # None, ("sentinel", value) or ("peek", byte)
        self.refs = tuple(comp.kind.refs)
        if isinstance(count, str):
            self.refs += (count,)
        self.eof = count is None and halt is None
        if isinstance(count, int) and comp.kind.fixed is not None:
            self.fixed = count * comp.kind.fixed
        self.zero_size = not isinstance(count, int) or count == 0 or comp.kind.zero_size

    def __repr__(self):
        return f"array[{self.comp!r};{self.count};{self.halt}]"

    def n_in(self, env):
        if self.count is None or isinstance(self.count, int):
            return self.count
        n = env.fields.get(self.count, MISSING)
        if not isinstance(n, int):
            raise DumpError("ref")
        return n

    def gen(self, ch, env):
        n = self.n_in(env)
        if n is None:
            n = ch.small(4)
            if self.comp.kind.fixed is not None and ch.chance(2):
                n = ch.between(30, 120)
        out = [gen_value(ch, self.comp, env) for _ in range(n)]
        if self.halt and self.halt[0] == "sentinel":
            out = [x for x in out if not model.same(x, self.halt[1])]
            out.append(self.halt[1])
        elif self.halt and self.halt[0] == "peek":
            ok = []
            for x in out:
                try:
                    d = self.comp.encode(x, env)
                except DumpError:
                    continue
                if d[:1] != self.halt[1]:
                    ok.append(x)
            out = ok
        return out

    def trivial(self):
        if self.halt and self.halt[0] == "sentinel":
            return [self.halt[1]]
        n = self.count if isinstance(self.count, int) else 0
        return [self.comp.kind.trivial() for _ in range(n)]

    def enc(self, v, env):
        if not isinstance(v, (list, tuple)):
            raise DumpError("type")
        n = self.n_in(env)
        if n is not None and n != len(v):
            raise DumpError("count")
        return b"".join(self.comp.encode(x, env) for x in v)

    def dec(self, buf, pos, env):
        out = []
        n = self.n_in(env)
        while True:
            if self.halt is None:
                if n is not None:
                    if len(out) >= n:
                        break
                elif pos >= len(buf):
                    break
            elif self.halt[0] == "sentinel":
                if out and model.same(out[-1], self.halt[1]):
                    break
            elif bytes(buf[pos : pos + 1]) == self.halt[1]:
                break
            x, pos = self.comp.decode(buf, pos, env)
            out.append(x)
        return out, pos

    def to_lib(self, v, rt, form=None):
        items = [self.comp.to_lib(x, rt, form) for x in v]
        if form is not None and form.chance(15):
            return tuple(items)
        return items

    def native(self, v, keep, ctx, loaded):
        if not isinstance(v, list):
            return v
        return [self.comp.kind.native(x, keep, ctx, loaded) for x in v]

    def from_lib(self, v):
        if not isinstance(v, list):
            return Bad(v)
        return [self.comp.from_lib(x) for x in v]

    def make(self, rt, refs, kw):
        comp = self.comp.make(rt, refs, in_array=True)
        if self.count is not None:
            kw["count"] = refs(self.count)
        if self.halt is not None:
            how, what = self.halt
            comp_spec = self.comp

            if how == "sentinel":

                def halt(seq, stream, values, context, loaded):
                    rt.on("halt", "", context=context, fields=loaded, seq=seq,
                          values=values, at=stream)
                    return bool(values) and model.same(
                        comp_spec.from_lib(values[-1]), what
                    )

            else:

                def halt(seq, stream, values, context, loaded):
                    rt.on("halt", "", context=context, fields=loaded, seq=seq,
                          values=values, at=stream)
                    here = stream.tell()
                    b = stream.read(1)
                    stream.seek(here)
                    return b == what

            kw["halt_check"] = halt
        return rt.lib.fields.Array(comp, **kw)


class NestedKind(Kind):
    def __init__(self, spec):
        self.spec = spec
        self.fixed = model.fixed_size(spec)
        self.zero_size = spec.can_be_empty()

    def __repr__(self):
        return f"nested:{self.spec!r}"

    def gen(self, ch, env):
        return gen_struct_values(ch, self.spec, env.ctx)

    def trivial(self):
        return {}

    def enc(self, v, env):
        if not isinstance(v, dict):
            raise DumpError("type")
        d = model.dump(self.spec, v, env.ctx)
        if not d.ok:
            raise d.error
        if self.fixed is not None and len(d.data) != self.fixed:
            raise DumpError("size")
        return d.data

    def dec(self, buf, pos, env):
        got = model.load(self.spec, buf, pos, env.ctx)
        return got.values, got.pos

    def native(self, v, keep, ctx, loaded):
        if not isinstance(v, dict):
            return v
        return model.to_dict(self.spec, v, keep, ctx, loaded)

    def to_lib(self, v, rt, form=None):
        if form is not None and form.chance(30):
            return self.spec.to_lib(v, rt, form)
        return self.spec.cls(**self.spec.to_lib(v, rt, form))

    def from_lib(self, v):
        if not isinstance(v, self.spec.cls):
            return Bad(v)
        return self.spec.from_lib(v)

    def make(self, rt, refs, kw):
        return rt.lib.fields.Nested(self.spec.cls, **kw)

    can_be_bare = True

    def bare_class(self, rt):
        return self.spec.cls


class UnionKind(Kind):
    """Choices are FieldSpecs (anonymous) or StructSpecs; the tag selects one."""

    def __init__(self, tag, choices, by_ctx=False):
        self.tag = tag
        self.choices = choices
        self.by_ctx = by_ctx
        self.refs = (tag,)
        self.zero_size = True

    def __repr__(self):
        return f"union:{self.tag}{self.choices!r}"

    def chosen(self, env):
        n = env.fields.get(self.tag, MISSING)
        if not isinstance(n, int):
            raise DumpError("ref")
        c = self.choices[n % len(self.choices)]
        return c

    def gen(self, ch, env):
        c = self.chosen(env)
        if isinstance(c, StructSpec):
            return gen_struct_values(ch, c, env.ctx)
        if c.const is not MISSING and ch.chance(90):
            return c.const
        for _ in range(4):
            v = gen_value(ch, c, env)
            if v is not None:
                break
        return v

    def trivial(self):
        c = self.choices[0]
        return {} if isinstance(c, StructSpec) else c.kind.trivial()

    def enc(self, v, env):
        c = self.chosen(env)
        if isinstance(c, StructSpec):
            if not isinstance(v, dict) or not set(v) <= set(c.by_name):
                raise DumpError("type")
            d = model.dump(c, v, env.ctx)
            if not d.ok:
                raise d.error
            return d.data
        if v is not None and not isinstance(v, type(c.kind.trivial())):
            # Meant for a different choice.
            raise DumpError("unspecified")
        return c.encode(v, env)

    def dec(self, buf, pos, env):
        c = self.chosen(env)
        if isinstance(c, StructSpec):
            got = model.load(c, buf, pos, env.ctx)
            return got.values, got.pos
        return c.decode(buf, pos, env)

    def native(self, v, keep, ctx, loaded):
        if v == {}:
            return model.ANYTHING  # can't tell which struct it is
        for c in self.choices:
            if isinstance(c, StructSpec):
                if isinstance(v, dict) and v and set(v) <= set(c.by_name):
                    if loaded:
                        return model.to_dict(c, v, keep, ctx, loaded)
                    return {
                        n: c.by_name[n].kind.native(x, keep, ctx, loaded)
                        for n, x in v.items()
                    }
            elif not isinstance(v, dict) and isinstance(v, list) == isinstance(
                c.kind, ArrayKind
            ):
                return c.kind.native(v, keep, ctx, loaded)
        return v

    def to_lib(self, v, rt, form=None):
        if isinstance(v, dict):
            for c in self.choices:
                if isinstance(c, StructSpec) and v and set(v) <= set(c.by_name):
                    if form is not None and form.chance(30):
                        return c.cls(**c.to_lib(v, rt, form))
                    return c.to_lib(v, rt, form)
            return v
        for c in self.choices:
            if not isinstance(c, StructSpec):
                try:
                    return c.to_lib(v, rt, form)
                except (TypeError, AttributeError):
                    continue
        return v

    def from_lib(self, v):
        for c in self.choices:
            if isinstance(c, StructSpec):
                if isinstance(v, c.cls):
                    return c.from_lib(v)
                if user_values and isinstance(v, dict) and set(v) <= set(c.by_name):
                    return {n: c.by_name[n].from_lib(x) for n, x in v.items()}
        for c in self.choices:
            if not isinstance(c, StructSpec):
                r = c.from_lib(v)
                if not isinstance(r, Bad):
                    return r
        return Bad(v)

    def make(self, rt, refs, kw):
        objs = [
            c.cls if isinstance(c, StructSpec) else c.make(rt, refs, in_array=True)
            for c in self.choices
        ]
        tag = self.tag

        def load_decider(stream, classes, context, loaded_fields):
            rt.on("load_decider", tag, context=context, fields=loaded_fields,
                  stream=stream)
            return classes[loaded_fields[tag] % len(classes)]

        def dump_decider(data, classes, context, all_fields):
            rt.on("dump_decider", tag, context=context, fields=all_fields)
            return classes[all_fields[tag] % len(classes)]

        return rt.lib.fields.Union(
            *objs, load_decider=load_decider, dump_decider=dump_decider, **kw
        )


# --- fields ---------------------------------------------------------------------------


class FieldSpec:
    def __init__(self, name, kind, **opts):
        self.name = name
        self.kind = kind
        self.const = opts.pop("const", MISSING)
        self.default = opts.pop("default", MISSING)
        self.factory_obj = opts.pop("factory", None)
        self.compute = opts.pop("compute", None)
        self.present = opts.pop("present", None)
        self.npv = opts.pop("npv", NP)
        self.discard = opts.pop("discard", False)
        self.null = opts.pop("null", MISSING)
        self.validators = opts.pop("validators", [])
        self.ref_by_name = opts.pop("ref_by_name", False)
        self.bare = opts.pop("bare", False)  # declared with just the class (PEP 526)
        assert not opts, opts

    def __repr__(self):
        parts = [f"{self.name}={self.kind!r}"]
        for k in ("const", "default", "null"):
            v = getattr(self, k)
            if v is not MISSING:
                parts.append(f"{k}={v!r}")
        for k in ("factory_obj", "compute", "present"):
            v = getattr(self, k)
            if v is not None:
                parts.append(f"{k}={v!r}")
        if self.discard:
            parts.append("discard")
        if self.npv is not NP:
            parts.append(f"npv={self.npv!r}")
        if self.validators:
            parts.append(f"v={self.validators!r}")
        return "<" + " ".join(parts) + ">"

    @property
    def factory(self):
        return MISSING if self.factory_obj is None else self.factory_obj.value

    @property
    def settable(self):
        return self.const is MISSING and self.compute is None

    def null_fits(self, env):
        try:
            self.null_repr(env)
        except DumpError:
            return False
        return True

    def null_repr(self, env):
        if isinstance(self.null, bytes):
            return self.null
        if self.null is DEFAULT:
            n = self.kind.size_in(env)
            return bytes(max(n, 0))
        return self.kind.enc(self.null, env)

    def encode(self, v, env):
        try:
            return self._encode(v, env)
        except DumpError as err:
            err.path.append(self.name)
            raise

    def _encode(self, v, env):
        for p in self.validators:
            if not p.ok(v):
                raise DumpError("validation", self.name, v)
        if v is None:
            if self.null is MISSING:
                raise DumpError("null", self.name)
            return self.null_repr(env)
        try:
            return self.kind.enc(v, env)
        except (AttributeError, TypeError):
            raise DumpError("type", self.name) from None

    def decode(self, buf, pos, env):
        try:
            return self._decode(buf, pos, env)
        except LoadError as err:
            err.path.append(self.name)
            raise

    def _decode(self, buf, pos, env):
        if self.present is not None and not self.present.model(
            lambda n: env.fields[n], env.ctx
        ):
            return self.npv, pos
        if self.null is not MISSING:
            try:
                rep = self.null_repr(env)
            except DumpError:
                rep = None  # there's no room for it
                if self.null is DEFAULT:
                    raise
            if rep is not None and bytes(buf[pos : pos + len(rep)]) == rep:
                self._check(None)
                return None, pos + len(rep)
        v, pos = self.kind.dec(buf, pos, env)
        if (
            self.null is not MISSING
            and self.null is not DEFAULT
            and type(v) is type(self.null)
            and v == self.null
        ):
            v = None
        if self.const is not MISSING and v != self.const:
            self._refuse(v)
        self._check(v)
        return v, pos

    def _refuse(self, v):
        err = LoadError("validation", self.name)
        err.value = v
        raise err

    def _check(self, v):
        for p in self.validators:
            if not p.ok(v):
                self._refuse(v)

    def to_lib(self, v, rt, form=None):
        if v is None:
            return None
        if v is NP:
            return rt.lib.fields.NOT_PRESENT
        return self.kind.to_lib(v, rt, form)

    def from_lib(self, v):
        if v is None:
            return None
        import binobj

        if v is binobj.fields.NOT_PRESENT:
            return NP
        return self.kind.from_lib(v)

    @property
    def assigned(self):
        """Whether a PEP 526 class assigns the default to the attribute."""
        return (
            self.default is not MISSING
            and self.const is MISSING
            and self.factory_obj is None
            and sum(map(ord, self.name)) % 3 != 0
        )

    def make(self, rt, refs, in_array=False, assigned=False):
        kw = {}
        spec = self
        fields = rt.lib.fields
        if self.const is not MISSING:
            kw["const"] = self.kind.to_lib(self.const, rt)
        if self.default is not MISSING and not assigned:
            kw["default"] = self.to_lib(self.default, rt)
        if self.factory_obj is not None:

            def factory():
                rt.on("factory", spec.name)
                return spec.to_lib(spec.factory_obj.draw(), rt)

            kw["factory"] = factory
        if self.discard:
            kw["discard"] = True
        if self.null is not MISSING:
            kw["null_value"] = fields.DEFAULT if self.null is DEFAULT else (
                self.null if isinstance(self.null, bytes)
                else self.kind.to_lib(self.null, rt)
            )
        if self.validators:
            vs = [self._validator(rt, p) for p in self.validators]
            kw["validate"] = vs if len(vs) > 1 else vs[0]
        if self.present is not None:

            def present(values, context, stream):
                rt.on("present", spec.name, context=context, fields=values, stream=stream)
                return spec.present.model(lambda n: values[n], context)

            kw["present"] = present
        if self.npv is not NP:
            kw["not_present_value"] = self.to_lib(self.npv, rt)
        field = self.kind.make(rt, refs, kw)
        if self.compute is not None:

            def compute(self_field, all_fields):
                rt.on("compute", spec.name, fields=all_fields, me=self_field)
                return spec.compute.model(lambda n: lookup_conv(all_fields[n]))

            field.computes(compute)
        return field

    def _validator(self, rt, pred):
        spec = self

        def validate(field, value):
            rt.on("validator", spec.name, value=value)
            if not pred.ok(conv_any(spec, value)):
                raise rt.lib.errors.ValidationError(field=field, value=value)

        return validate


def lookup_conv(v):
    """Just enough for computed fields: lengths and integers."""
    return list(v) if isinstance(v, tuple) else v


def conv_any(spec, v):
    """Value handed to a validator, in the model's terms as far as predicates care."""
    if isinstance(v, tuple):
        v = list(v)
    if isinstance(v, list):
        try:
            return [spec.kind.comp.from_lib(x) for x in v]
        except AttributeError:
            return v
    return v


# --- structs --------------------------------------------------------------------------


class StructSpec:
    def __init__(self, name, fields, *, style="assign", split=None, meta=None):
        self.name = name
        self.fields = fields
        self.by_name = {f.name: f for f in fields}
        self.style = style
        self.split = split  # number of fields inherited from a base class
        self.meta = meta or {}
        self.options = None  # the very object with the options
        self.method_validators = {}
        self.struct_validators = []
        self.multi_validators = []  # [(names, pred)]
        self.cls = None
        self.base_cls = None

    def __repr__(self):
        return (
            f"{self.name}[{self.style} split={self.split} meta={self.meta}"
            f" {self.fields!r} mv={self.method_validators!r}"
            f" sv={self.struct_validators!r}]"
        )

    def can_be_empty(self):
        return all(f.present is not None or f.kind.zero_size for f in self.fields)

    def nested_specs(self):
        for f in self.fields:
            yield from _specs_in(f.kind)

    def build(self, rt):
        """Declare the classes (nested ones first)."""
        for s in self.nested_specs():
            if s.cls is None:
                s.build(rt)
        made = {}
        cut = self.split or 0
        base = rt.lib.Struct
        if cut:
            base = self._declare(rt, base, self.name + "Base", self.fields[:cut], made)
            self.base_cls = base
        self.cls = self._declare(rt, base, self.name, self.fields[cut:], made, last=True)
        return self.cls

    def _declare(self, rt, base, name, fields, made, last=False):
        from binobj import decorators

        spec = self
        ns = {"__module__": "simulated"}
        if self.meta:
            ns["Meta"] = type("Meta", (), {
                "argument_defaults":
                    self.options if self.options is not None else dict(self.meta),
            })
        annotations = {}
        for f in fields:

            def refs(x, f=f):
                if isinstance(x, str) and not f.ref_by_name:
                    return made[x]
                return x

            if self.style == "dataclass" and f.bare:
                cls = f.kind.bare_class(rt)
                if f.null is DEFAULT:
                    cls = typing.Optional[cls]
                annotations[f.name] = cls
                if f.default is not MISSING:
                    ns[f.name] = f.to_lib(f.default, rt)
                made[f.name] = f.name
                continue
            assigned = self.style == "dataclass" and f.assigned
            obj = f.make(rt, refs, assigned=assigned)
            made[f.name] = obj
            if assigned:
                ns[f.name] = f.to_lib(f.default, rt)
            if self.style == "dataclass":
                if f.ref_by_name and len(f.name) % 2:
                    annotations[f.name] = typing.Annotated[object, obj]
                else:
                    annotations[f.name] = obj
            else:
                ns[f.name] = obj

        def method(pred, key):
            def validate(self_struct, field, value):
                rt.on("method_validator", field.name, value=value, me=self_struct)
                f = spec.by_name[field.name]
                if not pred.ok(conv_any(f, value)):
                    raise rt.lib.errors.ValidationError(field=field, value=value)

            return validate

        inherited = {f.name for f in self.fields[: self.split or 0]}
        for i, (names, pred) in enumerate(self.multi_validators):
            # A validator for inherited fields can be declared in either class.
            in_base = set(names) <= inherited and i % 2 == 0
            if in_base != last:
                ns[f"_check_{i}"] = decorators.validates(*names)(method(pred, i))
        if last:
            for i, sp in enumerate(self.struct_validators):

                def check(self_struct, values, sp=sp):
                    rt.on("struct_validator", "", fields=values)
                    if not sp.ok_struct(values):
                        raise rt.lib.errors.ValidationError(field=sp.a, value=None)

                ns[f"_check_struct_{i}"] = decorators.validates_struct(check)
        if self.style == "dataclass":
            ns["__annotations__"] = annotations
        cls = type(name, (base,), ns)
        if self.style == "dataclass":
            cls = rt.lib.dataclass(cls)
        return cls

    # conversions

    def to_lib(self, values, rt, form=None):
        return {n: self.by_name[n].to_lib(v, rt, form) for n, v in values.items()}

    def from_lib(self, instance):
        """Public contents of an instance."""
        out = {}
        for n in instance:
            if n not in self.by_name:
                out[n] = Bad(instance)
                continue
            v = instance[n]
            out[n] = self.by_name[n].from_lib(v)
        return out


def _specs_in(kind):
    if isinstance(kind, NestedKind):
        yield kind.spec
    elif isinstance(kind, ArrayKind):
        yield from _specs_in(kind.comp.kind)
    elif isinstance(kind, UnionKind):
        for c in kind.choices:
            if isinstance(c, StructSpec):
                yield c
            else:
                yield from _specs_in(c.kind)


# --- generating specs -----------------------------------------------------------------

ENCODINGS = ["iso-8859-1", "ascii", "utf-8", "utf-16-le", "utf-16-be", "utf-32-le",
             "utf-32-be", "cp1252", "koi8-r", "utf-16", "utf-8-sig", "cp037"]
ENDIANS = ["big", "little", None]

ALL_FEATURES = frozenset(
    "nulls conds ctx discard validators computed factory defaults consts unions"
    " eof halt big nested arrays meta styles floats ts own".split()
)


class Gen:
    def __init__(self, ch, rt, features=ALL_FEATURES, max_groups=5):
        self.ch = ch
        self.rt = rt
        self.feat = features
        self.max_groups = max_groups
        self.n_structs = 0
        self.strict = False  # many validators

    def has(self, what):
        return what in self.feat

    # leaf kinds

    def int_kind(self, sizes=(1, 2, 4, 8, 3, 5, 16), signed=None):
        ch = self.ch
        size = ch.pick(sizes)
        if signed is None:
            signed = ch.chance(40)
        return IntKind(size, signed, ch.pick(ENDIANS), ch.chance(15))

    def scalar_kind(self, fixed_only=False, nonzero=False):
        ch = self.ch
        options = [
            (6, "int"), (3, "bytes"), (3, "str"), (1, "uuid"),
        ]
        if self.has("floats"):
            options.append((2, "float"))
        if self.has("ts"):
            options.append((2, "ts"))
        options.append((1, "strz-sized"))
        if self.has("own"):
            options += [(1, "own"), (0 if fixed_only else 1, "pascal")]
        if not fixed_only:
            options += [(3, "strz"), (3, "varint")]
        what = ch.weighted(options)
        if what == "int":
            return self.int_kind()
        if what == "bytes":
            n = ch.between(1 if nonzero else 0, 6)
            if self.has("big") and ch.chance(2):
                # (Not hundreds of those that are this big, though.)
                n = ch.pick([255, 256, 300] if nonzero else [255, 256, 300, 5000, 70000])
            return BytesKind(n)
        if what == "str":
            if self.has("big") and ch.chance(3):
                return self.string_kind(ch.pick([40, 70, 130, 260, 1500]))
            return self.string_kind(ch.between(1 if nonzero else 0, 5))
        if what == "pascal":
            return PascalKind()
        if what == "own":
            how = ch.below(3)
            if how == 0:
                return XorIntKind(ch.pick([1, 2, 4, 8, 3]), False,
                                  ch.pick(["big", "little"]), ch.chance(15))
            cls = DottedKind if how == 1 else ReversedKind
            return cls(ch.between(1 if nonzero else 0, 6))
        if what == "uuid":
            return UuidKind(
                ch.pick(["binary_var_1", "binary_var_2", "canonical_string", "hex_string"])
            )
        if what == "float":
            return FloatKind(ch.pick("efd"), ch.pick(ENDIANS))
        if what == "ts":
            res = ch.pick(["s", "ms", "us", "ns"])
            size = ch.pick({"s": [4, 8, 5], "ms": [8, 6, 12], "us": [8, 12], "ns": [12, 8]}[res])
            return TsKind(
                self.rt, size, res, ch.chance(50), ch.pick(ENDIANS), not ch.chance(20)
            )
        if what == "strz":
            kind = StringZKind(None, ch.pick(ENCODINGS[:-1]), None)
            kind.long = self.has("long") and ch.chance(10)
            return kind
        if what == "strz-sized":
            enc = ch.pick(["iso-8859-1", "utf-8", "utf-16-le", "utf-32-be"])
            unit = model.UNIT[enc]
            size = unit * ch.between(1, 5)
            if self.has("big") and ch.chance(6):
                size = unit * ch.pick([50, 129, 300])
            return StringZKind(size, enc, ch.pick([b" ", None, b"\0", b"\xee"]))
        if what == "varint":
            fmt = ch.pick(["vlq", "uleb128", "compact", "leb128"])
            return VarIntKind(fmt, ch.pick([None, None, None, 2, 5]))
        raise AssertionError(what)

    def string_kind(self, n_units):
        ch = self.ch
        enc = ch.pick(["iso-8859-1", "utf-8", "utf-16-le", "ascii", "utf-32-be", "cp037", "utf-16"])
        unit = model.UNIT[enc]
        size = n_units * unit
        if enc == "utf-16":
            size += 2
        pad = ch.pick([None, b" ", b"\0", b"x"])
        if unit > 1 and pad is not None and size % unit:
            pad = None
        return StringKind(size, enc, pad)

    # options on a plain field

    def preds(self, kind, nullable=False, percent=22):
        ch = self.ch
        out = []
        if not self.has("validators") or not ch.chance(percent):
            return out
        if nullable and ch.chance(40):
            # Nulls are in the data but not (or no longer) wanted.
            out.append(Pred("notnull"))
            if ch.chance(50):
                return out
        for _ in range(ch.between(1, 2)):
            if isinstance(kind, (IntKind, VarIntKind)):
                out.append(ch.pick([
                    Pred("mod", 7, 3), Pred("max", 250), Pred("mod", 16, 15),
                ]))
            elif isinstance(kind, (BytesKind,)):
                out.append(ch.pick([Pred("maxlen", 4), Pred("first", 0x7A)]))
            elif isinstance(kind, (StringKind, StringZKind)):
                out.append(ch.pick([Pred("maxlen", 6), Pred("first", "z")]))
            elif isinstance(kind, ArrayKind):
                out.append(Pred("maxlen", 6))
            elif isinstance(kind, FloatKind):
                out.append(Pred("max", 1e4))
            else:
                out.append(Pred("any"))
        return out

    def null_for(self, kind):
        """A null_value that can't be confused with a prefix of other values too easily."""
        ch = self.ch
        if isinstance(kind, IntKind):
            how = ch.below(3)
            if how == 0:
                return DEFAULT
            v = ch.pick([kind.hi, kind.lo, 1, 0])
            if how == 1:
                return v
            return kind.enc(v, None)
        if isinstance(kind, (BytesKind,)) and kind.fixed:
            return ch.pick([DEFAULT, b"\xff" * kind.fixed])
        if isinstance(kind, StringKind) and kind.fixed:
            return ch.pick([DEFAULT, b"~" * kind.fixed, self.null_text(kind)])
        if isinstance(kind, StringZKind) and kind.fixed:
            return self.null_text(kind)
        if isinstance(kind, StringZKind) and kind.size is None:
            return ch.pick(["~~", ("~!" + "\0").encode(kind.encoding), ""])
        if isinstance(kind, VarIntKind):
            return ch.pick([1, model.varint_encode(kind.fmt, 1), 0])
        if isinstance(kind, (UuidKind,)):
            return ch.pick([DEFAULT, uuid.UUID(int=0), uuid.UUID(int=2**128 - 1),
                            b"-" * kind.fixed])
        if isinstance(kind, TsKind):
            return ch.pick([DEFAULT, b"\xff" * kind.fixed, kind.from_us(10**9 * 10**6)])
        if isinstance(kind, FloatKind):
            return ch.pick([DEFAULT, 1.0, b"\xff" * kind.fixed, 0.0])
        if isinstance(kind, NestedKind) and kind.fixed:
            return ch.pick([DEFAULT, b"\xfe" * kind.fixed])
        if isinstance(kind, ArrayKind) and kind.fixed:
            if (
                isinstance(kind.comp.kind, (IntKind, VarIntKind, _Sized, UuidKind))
                and not kind.comp.validators and kind.halt is None and ch.chance(50)
            ):
                null = kind.gen(ch, model.Env({}, None))
                if None not in null:
                    return null
            return ch.pick([DEFAULT, b"\xfd" * kind.fixed])
        return MISSING

    def null_text(self, kind):
        env = model.Env({}, None)
        text = kind.gen(self.ch, env)
        try:
            kind.enc(text, env)
        except DumpError:
            return DEFAULT
        return text

    def plain(self, name, kind, allow_null=True):
        ch = self.ch
        opts = {}
        if allow_null and self.has("nulls") and ch.chance(15):
            n = self.null_for(kind)
            if n is not MISSING:
                opts["null"] = n
        opts["validators"] = self.preds(kind, "null" in opts)
        how = ch.below(20)
        env = model.Env({}, None)
        if how == 17 and self.has("defaults") and not kind.refs:
            opts["default"] = kind.gen(ch, env)
        elif how == 18 and self.has("factory") and not kind.refs:
            opts["factory"] = Factory(kind.gen(ch, env))
        elif (how == 19 and "null" in opts and self.has("defaults")
              and all(p.ok(None) for p in opts["validators"])):
            opts["default"] = None
        if has_absent(opts.get("default")) or (
            "factory" in opts and has_absent(opts["factory"].value)
        ):
            # What's absent in one context isn't necessarily in another.
            opts.pop("default", None)
            opts.pop("factory", None)
        if self.has("discard") and ch.chance(7):
            opts["discard"] = True
        return FieldSpec(name, kind, ref_by_name=ch.chance(40), **opts)

    def conditional(self, name, depth):
        ch = self.ch
        if not ch.chance(15):
            return self.plain(name(), self.scalar_kind())
        if depth > 0 and self.has("nested") and ch.chance(50):
            kind = NestedKind(self.struct(depth - 1, small=True, nonempty=True))
        else:
            kind = ArrayKind(self.dressed(self.int_kind(sizes=(1, 2))), ch.between(1, 3))
        f = self.plain(name(), kind)
        f.default = MISSING
        f.factory_obj = None
        return f

    def component(self, depth):
        """FieldSpec for array elements and union choices."""
        ch = self.ch
        if depth > 0 and self.has("nested") and ch.chance(20):
            kind = NestedKind(self.struct(depth - 1, small=True, nonempty=True))
        elif depth > 0 and ch.chance(10):
            inner = self.component(depth - 1)
            kind = ArrayKind(inner, ch.between(1, 2))
        else:
            kind = self.scalar_kind(nonzero=True)
        return self.dressed(kind)

    def dressed(self, kind):
        ch = self.ch
        opts = {"validators": []}
        if self.has("nulls") and ch.chance(12):
            n = self.null_for(kind)
            if n is not MISSING:
                opts["null"] = n
        opts["validators"] = self.preds(kind, "null" in opts, 16)
        if (self.has("defaults") and ch.chance(50 if opts["validators"] else 10)
                and not isinstance(kind, (NestedKind, ArrayKind))):
            # (Elements always have values, so it says nothing about any of them, and the
            # validators may well refuse it.)
            for _ in range(6):
                opts["default"] = kind.gen(ch, model.Env({}, None))
                if isinstance(kind, IntKind) and ch.chance(60):
                    opts["default"] = ch.pick([0, 1, 3, 7, 15, min(kind.hi, 255)])
                if any(not p.ok(opts["default"]) for p in opts["validators"]):
                    break
        return FieldSpec(None, kind, **opts)

    @staticmethod
    def _sane_factory(f):
        """Whether an absent field's factory is called and validated is unspecified."""
        if f.factory_obj is not None and not all(
            p.ok(f.factory_obj.value) for p in f.validators
        ):
            f.factory_obj = None

    # groups

    def groups(self, depth, small):
        opts = [(10, "plain"), (3, "sized"), (3, "counted"), (2, "const")]
        if self.has("arrays"):
            opts.append((2, "array"))
            opts.append((1, "grid"))
        if self.has("conds"):
            opts.append((3, "flags"))
        if self.has("ctx"):
            opts.append((1, "ctx"))
        if self.has("unions"):
            opts.append((2, "union"))
        if self.has("unions") and self.has("arrays") and not small:
            opts.append((1, "union-array"))
        if self.has("nested") and depth > 0:
            opts.append((3, "nested"))
        if self.has("halt"):
            opts.append((1, "halt"))
        if self.has("discard"):
            opts.append((1, "pad"))
        if self.has("computed"):
            opts.append((1, "checksum"))
        return opts

    def struct(self, depth=1, small=False, nonempty=False, tail_eof=False,
               visible=False):
        ch = self.ch
        self.n_structs += 1
        sname = f"S{self.n_structs}"
        fields = []
        counter = [0]

        def name():
            counter[0] += 1
            return f"{sname.lower()}_{counter[0]}"

        n_groups = ch.between(1, 2 if small else self.max_groups)
        opts = self.groups(depth, small)
        pending = []  # dependents placed later than their control field
        for _ in range(n_groups):
            what = ch.weighted(opts)
            new, later = self.group(what, name, depth, fields)
            fields += new
            if later:
                if ch.chance(25) and not small:
                    pending.append(later)
                else:
                    fields += later
        for later in pending:
            fields += later
        if visible and not any(
            f.settable and f.present is None and not f.discard
            and f.default is MISSING and f.factory_obj is None for f in fields
        ):
            fields.append(FieldSpec(name(), self.int_kind(sizes=(1, 2))))
        if nonempty and all(
            f.present is not None or f.kind.zero_size for f in fields
        ):
            fields.insert(0, FieldSpec(name(), self.int_kind(sizes=(1, 2))))
        if tail_eof and self.has("eof") and ch.chance(25):
            comp = self.component(0)
            if not comp.kind.zero_size:
                fields.append(FieldSpec(name(), ArrayKind(comp)))
        style = "assign"
        split = None
        meta = {}
        if self.has("styles"):
            style = ch.pick(["assign", "assign", "dataclass"])
            if ch.chance(25) and len(fields) > 1:
                split = ch.between(1, len(fields) - 1)
        if self.has("meta") and ch.chance(20):
            meta = ch.pick([
                {"endian": "big"}, {"endian": "little"}, {"UInt16__endian": "big"},
                {"endian": "big", "UInt8__endian": "little", "Int16__endian": "little"},
                {"Integer__endian": "big", "Int32__endian": "big"},
            ])
        spec = StructSpec(sname, fields, style=style, split=split, meta=meta)
        self._bare(spec)
        self._apply_meta(spec)
        self._late_validators(spec)
        return spec

    def _bare(self, spec):
        if spec.style != "dataclass":
            return
        for f in spec.fields:
            if (
                f.kind.can_be_bare
                and f.const is MISSING
                and f.factory_obj is None
                and f.compute is None
                and f.present is None
                and not f.discard
                and not f.validators
                and f.npv is NP
                and (f.null is MISSING or f.null is DEFAULT)
                and self.ch.chance(50)
            ):
                f.bare = True
                if isinstance(f.kind, IntKind):
                    f.kind.endian = None
                    f.kind.eff = NATIVE
        # Fields declared with just a class can only be referred to by name.
        bare = {f.name for f in spec.fields if f.bare}
        for f in spec.fields:
            if set(f.kind.refs) & bare:
                f.ref_by_name = True

    def _apply_meta(self, spec):
        for f in spec.fields:
            k = f.kind
            if isinstance(k, IntKind) and k.endian is None and spec.meta:
                cls = k.lib_class(self.rt).__name__
                eff = spec.meta.get(cls + "__endian", spec.meta.get("endian"))
                if eff is not None:
                    k.eff = eff

    def _late_validators(self, spec):
        ch = self.ch
        if not self.has("validators"):
            return
        ints = [f for f in spec.fields if isinstance(f.kind, IntKind)
                and f.const is MISSING and f.present is None]
        for _ in range(3 if self.strict else 1):
            if not ints or not ch.chance(80 if self.strict else 15):
                break
            names = [ch.pick(ints).name]
            other = ch.pick(ints).name
            if other not in names and ch.chance(50):
                names.append(other)
            pred = ch.pick([Pred("mod", 5, 4), Pred("max", 60000), Pred("mod", 11, 0)])
            spec.multi_validators.append((tuple(names), pred))
            for n in names:
                spec.method_validators.setdefault(n, []).append(pred)
        others = [f for f in spec.fields if f.const is MISSING and f.present is None
                  and (f not in ints or f.null is not MISSING)]
        if others and ch.chance(12):
            f = ch.pick(others)
            for pred in self.preds(f.kind, f.null is not MISSING, 100):
                spec.multi_validators.append(((f.name,), pred))
                spec.method_validators.setdefault(f.name, []).append(pred)
        if len(ints) > 1 and ch.chance(40 if self.strict else 12):
            a, b = ch.pick(ints), ch.pick(ints)
            spec.struct_validators.append(StructPred(a.name, b.name, 5, 2))

    def control(self, name, hi, computed=None):
        """Unsigned-ish integer field holding a size, a count, a tag, or flags."""
        ch = self.ch
        opts = {}
        if ch.chance(15):
            kind = VarIntKind(ch.pick(["vlq", "uleb128", "leb128"]))
        else:
            kind = self.int_kind(sizes=(1, 2, 4, 3) if hi < 256 else (2, 4, 8),
                                 signed=False if hi > 127 else None)
        if computed is not None and self.has("computed") and ch.chance(55):
            opts["compute"] = computed
        if self.has("discard") and ch.chance(12 if "compute" not in opts else 25):
            opts["discard"] = True
        return FieldSpec(name, kind, **opts)

    def group(self, what, name, depth, before):
        ch = self.ch
        if what == "plain":
            kind = self.scalar_kind()
            return [self.plain(name(), kind)], []
        if what == "sized":
            n, d = name(), name()
            how = ch.below(8)
            if how < 4:
                cls = BytesKind
                if self.has("own") and ch.chance(15):
                    cls = ch.pick([DottedKind, ReversedKind])
                kind = cls(n)
                comp = Compute("bytelen", [d])
            elif how == 4:
                enc = ch.pick(["iso-8859-1", "utf-8", "utf-16-le", "utf-32-be", "utf-16"])
                kind = StringZKind(n, enc, ch.pick([b" ", None, b"\0", b"\xee"]))
                comp = Compute("bytelen", [d], encoding=enc, end="\0")
            else:
                enc = ch.pick(["utf-8", "iso-8859-1", "utf-16-le", "ascii"])
                kind = StringKind(n, enc, ch.pick([None, None, b" "])
                                  if model.UNIT[enc] == 1 else None)
                comp = Compute("bytelen", [d], encoding=enc)
            ctl = self.control(n, 300, comp)
            f = FieldSpec(d, kind, ref_by_name=ch.chance(40),
                          validators=self.preds(kind))
            if (self.has("nulls") and ctl.compute is None and ctl.kind.fixed in (1, 2)
                    and not ctl.kind.signed and ch.chance(10)):
                f.null = DEFAULT
                if isinstance(kind, (StringKind, StringZKind)) and ch.chance(50):
                    f.null = ch.pick(["a", "", "0a", "\0"])
            return [ctl], [f]
        if what == "counted":
            n, d = name(), name()
            comp = self.component(depth)
            kind = ArrayKind(comp, n)
            ctl = self.control(n, 200, Compute("count", [d]))
            f = FieldSpec(d, kind, ref_by_name=ch.chance(40),
                          validators=self.preds(kind))
            return [ctl], [f]
        if what == "grid":
            # Rows of the same size, which can be none at all.
            m, n, d = name(), name(), name()
            how = ch.below(5)
            if how == 0:
                inner = BytesKind(m)
            elif how == 1:
                inner = StringKind(m, ch.pick(["utf-8", "iso-8859-1", "ascii"]),
                                   ch.pick([None, b" "]))
            else:
                cell = self.dressed(self.int_kind(sizes=(1, 2)))
                inner = ArrayKind(cell, m if how < 4 else ch.between(0, 2))
            comp = FieldSpec(None, inner, validators=self.preds(inner, False, 10))
            fields = []
            if inner.refs:
                fields.append(FieldSpec(m, self.int_kind(sizes=(1,))))
            count = n if ch.chance(70) else ch.between(0, 3)
            kind = ArrayKind(comp, count)
            if count is n:
                # (Not so many empty rows that loading damaged data takes forever.)
                fields.append(FieldSpec(n, self.int_kind(sizes=(1,))))
                if self.has("computed") and ch.chance(55):
                    fields[-1].compute = Compute("count", [d])
            return fields, [FieldSpec(d, kind, ref_by_name=ch.chance(40))]
        if what == "const":
            kind = self.scalar_kind()
            if isinstance(kind, (TsKind, FloatKind)) or not self.has("consts"):
                kind = self.int_kind()
            v = kind.gen(ch, model.Env({}, None))
            if kind.fixed is None:
                # The value of a constant gives the field its size.
                kind.fixed = len(kind.enc(v, None))
                if isinstance(kind, StringZKind):
                    kind.size = kind.fixed
                    kind.implied = True
            return [FieldSpec(name(), kind, const=v, discard=self.has("discard") and ch.chance(30))], []
        if what == "array":
            comp = self.component(depth)
            n = ch.between(0, 3)
            if self.has("big") and ch.chance(2) and isinstance(comp.kind, IntKind):
                n = 300
            return [self.plain(name(), ArrayKind(comp, n))], []
        if what == "flags":
            n = name()
            ctl = self.control(n, 255)
            ctl.discard = ctl.discard and False
            later = []
            for i in range(ch.between(1, 3)):
                f = self.conditional(name, depth)
                f.discard = False
                f.present = Present("flag", n, 1 << ch.below(4))
                if isinstance(f.kind, (ArrayKind, NestedKind)):
                    pass
                elif ch.chance(20):
                    f.npv = ch.pick([None, f.kind.trivial()])
                    if f.npv is None and any(not p.ok(None) for p in f.validators):
                        f.npv = NP
                self._sane_factory(f)
                later.append(f)
            return [ctl], later
        if what == "ctx":
            f = self.conditional(name, depth)
            f.present = Present("ctx", ch.pick(["opt", "opt", "never"]))
            f.discard = False
            self._sane_factory(f)
            return [f], []
        if what in ("union", "union-array"):
            t, d = name(), name()
            n = ch.between(2, 3)
            choices = []
            for _ in range(n):
                if self.has("nested") and depth > 0 and ch.chance(40):
                    # With nothing in it, an instance of it looks like any other.
                    # (Nor must a damaged count be able to ask for billions of nothings.)
                    choices.append(self.struct(depth - 1, small=True, visible=True,
                                               nonempty=True))
                else:
                    c = self.dressed(self.scalar_kind(nonzero=True))
                    if (self.has("consts") and ch.chance(12) and c.default is MISSING
                            and isinstance(c.kind, (IntKind, BytesKind))):
                        c.const = c.kind.gen(ch, model.Env({}, None))
                        if c.kind.fixed is None:
                            c.kind.fixed = len(c.const)
                    choices.append(c)
            # Values of different choices must be distinguishable when converted.
            ctl = self.control(t, 100)
            kind = UnionKind(t, choices)
            if what == "union":
                return [ctl], [FieldSpec(d, kind)]
            # All of the elements are of the kind that a field outside of it says.
            comp = FieldSpec(None, kind)
            how = ch.below(3)
            if how == 0:
                return [ctl], [FieldSpec(d, ArrayKind(comp, ch.between(1, 3)))]
            c = name()
            count = self.control(c, 200, Compute("count", [d]))
            return [ctl, count], [FieldSpec(d, ArrayKind(comp, c))]
        if what == "nested":
            return [self.plain(name(), NestedKind(self.struct(depth - 1, small=True)))], []
        if what == "halt":
            d, e = name(), name()
            if ch.chance(50):
                comp = FieldSpec(None, self.int_kind(sizes=(1, 2)))
                sent = ch.pick([0, comp.kind.hi])
                return [FieldSpec(d, ArrayKind(comp, halt=("sentinel", sent)))], []
            comp = FieldSpec(None, self.int_kind(sizes=(1, 2, 4)))
            return [
                FieldSpec(d, ArrayKind(comp, halt=("peek", b"\xff"))),
                FieldSpec(e, IntKind(1, False, None), const=255),
            ], []
        if what == "pad":
            kind = BytesKind(ch.between(1, 3))
            opts = ch.pick([{"const": bytes(kind.fixed)}, {"default": b"\x2e" * kind.fixed}])
            return [FieldSpec(name(), kind, discard=True, **opts)], []
        if what == "checksum":
            targets = [f.name for f in before
                       if f.present is None and f.null is MISSING and not f.kind.eof
                       and f.compute is None and f.factory_obj is None
                       and not isinstance(f.kind, (NestedKind, UnionKind, FloatKind, TsKind, UuidKind))][:3]
            f = FieldSpec(name(), self.int_kind(sizes=(1, 2), signed=False),
                          compute=Compute("sum", targets, mod=200, base=ch.below(5)))
            return [f], []
        raise AssertionError(what)


# --- generating values ------------------------------------------------------------------


def has_absent(v):
    """Does a value say anywhere that something is absent?"""
    if isinstance(v, dict):
        return any(has_absent(x) for x in v.values())
    return v is NP or isinstance(v, list) and any(has_absent(x) for x in v)


def gen_value(ch, f, env):
    """A value for one field that's present, avoiding null look-alikes."""
    if (f.null is not MISSING and ch.chance(30)
            and all(p.ok(None) for p in f.validators) and f.null_fits(env)):
        return None
    for attempt in range(6):
        v = f.kind.gen(ch, env) if attempt < 5 else f.kind.trivial()
        if not all(p.ok(v) for p in f.validators):
            continue
        if f.null is not MISSING:
            try:
                rep = f.null_repr(env)
                if f.kind.enc(v, env).startswith(rep) or v == f.null:
                    continue
            except DumpError:
                pass
        return v
    if (f.null is not MISSING and all(p.ok(None) for p in f.validators)
            and f.null_fits(env)):
        return None
    return v


def control_value(ch, f, hi):
    k = f.kind
    top = min(hi, k.hi) if isinstance(k, IntKind) else hi
    v = ch.small(min(top, 5))
    if ch.chance(3) and top > 100:
        v = ch.between(30, min(top, 300))
    return v


def gen_struct_values(ch, spec, ctx, complete=True):
    """Explicit values such that a dump should (nearly always) succeed."""
    explicit = {}
    seen = {}  # what dependents see
    role = {}
    for f in spec.fields:
        for r in f.kind.refs:
            role[r] = f
    flags = {f.present.args[0] for f in spec.fields
             if f.present is not None and f.present.op == "flag"}
    for f in spec.fields:
        env = model.Env(seen, ctx)
        n = f.name
        if f.const is not MISSING:
            seen[n] = f.const
            continue
        if n in role:
            dep = role[n]
            if isinstance(dep.kind, UnionKind):
                v = ch.below(len(dep.kind.choices))
            elif isinstance(dep.kind, ArrayKind) and n != dep.kind.count:
                inner = dep.kind.comp.kind
                v = ch.below(len(inner.choices) if isinstance(inner, UnionKind) else 4)
            elif isinstance(dep.kind, ArrayKind):
                v = control_value(ch, f, 200)
                inner = dep.kind.comp.kind
                if isinstance(inner, (NestedKind, ArrayKind, UnionKind)):
                    v = min(v, 6)
            else:
                v = control_value(ch, f, 300)
                if isinstance(dep.kind, (StringKind, StringZKind)):
                    v -= v % model.UNIT[dep.kind.encoding]
                if isinstance(dep.kind, StringZKind):
                    v += model.UNIT[dep.kind.encoding]
            for _ in range(6):
                if all(p.ok(v) for p in f.validators + spec.method_validators.get(n, [])):
                    break
                v = (v + 1) % 6
            seen[n] = v
            if f.compute is None or ch.chance(10):
                explicit[n] = v
            continue
        if f.compute is not None:
            seen[n] = 0
            continue
        if f.present is not None:
            try:
                here = f.present.model(lambda m: seen[m], ctx)
            except KeyError:
                here = False
            if not here:
                how = ch.below(6)
                if how == 3:
                    v = gen_value(ch, f, env)
                    # Whether it's validated even though it's absent is nobody's concern.
                    if all(p.ok(v) for p in f.validators):
                        explicit[n] = v
                elif how == 4:
                    explicit[n] = NP
                seen[n] = NP
                continue
        if (f.default is not MISSING or f.factory_obj is not None) and ch.chance(45):
            seen[n] = f.default if f.default is not MISSING else f.factory
            continue
        if n in flags:
            v = ch.below(16)
        else:
            v = gen_value(ch, f, env)
        for _ in range(4):
            if all(p.ok(v) for p in spec.method_validators.get(n, [])):
                break
            v = ch.below(16) if n in flags else gen_value(ch, f, env)
        explicit[n] = v
        seen[n] = v
    return explicit


def spoil_value(ch, f, v, env):
    """A value the field most likely can't be dumped with (ask the model)."""
    if f.null is MISSING and ch.chance(15):
        return None
    k = f.kind
    if v is None or v is NP:
        return v
    if isinstance(k, IntKind):
        return ch.pick([k.hi + 1, k.lo - 1, k.hi * 2 + 2 + abs(v), 1 << 200, -(1 << 200)])
    if isinstance(k, VarIntKind):
        if not k.signed:
            return ch.pick([-1, -64, -1000])
        if k.max_bytes is not None:
            return 1 << (7 * k.max_bytes + 8)
    if isinstance(k, PascalKind):
        return v + bytes(256)
    if isinstance(k, (BytesKind, DottedKind)):
        if not v or ch.chance(50):
            return v + ch.pick([b"!", b"\0", b"longer than expected"])
        return v[: ch.below(len(v))]
    if isinstance(k, (StringKind, StringZKind)):
        how = ch.below(3)
        bad = UNENCODABLE.get(k.encoding)
        if how == 0 and bad is not None:
            at = ch.below(len(v) + 1)
            return v[:at] + bad + v[at + 1 :]
        if how == 1 and v:
            return v[:-1]
        return v + "x" * ch.between(1, 20)
    if isinstance(k, FloatKind):
        return ch.pick({
            "e": [65520.0, -1e6, 1e300, 10**400], "f": [1e39, -1e300, 10**400],
            "d": [10**400, -(10**309)]}[k.fmt])
    if isinstance(k, TsKind):
        lo, hi = k.bounds_us()
        outside = [us for us in (hi + 10**6, hi * 2, lo - 10**6, lo * 2 - 10**9)
                   if abs(us) < 2 * 10**17 and not lo <= us <= hi]
        outside = [us for us in outside if us > model.MIN_US + 4 * 86400 * 10**6]
        return k.from_us(ch.pick(outside)) if outside else v
    if isinstance(k, ArrayKind):
        if v and ch.chance(50):
            i = ch.below(len(v))
            return v[:i] + [spoil_value(ch, k.comp, v[i], env)] + v[i + 1 :]
        if k.count is not None:
            return v[:-1] if v and ch.chance(50) else v + v[:1] * 2
        return v
    if isinstance(k, NestedKind):
        return spoil_struct(ch, k.spec, v, env.ctx)
    return v


UNENCODABLE = {
    "ascii": "\xe9", "iso-8859-1": "€", "cp1252": "\u0416", "koi8-r": "€",
    "cp037": "€", "utf-8": "\ud800", "utf-8-sig": "\udfff", "utf-16-le": "\ud800",
    "utf-16-be": "\ud801", "utf-16": "\udc00", "utf-32-le": "\ud800",
    "utf-32-be": "\ud800",
}


def spoil_struct(ch, spec, values, ctx):
    """Make one value of a struct unserializable, most likely."""
    values = dict(values)
    names = [n for n in values if not spec.by_name[n].validators]
    if names:
        n = ch.pick(names)
        values[n] = spoil_value(ch, spec.by_name[n], values[n], model.Env({}, ctx))
    return values


def consistent_struct(ch, gen, ctx, depth=1, tries=3, **kw):
    """A spec and explicit values which the model can dump; falls back to failing ones."""
    spec = gen.struct(depth, **kw)
    for _ in range(tries):
        values = gen_struct_values(ch, spec, ctx)
        if model.dump(spec, values, ctx).ok:
            break
    return spec, values
