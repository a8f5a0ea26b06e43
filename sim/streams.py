"""Simulated storage: files whose every I/O call is under the simulation's control.

A :class:`SimFile` holds the durable bytes.  :class:`SimRaw` is an open handle with its
own position and fault plan.  Faults that decide a verdict are placed at byte offsets
rather than at call numbers, so they don't depend on how the library slices its I/O.
"""

from __future__ import annotations

import errno
import io
import struct

from .engine import SimCrash
from .engine import SimHang

MAX_OPS = 400_000


class SimFile:
    def __init__(self, data=b""):
        self.data = bytearray(data)


class SimOSError(OSError):
    """An I/O error injected by the simulation."""


class SimTimeout(SimOSError, TimeoutError):
    pass


class SimReset(SimOSError, ConnectionResetError):
    pass


class SimBroken(SimOSError, BrokenPipeError):
    pass


class SimDenied(SimOSError, PermissionError):
    pass


class SimUnsupported(SimOSError, io.UnsupportedOperation):
    pass


class SimInterruptedCall(SimOSError, InterruptedError):
    pass


class SimBlocking(SimOSError, BlockingIOError):
    pass


# What streams stacked on others (decompressing, decrypting ones, closed ones) raise.


class SimEndOfStream(SimOSError, EOFError):
    pass


class SimValueError(SimOSError, ValueError):
    pass


class SimCorrupt(SimOSError, struct.error):
    pass


class SimLookup(SimOSError, KeyError):
    pass


class SimOverflow(SimOSError, OverflowError):
    pass


class SimSignal(BaseException):
    """A signal handler's exception while waiting for I/O (if the plan has ``signals``)."""


FAILURES = (SimOSError, SimSignal)


# Python's own buffers deal with these, so they're for unbuffered streams only.
UNBUFFERED_ERRORS = (SimInterruptedCall, SimBlocking)
ERRORS = (SimOSError, SimOSError, SimTimeout, SimReset, SimBroken, SimDenied,
          SimUnsupported)
STACKED_ERRORS = (SimEndOfStream, SimValueError, SimCorrupt, SimLookup, SimOverflow)


class SimRaw(io.RawIOBase):
    """An unbuffered file handle.

    Plan (all optional):

    * ``short_read``/``short_write``: probability (percent) that a call transfers only
      part of what it could;
    * ``read_error``: (offset, times): reading the byte at ``offset`` fails;
    * ``write_limit``: capacity in bytes (ENOSPC beyond that);
    * ``write_error``: (offset, times): writing the byte at ``offset`` fails with EIO;
    * ``torn``: bytes before the failing offset reach the file before the error;
    * ``unbuffered``: there's no buffer between this and the library (default: True);
    * ``crash_at``: the process dies when the byte at this offset is about to be written;
    * ``signals``: some errors aren't errors but exceptions of a signal handler;
    * ``seek_error``: number of seeks that fail, after ``seek_error_after`` good ones.
    """

    def __init__(self, sim, file, name="f", pos=0, **plan):
        super().__init__()
        self.sim = sim
        self.file = file
        self.fname = name
        self.pos = pos
        self.plan = plan
        self.ops = 0
        self.written_since = 0
        self.on_op = None
        self.failed = 0
        self.raised = []

    # plumbing

    def _oserror(self, code, what):
        kinds = ERRORS
        if self.plan.get("unbuffered", True):
            kinds = ERRORS + UNBUFFERED_ERRORS
        if self.sim.ch.chance(30):
            kinds = STACKED_ERRORS
        if self.plan.get("signals") and self.sim.ch.chance(15):
            kinds = (SimSignal,)
        kind = self.sim.ch.pick(kinds)
        self.sim.hit("error:" + kind.__name__)
        err = kind(code, what)
        self.raised.append((err, err.args))
        return err

    def surfaced(self, err):
        """Is it an error this raised, just as it was raised?"""
        return any(err is e and err.args == args for e, args in self.raised)

    def _op(self, what, *detail):
        self.ops += 1
        self.sim.steps += 1
        if self.ops > MAX_OPS:
            if self.ops > MAX_OPS + 40 * len(self.file.data):
                raise SimHang(f"more than {self.ops - 1} operations on {self.fname}")
        if self.on_op is not None:
            self.on_op(what)

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def _read(self, n):
        data = self.file.data
        avail = max(0, len(data) - self.pos)
        n = avail if n is None or n < 0 else min(n, avail)
        err = self.plan.get("read_error")
        if err is not None and n and err[1] and self.pos <= err[0] < self.pos + n:
            if err[0] > self.pos and self.plan.get("short_read"):
                n = err[0] - self.pos
            else:
                self.plan["read_error"] = (err[0], err[1] - 1)
                self.failed += 1
                self.sim.fault("read-error", self.fname, err[0])
                raise self._oserror(errno.EIO, "simulated read error")
        p = self.plan.get("short_read", 0)
        if n > 1 and p and self.sim.ch.chance(p):
            n = self.sim.ch.between(1, n - 1) if n < 64 else 1 + self.sim.ch.below(n - 1)
            self.sim.faults["short-read"] += 1
            self.sim.nontrivial = True
        out = bytes(data[self.pos : self.pos + n])
        self.pos += n
        return out

    def readinto(self, b):
        self._op("read")
        view = memoryview(b).cast("B")
        out = self._read(len(view))
        view[: len(out)] = out
        return len(out)

    def read(self, size=-1):
        if size is not None and size < 0 or size is None:
            return self.readall()
        self._op("read")
        return self._read(size)

    def readall(self):
        parts = []
        while True:
            self._op("read")
            part = self._read(-1)
            if not part:
                return b"".join(parts)
            parts.append(part)

    def write(self, b):
        self._op("write")
        b = bytes(b)
        n = len(b)
        p = self.plan.get("short_write", 0)
        if n > 1 and p and self.sim.ch.chance(p):
            n = 1 + self.sim.ch.below(n - 1)
            self.sim.faults["short-write"] += 1
            self.sim.nontrivial = True
        stop = None
        why = None
        limit = self.plan.get("write_limit")
        if limit is not None and self.pos + n > limit:
            stop, why = max(limit, self.pos), "enospc"
        err = self.plan.get("write_error")
        if err is not None and err[1] and self.pos <= err[0] < self.pos + n:
            if stop is None or err[0] < stop:
                stop, why = err[0], "write-error"
        crash = self.plan.get("crash_at")
        if crash is not None and self.pos <= crash < self.pos + n:
            if stop is None or crash <= stop:
                stop, why = crash, "crash"
        if why is None:
            self._put(b[:n])
            return n
        keep = stop - self.pos
        if why == "crash":
            self._put(b[:keep])
            self.sim.fault("crash", self.fname, stop)
            self.plan["crash_at"] = None
            raise SimCrash
        if self.plan.get("torn") and keep:
            if self.plan.get("short_write"):
                # A raw handle reports what it wrote, and fails the next time.
                self._put(b[:keep])
                return keep
            self._put(b[:keep])
            self.sim.fault("torn-write", self.fname, stop)
        self.failed += 1
        self.sim.fault(why, self.fname, stop)
        if why == "enospc":
            raise self._oserror(errno.ENOSPC, "simulated full disk")
        self.plan["write_error"] = (err[0], err[1] - 1)
        raise self._oserror(errno.EIO, "simulated write error")

    def _put(self, b):
        data = self.file.data
        if self.pos > len(data):
            data.extend(bytes(self.pos - len(data)))
        data[self.pos : self.pos + len(b)] = b
        self.pos += len(b)

    def seek(self, offset, whence=0):
        self._op("seek")
        n = self.plan.get("seek_error")
        if n:
            after = self.plan.get("seek_error_after", 0)
            if after:
                self.plan["seek_error_after"] = after - 1
            else:
                self.plan["seek_error"] = n - 1
                self.failed += 1
                self.sim.fault("seek-error", self.fname)
                raise self._oserror(errno.EIO, "simulated seek error")
        if whence == 1:
            offset += self.pos
        elif whence == 2:
            offset += len(self.file.data)
        if offset < 0:
            raise OSError(errno.EINVAL, "negative seek position")
        self.pos = offset
        return offset

    def tell(self):
        self._op("tell")
        return self.pos

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        del self.file.data[size:]
        return size

    def flush(self):
        return None


def open_reader(sim, data, pos=0, kinds=("bytesio", "raw", "short", "buffered")):
    """A stream positioned at ``pos`` of ``data``; its kind is drawn."""
    kind = sim.ch.pick(kinds)
    sim.log("open", kind, len(data), pos)
    sim.mark("reader", kind)
    if kind == "bytesio":
        s = io.BytesIO(bytes(data))
        s.seek(pos)
        return s
    file = data if isinstance(data, SimFile) else SimFile(data)
    if kind == "raw":
        return SimRaw(sim, file, "r", pos)
    if kind == "short":
        return SimRaw(sim, file, "r", pos, short_read=sim.ch.pick([60, 100, 20]))
    raw = SimRaw(sim, file, "r", 0, short_read=sim.ch.pick([0, 50]))
    s = io.BufferedReader(raw, buffer_size=sim.ch.pick([8192, 16, 1, 64]))
    s.seek(pos)
    return s


# --- connections ------------------------------------------------------------------------


class Wire:
    """One direction of a connection: bytes sent, in flight, and delivered."""

    def __init__(self, sim, name, capacity):
        self.sim = sim
        self.name = name
        self.capacity = capacity
        self.sent = bytearray()
        self.delivered = 0
        self.closed = False  # nothing more will be delivered
        self.ends_at = None  # the connection breaks after so many bytes

    @property
    def in_flight(self):
        return len(self.sent) - self.delivered

    def deliver(self, n):
        if self.closed:
            return
        n = min(n, self.in_flight)
        if self.ends_at is not None and self.delivered + n >= self.ends_at:
            n = max(0, self.ends_at - self.delivered)
            self.delivered += n
            if not self.closed:
                self.closed = True
                self.sim.fault("connection-lost", self.name, self.delivered)
            return
        self.delivered += n


class WireReader(io.RawIOBase):
    """The receiving end.  What has been received can be read again after a seek."""

    def __init__(self, wire, task, patient=False):
        super().__init__()
        self.wire = wire
        self.task = task
        self.pos = 0
        self.patient = patient  # waits for all that's asked for, as socket files do

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, size=-1):
        w = self.wire
        if size == 0:
            return b""
        if size is None or size < 0:
            self.task.wait_until(lambda: w.closed, f"the end of {w.name}")
        need = size if self.patient and size is not None and size > 0 else 1
        self.task.wait_until(
            lambda: w.delivered >= self.pos + need or w.closed,
            f"byte {self.pos} of {w.name}",
        )
        stop = w.delivered if size is None or size < 0 else min(
            w.delivered, self.pos + size
        )
        out = bytes(w.sent[self.pos : stop])
        if size is not None and 0 < len(out) < size:
            w.sim.faults["short-read"] += 1
        self.pos += len(out)
        w.sim.steps += 1
        return out

    readall = read

    def readinto(self, b):
        view = memoryview(b).cast("B")
        out = self.read(len(view))
        view[: len(out)] = out
        return len(out)

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        if whence == 1:
            offset += self.pos
        elif whence == 2:
            offset += self.wire.delivered
        self.pos = offset
        return offset


class WireWriter(io.RawIOBase):
    """The sending end; blocks while too much is in flight."""

    def __init__(self, wire, task):
        super().__init__()
        self.wire = wire
        self.task = task

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        w = self.wire
        if not b:
            return 0
        self.task.wait_until(
            lambda: w.in_flight < w.capacity or w.closed, f"room in {w.name}"
        )
        if w.closed:
            raise SimOSError(errno.EPIPE, "simulated broken pipe")
        n = min(len(b), w.capacity - w.in_flight)
        if n < len(b):
            w.sim.faults["short-write"] += 1
        w.sent += b[:n]
        w.sim.steps += 1
        return n

    def tell(self):
        return len(self.wire.sent)
