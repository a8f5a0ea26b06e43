"""P17: an array gets exactly as many elements as it declares, whatever feeds it."""

from __future__ import annotations

import collections

from binobj import fields

from .. import model
from .. import schema
from .. import streams
from ..common import VALUE_ERRORS
from ..common import attempt
from ..common import errors
from ..common import world
from ..engine import SimCrash
from ..engine import SimHang

ID = "P17"
LEVEL = "exploration"
RULE = (
    "a run is one array declaration dumped a few times from drawn sources (lists, tuples,"
    " deques, custom sequences, generators and iterators that are too short, too long,"
    " endless or fail) to streams that may fail, then loaded again; non-trivial if a source"
    " was consumed; distinct by declaration, sources and faults"
)
RUNS = {"quick": 90000, "thorough": 1500000}
PROBES = ("too-short", "too-long", "endless", "source-error", "exact", "list", "tuple",
          "deque", "sequence", "generator", "iterator", "write-error", "bad-element",
          "count-field", "count-name", "uncounted", "standalone", "in-struct", "read-back",
          "values", "keys")


class SourceError(Exception):
    pass


class Seq(collections.abc.Sequence):
    """Some user's own sequence."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class Feed:
    """A live source: counts what's taken out of it."""

    def __init__(self, items, fail_at, endless):
        self.items = items
        self.fail_at = fail_at
        self.endless = endless
        self.taken = 0
        self.error = None

    def __iter__(self):
        return self

    def __next__(self):
        i = self.taken
        if self.fail_at is not None and i >= self.fail_at:
            self.error = SourceError(i)
            raise self.error
        if i >= len(self.items):
            if not self.endless:
                raise StopIteration
            if i > len(self.items) + 1000:
                raise SimHang("an endless source was drained")
            self.taken += 1
            return self.items[-1]
        self.taken += 1
        return self.items[i]


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, schema.ALL_FEATURES - {"conds", "ctx"})
    comp = gen.component(ch.pick([0, 0, 1]))
    for s in schema._specs_in(comp.kind):  # noqa: SLF001
        s.build(rt)
    env = model.Env({}, None)
    how = ch.pick(["int", "field", "name", "none"])
    alone = ch.chance(35)
    declared = ch.between(0, 5)
    spec = None
    if alone:
        sim.hit("standalone")
        count = {"int": declared, "field": "n", "name": "n", "none": None}[how]
        kw = {}
        if how == "field":
            n_field = fields.UInt8(name="n")
            kw["count"] = n_field
        elif count is not None:
            kw["count"] = count
        array = fields.Array(comp.make(rt, lambda x: x, in_array=True), name="items", **kw)
        all_fields = {"n": declared} if how in ("field", "name") else {}
    else:
        sim.hit("in-struct")
        fs = [schema.FieldSpec("head", schema.IntKind(2, False, "big"))]
        if how in ("field", "name"):
            fs.append(schema.FieldSpec("n", schema.IntKind(1, False, "big")))
        fs.append(schema.FieldSpec(
            "items", schema.ArrayKind(comp, {"int": declared, "none": None}.get(how, "n")),
            ref_by_name=how == "name"))
        if how != "none":
            fs.append(schema.FieldSpec("tail", schema.IntKind(2, False, "big")))
        spec = schema.StructSpec("S", fs, style=ch.pick(["assign", "dataclass"]))
        spec.build(rt)
    sim.hit({"int": "exact", "field": "count-field", "name": "count-name",
             "none": "uncounted"}[how])
    sim.log("array", comp, how, declared, alone)
    sim.mark("array", repr(comp), how, declared, alone)
    n_elems = None if how == "none" else declared

    for _ in range(ch.between(1, 4)):
        n = declared
        off = ch.pick(["exact", "exact", "short", "long"])
        if off == "short" and declared:
            n = ch.below(declared)
        elif off == "long" or how == "none":
            n = declared + ch.between(1, 3)
        items = []
        for _ in range(n):
            items.append(schema.gen_value(ch, comp, env))
        lib = [comp.to_lib(x, rt, ch) for x in items]
        form = ch.pick(["list", "tuple", "deque", "sequence", "generator", "iterator",
                        "feed", "feed", "values", "keys"])
        if form == "keys" and not (
            all(isinstance(x, (int, str, bytes)) for x in lib)
            and len(set(lib)) == len(lib)
        ):
            form = "values"
        fail_at, endless = None, False
        if form == "feed":
            trouble = ch.pick(["none", "error", "endless"])
            if trouble == "error":
                fail_at = ch.below(n + 1)
            elif trouble == "endless" and items and how != "none":
                endless = True
                sim.hit("endless")
        feed = Feed(lib, fail_at, endless)
        source = {
            "list": lambda: lib, "tuple": lambda: tuple(lib),
            "deque": lambda: collections.deque(lib), "sequence": lambda: Seq(lib),
            "generator": lambda: (x for x in feed), "iterator": lambda: iter(lib),
            "feed": lambda: feed, "values": lambda: dict(enumerate(lib)).values(),
            "keys": lambda: dict.fromkeys(lib) if n % 2 else dict.fromkeys(lib).keys(),
        }[form]()
        sim.hit({"feed": "iterator"}.get(form, form))
        sized = form in ("list", "tuple", "deque", "sequence", "values", "keys")

        # What should come of it.
        enc, bad = [], None
        for i, x in enumerate(items):
            try:
                enc.append(comp.encode(x, env))
            except model.DumpError:
                bad = i
                sim.hit("bad-element")
                break
        head, tail = b"", b""
        if not alone:
            head = b"\xca\xfe" + (bytes([declared]) if how in ("field", "name") else b"")
            tail = b"" if how == "none" else b"\xbe\xef"
        total = len(items) + (10**9 if endless else 0)
        if sized and n_elems is not None and total != n_elems:
            want, cause, body = "size", None, b""
        else:
            limit = total if n_elems is None else min(total, n_elems)
            stop = min(limit, bad if bad is not None else limit,
                       fail_at if fail_at is not None else limit)
            body = b"".join((enc[i] if i < len(enc) else enc[-1]) for i in range(stop))
            if fail_at is not None and stop == fail_at and (bad is None or fail_at <= bad):
                want = "source"
            elif bad is not None and stop == bad:
                want = "element"
            elif n_elems is not None and total != n_elems:
                want = "size"
                sim.hit("too-short" if total < n_elems else "too-long")
            else:
                want = "ok"
        good = head + body + (tail if want == "ok" else b"")

        file = streams.SimFile()
        plan = {}
        if ch.chance(20) and good:
            at = ch.below(len(good))
            if ch.chance(50):
                plan["write_error"] = (at, 1)
            else:
                plan["crash_at"] = at
        raw = streams.SimRaw(
            sim, file, "w", 0, short_write=ch.pick([0, 0, 50]), signals=True, **plan)
        if alone:
            out = attempt(array.to_stream, raw, source, None, all_fields)
        else:
            init = {"head": 0xCAFE, "items": source}
            if how in ("field", "name"):
                init["n"] = declared
            if how != "none":
                init["tail"] = 0xBEEF
            inst = spec.cls(**init)
            out = attempt(inst.to_stream, raw)
        data = bytes(file.data)
        what = (f"{form} of {items!r} (count {n_elems}, fails at {fail_at}, endless"
                f" {endless}) as array of {comp!r}")
        sim.log("dump", form, items, fail_at, endless, want, out, data)
        sim.mark("dump", form, repr(items), fail_at, endless, repr(plan))
        if form in ("generator", "feed") and n_elems is not None:
            sim.check(
                feed.taken <= n_elems + 1, "drained",
                lambda: f"{what}: {feed.taken} elements were taken from the source",
            )
        sim.nontrivial = True
        if raw.failed or isinstance(out.error, SimCrash):
            sim.hit("write-error")
            sim.check(
                (isinstance(out.error, SimCrash) or raw.surfaced(out.error))
                and good.startswith(data),
                "io-error-hidden", lambda: f"{what}: {out!r} {data!r}",
            )
            continue
        if want == "ok":
            sim.check(
                out.ok and data == good, "wrong-bytes",
                lambda: f"{what}: {out!r}, wrote {data!r}, expected {good!r}",
            )
        else:
            sim.check(not out.ok, "wrong-count",
                      lambda: f"{what}: expected a failure ({want}), wrote {data!r}")
            if want == "size":
                kind = errors.ArraySizeError
                good_error = isinstance(out.error, kind)
                if bad is not None and isinstance(out.error, VALUE_ERRORS):
                    good_error = True  # there's more than the size wrong with it
                elif good_error:
                    sim.check(
                        out.error.n_expected == n_elems, "wrong-error",
                        lambda: f"{what}: {out.error!r} expects {out.error.n_expected!r}",
                    )
            elif want == "source":
                sim.hit("source-error")
                good_error = out.error is feed.error
            else:
                good_error = isinstance(out.error, VALUE_ERRORS)
            sim.check(good_error, "wrong-error",
                      lambda: f"{what}: expected a failure ({want}), got {out!r}")
            # (Part of a bad element of several pieces may be out as well.)
            sim.check(
                good.startswith(data) or want == "element" and data.startswith(good),
                "wrong-bytes",
                lambda: f"{what}: wrote {data!r}, not the start of {good!r}",
            )
            continue
        if alone and how == "none" or any(x == b"" for x in enc):
            continue

        # And back.
        n_read = n_elems
        if alone:
            reader = streams.open_reader(sim, data + b"\xaa\xbb")
            got = attempt(array.from_stream, reader, None, all_fields)
            w, werr = None, None
            try:
                kind = schema.ArrayKind(comp, n_read)
                w, end = kind.dec(data + b"\xaa\xbb", 0, env)
            except model.LoadError as err:
                werr = err
            if werr is not None:
                continue
            sim.check(
                got.ok, "load-failed", lambda: f"loading {data!r}, {what}: {got!r}")
            have = schema.ArrayKind(comp, n_read).from_lib(got.value)
            sim.check(
                model.same(have, w) and reader.tell() == end, "wrong-values",
                lambda: f"loading {data!r}, {what}: {have!r} (stream at"
                f" {reader.tell()}), expected {w!r} (at {end})",
            )
        else:
            reader = streams.open_reader(sim, data)
            got = attempt(spec.cls.from_stream, reader)
            try:
                w = model.load(spec, data)
            except model.LoadError:
                continue
            sim.check(
                got.ok and model.same(spec.from_lib(got.value), w.values),
                "wrong-values",
                lambda: f"loading {data!r}, {what}: {got!r}, expected {w.values!r}",
            )
        sim.hit("read-back")
