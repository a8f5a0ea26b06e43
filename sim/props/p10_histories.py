"""P10: whatever the history of accesses, a struct holds exactly what was put into it."""

from __future__ import annotations

import copy
import pickle
import sys
import types

import binobj.fields
from binobj import structures

from .. import model
from .. import schema
from ..common import CTXS
from ..common import attempt
from ..common import check_dump
from ..common import clone
from ..common import contents
from ..common import draw_struct
from ..common import errors
from ..common import freeze
from ..common import world

ID = "P10"
LEVEL = "exploration"
RULE = (
    "a run is a drawn history of 5-30 operations on up to three instances of one drawn"
    " class, with callbacks failing at drawn moments, each step compared with a model of"
    " what the instances hold; non-trivial if at least one modification succeeded;"
    " distinct by declaration and history"
)
RUNS = {"quick": 60000, "thorough": 900000}
PROBES = ("op:set", "op:del", "op:load", "set-rejected", "immutable-rejected",
          "callback-error", "op:to_dict", "op:equal", "op:unequal", "op:get-missing",
          "through-proxy", "op:copy.copy", "op:copy.deepcopy", "op:pickle",
          "op:nested-set", "op:append", "op:pop")


class CallbackError(Exception):
    pass


class Held:
    """One instance and what it should hold."""

    def __init__(self, inst, explicit, loaded=False):
        self.inst = inst
        self.explicit = explicit
        self.loaded = loaded  # structs in it are instances even in unions


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim)
    ctx = ch.pick(CTXS)
    spec, values = draw_struct(sim, gen, rt, ctx)
    pool = [values] + [schema.gen_struct_values(ch, spec, ctx) for _ in range(2)]
    names = [f.name for f in spec.fields]
    held = []
    for _ in range(ch.between(5, 30)):
        if not held or (len(held) < 3 and ch.chance(15)):
            create(sim, spec, rt, ctx, pool, held)
            continue
        if len(held) < 4 and ch.chance(6):
            do_copy(sim, spec, rt, held)
            for k, other in enumerate(held):
                verify(sim, spec, other, f"instance {k} after copying")
            continue
        i = ch.below(len(held))
        h = held[i]
        op = ch.weighted([
            (5, "set"), (3, "get"), (2, "del"), (2, "dump"), (1, "to_dict"), (1, "eq"),
            (1, "len"), (1, "bad-name"), (1, "fail"), (1, "set-bad"), (1, "inside"),
        ])
        sim.mark(i, op)
        OPS[op](sim, spec, rt, ctx, pool, h, names)
        for k, other in enumerate(held):
            verify(sim, spec, other, f"instance {k} after {op} on {i}")


def verify(sim, spec, h, what):
    if not h.loaded:
        schema.user_values.append(1)
    try:
        _verify(sim, spec, h, what)
    finally:
        schema.user_values.clear()


def _verify(sim, spec, h, what):
    have = [n for n in h.inst]
    sim.check(
        sorted(have) == sorted(h.explicit) and len(set(have)) == len(have),
        "wrong-fields",
        lambda: f"{what}: defined fields are {have!r}, expected {sorted(h.explicit)!r}",
    )
    for n in have:
        v = spec.by_name[n].from_lib(h.inst[n])
        sim.check(
            model.same(v, h.explicit[n]), "wrong-value",
            lambda: f"{what}: {n} is {v!r}, expected {h.explicit[n]!r} ({spec!r})",
        )


def create(sim, spec, rt, ctx, pool, held):
    ch = sim.ch
    values = ch.pick(pool)
    how = ch.pick(["init", "partial", "load", "empty"])
    if how == "load":
        d = model.dump(spec, values, ctx)
        want = None
        if d.ok:
            try:
                want = model.load(spec, d.data, 0, ctx)
            except model.LoadError:
                want = None
        if want is not None and want.pos == len(d.data):
            init = {}
            out = attempt(spec.cls.from_bytes, d.data, ctx)
            sim.check(out.ok, "load-failed", lambda: f"{d.data!r} as {spec!r}: {out!r}")
            sim.hit("op:load")
            held.append(Held(out.value, clone(dict(want.values, **init)), True))
            sim.log("load", d.data)
            return
    if how == "partial":
        values = {n: v for n, v in values.items() if ch.chance(50)}
    elif how == "empty":
        values = {}
    lib = {n: spec.by_name[n].to_lib(v, rt) for n, v in values.items()}
    out = attempt(lambda: spec.cls(**lib))
    sim.log("create", values, out)
    sim.check(out.ok, "constructor", lambda: f"{values!r} as {spec!r}: {out!r}")
    held.append(Held(out.value, clone(values)))


def publish(spec, module):
    """Make the classes importable, as pickle needs them."""
    for s in spec.nested_specs():
        publish(s, module)
    setattr(module, spec.cls.__name__, spec.cls)


def do_copy(sim, spec, rt, held):
    """Another instance that's a copy; modifying it leaves the original as it is."""
    ch = sim.ch
    h = ch.pick(held)
    how = ch.pick(["copy.copy", "copy.copy", "copy.deepcopy", "pickle"])
    if how == "pickle":
        module = sys.modules["simulated"] = types.ModuleType("simulated")
        publish(spec, module)
        protocol = ch.between(2, pickle.HIGHEST_PROTOCOL)
        try:
            out = attempt(lambda: pickle.loads(pickle.dumps(h.inst, protocol)))
        finally:
            del sys.modules["simulated"]
    elif how == "copy.copy":
        out = attempt(copy.copy, h.inst)
    else:
        out = attempt(copy.deepcopy, h.inst)
    sim.log("copy", how, out)
    sim.mark("copy", how)
    sim.check(
        out.ok and type(out.value) is spec.cls and out.value is not h.inst, "copy-failed",
        lambda: f"{how} of {h.explicit!r} as {spec!r}: {out!r}",
    )
    sim.hit("op:" + how)
    # What's inside of a shallow copy is the very same.
    inside = dict if how == "copy.copy" else clone
    held.append(Held(out.value, inside(h.explicit), h.loaded))


def do_inside(sim, spec, rt, ctx, pool, h, names):
    """Modify something nested in the struct in place."""
    ch = sim.ch
    places = []

    def search(spec, inst, explicit):
        for n, v in explicit.items():
            f = spec.by_name[n]
            kind = f.kind
            if f.validators or (h.loaded and has_union(kind)):
                continue
            if spec.method_validators.get(n) or any(
                n in ns for ns, _ in spec.multi_validators
            ):
                continue
            have = inst[n]
            if isinstance(kind, schema.NestedKind) and isinstance(v, dict):
                places.append((kind, f, have, v))
                search(kind.spec, have, v)
            elif isinstance(kind, schema.ArrayKind) and isinstance(v, list):
                if type(have) is list and not isinstance(kind.comp.kind, schema.UnionKind):
                    places.append((kind, f, have, v))

    search(spec, h.inst, h.explicit)
    if not places:
        return
    kind, f, have, v = ch.pick(places)
    sim.nontrivial = True
    if isinstance(kind, schema.ArrayKind):
        if v and ch.chance(50):
            i = ch.below(len(v))
            sim.log("pop", f.name, i)
            sim.hit("op:pop")
            del have[i]
            del v[i]
            return
        x = clone(ch.pick(v)) if v and ch.chance(70) else kind.comp.kind.trivial()
        sim.log("append", f.name, x)
        sim.hit("op:append")
        have.append(kind.comp.to_lib(x, rt))
        v.append(x)
        return
    inner = [
        g for g in kind.spec.fields
        if g.settable and not g.validators and not (h.loaded and has_union(g.kind))
        and not kind.spec.method_validators.get(g.name)
        and not any(g.name in ns for ns, _ in kind.spec.multi_validators)
    ]
    if not inner:
        return
    g = ch.pick(inner)
    if g.name in v and ch.chance(30):
        sim.log("nested-del", f.name, g.name)
        del have[g.name]
        del v[g.name]
        return
    x = g.kind.trivial()
    if isinstance(g.kind, schema.IntKind):
        x = ch.between(0, 3)
    sim.log("nested-set", f.name, g.name, x)
    sim.hit("op:nested-set")
    have[g.name] = g.to_lib(x, rt)
    v[g.name] = x


def has_union(kind):
    if isinstance(kind, schema.UnionKind):
        return True
    if isinstance(kind, schema.NestedKind):
        return any(has_union(f.kind) for f in kind.spec.fields)
    return isinstance(kind, schema.ArrayKind) and has_union(kind.comp.kind)


def put(sim, h, name, value):
    how = sim.ch.below(8)
    if how < 4:
        h.inst[name] = value
    elif how < 7:
        setattr(h.inst, name, value)
    else:
        sim.hit("through-proxy")
        structures.MutableStructMappingProxy(h.inst)[name] = value


def proxy(sim, inst):
    """A view on the struct."""
    sim.hit("through-proxy")
    return sim.ch.pick([
        structures.MutableStructMappingProxy, structures.StructMappingProxy,
    ])(inst)


def do_set(sim, spec, rt, ctx, pool, h, names):
    ch = sim.ch
    n = ch.pick(names)
    f = spec.by_name[n]
    source = ch.pick(pool)
    if n in source:
        v = source[n]
    else:
        v = f.kind.trivial()
    if v is model.NP and f.validators:
        return
    if h.loaded and has_union(f.kind):
        return
    out = attempt(put, sim, h, n, f.to_lib(v, rt))
    sim.log("set", n, v, out)
    if not f.settable:
        sim.hit("immutable-rejected")
        sim.check(
            isinstance(out.error, errors.ImmutableFieldError), "wrong-error",
            lambda: f"setting {n} of {spec!r}: {out!r}",
        )
        return
    if not all(p.ok(v) for p in f.validators):
        sim.hit("set-rejected")
        sim.check(
            isinstance(out.error, errors.ValidationError), "validator-bypassed",
            lambda: f"setting {n} to {v!r} in {spec!r}: {out!r}",
        )
        return
    sim.check(out.ok, "set-failed", lambda: f"setting {n} to {v!r} in {spec!r}: {out!r}")
    sim.hit("op:set")
    sim.nontrivial = True
    h.explicit[n] = clone(v)


def do_set_bad(sim, spec, rt, ctx, pool, h, names):
    """A value a validator doesn't like."""
    ch = sim.ch
    bad = []
    for f in spec.fields:
        if f.settable and f.validators and isinstance(f.kind, schema.IntKind):
            for v in (f.kind.hi, f.kind.hi - 1, 6, 17, 41):
                if not all(p.ok(v) for p in f.validators):
                    bad.append((f, v))
    if not bad:
        return
    f, v = ch.pick(bad)
    out = attempt(put, sim, h, f.name, v)
    sim.log("set-bad", f.name, v, out)
    sim.hit("set-rejected")
    sim.check(
        isinstance(out.error, errors.ValidationError), "validator-bypassed",
        lambda: f"setting {f.name} to {v!r} in {spec!r}: {out!r}",
    )


def do_get(sim, spec, rt, ctx, pool, h, names):
    ch = sim.ch
    n = ch.pick(names)
    try:
        want = model.value_of(spec, h.explicit, n)
    except model._Unset:  # noqa: SLF001
        want = model.MISSING
    how = ch.below(8)
    if how < 4:
        out = attempt(h.inst.__getitem__, n)
    elif how < 7:
        out = attempt(getattr, h.inst, n)
    else:
        view = proxy(sim, h.inst)
        sim.check(
            [k for k in view] == [k for k in h.inst], "proxy-differs",
            lambda: f"{view!r} has {[k for k in view]!r}",
        )
        out = attempt(view.__getitem__, n)
    sim.log("get", n, out)
    what = f"reading {n} of {h.explicit!r} as {spec!r}"
    if want is model.MISSING:
        sim.hit("op:get-missing")
        sim.check(
            isinstance(out.error, errors.MissingRequiredValueError), "wrong-error",
            lambda: f"{what}: {out!r}",
        )
        return
    sim.check(out.ok, "get-failed", lambda: f"{what}: {out!r}")
    if not h.loaded or n not in h.explicit:
        schema.user_values.append(1)
    have = spec.by_name[n].from_lib(out.value)
    schema.user_values.clear()
    sim.check(
        model.same(have, want), "wrong-value",
        lambda: f"{what}: got {have!r}, expected {want!r}",
    )


def do_del(sim, spec, rt, ctx, pool, h, names):
    n = sim.ch.pick(names)
    if sim.ch.chance(12):
        sim.hit("through-proxy")
        view = structures.MutableStructMappingProxy(h.inst)
        out = attempt(view.__delitem__, n)
    else:
        out = attempt(h.inst.__delitem__, n)
    sim.log("del", n, out)
    sim.check(out.ok, "del-failed", lambda: f"deleting {n} of {spec!r}: {out!r}")
    if n in h.explicit:
        sim.hit("op:del")
        sim.nontrivial = True
    h.explicit.pop(n, None)


def do_dump(sim, spec, rt, ctx, pool, h, names):
    want = model.dump(spec, h.explicit, ctx)
    out = attempt(h.inst.to_bytes, ctx)
    sim.log("dump", out)
    check_dump(sim, out, out.value if out.ok else b"", want,
               f"dumping {h.explicit!r} as {spec!r}")


def do_len(sim, spec, rt, ctx, pool, h, names):
    want = model.dump(spec, h.explicit, None)
    if not want.ok:
        return
    out = attempt(len, h.inst)
    sim.log("len", out)
    sim.check(
        out.ok and out.value == len(want.data), "wrong-length",
        lambda: f"len() of {h.explicit!r} as {spec!r} is {out!r}, not {len(want.data)}",
    )


def plain(v):
    """The output of to_dict() in the model's terms."""
    if v is binobj.fields.NOT_PRESENT:
        return model.NP
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, binobj.Struct):
        return schema.Bad(v)
    return v


def do_to_dict(sim, spec, rt, ctx, pool, h, names):
    keep = sim.ch.chance(50)
    if h.loaded and any(
        has_union(f.kind) for f in spec.fields if f.name not in h.explicit
    ):
        return  # defaults aren't loaded values
    try:
        want = model.to_dict(spec, h.explicit, keep, ctx, h.loaded)
    except model.Incomplete:
        want = None
    out = attempt(h.inst.to_dict, keep, ctx)
    sim.log("to_dict", keep, out)
    what = f"to_dict({keep}) of {h.explicit!r} as {spec!r}"
    if want is None:
        sim.check(
            # A callback looking for the missing value can be what fails.
            isinstance(out.error, (errors.MissingRequiredValueError, KeyError)),
            "wrong-error", lambda: f"{what}: {out!r}",
        )
        return
    sim.hit("op:to_dict")
    sim.check(out.ok, "to_dict-failed", lambda: f"{what}: {out!r}")
    have = plain(out.value)
    sim.check(
        model.same(have, want), "wrong-dict",
        lambda: f"{what}: got {have!r}, expected {want!r}",
    )
    # It's the caller's to change.
    before = freeze(h.inst)
    for k in list(out.value):
        if isinstance(out.value[k], (list, dict)):
            out.value[k].clear()
    out.value.clear()
    sim.check(
        model.same(before, freeze(h.inst)), "dict-aliases-struct",
        lambda: f"{what}: modifying the dict changed the struct to {freeze(h.inst)!r}",
    )


def do_eq(sim, spec, rt, ctx, pool, h, names):
    ch = sim.ch
    if h.loaded or _has_nan(h.explicit):
        return
    lib = {n: spec.by_name[n].to_lib(v, rt) for n, v in h.explicit.items()}
    order = list(lib)
    if ch.chance(50):
        # (No matter when each of them was set.)
        order = ch.shuffle(order)
    lib = {n: lib[n] for n in order}
    twin = spec.cls(**lib) if ch.chance(60) else lib
    out = attempt(lambda: (h.inst == twin, h.inst != twin, twin == h.inst))
    sim.log("eq", out)
    if not out.ok:
        return  # a nested struct is incomplete
    sim.hit("op:equal")
    sim.check(
        out.value == (True, False, True), "not-equal",
        lambda: f"{h.inst!r} and {twin!r} compare (eq, ne) {out!r}",
    )
    # A different value for one field makes a difference, and so does one more or less.
    ints = [n for n in h.explicit
            if isinstance(spec.by_name[n].kind, (schema.IntKind, schema.VarIntKind))
            and type(h.explicit[n]) is int]
    unset = [f for f in spec.fields
             if f.name not in h.explicit and isinstance(f.kind, schema.IntKind)]
    other = dict(lib)
    how = ch.pick(["less", "more", "other", "other"])
    if how == "more" and unset:
        f = ch.pick(unset)
        other[f.name] = f.default if type(f.default) is int else ch.below(3)
    elif not ints:
        return
    elif how == "less":
        del other[ch.pick(ints)]
    else:
        n = ch.pick(ints)
        other[n] = h.explicit[n] + 1
    twin = spec.cls(**other) if ch.chance(60) else other
    out = attempt(lambda: (h.inst == twin, h.inst != twin, twin == h.inst))
    sim.hit("op:unequal")
    sim.check(
        out.ok and out.value == (False, True, False), "equal",
        lambda: f"{h.inst!r} and {twin!r} compare (eq, ne, reflected eq) {out!r}",
    )


def do_bad_name(sim, spec, rt, ctx, pool, h, names):
    what = sim.ch.pick(["get", "set", "del", "init"])
    if what == "get":
        out = attempt(h.inst.__getitem__, "nosuch")
    elif what == "set":
        out = attempt(h.inst.__setitem__, "nosuch", 1)
    elif what == "del":
        out = attempt(h.inst.__delitem__, "nosuch")
    else:
        out = attempt(lambda: spec.cls(nosuch=1))
    sim.log("bad-name", what, out)
    want = errors.UnexpectedValueError if what == "init" else KeyError
    sim.check(
        isinstance(out.error, want), "wrong-error", lambda: f"{what} nosuch: {out!r}"
    )


def do_fail(sim, spec, rt, ctx, pool, h, names):
    """A callback blows up in the middle of something."""
    ch = sim.ch
    at = ch.between(1, 6)
    count = [0]
    blown = []

    def hook(kind, name, info):
        count[0] += 1
        if count[0] == at:
            sim.fault("callback-error", kind, name)
            sim.hit("callback-error")
            blown.append(CallbackError(kind))
            raise blown[0]

    rt.hook = hook
    op = ch.pick(["set", "get", "dump", "to_dict", "len"])
    n = ch.pick(names)
    f = spec.by_name[n]
    v = None
    if op == "set":
        v = ch.pick(pool).get(n, model.MISSING)
        if v is model.MISSING or not f.settable or (v is model.NP) or (
            h.loaded and has_union(f.kind)
        ):
            rt.hook = None
            return
        out = attempt(put, sim, h, n, f.to_lib(v, rt))
    elif op == "get":
        out = attempt(h.inst.__getitem__, n)
    elif op == "dump":
        out = attempt(h.inst.to_bytes, ctx)
    elif op == "to_dict":
        out = attempt(h.inst.to_dict)
    else:
        out = attempt(len, h.inst)
    rt.hook = None
    sim.log("fail", op, n, v, out)
    if blown:
        sim.check(
            not out.ok, "callback-error-hidden",
            lambda: f"{op} {n} of {spec!r}: {blown[0]!r} raised, but {out!r}",
        )
    elif op == "set" and out.ok:
        h.explicit[n] = clone(v)


def _has_nan(x):
    if isinstance(x, float):
        return x != x
    if isinstance(x, dict):
        return any(map(_has_nan, x.values()))
    if isinstance(x, (list, tuple)):
        return any(map(_has_nan, x))
    return False


OPS = {
    "set": do_set, "get": do_get, "del": do_del, "dump": do_dump, "len": do_len,
    "to_dict": do_to_dict, "eq": do_eq, "bad-name": do_bad_name, "fail": do_fail,
    "set-bad": do_set_bad, "inside": do_inside,
}
