"""P19: declaring more classes, successfully or not, never changes the existing ones."""

from __future__ import annotations

import typing

import binobj
from binobj import decorators
from binobj import fields

from .. import model
from .. import schema
from ..common import CTXS
from ..common import attempt
from ..common import check_dump
from ..common import draw_op
from ..common import errors
from ..common import instance
from ..common import world

ID = "P19"
LEVEL = "exploration"
RULE = (
    "a run is a history of class declarations (a growing tree of structs extending one"
    " another with fields, validators and Meta options, and declarations that fail halfway)"
    " interleaved with operations on any of the classes and on instances made earlier;"
    " non-trivial if a class was used after another one had been derived from it; distinct"
    " by declarations and operations"
)
RUNS = {"quick": 40000, "thorough": 400000}
PROBES = ("derived", "failed-declaration", "used-after-derivation", "old-instance",
          "validator-on-inherited", "struct-validator-added", "meta-overridden",
          "meta-inherited", "rejected-by-inherited-validator", "mixed-styles",
          "offsets-checked", "grandchild", "sibling",
          "without-own-fields", "names-struct", "shared-options")


class Node:
    def __init__(self, spec, parent, meta, own):
        self.spec = spec
        self.parent = parent
        self.meta = meta
        self.own = own
        self.children = 0
        self.depth = parent.depth + 1 if parent else 0

    def facts(self):
        """What can be seen of the class without using it."""
        cls = self.spec.cls
        return {
            "size": cls.get_size(),
            "fields": [
                (f.name, getattr(cls, f.name).name, getattr(cls, f.name).index,
                 getattr(cls, f.name).offset, repr(getattr(cls, f.name).size)
                 if isinstance(getattr(cls, f.name).size, (int, str)) else None)
                for f in self.spec.fields
            ],
            "owners": [
                getattr(getattr(cls, f.name), "__objclass__", None)
                for f in self.spec.fields
            ],
            "dir": sorted(n for n in dir(cls) if not n.startswith("__")),
        }


def declare(sim, rt, gen, parent, number, shared):
    ch = sim.ch
    part = gen.struct(ch.pick([0, 1]), small=True, nonempty=True)
    for s in part.nested_specs():
        if s.cls is None:
            s.build(rt)
    own = part.fields
    if ch.chance(20):
        # Nothing of its own; just a common ancestor, or some more validators.
        own = []
        part.style = "assign"
        sim.hit("without-own-fields")
    own_meta = dict(part.meta) if ch.chance(60) else {}
    if shared and ch.chance(25):
        # Applications keep their options in one place.
        own_meta = ch.pick(shared)[0]
        sim.hit("shared-options")
    elif own_meta or ch.chance(20):
        own_meta = {**own_meta, **{
            n: ch.pick([None, 0, "big", b""])
            for n in ("nosuch", "Nosuch__endian", "UInt8__size", "StringZ__endian")
            if ch.chance(30)
        }}
        shared.append((own_meta, dict(own_meta)))
    meta = own_meta or (parent.meta if parent else {})
    for f in own:
        if isinstance(f.kind, schema.IntKind) and f.kind.endian is None:
            f.kind.eff = schema.NATIVE
    inherited = list(parent.spec.fields) if parent else []
    spec = schema.StructSpec(f"N{number}", inherited + own, style=part.style,
                             meta=own_meta)
    for f in own:
        k = f.kind
        if isinstance(k, schema.IntKind) and k.endian is None and meta:
            name = k.lib_class(rt).__name__
            eff = meta.get(name + "__endian", meta.get("endian"))
            if eff is not None:
                k.eff = eff
    if own_meta and parent and parent.meta:
        sim.hit("meta-overridden")
    elif parent and parent.meta and not own_meta:
        sim.hit("meta-inherited")
    if parent and parent.spec.style != part.style:
        sim.hit("mixed-styles")
    # Validators, of new and of inherited fields.
    spec.multi_validators = []
    ints = [f for f in spec.fields if isinstance(f.kind, schema.IntKind)
            and f.const is model.MISSING and f.present is None]
    for _ in range(ch.pick([0, 1, 2])):
        if ints:
            f = ch.pick(ints)
            pred = ch.pick([schema.Pred("mod", 5, 4), schema.Pred("max", 200),
                            schema.Pred("mod", 3, 1)])
            spec.multi_validators.append(((f.name,), pred))
            if f in inherited:
                sim.hit("validator-on-inherited")
    own_struct = []
    if len(ints) > 1 and ch.chance(30):
        own_struct.append(schema.StructPred(ch.pick(ints).name, ch.pick(ints).name, 3, 1))
        sim.hit("struct-validator-added")
    spec.struct_validators = list(own_struct)
    spec.options = own_meta
    base = parent.spec.cls if parent else binobj.Struct
    out = attempt(spec._declare, rt, base, spec.name, own, {}, True)  # noqa: SLF001
    sim.log("declare", spec.name, parent and parent.spec.name, own, own_meta,
            spec.multi_validators, own_struct, out)
    sim.mark("declare", parent and parent.spec.name, repr(spec))
    sim.check(out.ok, "declaration", lambda: f"can't declare {spec!r}: {out!r}")
    spec.cls = out.value
    # What the model needs to know also comes from above.
    if parent:
        spec.struct_validators = parent.spec.struct_validators + own_struct
        for n, preds in parent.spec.method_validators.items():
            spec.method_validators[n] = list(preds)
        parent.children += 1
        sim.hit("derived")
        if parent.children > 1:
            sim.hit("sibling")
        if parent.parent:
            sim.hit("grandchild")
    for names, pred in spec.multi_validators:
        for n in names:
            spec.method_validators.setdefault(n, []).append(pred)
    return Node(spec, parent, meta, own)


def fail_declaration(sim, rt, nodes):
    """Something that's refused, after part of it has been looked at."""
    ch = sim.ch
    node = ch.pick(nodes)
    cls, spec = node.spec.cls, node.spec
    name = ch.pick(spec.fields).name if spec.fields else None
    what = "two-bases" if name is None else ch.pick(["redefine", "two-bases", "bad-validator", "empty-dataclass",
                    "default-and-factory", "redefine-dataclass", "compute-const",
                    "mixed", "computes-again", "computes-again", "bad-annotation",
                    "two-fields", "validator-no-names", "computes-twice"])
    computed = [f.name for f in spec.fields
                if f.compute is not None or f.const is not model.MISSING]
    if what == "computes-again" and not computed:
        what = "redefine"
    ok = lambda *a: None  # noqa: E731
    if what == "redefine":
        again = fields.UInt16()

        def run():
            type("Bad", (cls,), {
                "extra_": fields.UInt8(),
                "_v": decorators.validates("extra_")(no),
                "_w": decorators.validates(name)(no),
                name: again,
            })
        want = errors.FieldRedefinedError
    elif what == "two-bases":
        other = type("Other", (binobj.Struct,), {"z_": fields.UInt8()})

        def run():
            type("Bad", (cls, other), {"extra_": fields.UInt8()})
        want = errors.MultipleInheritanceError
    elif what == "bad-validator":
        def run():
            type("Bad", (cls,), {
                "extra_": fields.UInt8(),
                "_w": decorators.validates(name)(no),
                "_v": decorators.validates("nosuch")(no),
            })
        want = (KeyError, errors.Error)
    elif what == "empty-dataclass":
        def run():
            binobj.dataclass(type("Bad", (cls,), {"__annotations__": {}}))
        want = errors.NoDefinedFieldsError
    elif what == "redefine-dataclass":
        def run():
            binobj.dataclass(type("Bad", (cls,), {
                "__annotations__": {"extra_": fields.UInt8, name: fields.UInt16},
                "_w": decorators.validates(name)(no),
                "_s": decorators.validates_struct(no),
            }))
        want = errors.FieldRedefinedError
    elif what == "default-and-factory":
        def run():
            type("Bad", (cls,), {"extra_": fields.UInt8(default=1, factory=lambda: 2)})
        want = errors.ConfigurationError
    elif what == "compute-const":
        def run():
            f = fields.UInt8(const=1)
            f.computes(ok)
            type("Bad", (cls,), {"extra_": f})
        want = errors.ConfigurationError
    elif what == "computes-again":
        name = ch.pick(computed)

        def run():
            class Bad(cls):
                extra_ = fields.UInt8()

                @getattr(cls, name).computes
                def _again(self, all_fields):
                    raise AssertionError("never declared")
        want = errors.ConfigurationError
    elif what == "computes-twice":
        def run():
            f = fields.UInt8()
            f.computes(ok)
            f.computes(no)
            type("Bad", (cls,), {"extra_": f})
        want = errors.ConfigurationError
    elif what == "validator-no-names":
        def run():
            type("Bad", (cls,), {
                "extra_": fields.UInt8(),
                "_v": decorators.validates("extra_")(no),
                "_w": decorators.validates(*ch.pick([(), (no,), (name, 1)]))(no),
            })
        want = TypeError
    elif what == "bad-annotation":
        def run():
            binobj.dataclass(type("Bad", (cls,), {
                "__annotations__": {
                    "extra_": fields.UInt8,
                    "more_": typing.Union[fields.UInt8, fields.UInt16],
                },
                "_w": decorators.validates(name)(no),
            }))
        want = errors.InvalidTypeAnnotationError
    elif what == "two-fields":
        def run():
            binobj.dataclass(type("Bad", (cls,), {
                "__annotations__": {
                    "extra_": fields.UInt8,
                    "more_": typing.Annotated[int, fields.UInt8, fields.UInt16()],
                },
                "_w": decorators.validates(name)(no),
            }))
        want = errors.ConfigurationError
    else:
        def run():
            binobj.dataclass(type("Bad", (cls,), {
                "extra_": fields.UInt8(), "__annotations__": {"more_": fields.UInt8},
            }))
        want = errors.MixedDeclarationsError
    out = attempt(run)
    sim.log("bad-declaration", what, spec.name, name, out)
    sim.mark("bad-declaration", what, spec.name, name)
    sim.fault("failed-declaration", what)
    sim.hit("failed-declaration")
    sim.check(
        isinstance(out.error, want), "bad-declaration-accepted",
        lambda: f"{what} based on {spec!r}: {out!r}",
    )
    if what in ("redefine", "two-bases", "empty-dataclass", "redefine-dataclass", "mixed"):
        about = getattr(out.error.struct, "__name__", out.error.struct)
        sim.hit("names-struct")
        sim.check(
            about == "Bad" and "Bad" in str(out.error), "wrong-struct",
            lambda: f"{what} based on {spec!r}: {out!r} is about {about!r}, not 'Bad'",
        )
    if what in ("redefine", "redefine-dataclass"):
        about = out.error.field
        sim.check(
            about == name or what == "redefine" and about is again, "wrong-field",
            lambda: f"{what} based on {spec!r}: {out!r} is about {about!r}, not {name!r}",
        )


def no(*args):
    raise errors.ValidationError(field=None, value=None)


def scenario(sim):
    ch = sim.ch
    rt, gen = world(sim, schema.ALL_FEATURES - {"eof"}, max_groups=2)
    ctx = ch.pick(CTXS)
    gen.strict = ch.chance(30)
    nodes = []
    facts = {}
    shared = []  # (options, what they were)
    live = []  # (node, instance, values)
    for step in range(ch.between(3, 8)):
        how = ch.below(4)
        if not nodes or how == 0:
            parent = ch.pick(nodes) if nodes and ch.chance(80) else None
            node = declare(sim, rt, gen, parent, len(nodes), shared)
            facts[node] = node.facts()
            nodes.append(node)
            offsets(sim, node)
        elif how == 1:
            fail_declaration(sim, rt, nodes)
        else:
            use(sim, rt, ch.pick(nodes), ctx, live)
        for n in nodes:
            now = n.facts()
            sim.check(
                now == facts[n], "class-changed",
                lambda: f"{n.spec!r} changed from {facts[n]!r} to {now!r}",
            )
        for options, before in shared:
            sim.check(
                model.same(options, before), "options-changed",
                lambda: f"the options {before!r} have become {options!r}",
            )
        if live and ch.chance(40):
            n, inst, want, values = ch.pick(live)
            got = attempt(inst.to_bytes, ctx)
            sim.hit("old-instance")
            check_dump(sim, got, got.value if got.ok else b"", want,
                       f"old instance {values!r} of {n.spec!r}")
    for n in nodes:
        use(sim, rt, n, ctx, live)


def offsets(sim, node):
    """Inherited fields stay where they are, and the new ones follow."""
    cls = node.spec.cls
    pos = 0
    for i, f in enumerate(node.spec.fields):
        obj = getattr(cls, f.name)
        sim.check(
            obj.index == i and obj.name == f.name, "wrong-layout",
            lambda: f"{f.name} of {node.spec!r} is field {obj.index}, named {obj.name}",
        )
        owner = node
        while owner.parent and f not in owner.own:
            owner = owner.parent
        sim.check(
            getattr(obj, "__objclass__", None) is owner.spec.cls, "wrong-owner",
            lambda: f"{f.name} of {node.spec!r} is said to be a field of"
            f" {getattr(obj, '__objclass__', None)}, not {owner.spec.cls}",
        )
        if pos is not None and obj.offset is not None:
            sim.check(
                obj.offset == pos, "wrong-layout",
                lambda: f"{f.name} of {node.spec!r} is at {obj.offset}, expected {pos}",
            )
            sim.hit("offsets-checked")
        if f.present is not None or f.kind.fixed is None:
            pos = None
        elif pos is not None:
            pos += f.kind.fixed


def use(sim, rt, node, ctx, live):
    ch = sim.ch
    spec = node.spec
    values = schema.gen_struct_values(ch, spec, ctx)
    if ch.chance(30):
        # A value that some validator refuses, maybe an inherited one.
        bad = [(n, p) for n, preds in spec.method_validators.items() for p in preds]
        if bad:
            n, p = ch.pick(bad)
            v = {"mod": p.args[-1], "max": p.args[0] + 1}[p.op]
            k = spec.by_name[n].kind
            if n in values and k.lo <= v <= k.hi and values[n] is not model.NP:
                values = {**values, n: v}
                sim.hit("rejected-by-inherited-validator")
    want = model.dump(spec, values, ctx)
    out = attempt(instance, sim, spec, values, rt)
    if not out.ok:
        # (Assigning an invalid value is refused.)
        sim.check(
            not want.ok and isinstance(out.error, errors.ValidationError),
            "assignment-refused", lambda: f"{values!r} as {spec!r}: {out!r}",
        )
        return
    got = attempt(out.value.to_bytes, ctx)
    sim.log("use", spec.name, values, got)
    sim.mark("use", spec.name, repr(values))
    if check_dump(sim, got, got.value if got.ok else b"", want,
                  f"{values!r} as {spec!r}"):
        live.append((node, out.value, want, values))
        if not spec.fields:
            return
        op = draw_op(sim, rt, spec, want.data, 0, ctx)
        res = attempt(op.run)
        sim.log("op", op, res)
        op.check(res)
        if node.children:
            sim.hit("used-after-derivation")
            sim.nontrivial = True
