"""P07. Contract of the constructor DataType(name, parameters): accepts exactly the types of the Trino type system (`spec`), with the
defaults filled in, and leaves its argument alone. Contract of DataType.sql: the text is derived from the grammar's `type`, and the
real visitor's conversion of that derivation is the type (parts by induction)."""
import itertools
from decimal import Decimal

import z3

from pydv import phrase, shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common, trips
from vlib import T

DataType = T.DataType
KINDS = ["int", "bool", "str", "None", "float", "Decimal", "type", "node", "types", "no types", "mixed"]


def given(eng, kind, name):
    return {"int": lambda: eng.int_(name), "bool": lambda: eng.bool_(name), "str": lambda: eng.str_(name), "None": lambda: None,
            "float": lambda: Opaque(float, name), "Decimal": lambda: Opaque(Decimal, name), "type": lambda: shapes.dtype(eng, name),
            "node": lambda: shapes.hole(eng, T.Value, name), "no types": lambda: eng.born([]),
            "types": lambda: shapes.list_of(eng, lambda: shapes.dtype(eng, name), True, name),
            "mixed": lambda: [shapes.dtype(eng, name), eng.str_(name)]}[kind]()


def spec(eng, name, kinds, d):
    """The parameters of the type, or None: as in the Trino documentation (shapes.TYPES: which there are, defaults)"""
    own = {p: (kind, required, default) for p, kind, required, default in shapes.TYPES[name]}
    if set(d) - set(own):
        return None
    out = dict(d)
    for p, (kind, required, default) in own.items():
        if p not in out:
            if required:
                return None
            if default is not None:
                out[p] = default
            continue
        if {"type": ("type",), "types": ("types",)}.get(kind, (kind,)) != (kinds[p],):
            return None
    between = lambda a, x, b: eng.branch(z3.And(eng.z(a) <= eng.z(x), *([eng.z(x) <= eng.z(b)] if b is not None else [])))
    if name == "DECIMAL":
        return out if between(1, out["precision"], 38) and between(0, out["scale"], out["precision"]) else None
    if name in ("VARCHAR", "CHAR"):
        return out if "max_chars" not in out or between(0, out["max_chars"], 65536 if name == "CHAR" else None) else None
    if name in ("TIME", "TIMESTAMP"):
        return out if "precision" not in out or between(0, out["precision"], 12) else None
    if name == "INTERVAL":
        is_ = lambda p, s: eng.truth(eng.eq(out[p], s))
        return out if is_("from_interval", "YEAR") and is_("to_interval", "MONTH") or \
            is_("from_interval", "DAY") and is_("to_interval", "SECOND") else None
    return out


def construct(name, kinds, spelled):
    def harness(eng):
        d = {p: given(eng, k, p) for p, k in kinds.items()}
        eng.pre[id(d)] = d
        before = dict(d)
        eng.start()
        try:
            t = eng.call(DataType, [spelled], {"parameters": d})
        except PyRaise as p:
            t = None
            why = p.exc
        common.unchanged(eng, *([t] if t is not None else []))
        eng.prove(list(d) == list(before) and all(d[k] is before[k] for k in d), "the caller's dictionary is unchanged", repr(d))
        want = spec(eng, name, kinds, before)
        if want is None:
            eng.prove(t is None, "only types that exist are created", f"{name} {before!r}")
            return
        eng.prove(t is not None, "every type that exists can be created", f"{name} {before!r}: {None if t is not None else why!r}")
        eng.prove(common.same(eng, t.type_name, name), "the name in capitals", repr(t.type_name))
        got = t.parameters
        eng.prove(set(got) == set(want) and all(got[k] is want[k] or common.same(eng, got[k], want[k]) for k in want),
                  "parameters with the defaults", f"{got!r} for {want!r}")
    return harness


# What the helpers are called: the type's name in lower case but for these
HELPERS = {"HYPERLOGLOG": "hll", "P4HYPERLOGLOG": "p4hll", "IPADDRESS": "ip", "MAP": "map_"}


def helper(name):
    """Contract of treeno.datatypes.builder.f(**parameters): the type f stands for with these parameters"""
    def harness(eng):
        t = shapes.dtype(eng, "type", [name])
        d = eng.getattr_(t, "parameters")
        eng.start()
        got = eng.call(getattr(T.tb, HELPERS.get(name, name.lower())), [], dict(d))
        common.unchanged(eng)
        d = trips.equal(eng, got, t)
        eng.prove(d is None, "the type with the given parameters", d)
    return harness


def unknown(eng):
    """A name that's none of the types'"""
    s = eng.str_("name")
    up = eng.call_method(s, "upper")
    for n in shapes.TYPES:
        if eng.truth(eng.eq(up, n)):
            raise Infeasible()
    eng.start()
    try:
        t = eng.call(DataType, [s], {"parameters": {}})
    except PyRaise:
        eng.prove(True, "no such type")
        return
    raise Refuted("only types that exist are created", repr(t))


def trip(name, mode, lower=False):
    def harness(eng):
        t = shapes.dtype(eng, "type", [name])
        eng.getattr_(t, "parameters")
        eng.start()
        s = trips.printed(eng, DataType, t, mode)
        common.unchanged(eng)
        try:
            back = eng.call(T.type_from_sql, [s])
        except PyRaise as p:
            raise Refuted("the text is accepted", repr(p.exc))
        d = trips.equal(eng, back, t)
        eng.prove(d is None, "the type that's read is the one that was printed", d)
    return harness


def jobs():
    js = []
    for name, ps in shapes.TYPES.items():
        own = [p for p, *_ in ps]
        for kinds in itertools.product(*[[None] + KINDS for _ in own]):
            d = {p: k for p, k in zip(own, kinds) if k}
            js.append((f"DataType({name}, {', '.join(f'{p}: {k}' for p, k in d.items())})", "treeno.datatypes.types.DataType",
                       common.engine, construct(name, d, name)))
        full = {p: {"type": "type", "types": "types"}.get(kind, kind) for p, kind, *_ in ps}
        for spelled in (name.lower(), name.capitalize()):
            js.append((f"DataType({spelled})", "treeno.datatypes.types.DataType", common.engine, construct(name, full, spelled)))
        for other in sorted({p for qs in shapes.TYPES.values() for p, *_ in qs} - set(own)) + ["other"]:
            js.append((f"DataType({name}, with {other})", "treeno.datatypes.types.DataType", common.engine,
                       construct(name, {**full, other: "int"}, name)))
            js.append((f"DataType({name}, {other} only)", "treeno.datatypes.types.DataType", common.engine,
                       construct(name, {other: "int"}, name)))
        if hasattr(T.tb, HELPERS.get(name, name.lower())):
            js.append((f"builder of {name}", "treeno.datatypes.builder", common.engine, helper(name)))
        for mode in T.PrintMode:
            js.append((f"{name} printed ({mode.name}) and read", "treeno.datatypes.types.DataType.sql, ConvertVisitor", trips.engine, trip(name, mode)))
    js.append(("DataType(unknown name)", "treeno.datatypes.types.DataType", common.engine, unknown))
    return js
