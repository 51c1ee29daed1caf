"""Arbitrary well-formed values of the library's types (preconditions of the contracts)"""
import enum
import typing
from decimal import Decimal

import attr

from pydv.engine import concrete_subclasses
from pydv.values import *  # noqa
from vlib import T

NoneType = type(None)
BY_NAME = {}
for _c in T.node_classes():
    BY_NAME[_c.__name__] = _c
for _n in ("Value", "Expression", "Query", "Relation", "Group", "GroupingSet", "FrameBound", "JoinCriteria", "JoinConfig", "Schema", "Function", "Sql"):
    BY_NAME[_n] = getattr(T, _n)

# What each data type is parametrised by (from the Trino documentation, not from the code):
# name -> [(parameter, kind, required, default)]
TYPES = {n: [] for n in ("BOOLEAN INTEGER TINYINT SMALLINT BIGINT REAL DOUBLE VARBINARY JSON DATE IPADDRESS UUID HYPERLOGLOG "
                         "P4HYPERLOGLOG TDIGEST UNKNOWN").split()}
TYPES.update({
    "DECIMAL": [("precision", "int", False, 38), ("scale", "int", False, 0)],
    "VARCHAR": [("max_chars", "int", False, None)],
    "CHAR": [("max_chars", "int", False, 1)],
    "TIME": [("precision", "int", False, None), ("timezone", "bool", False, False)],
    "TIMESTAMP": [("precision", "int", False, None), ("timezone", "bool", False, False)],
    "ARRAY": [("dtype", "type", True, None)],
    "QDIGEST": [("dtype", "type", True, None)],
    "MAP": [("from_dtype", "type", True, None), ("to_dtype", "type", True, None)],
    "ROW": [("dtypes", "types", True, None)],
    "INTERVAL": [("from_interval", "str", True, None), ("to_interval", "str", True, None)],
})


def values_of(cls):
    """The classes an arbitrary value of a type can have"""
    return concrete_subclasses(cls)


def hole(eng, cls, name="", optional=False, exclude=(), owner=None):
    if cls is T.DataType:
        return dtype(eng, name)
    if getattr(eng, "excluded", None) is not None:
        exclude = tuple(exclude) + tuple(eng.excluded(owner, name))
    cs = [c for c in values_of(cls) if c not in exclude]
    if optional:
        cs = [NoneType] + cs
    h = Hole(cs, eng.name(name or cls.__name__.lower()))
    eng.pre[id(h)] = h
    return h


def dtype(eng, name="", names=None):
    h = Hole((T.DataType,), eng.name(name or "type"))
    h.fields["type_name"] = Fin(names or list(TYPES), h.name + ".type_name")
    eng.pre[id(h)] = h
    return h


def dtype_parameters(eng, h):
    """The parameters of a well-formed data type"""
    n = eng.force(h.fields["type_name"])
    d = {}
    for p, kind, required, default in TYPES[n]:
        if kind == "int":
            if default is None and eng.choose(2, (h.name, p)) == 1:
                continue
            d[p] = eng.int_(p, 0)
        elif kind == "bool":
            d[p] = eng.bool_(p)
        elif kind == "type":
            d[p] = dtype(eng, p)
        elif kind == "types":
            d[p] = list_of(eng, lambda: dtype(eng, p), nonempty=True)
    if n == "DECIMAL":
        eng.assume(d["precision"].e >= 1)
        eng.assume(d["precision"].e <= 38)
        eng.assume(d["scale"].e <= d["precision"].e)
    elif n == "CHAR":
        eng.assume(d["max_chars"].e <= 65536)
    elif n in ("TIME", "TIMESTAMP"):
        if "precision" in d:
            eng.assume(d["precision"].e <= 12)
    elif n == "INTERVAL":
        d["from_interval"], d["to_interval"] = [("YEAR", "MONTH"), ("DAY", "SECOND")][eng.choose(2, (h.name, "interval"))]
    eng.pre[id(d)] = d
    return d


def list_of(eng, make, nonempty=False, name="L"):
    e = Each(eng.base(name, nonempty), [make()])
    e.make = make
    l = [e]
    eng.pre[id(l)] = l
    return l


NONEMPTY_LISTS = {("Array", "values"), ("Case", "branches"), ("InList", "exprs"), ("RowConstructor", "values"), ("SelectQuery", "select"),
                  ("ValuesQuery", "exprs"), ("GroupBy", "groups"), ("Coalesce", "values"), ("Concatenate", "values"),
                  ("AliasedStar", "aliases"), ("JoinUsingCriteria", "column_names")}


def _optional_string_or_value(eng, name):
    """A qualifier: none, a name, or a value that isn't a field"""
    k = eng.choose(3, (name, ["str", "Value", "None"]))
    return [lambda: eng.str_(name, nonempty=True), lambda: hole(eng, T.Value, name, exclude=(T.Field,)), lambda: None][k]()


def _distinct_variables(eng, name):
    l = list_of(eng, lambda: instance(eng, T.Lambda.Variable), name=name)
    eng.distinct.append(l[0].base)
    return l


# Class invariants that the constructors check
SPECIAL = {
    ("Lambda", "inputs"): _distinct_variables,
    ("AliasedValue", "value"): lambda eng, name: hole(eng, T.Value, name, exclude=(T.Star,)),
    ("Field", "table"): _optional_string_or_value,
    ("Star", "table"): _optional_string_or_value,
}


def by_annotation(eng, ann, name, owner=None):
    special = getattr(eng, "special", None) and eng.special(owner, name)
    if special:
        return special(eng, name)
    special = SPECIAL.get((owner.__name__ if owner else None, name))
    if special is not None:
        return special(eng, name)
    if isinstance(ann, str):
        ann = BY_NAME.get(ann.split(".")[-1]) or _unknown(ann)
    if isinstance(ann, typing.ForwardRef):
        return by_annotation(eng, ann.__forward_arg__, name, owner)
    origin, args = typing.get_origin(ann), typing.get_args(ann)
    if origin is typing.Union:
        rest = [a for a in args if a is not NoneType]
        if len(rest) == 1:
            a = rest[0]
            a = BY_NAME.get(a.__forward_arg__.split(".")[-1]) if isinstance(a, typing.ForwardRef) else a
            if isinstance(a, type) and issubclass(a, T.Sql) and a is not T.DataType:
                return hole(eng, a, name, optional=True, owner=owner)
            if isinstance(a, type) and issubclass(a, enum.Enum):
                return Fin([None] + list(a), eng.name(name))
        k = eng.choose(len(args), (name, [str(a)[-20:] for a in args]))
        # None last, so that the interesting case comes first
        return by_annotation(eng, (rest + [NoneType] * (len(args) - len(rest)))[k], name, owner)
    if origin is type:
        return eng.type_of(by_annotation(eng, args[0], name))
    if origin is list:
        nonempty = (owner.__name__ if owner else None, name) in NONEMPTY_LISTS
        return list_of(eng, lambda: by_annotation(eng, args[0], name + "_i", owner), nonempty, name)
    if origin is set:
        return SymSet([Each(eng.base(name), [by_annotation(eng, args[0], name + "_i")])])
    if origin is dict:
        b = eng.base(name)
        d = {EachKey(b, eng.str_(name + "_key", True)): by_annotation(eng, args[1], name + "_value")}
        eng.pre[id(d)] = d
        return d
    if ann is NoneType:
        return None
    if ann is str:
        return eng.str_(name, nonempty=True)
    if ann is int:
        return eng.int_(name, 0)
    if ann is bool:
        return eng.bool_(name)
    if ann is T.DataType:
        return dtype(eng, name)
    if ann is typing.Any:
        return literal_value(eng, name)
    if isinstance(ann, type) and issubclass(ann, enum.Enum):
        return Fin(list(ann), eng.name(name))
    if isinstance(ann, type) and issubclass(ann, T.Sql):
        return hole(eng, ann, name, owner=owner)
    if isinstance(ann, type) and attr.has(ann):
        h = Hole((ann,), eng.name(name))
        eng.pre[id(h)] = h
        return h
    _unknown(ann)


def _unknown(ann):
    raise Unsupported(f"no arbitrary value of {ann}")


def literal_value(eng, name):
    k = eng.choose(6, (name, ["str", "int", "bool", "None", "Decimal", "float"]))
    return [lambda: eng.str_(name), lambda: eng.int_(name), lambda: eng.bool_(name), lambda: None,
            lambda: Opaque(Decimal, eng.name(name)), lambda: Opaque(float, eng.name(name))][k]()


def make_field(eng, h, cls, name):
    """A field of an arbitrary object, created when it's looked at"""
    override = h.info.get("fields", {}).get(name)
    if override is not None:
        return override(eng)
    if cls is T.DataType and name == "parameters":
        return dtype_parameters(eng, h)
    f = attr.fields_dict(cls)[name] if name in attr.fields_dict(cls) else None
    if f is None:
        if name == "data_type":
            return dtype(eng, h.name + ".data_type")
        raise Unsupported(f"{cls.__name__}.{name}")
    return by_annotation(eng, f.type, name, cls)


def instance(eng, cls, **fields):
    """An arbitrary well-formed instance of a class"""
    h = Hole((cls,), eng.name(cls.__name__))
    h.info["fields"] = fields
    eng.pre[id(h)] = h
    return h


def constructed(eng, cls, **fields):
    """An arbitrary instance that the constructor of the class has accepted: what the constructor makes of arbitrary arguments.
    Executions in which it raises have no such instance."""
    h = instance(eng, cls, **fields)
    kwargs = {f.name.lstrip("_"): eng.getattr_(h, f.name) for f in attr.fields(cls) if f.init}
    try:
        obj = eng.call(cls, [], kwargs)
    except PyRaise:
        raise Infeasible()
    for v in vars(obj).values():
        if isinstance(v, (list, dict)):
            eng.pre[id(v)] = v
    eng.pre[id(obj)] = obj
    return obj


def extra_field(cls, name):
    """Attributes that aren't attrs fields but exist on every instance"""
    if name == "data_type" and issubclass(cls, (T.When, T.Else)):
        return "data_type"
    return None


def engine(**kw):
    from pydv.engine import Engine
    e = Engine(make_field=make_field, **kw)
    e.extra_field = extra_field
    return e
