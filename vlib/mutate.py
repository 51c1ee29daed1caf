"""Trees that differ from a given one in a single place."""
import copy
import enum
from decimal import Decimal
import attr
from vlib import T, same


def siblings(x):
    """Values to put in place of a leaf"""
    if isinstance(x, enum.Enum):
        return [m for m in type(x) if m is not x]
    if isinstance(x, bool):
        return [not x, int(x)]
    if isinstance(x, int):
        return [x + 1, float(x) if abs(x) < 2**53 else str(x), Decimal(x), str(x)] + ([bool(x)] if x in (0, 1) else [])
    if isinstance(x, float):
        return [x * 2 + 1, str(x), Decimal(x)] + ([int(x)] if x == int(x) else [])
    if isinstance(x, Decimal):
        return [x + 1, str(x), -x - 1]
    if isinstance(x, str):
        return [x + "x", x + " ", x.swapcase() if x.swapcase() != x else x[:-1] + "y", None]
    if x is None:
        return ["", 0, T.Field("was_none")]
    return []


def classes_like(node):
    """Other classes with the same attributes: only the operation differs"""
    key = tuple((f.name, f.init) for f in attr.fields(type(node)))
    return [c for c in T.node_classes() if c is not type(node) and tuple((f.name, f.init) for f in attr.fields(c)) == key]


def with_class(node, cls):
    new = cls.__new__(cls)
    new.__dict__.update(node.__dict__)
    return new


def mutants(x, max_classes=3, top=True):
    """Copies of x with one change at any depth"""
    if isinstance(x, (list, tuple)):
        for i, e in enumerate(x):
            for m in mutants(e, max_classes, False):
                yield type(x)(list(x[:i]) + [m] + list(x[i + 1:]))
            yield type(x)(list(x[:i]) + list(x[i + 1:]))
            yield type(x)(list(x[:i]) + [e, e] + list(x[i + 1:]))
        if len(x) > 1:
            yield type(x)(list(reversed(x)))
        return
    if isinstance(x, dict):
        for k, v in x.items():
            for m in mutants(v, max_classes, False):
                yield {**x, k: m}
            yield {a: b for a, b in x.items() if a != k}
            if isinstance(k, str):
                yield {(a + "2" if a == k else a): b for a, b in x.items()}
        return
    if attr.has(type(x)) and isinstance(x, T.Sql):
        for cls in classes_like(x)[:max_classes]:
            yield with_class(x, cls)
        for f in attr.fields(type(x)):
            if f.name == "_column_schema":
                continue
            v = getattr(x, f.name)
            for m in mutants(v, max_classes, False):
                new = copy.copy(x)
                new.__dict__[f.name] = m
                yield new
        if not top:
            yield T.Field("other")
            yield None
        return
    yield from siblings(x)


def rebuilt(x):
    """An equal tree that shares nothing with x"""
    if isinstance(x, (list, tuple)):
        return type(x)(rebuilt(e) for e in x)
    if isinstance(x, dict):
        return {k: rebuilt(v) for k, v in x.items()}
    if attr.has(type(x)) and isinstance(x, T.Sql):
        new = type(x).__new__(type(x))
        for f in attr.fields(type(x)):
            new.__dict__[f.name] = rebuilt(getattr(x, f.name)) if f.name != "_column_schema" else copy.deepcopy(getattr(x, f.name))
        return new
    if isinstance(x, str):
        return "".join(list(x))
    return x
