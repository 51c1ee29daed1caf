"""Structural comparison, description and reconstruction of nodes that shares no code with treeno's own equality."""
import enum
import attr
from vlib import T


def _fields(node):
    return [a for a in attr.fields(type(node)) if a.init]


def diff(a, b, path="", norm=False):
    """None if a and b are the same tree, otherwise a description of the first difference."""
    if norm:
        a, b = normal(a), normal(b)
    if a is b:
        return None
    if type(a) is not type(b):
        return f"{path}: {short(a)} != {short(b)}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} elements != {len(b)} elements"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]", norm)
            if d:
                return d
        return None
    if isinstance(a, dict):
        if list(a) != list(b):
            if sorted(map(str, a)) != sorted(map(str, b)) or norm:
                return f"{path}: keys {list(a)} != {list(b)}"
        for k in a:
            d = diff(a[k], b[k], f"{path}[{k!r}]", norm)
            if d:
                return d
        return None
    if attr.has(type(a)):
        for f in _fields(a):
            if f.name == "_column_schema":
                continue
            d = diff(getattr(a, f.name), getattr(b, f.name), f"{path}.{f.name}", norm)
            if d:
                return d
        return None
    if isinstance(a, float) and repr(a) != repr(b):
        return f"{path}: {a!r} != {b!r}"
    if not isinstance(a, enum.Enum) and type(a).__name__ == "Decimal":
        if a.as_tuple() != b.as_tuple() and not (norm and format(a, "f") == format(b, "f")):
            return f"{path}: {a!r} != {b!r}"
        return None
    if a != b:
        return f"{path}: {a!r} != {b!r}"
    return None


def normal(x):
    """NOT (a = b) and a <> b are the same operation, and SQL has no way of writing one rather than the other."""
    if type(x) is T.Not:
        inner = normal(x.value)
        if type(inner) in (T.Equal, T.NotEqual):
            other = T.NotEqual if type(inner) is T.Equal else T.Equal
            return other(inner.left, inner.right)
    return x


def same(a, b, norm=False):
    return diff(a, b, "", norm) is None


def short(x, n=90):
    s = describe(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def describe(x):
    """Python text that rebuilds the value (names as in vlib.T)"""
    if isinstance(x, list):
        return "[" + ", ".join(map(describe, x)) + "]"
    if isinstance(x, tuple):
        return "(" + "".join(describe(e) + ", " for e in x) + ")"
    if isinstance(x, dict):
        return "{" + ", ".join(f"{describe(k)}: {describe(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(map(describe, x))) + "}"
    if isinstance(x, enum.Enum):
        return f"{type(x).__qualname__}.{x.name}"
    if type(x).__name__ == "Schema":
        return f"Schema({len(x.fields)} fields)"
    if attr.has(type(x)):
        args = []
        for f in _fields(x):
            v = getattr(x, f.name)
            if f.name == "_column_schema":
                continue
            if f.name == "data_type" and not isinstance(x, (T.Literal, T.Cast, T.TryCast)):
                # recomputed, unless it was given
                if not isinstance(x, (T.Field, T.Variable, T.Star)) or v.type_name == "UNKNOWN":
                    continue
            if f.default is not attr.NOTHING and f.name != "data_type":
                d = f.default
                if isinstance(d, attr.Factory):
                    d = d.factory() if not d.takes_self else object()
                if same(d, v):
                    continue
            args.append(f"{f.name.lstrip('_')}={describe(v)}")
        return f"{type(x).__qualname__}({', '.join(args)})"
    return repr(x)


def children(node):
    """The nodes directly inside of a node, with lists, tuples and dictionaries opened, and types left out."""
    out = []

    def collect(v):
        if isinstance(v, T.DataType):
            return
        if isinstance(v, T.Sql):
            out.append(v)
        elif isinstance(v, (list, tuple)):
            for e in v:
                collect(e)
        elif isinstance(v, dict):
            for e in v.values():
                collect(e)

    for f in attr.fields(type(node)):
        if f.name in ("data_type", "_column_schema"):
            continue
        collect(getattr(node, f.name))
    return out


def walk(node):
    yield node
    for c in children(node):
        yield from walk(c)


def snapshot(x, memo=None):
    """A value that changes whenever anything reachable from x is changed in place (identities included)."""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return ("ref", memo[id(x)])
    if isinstance(x, (str, int, float, bool, type(None), enum.Enum)) or type(x).__name__ == "Decimal":
        return (type(x).__name__, repr(x))
    memo[id(x)] = len(memo)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x), tuple(snapshot(e, memo) for e in x))
    if isinstance(x, dict):
        return ("dict", id(x), tuple((snapshot(k, memo), snapshot(v, memo)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", id(x), tuple(sorted(repr(snapshot(e, dict(memo))) for e in x)))
    if hasattr(x, "__dict__"):
        return (type(x).__qualname__, id(x), tuple((k, snapshot(v, memo)) for k, v in sorted(vars(x).items())))
    return ("opaque", id(x))


def content(x, stack=()):
    """As snapshot, without identities: equal for equal contents."""
    if isinstance(x, (str, int, float, bool, type(None), enum.Enum)) or type(x).__name__ == "Decimal":
        return (type(x).__name__, repr(x))
    if id(x) in stack:
        return ("cycle", len(stack) - stack.index(id(x)))
    stack = stack + (id(x),)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(content(e, stack) for e in x))
    if isinstance(x, dict):
        return ("dict", tuple((content(k, stack), content(v, stack)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(content(e, stack)) for e in x)))
    if hasattr(x, "__dict__"):
        return (type(x).__qualname__, tuple((k, content(v, stack)) for k, v in sorted(vars(x).items())))
    return ("opaque", type(x).__qualname__)
