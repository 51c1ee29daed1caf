import itertools
from vlib import T, gen, same, mutate
from oracles.common import random_values, random_queries, misc_nodes, every


def eq(a, b):
    """What structural equality is, independent of the library"""
    return same.diff(a, b, "") is None


def compare(a, b):
    want = eq2(a, b)
    for x, y in ((a, b), (b, a)):
        try:
            got = x.equals(y) if isinstance(x, T.Sql) else None
        except Exception as ex:
            return f"({same.describe(x)}).equals({same.describe(y)}) raises {type(ex).__name__}: {ex}"
        if got is None:
            continue
        if got is not True and got is not False:
            return f"({same.describe(x)}).equals({same.describe(y)}) returns {got!r}"
        if got != want:
            return f"({same.describe(x)}).equals({same.describe(y)}) is {got}, expected {want}" + (f": {same.diff(x, y)}" if not want else "")
        try:
            x.assert_equals(y)
            ok = True
        except AssertionError:
            ok = False
        if ok != want:
            return f"({same.describe(x)}).assert_equals({same.describe(y)}) {'passes' if ok else 'fails'}"


def eq2(a, b):
    # all attributes count, including computed types
    import attr
    import enum
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq2(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(eq2(a[k], b[k]) for k in a)
    if isinstance(a, enum.Enum):
        return a is b
    if attr.has(type(a)):
        return all(eq2(getattr(a, f.name), getattr(b, f.name)) for f in attr.fields(type(a)))
    return bool(a == b)


def around(node):
    r = compare(node, mutate.rebuilt(node)) or compare(node, node)
    if r:
        return r
    for other in ("x", None, 1, [], str(type(node)), object()):
        if node.equals(other) is not False:
            return f"({same.describe(node)}).equals({other!r}) is {node.equals(other)!r}"
    for i, m in enumerate(mutate.mutants(node)):
        if i > 400:
            break
        r = compare(node, m)
        if r:
            return r


def pair(p):
    return compare(*p)


def small():
    out = list(gen.operands()) + list(gen.types()) + [T.Star(), T.Star("t"), T.Table("a"), T.Table("x"), T.Variable("a"), T.Variable("x")]
    for m in itertools.islice(misc_nodes(), 0, None, 7):
        out.append(m)
    seen, uniq = set(), []
    for o in out:
        k = repr(same.content(o))
        if k not in seen:
            seen.add(k)
            uniq.append(o)
    return uniq


def all_pairs(stride):
    def mk():
        s = small()
        for i, a in enumerate(s):
            for j in range(i % stride, len(s), stride):
                yield a, s[j]
    return mk


def same_leaves():
    """Numbers that Python considers equal but SQL doesn't, and containers of them"""
    from decimal import Decimal
    vals = [1, True, 1.0, Decimal(1), "1", 0, False, 0.0, Decimal("1.0"), "", None, -1]
    lits = [T.NULL if v is None else T.Literal(v, data_type=T.tb.integer()) for v in vals]
    yield from itertools.product(lits, lits)
    q = [T.SelectQuery([T.Field("a")], limit=v) for v in (None, 0, 1, True, 1.0)]
    yield from itertools.product(q, q)
    d = [T.SelectQuery([T.Field("a")], window=w) for w in (None, {}, {"a": T.Window()}, {"b": T.Window()}, {"a": T.Window(), "b": T.Window("w")},
                                                            {"b": T.Window("w"), "a": T.Window()}, {"a": T.Window("w"), "b": T.Window()})]
    yield from itertools.product(d, d)
    l = [T.RowConstructor([T.Field("a")] * n) for n in (0, 1, 2, 3)] if False else [T.InList(T.Field("x"), [T.Field("a")] * n) for n in (1, 2, 3)]
    yield from itertools.product(l, l)


def shared():
    """The same object several times, and cycles through tables that know their columns"""
    x = T.Field("x")
    t = T.Table("t")
    t2 = T.Table("t")
    for tt in (t, t2):
        tt.resolve(T.Schema([T.SchemaField("c", tt, T.tb.integer())], relation_ids={"t"}))
    t3 = T.Table("t")
    t3.resolve(T.Schema([T.SchemaField("c", t3, T.tb.bigint())], relation_ids={"t"}))
    yield t, t2, True
    yield t, t3, False
    yield t, T.Table("t"), False
    yield T.Join(t, t, T.JoinConfig(T.JoinType.CROSS)), T.Join(t2, t2, T.JoinConfig(T.JoinType.CROSS)), True
    yield T.Join(t, t, T.JoinConfig(T.JoinType.CROSS)), T.Join(t2, t3, T.JoinConfig(T.JoinType.CROSS)), False
    yield T.Add(x, x), T.Add(T.Field("x"), T.Field("x")), True
    yield T.Add(x, x), T.Add(x, T.Field("y")), False
    yield T.RowConstructor([x, x, T.Add(x, x)]), T.RowConstructor([T.Field("x"), x, T.Add(x, T.Field("x"))]), True


def shared_oracle(c):
    a, b, want = c
    for p, q in ((a, b), (b, a)):
        if p.equals(q) is not want:
            return f"equals of shared objects: {same.short(p)} and {same.short(q)}: {p.equals(q)!r}, expected {want}"


def bounded(rep, tier, seed):
    n = 1000 if tier == "quick" else 20000
    rep.cases("single changes: systematic trees", every(lambda: itertools.islice(gen.expressions(), 0, None, 3 if tier == "quick" else 1), misc_nodes), around)
    rep.cases("single changes: queries", lambda: itertools.islice(gen.queries(), 0, None, 4 if tier == "quick" else 1), around)
    rep.cases("single changes: random trees", random_values(n, seed, (2, 3)), around)
    rep.cases("single changes: random queries", random_queries(n, seed, (1, 2)), around)
    rep.cases("pairs of nodes", all_pairs(3 if tier == "quick" else 1), pair)
    rep.cases("similar leaves", same_leaves, pair)
    rep.cases("shared objects", shared, shared_oracle)

