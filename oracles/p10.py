"""Result types of every node against the table in contracts/result_types.py."""
import itertools
import random
import attr
from vlib import T, gen, same
from oracles import p07, p08
from oracles.common import misc_nodes, every, random_values, random_queries
from oracles.p08 import key, UNKNOWN
from contracts import result_types as R


def parts(node):
    return {f.name: getattr(node, f.name) for f in attr.fields(type(node))}


def name_of(x):
    return type(x).__name__


def check_node(x):
    """None or what's wrong with the type of this very node"""
    if not hasattr(x, "data_type") or isinstance(x, T.Relation) and not isinstance(x, T.Query):
        return None
    t = x.data_type
    if not isinstance(t, T.DataType):
        return f"the data type of {same.describe(x)} is {t!r}"
    e = p07.expected(t.type_name, t.parameters)
    if e is None or same.diff(dict(sorted(e.items())), dict(sorted(t.parameters.items()))):
        return f"the data type of {same.describe(x)} is the ill-formed {same.describe(t)}"
    try:
        want = R.spec(name_of(x), parts(x))
    except (R.Invalid, R.NoType):
        want = UNKNOWN if isinstance(x, (T.SetQuery, T.ValuesQuery)) else "no node"
    if want is not None and key(t) != want:
        return f"the data type of {same.describe(x)} is {t}, expected {want}"


def check_tree(x):
    for n in same.walk(x):
        f = check_node(n)
        if f:
            return f


def operand_types():
    b = T.tb
    return [None, b.unknown(), b.boolean(), b.integer(), b.bigint(), b.double(), b.decimal(precision=5, scale=2), b.decimal(precision=38, scale=0), b.varchar(),
            b.varchar(max_chars=3), b.char(max_chars=4), b.char(max_chars=65536), b.varbinary(), b.date(), b.time(), b.time(precision=2, timezone=True),
            b.timestamp(), b.timestamp(precision=9), b.timestamp(timezone=True), b.timestamp(precision=0, timezone=True),
            b.interval(from_interval="DAY", to_interval="SECOND"), b.interval(from_interval="YEAR", to_interval="MONTH"), b.json(), b.hll(), b.tdigest(),
            b.p4hll(), b.qdigest(dtype=b.double()), b.array(dtype=b.integer()), b.array(dtype=b.unknown()), b.array(dtype=b.array(dtype=b.varchar(max_chars=2))),
            b.array(dtype=b.row(dtypes=[b.integer(), b.varchar()])), b.map_(from_dtype=b.varchar(), to_dtype=b.array(dtype=b.date())),
            b.map_(from_dtype=b.unknown(), to_dtype=b.unknown()), b.row(dtypes=[b.integer()]), b.row(dtypes=[b.integer(), b.unknown()]), b.uuid(), b.ip(), b.real(),
            b.tinyint(), b.smallint()]


def typed(t, n="f"):
    return T.Field(n) if t is None else T.Field(n, "t", data_type=t)


def constructible(case):
    """Class, attributes: has to be constructed with the type of the table, or fail because there's no common type"""
    cls, kw = case
    what = f"{cls.__name__}({', '.join(k + '=' + (str(v.data_type) if isinstance(v, T.Value) else str([str(e.data_type) if isinstance(e, T.Value) else repr(e) for e in v]) if isinstance(v, list) else repr(v)) for k, v in kw.items())})"
    p = {f.name: kw.get(f.name) for f in attr.fields(cls)}
    if cls in (T.CurrentTime, T.CurrentTimestamp, T.LocalTime, T.LocalTimestamp) and p["precision"] is None:
        p["precision"] = 3
    try:
        want = R.spec(cls.__name__, p)
    except (R.NoType, R.Invalid):
        want = "error"
    before = same.snapshot(kw)
    try:
        x = cls(**kw)
    except Exception as ex:
        if want == "error" and isinstance(ex, (TypeError, AssertionError)):
            return None
        if cls in (T.UnionQuery, T.IntersectQuery, T.ExceptQuery) and isinstance(ex, (TypeError, AssertionError)) and want in (UNKNOWN, "error"):
            return None
        if cls in (T.UnionQuery, T.IntersectQuery, T.ExceptQuery) and isinstance(ex, AssertionError) and want[0] != "ROW":
            return None
        return f"{what} raises {type(ex).__name__}: {ex}; its type is {want}"
    if want is None:
        want = key(kw["data_type"]) if "data_type" in kw else key(x.data_type)
    if want == "error":
        return f"{what} has the type {x.data_type}, but its operands have no common type"
    if key(x.data_type) != want:
        return f"{what} has the type {x.data_type}, expected {want}"
    if same.snapshot(kw) != before:
        return f"{what} changes its operands"


def systematic(rows=False):
    ts = operand_types()
    classes = gen.VALUE_CLASSES()[0] + gen.VALUE_CLASSES()[1] + gen.NULLARY()
    for cls in classes:
        if cls in (T.Literal, T.TypeConstructor, T.Interval, T.Field, T.Case, T.InQuery):
            continue
        fields = [f for f in attr.fields(cls) if f.init and f.name != "data_type" and f.name not in ("orderby", "filter_", "window", "null_treatment")]
        base = gen.minimal(cls)
        kw0 = {f.name: getattr(base, f.name) for f in fields if f.default is attr.NOTHING}
        if cls in (T.Cast, T.TryCast):
            kw0["data_type"] = T.tb.bigint()
        if cls is T.ListAgg:
            kw0["orderby"] = base.orderby
        slots = gen.value_slots(cls)
        slots = [s for s in slots if s[0] not in ("filter_",)]
        lists = [n for n, l in slots if l]
        yield cls, dict(kw0)
        for t in ts:
            for n, l in slots:
                kw = dict(kw0)
                kw[n] = [typed(t)] if l else typed(t)
                if cls is T.QDigestAgg and n == "accuracy":
                    kw["weight"] = typed(None)
                if cls is T.FromUnixtime and n in ("hours", "minutes"):
                    kw["hours"] = kw["minutes"] = typed(t)
                yield cls, kw
        if cls is T.RowConstructor or not lists:
            names = [n for n, l in slots if not l and cls is not T.RowConstructor]
            for n1, n2 in itertools.combinations(names, 2):
                for t1, t2 in itertools.product(ts, ts):
                    kw = {**kw0, n1: typed(t1), n2: typed(t2, "g")}
                    if cls is T.QDigestAgg and "accuracy" in (n1, n2):
                        kw.setdefault("weight", typed(None))
                    if cls is T.FromUnixtime and ("hours" in kw or "minutes" in kw or "zone" in kw):
                        continue
                    yield cls, kw
        for n in lists:
            for t1, t2 in itertools.product(ts, ts):
                yield cls, {**kw0, n: [typed(t1), typed(t2, "g")]}
            r = random.Random(4)
            for _ in range(600):
                yield cls, {**kw0, n: [typed(r.choice(ts)) for _ in range(r.choice([1, 3, 3, 4]))]}
    for c in (T.CurrentTime, T.CurrentTimestamp, T.LocalTime, T.LocalTimestamp):
        for p in range(13):
            yield c, {"precision": p}
    for t1, t2 in itertools.product(ts, ts):
        a, b = typed(t1, "x"), typed(t2, "y")
        yield T.Case, {"branches": [T.When(typed(None, "c"), a), T.When(typed(None, "c"), b)]}
        yield T.Case, {"branches": [T.When(typed(None, "c"), a)], "else_": T.Else(b)}
        yield T.SelectQuery, {"select": [a, b]}
        yield T.SelectQuery, {"select": [T.AliasedValue(a, "q"), b]}
        yield T.ValuesQuery, {"exprs": [a, b]}
        qa, qb = T.SelectQuery([a]), T.SelectQuery([b])
        for c in (T.UnionQuery, T.IntersectQuery, T.ExceptQuery):
            yield c, {"left_query": qa, "right_query": qb, "set_quantifier": T.SetQuantifier.DISTINCT}
            yield c, {"left_query": T.SelectQuery([a, b]), "right_query": T.SelectQuery([b, a]), "set_quantifier": T.SetQuantifier.DISTINCT}
    for t in ts:
        a = typed(t)
        yield T.AliasedValue, {"value": a, "alias": "x"}
        yield T.When, {"condition": typed(None), "value": a}
        yield T.Else, {"value": a}
        yield T.SelectQuery, {"select": [a]}
        yield T.SelectQuery, {"select": [a, T.Star()]}
        yield T.InQuery, {"value": a, "query": T.SelectQuery([a])}
        yield T.InQuery, {"value": a, "query": T.SelectQuery([T.Star()])}
        yield T.Lambda, {"inputs": [T.Variable("v")], "expr": a}
        if t is not None and t.type_name != "UNKNOWN":
            yield T.Cast, {"expr": a, "data_type": t}
            yield T.TryCast, {"expr": a, "data_type": t}
            yield T.Field, {"name": "x", "data_type": t}
    for f1 in ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]:
        for f2 in [None, "YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]:
            yield T.Interval, {"value": "1", "from_interval": f1, "to_interval": f2}
    for v, names in {"1.5": ("DECIMAL", "decimal"), "-0.005": ("DECIMAL",), "abc": ("CHAR", "char"), "12:34:56.789": ("TIME", "time"),
                     "2020-01-01 12:34:56.7891 UTC": ("TIMESTAMP", "Timestamp"), "2020-01-01 12:34": ("TIMESTAMP",)}.items():
        for n in names:
            yield T.TypeConstructor, {"value": v, "type_name": n}


def constructors():
    """type names of literals like BIGINT '1'"""
    for n in ["BOOLEAN", "TINYINT", "SMALLINT", "INTEGER", "BIGINT", "REAL", "DOUBLE", "VARCHAR", "VARBINARY", "JSON", "DATE", "IPADDRESS", "UUID",
              "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST"]:
        for s in (n, n.lower()):
            yield s, n


def constructor(case):
    s, n = case
    for how, f in (("tree", lambda: T.TypeConstructor("1", s)), ("text", lambda: T.expression_from_sql(f"{s} '1'"))):
        try:
            got = key(f().data_type)
        except Exception as ex:
            return f"{s} '1' ({how}) raises {type(ex).__name__}: {ex}"
        if got != (n,):
            return f"{s} '1' ({how}) has the type {got}"


def bounded(rep, tier, seed):
    n = 3000 if tier == "quick" else 60000
    rep.cases("classes x operand types", systematic, constructible)
    rep.cases("type constructors", constructors, constructor)
    rep.cases("all nodes of trees", every(gen.leaves, gen.chains if tier != "quick" else (lambda: itertools.islice(gen.chains(), 0, None, 7)), gen.pairs, gen.queries, misc_nodes), check_tree)
    rep.cases("random trees", every(random_values(n, seed), random_queries(n // 2, seed)), check_tree)

