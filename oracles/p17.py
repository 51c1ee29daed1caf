import copy
import itertools
import attr
from vlib import T, gen, same
from oracles.common import every


def substitute(x, names):
    """The body with unqualified references to the names replaced (independent of the library)"""
    if isinstance(x, T.DataType) or type(x).__name__ == "Schema":
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(substitute(e, names) for e in x)
    if isinstance(x, dict):
        return {k: substitute(v, names) for k, v in x.items()}
    if isinstance(x, T.Field) and x.table is None and x.name in names:
        return T.Variable(x.name)
    if isinstance(x, T.Sql):
        new = copy.copy(x)
        for f in attr.fields(type(x)):
            if f.name not in ("data_type", "_column_schema"):
                new.__dict__[f.name] = substitute(getattr(x, f.name), names)
        return new
    return x


def oracle(case):
    body, names = case
    before, text = same.snapshot(body), same.describe(body)
    inputs = [T.Variable(n) for n in names]
    want = substitute(body, set(names))
    try:
        lam = T.Lambda.from_generic_expr(inputs, body)
    except Exception as ex:
        return f"Lambda.from_generic_expr({names}, {text}) raises {type(ex).__name__}: {ex}"
    if type(lam) is not T.Lambda or [v.name for v in lam.inputs] != list(names) or any(type(v) is not T.Variable for v in lam.inputs):
        return f"Lambda.from_generic_expr({names}, {text}) has the parameters {lam.inputs}"
    d = same.diff(lam.expr, want)
    if d:
        return f"Lambda.from_generic_expr({names}, {text}) has the body {same.describe(lam.expr)}, expected {same.describe(want)}: {d}"
    if same.snapshot(body) != before:
        return f"Lambda.from_generic_expr({names}, {text}) changes the body"


PARAMS = [[], ["x"], ["x", "y"], ["nope"], ["a", "x", "q"]]


def bodies():
    for e in itertools.chain(gen.pairs(), gen.expressions()):
        yield e, ["x"]
    for e in itertools.chain(gen.operands(), gen.chains() if False else itertools.islice(gen.chains(), 0, None, 11)):
        for p in PARAMS:
            yield e, p
    a = T.Field
    inner = T.Lambda([T.Variable("z")], a("x") + T.Variable("z"))
    for p in PARAMS:
        for e in (T.Length(inner), T.Field("x", "t"), T.Field("x", "x"), T.Field("x", T.RowConstructor([a("x"), a("y")])), T.Field("x", T.Subscript(a("x"), a("y"))),
                  T.Variable("x"), T.Cast(a("x"), data_type=T.tb.row(dtypes=[T.tb.integer()])), T.AliasedValue(a("x"), "x"),
                  T.Case([T.When(a("x"), a("y")), T.When(a("q"), a("x"))], T.Else(a("x")), a("x")),
                  T.Sum(a("x"), orderby=[T.OrderTerm(a("x"))], filter_=a("x"), window=T.Window(None, [T.OrderTerm(a("x"))], [a("x"), a("y")], T.FrameType.ROWS,
                        T.BoundedFrameBound(T.BoundType.PRECEDING, a("x")), T.BoundedFrameBound(T.BoundType.FOLLOWING, a("x")))),
                  T.ListAgg(a("x"), "x", orderby=[T.OrderTerm(a("x"))]), T.ApproxPercentile(a("x"), a("y"), weight=a("x")), T.FromUnixtime(a("x"), hours=a("x"), minutes=a("y")),
                  T.Coalesce([a("x"), T.Coalesce([a("x"), a("x")])]), T.Interval("x", "DAY"), T.TypeConstructor("x", "CHAR"), T.wrap_literal("x")):
            yield e, p


def subqueries():
    """Parameters are visible in subqueries of the body too, unless a column of the same name hides them, which depends on the schema"""
    a = T.Field
    for p in PARAMS:
        yield T.InQuery(a("x"), T.SelectQuery([T.wrap_literal(1)])), p


def rand(n, seed):
    def mk():
        for i in range(n):
            g = gen.Gen(seed * 7919 + i)
            e = g.expression(1 + i % 4)
            names = []
            for node in same.walk(e):
                if isinstance(node, T.Field) and node.name not in names:
                    names.append(node.name)
            g.r.shuffle(names)
            yield e, names[:g.r.randint(0, 3)]
    return mk


def from_sql(case):
    text, names, body = case
    want = T.Lambda([T.Variable(n) for n in names], substitute(body, set(names)))
    try:
        e = T.expression_from_sql(text)
    except Exception as ex:
        return f"{text!r} raises {type(ex).__name__}: {ex}"
    lam = e.string
    d = same.diff(lam, want)
    return f"{text!r} gives {same.describe(lam)}, expected {same.describe(want)}: {d}" if d else None


def sql_cases():
    for e in itertools.islice(gen.pairs(), 0, None, 40):
        for names in ([], ["x"], ["x", "y"], ["a", "b", "z"]):
            body = str(e)
            text = ", ".join('"%s"' % n for n in names)
            text = text if len(names) == 1 else f"({text})"
            yield f"LENGTH({text} -> {body if not isinstance(e, T.Query) else '(' + body + ')'})", names, T.expression_from_sql(body)


def bounded(rep, tier, seed):
    rep.cases("bodies", bodies, oracle)
    rep.cases("subqueries", subqueries, oracle)
    rep.cases("random bodies", rand(5000 if tier == "quick" else 150000, seed), oracle)
    rep.cases("lambdas in SQL", sql_cases, from_sql)

