import copy
import itertools
import sys
import types as pytypes
from collections import defaultdict
from decimal import Decimal

import attr
from vlib import T, env, gen, same, mutate
from oracles.common import random_values, random_queries, misc_nodes, every

MODES = [T.PrintOptions(), T.PrintOptions(T.PrintMode.PRETTY, 4), T.PrintOptions(T.PrintMode.PRETTY, 0)]
# Resolving records what it found out in the resolved relation: this is what its documentation says
RECORDED = {"Table": {"_column_schema"}, "SelectQuery": {"select", "data_type"}, "UnionQuery": {"data_type"}, "IntersectQuery": {"data_type"},
            "ExceptQuery": {"data_type"}, "TableQuery": {"data_type"}, "Unnest": {"arrays", "data_type"}}


class Silent:
    def visit(self, node):
        pass


def attempt(f):
    """The result of an operation, or what it raises"""
    try:
        return f()
    except Exception as ex:
        return f"{type(ex).__name__}: {ex}"


def steady(name, given, op):
    """op leaves the given objects as they are, and its result is the same the second time"""
    before = same.snapshot(given)
    first = attempt(op)
    if same.snapshot(given) != before:
        return f"{name} of {same.describe(given)} modifies what it's given"
    kept = same.content(first)
    second = attempt(op)
    if same.content(second) != kept:
        return f"{name} of {same.describe(given)} gives {same.short(second)} the second time, and {same.short(first)} the first time"
    if same.snapshot(given) != before:
        return f"{name} of {same.describe(given)} modifies what it's given the second time"
    if same.content(first) != kept:
        return f"{name} of {same.describe(given)} modifies its own first result"


def node(n):
    other = mutate.rebuilt(n)
    for i, o in enumerate(MODES):
        r = steady(f"sql (mode {i})", [n, o], lambda: n.sql(o))
        if r:
            return r
    r = (steady("str", [n], lambda: str(n)) or steady("equals", [n, other], lambda: [n.equals(other), n.equals(n), n.equals(None)])
         or steady("assert_equals", [n, other], lambda: n.assert_equals(other))
         or steady("visit", [n], lambda: n.visit(Silent())) or steady("repr", [n], lambda: repr(n)))
    if r:
        return r
    if isinstance(n, T.Value) and not isinstance(n, T.Query):
        names = ["x", "a"]
        v = [T.Variable(s) for s in names]
        r = steady("from_generic_expr", [n, v], lambda: T.Lambda.from_generic_expr(v, n))
        if r:
            return r
        schema = a_schema()
        r = steady("resolve_fields", [n, schema], lambda: T.resolve_fields(n, schema)) or steady("identifier", [n], n.identifier)
        if r:
            return r
    return independent(n)


def deep(n):
    for x in same.walk(n):
        r = node(x)
        if r:
            return r


def a_schema():
    t = T.Table("t")
    u = T.Table("u", "s")
    fs = [T.SchemaField("a", t, T.tb.integer()), T.SchemaField("x", t, T.tb.varchar(max_chars=3)), T.SchemaField("y", u, T.tb.array(dtype=T.tb.integer()))]
    return T.Schema(fs, {"t", "u"})


def containers(x, out, seen):
    """All lists, dictionaries and sets reachable from x"""
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, (list, dict, set)):
        out[id(x)] = x
    if isinstance(x, (list, tuple, set)):
        for e in x:
            containers(e, out, seen)
    elif isinstance(x, dict):
        for e in x.values():
            containers(e, out, seen)
    elif attr.has(type(x)):
        for v in vars(x).values():
            containers(v, out, seen)


def independent(n):
    """Two nodes built from the same arguments share no list or dictionary other than what's in the arguments"""
    args = {f.name.lstrip("_"): getattr(n, f.name) for f in attr.fields(type(n)) if f.init and f.name != "_column_schema"}
    before = same.snapshot(args)
    variants = [args]
    # without the ones that have a default
    variants.append({f.name.lstrip("_"): getattr(n, f.name) for f in attr.fields(type(n)) if f.init and f.default is attr.NOTHING})
    for a in variants:
        try:
            one, two = type(n)(**a), type(n)(**a)
        except (AssertionError, TypeError):
            continue
        given, c1, c2 = {}, {}, {}
        containers(a, given, set())
        containers(one, c1, set())
        containers(two, c2, set())
        shared = [k for k in c1 if k in c2 and k not in given]
        if shared:
            return f"two nodes built as {same.describe(one)} share {c1[shared[0]]!r}"
        if isinstance(n, T.DataType) and one.parameters is a.get("parameters"):
            return f"{n} shares the dictionary of parameters with the caller"
    if same.snapshot(args) != before:
        return f"building {same.describe(n)} modifies its arguments"


def pair_types(p):
    a, b = p
    return (steady("common_supertype", [a, b], lambda: T.common_supertype(a, b)) or steady("get_arithmetic_type", [a, b], lambda: T.get_arithmetic_type(a, b))
            or steady("common_known_supertype", [a, b], lambda: T.common_known_supertype([a, b])) or steady("==", [a, b], lambda: a == b))


def parameters():
    b = T.tb
    i = b.integer()
    for name, ps in (("DECIMAL", [{}, {"precision": 3}, {"scale": 2}, {"scale": 2, "precision": 4}]), ("CHAR", [{}, {"max_chars": 3}]),
                     ("VARCHAR", [{}, {"max_chars": 3}]), ("TIME", [{}, {"precision": 3}, {"timezone": True}]), ("timestamp", [{}, {"precision": 3}]),
                     ("ARRAY", [{"dtype": i}]), ("ROW", [{"dtypes": [i, i]}]), ("MAP", [{"from_dtype": i, "to_dtype": i}]), ("BOOLEAN", [{}]),
                     ("Interval", [{"from_interval": "YEAR", "to_interval": "MONTH"}])):
        for p in ps:
            yield name, p


def parameter(case):
    name, p = case
    before = same.snapshot(p)
    one = T.DataType(name, p)
    if same.snapshot(p) != before:
        return f"DataType({name!r}, ...) modifies the parameters it's given"
    kept = same.content(one)
    two = T.DataType(name, p)
    p["zzz"] = 1
    two.parameters["yyy"] = 2
    if same.content(one) != kept:
        return f"DataType({name!r}, ...) is modified through the parameters it's given or another type with the same ones"


# Operators -------------------------------------------------------------------------------------------------------
def operators():
    import operator as o
    binary = [o.add, o.sub, o.mul, o.truediv, o.mod, o.pow, o.and_, o.or_, o.eq, o.ne, o.lt, o.le, o.gt, o.ge]
    operands = [T.Field("a"), T.wrap_literal(1), T.NULL, T.Field("x", "t") + 1, T.wrap_literal(Decimal("1.5")), 1, 2.5, "s", True, None, Decimal("2.50")]
    for f in binary:
        for l, r in itertools.product(operands, operands):
            if isinstance(l, T.Value) or isinstance(r, T.Value):
                yield f, [l, r]
    for f in (o.neg, o.pos, o.inv):
        for l in operands:
            if isinstance(l, T.Value):
                yield f, [l]


def operator(case):
    f, args = case
    return steady(f.__name__, args, lambda: f(*args))


# Resolving -------------------------------------------------------------------------------------------------------
def masked(x, memo=None):
    """The snapshot without what resolving records"""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return ("ref", memo[id(x)])
    if isinstance(x, (str, int, float, bool, type(None))) or type(x).__name__ == "Decimal" or isinstance(x, T.Enum):
        return (type(x).__name__, repr(x))
    memo[id(x)] = len(memo)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x), tuple(masked(e, memo) for e in x))
    if isinstance(x, dict):
        return ("dict", id(x), tuple((masked(k, memo), masked(v, memo)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", id(x), tuple(sorted(repr(masked(e, dict(memo))) for e in x)))
    if attr.has(type(x)):
        hide = RECORDED.get(type(x).__name__, ())
        return (type(x).__qualname__, id(x), tuple((k, masked(v, memo)) for k, v in sorted(vars(x).items()) if k not in hide))
    return ("opaque", id(x))


def recorded_values(x, out, seen):
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, (list, tuple)):
        for e in x:
            recorded_values(e, out, seen)
    elif isinstance(x, dict):
        for e in x.values():
            recorded_values(e, out, seen)
    elif attr.has(type(x)):
        for k, v in vars(x).items():
            if k in RECORDED.get(type(x).__name__, ()):
                out.append(v)
            recorded_values(v, out, seen)


def schemas():
    b = T.tb
    def sch(*cols):
        t = {}
        fs = []
        for table, name, dtype in cols:
            t.setdefault(table, T.Table(table))
            if name:
                fs.append(T.SchemaField(name, t[table], dtype))
        return T.Schema(fs, set(t))
    yield T.Schema.empty_schema()
    yield sch(("t", "a", b.integer()), ("t", "x", b.varchar()), ("o", "k", b.double()))
    yield sch(("t", "a", b.array(dtype=b.integer())), ("t", "u", b.array(dtype=b.row(dtypes=[b.integer(), b.date()]))), ("o", None, None), ("q", "b", b.date()))


def resolving(case):
    rel, schema = case
    given = [rel, schema]
    olds = []
    recorded_values(given, olds, set())
    # what is recorded is replaced, never modified
    before = masked(given), [masked(o) for o in olds]
    first = attempt(lambda: rel.resolve(schema))
    after = masked(given), [masked(o) for o in olds]
    if before != after:
        return f"resolve of {same.describe(rel)} modifies more than the types it records"
    kept, state = same.content(first), same.content(rel)
    second = attempt(lambda: rel.resolve(schema))
    if same.content(second) != kept:
        return f"resolve of {same.describe(rel)} gives {show(second)} the second time, and {show(first)} the first time"
    if same.content(rel) != state:
        return f"resolve of {same.describe(rel)} changes the relation again the second time"
    if masked(given) != before[0]:
        return f"resolve of {same.describe(rel)} modifies more than the types it records the second time"
    if same.content(first) != kept:
        return f"resolve of {same.describe(rel)} modifies its own first result"


def show(s):
    return [(f.name, str(f.data_type)) for f in s.fields] if isinstance(s, T.Schema) else s


def relations_of(make):
    def mk():
        for x in make():
            for r in same.walk(x):
                if isinstance(r, T.Relation):
                    for s in schemas():
                        yield copy.deepcopy(r), s
    return mk


def schema_ops():
    ss = list(schemas())
    yield from itertools.product(ss, ss)


def schema_op(p):
    a, b = p
    return (steady("merge", [a, b], lambda: a.merge(b)) or steady("shadow", [a, b], lambda: a.shadow(b)) or steady("is_partial", [a], a.is_partial)
            or steady("column_type", [a], lambda: a.column_type("a")))


# Text ------------------------------------------------------------------------------------------------------------
def texts():
    for e in itertools.islice(gen.expressions(), 0, None, 5):
        yield T.expression_from_sql, str(e)
    for q in itertools.islice(gen.queries(), 0, None, 7):
        yield T.query_from_sql, str(q)
    for t in gen.types():
        yield T.type_from_sql, str(t)


def text(case):
    f, s = case
    one = attempt(lambda: f(s))
    kept = same.content(one)
    two = attempt(lambda: f(s))
    if same.content(two) != kept or same.content(one) != kept:
        return f"parsing {s!r} twice gives different trees"
    if isinstance(one, T.Sql):
        c1, c2 = {}, {}
        containers(one, c1, set())
        containers(two, c2, set())
        shared = [k for k in c1 if k in c2]
        if any(type(c1[k]) is not dict or c1[k] for k in shared if not constant(c1[k])):
            k = [k for k in shared if not constant(c1[k])][0]
            return f"parsing {s!r} twice gives trees that share {c1[k]!r}"


def constant(x):
    # of the NULL literal, which is one object
    return any(x is y for y in (T.NULL.data_type.parameters,))


def global_state():
    """Everything that belongs to the modules and classes of the library, other than code"""
    def content(x, depth=0):
        if isinstance(x, (pytypes.FunctionType, pytypes.ModuleType, type, classmethod, staticmethod, property, pytypes.BuiltinFunctionType)) or depth > 6:
            return ("code", getattr(x, "__qualname__", ""))
        if isinstance(x, (set, frozenset)):
            return sorted(repr(content(e, depth + 1)) for e in x)
        if isinstance(x, (list, tuple)):
            return [content(e, depth + 1) for e in x]
        if isinstance(x, defaultdict):
            # looking something up adds the default
            x = {k: v for k, v in x.items() if v != x.default_factory()}
        if isinstance(x, dict):
            return [(repr(content(k, depth + 1)), content(v, depth + 1)) for k, v in list(x.items())]
        if attr.has(type(x)):
            return [type(x).__name__] + [(k, content(v, depth + 1)) for k, v in vars(x).items()]
        r = repr(x)
        return r if " at 0x" not in r else type(x).__name__
    out = {}
    for name in env.MODULES:
        for k, v in vars(env.MOD[name]).items():
            if k.startswith("__"):
                continue
            if isinstance(v, type) and v.__module__ == name:
                for kk, vv in vars(v).items():
                    if not kk.startswith("__") and not kk.startswith("_abc"):
                        out[f"{name}.{k}.{kk}"] = content(vv)
            elif getattr(v, "__module__", None) != "typing":
                out[f"{name}.{k}"] = content(v)
    return out


def history(case):
    """Any sequence of operations leaves the state of the library as it was, and doesn't change what an operation gives"""
    i, probes = case
    before = global_state()
    g = gen.Gen(9000 + i)
    want = [(f(), attempt(lambda: same.content(f()))) for f in ()]
    a = [attempt(p) for p in probes()]
    a = [same.content(x) for x in a]
    for _ in range(30):
        e, q = g.expression(3), g.query(2)
        for x in (e, q):
            for o in MODES:
                attempt(lambda: x.sql(o))
            attempt(lambda: x.visit(Silent()))
        attempt(lambda: T.expression_from_sql(str(e)))
        attempt(lambda: T.query_from_sql(str(q)))
        attempt(lambda: T.query_from_sql(str(q) + " WHERE ("))
        s = list(schemas())[1]
        attempt(lambda: q.resolve(s))
        attempt(lambda: T.Lambda.from_generic_expr([T.Variable("x")], e))
        attempt(lambda: T.DataType("DECIMAL", {"precision": 99}))
        attempt(lambda: e.equals(q))
    b = [same.content(attempt(p)) for p in probes()]
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"probe {k} (see oracles/p13.py) gives {y} after other operations, and {x} before"
    after = global_state()
    for k in before:
        if before[k] != after.get(k):
            return f"{k} has changed after some operations: from {str(before[k])[:200]} to {str(after.get(k))[:200]}"
    if set(after) != set(before):
        return f"there are new names in the library after some operations: {set(after) - set(before)}"


def probes():
    return [lambda: T.expression_from_sql("a.b + 1.50 * SUM(x) OVER (PARTITION BY y)"), lambda: T.query_from_sql("WITH w AS (SELECT 1) SELECT * FROM w JOIN t USING (k)"),
            lambda: T.type_from_sql("DECIMAL"), lambda: T.DataType("DECIMAL"), lambda: T.DataType("TIME"), lambda: T.common_supertype(T.tb.char(), T.tb.varchar()),
            lambda: T.query_from_sql("SELECT a FROM t").resolve(list(schemas())[1]), lambda: T.SelectQuery([T.Field("a")]), lambda: T.Window(), lambda: T.Table("t"),
            lambda: T.PrintOptions(), lambda: T.Schema.empty_schema(), lambda: str(T.SelectQuery([T.Field("a") + 1, T.wrap_literal("x")], from_=T.Table("t"))),
            lambda: T.expression_from_sql("transform(x, y -> y + z)"), lambda: T.NULL, lambda: T.expression_from_sql("NULL")]


def histories():
    for i in range(16):
        yield i, probes


def bounded(rep, tier, seed):
    n = 600 if tier == "quick" else 20000
    quick = tier == "quick"
    rep.cases("systematic expressions", lambda: itertools.islice(gen.expressions(), 0, None, 3 if quick else 1), node)
    rep.cases("other parts", misc_nodes, deep)
    rep.cases("queries", lambda: itertools.islice(gen.queries(), 0, None, 3 if quick else 1), node)
    rep.cases("random trees", random_values(n, seed), deep)
    rep.cases("random queries", random_queries(n, seed, (1, 2)), node)
    rep.cases("pairs of types", lambda: itertools.product(gen.types(), gen.types()), pair_types)
    rep.cases("parameters of types", parameters, parameter)
    rep.cases("operators", operators, operator)
    rep.cases("resolving systematic relations", relations_of(every(lambda: gen.relations(1), lambda: itertools.islice(gen.queries(), 0, None, 5 if quick else 1))), resolving)
    rep.cases("resolving random queries", relations_of(random_queries(n * 2, seed + 5, (2, 3), True)), resolving)
    rep.cases("schemas", schema_ops, schema_op)
    rep.cases("text", texts, text)
    rep.cases("histories", histories, history)

