"""Round trips: the text that the real code prints for a node, read by the grammar and converted by the real visitor, is the node"""
import attr

from pydv import grammar, phrase, run, shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common
from vlib import T, env

DataType = T.DataType
PRIMARY = 99


# What a part's text is derived from ---------------------------------------------------------------------------------------
def text_of(eng, hole, args, kwargs):
    """ensures: the text of a node, derived from `phrase_of` it (an obligation of its own for each class). assigns: nothing"""
    hole = eng.norm(hole)
    if isinstance(hole, Hole) and (hole.info.get("inline") or all(c in INLINE for c in hole.classes)):
        return NotImplemented
    return SText([Fn("sql", hole)])


# Parts that have no rule of their own in the grammar: their texts are looked into
INLINE = {T.Else, T.OverflowFiller, T.Table, T.Star}


def _named(*names):
    return {getattr(T, n): None for n in names}


BOOLEAN, VALUE = "booleanExpression", "valueExpression"
LEVELS = {T.Or: (BOOLEAN, 1), T.And: (BOOLEAN, 2), T.Not: (BOOLEAN, 3), T.Lambda: (BOOLEAN, 1)}
LEVELS.update({getattr(T, n): (BOOLEAN, 4) for n in "Equal NotEqual LessThan LessThanOrEqual GreaterThan GreaterThanOrEqual Between InList "
               "InQuery Like IsNull DistinctFrom".split()})
LEVELS.update({T.Add: (VALUE, 2), T.Minus: (VALUE, 2), T.Multiply: (VALUE, 3), T.Divide: (VALUE, 3), T.Modulus: (VALUE, 3),
               T.Negative: (VALUE, 4), T.Positive: (VALUE, 4)})
LEVELS.update({T.When: ("whenClause", PRIMARY), T.OrderTerm: ("sortItem", PRIMARY), T.Window: ("windowSpecification", PRIMARY)})
LEVELS.update({c: ("frameBound", PRIMARY) for c in (T.BoundedFrameBound, T.UnboundedFrameBound, T.CurrentFrameBound)})
LEVELS.update({T.Table: ("relationPrimary", PRIMARY), T.Unnest: ("relationPrimary", PRIMARY), T.Lateral: ("relationPrimary", PRIMARY),
               T.AliasedRelation: ("aliasedRelation", PRIMARY), T.TableSample: ("sampledRelation", PRIMARY), T.Join: ("relation", 2),
               T.GroupBy: ("groupBy", PRIMARY), T.GroupingSet: ("groupingSet", PRIMARY)})
LEVELS.update({c: ("groupingElement", PRIMARY) for c in (T.GroupingSetList, T.Cube, T.Rollup)})
LEVELS.update({c: ("selectItem", PRIMARY) for c in (T.AliasedValue, T.Star, T.AliasedStar)})


def level(cls):
    """The nonterminal (and its precedence) that the text of a node of this class is derived from"""
    if cls in LEVELS:
        return LEVELS[cls]
    if issubclass(cls, T.DataType):
        return "type_", PRIMARY
    if issubclass(cls, T.Query):
        return "query", PRIMARY
    if issubclass(cls, T.Value):
        return "primaryExpression", PRIMARY
    raise Unsupported(f"phrase of a {cls.__name__}")


ORDERS = [["selectItem", BOOLEAN, VALUE, "primaryExpression"], ["relation", "sampledRelation", "aliasedRelation", "relationPrimary"],
          ["groupingElement", "groupingSet"]]


def phrase_of(eng, hole):
    """The level of a part; for a part of several classes the weakest of their levels, and how to tell them apart"""
    hole = eng.norm(hole)
    if not isinstance(hole, Hole):
        return level(type(hole)), None
    if hole.info.get("declared"):
        return ("identifier", PRIMARY), None
    groups = {}
    for c in hole.classes:
        groups.setdefault(level(c), []).append(c)
    if set(groups) == {("query", PRIMARY)}:
        # Without a WITH clause it may be part of another query
        return ("query", PRIMARY), lambda: ("query" if eng.truth(eng.getattr_(hole, "with_")) else "queryNoWith", PRIMARY)
    if len(groups) == 1:
        return next(iter(groups)), None

    def split():
        eng.split(hole, level)
        return level(eng.norm(hole).classes[0])
    for order in ORDERS:
        if not all(r in order for r, _ in groups):
            continue
        rule = next(r for r in order if any(r == g for g, _ in groups))
        return (rule, min(p for r, p in groups if r == rule)), split
    return split(), None


# Equality of what's read with what was printed ------------------------------------------------------------------------------
# What isn't in the text: computed types, resolved schemas
IGNORED = {"_column_schema"}


def settled(eng, l):
    """A list; repetitions of which the length is known to be 0 or 1 are spelled out"""
    if not isinstance(l, (list, tuple)):
        return None
    out = []
    for x in l:
        if not isinstance(x, Each):
            out.append(x)
        elif eng.known_equal(x.base.length, 1) and not getattr(x, "partial", False):
            out += x.items
        elif not eng.known_equal(x.base.length, 0):
            out.append(x)
    return type(l)(out)


def equal(eng, got, want, where=""):
    """None, or where they differ"""
    got, want = eng.norm(got), eng.norm(want)
    if got is want:
        return None
    if isinstance(want, Hole) and len(want.classes) > 1:
        eng.force(eng.type_of(want))
        want = eng.norm(want)
        if got is want:
            return None
    cls = want.classes[0] if isinstance(want, Hole) else eng.pytype(want)
    if isinstance(want, Hole) or attr.has(cls):
        if isinstance(got, Hole) and got.classes != (cls,) or not isinstance(got, Hole) and type(got) is not cls:
            return f"{where}: {got!r} for {want!r}"
        for f in attr.fields(cls):
            if f.name in IGNORED or f.name == "data_type" and cls not in (T.Cast, T.TryCast):
                continue
            d = equal(eng, eng.getattr_(got, f.name), eng.getattr_(want, f.name), f"{where}.{f.name}")
            if d:
                return d
        return None
    if cls in (list, tuple):
        got, want = settled(eng, got), settled(eng, want)
        if got is None or eng.pytype(got) is not cls or len(got) != len(want):
            return f"{where}: {got!r} for {want!r}"
        for i, (x, y) in enumerate(zip(got, want)):
            if isinstance(x, Each) or isinstance(y, Each):
                if not (isinstance(x, Each) and isinstance(y, Each) and x.base is y.base and len(x.items) == len(y.items) and
                        getattr(x, "partial", False) == getattr(y, "partial", False)):
                    return f"{where}: {got!r} for {want!r}"
                ds = [equal(eng, a, b, f"{where}[..]") for a, b in zip(x.items, y.items)]
                d = next((d for d in ds if d), None)
            else:
                d = equal(eng, x, y, f"{where}[{i}]")
            if d:
                return d
        return None
    if cls is dict:
        if eng.pytype(got) is not dict or any(isinstance(k, EachKey) for k in list(got) + list(want)):
            return None if common.same(eng, got, want) else f"{where}: {got!r} for {want!r}"
        if set(got) != set(want):
            return f"{where}: {got!r} for {want!r}"
        return next((d for k in want for d in [equal(eng, got[k], want[k], f"{where}[{k!r}]")] if d), None)
    return None if common.same(eng, got, want) else f"{where}: {got!r} for {want!r}"


def printed(eng, cls, node, mode):
    opts = T.PrintOptions(mode)
    try:
        return eng.call(cls.sql, [node, opts])
    except PyRaise as p:
        raise Refuted(f"a {cls.__name__} is printed", repr(p.exc))


ASIDE = (T.AliasedValue, T.Star, T.AliasedStar)


def excluded(owner, name):
    """Values that aren't operands of SQL expressions: aliases and stars (in a select list only), lambdas (arguments of functions only)"""
    if owner is T.AliasedStar:
        return ()
    if owner is T.SelectQuery and name == "select_i":
        return (T.Lambda,)
    if owner is not None and issubclass(owner, T.Function) and owner is not T.Normalize and name not in ("filter_", "orderby"):
        return ASIDE
    if owner in (T.Field, T.Star):
        # A field of a parameter is printed as a field of a table
        return ASIDE + (T.Lambda, T.Field, T.Lambda.Variable)
    return ASIDE + (T.Lambda,)


def some(make):
    """None or a list that isn't empty"""
    return lambda eng, name: shapes.list_of(eng, lambda: make(eng, name), True, name) if eng.choose(2, (name, ["some", "None"])) == 0 else None


def order_term(eng, name):
    return shapes.instance(eng, T.OrderTerm)


def window(eng, name):
    """No window, the name of one, or a specification of one"""
    k = eng.choose(3, (name, ["None", "name", "specification"]))
    if k == 0:
        return None
    if k == 1:
        none = lambda eng: None
        return shapes.instance(eng, T.Window, orderby=none, partitions=none, frame_type=lambda eng: T.FrameType.default(),
                               parent_window=lambda eng: eng.str_("window", nonempty=True),
                               start_bound=lambda eng: T.UnboundedFrameBound(T.BoundType.PRECEDING), end_bound=lambda eng: T.CurrentFrameBound())
    w = shapes.instance(eng, T.Window)
    w.info["reference"] = False
    return w


def is_reference(eng, args, kwargs):
    """Window.is_reference. ensures: whether it's nothing but a name (an obligation of its own)"""
    h = eng.norm(args[0])
    return h.info["reference"] if isinstance(h, Hole) and "reference" in h.info else NotImplemented


def some_or_none(make):
    """A list, which may be empty"""
    return lambda eng, name: shapes.list_of(eng, lambda: make(eng, name), False, name)


def named_query(eng, name):
    return shapes.instance(eng, T.AliasedRelation, relation=lambda eng: shapes.hole(eng, T.Query, name + ".relation"))


def operand_query(eng, name):
    h = shapes.hole(eng, T.Query, name)
    h.info["fields"] = {"with_": lambda eng: eng.born([])}
    return h


def join_config(eng, name):
    """Joins are CROSS, NATURAL, or have a criterion"""
    k = eng.choose(4, (name, ["CROSS", "NATURAL", "ON", "USING"]))
    kind = shapes.Fin([t for t in T.JoinType if t is not T.JoinType.CROSS], eng.name("join_type")) if k else T.JoinType.CROSS
    criteria = shapes.instance(eng, [None, None, T.JoinOnCriteria, T.JoinUsingCriteria][k]) if k > 1 else None
    return shapes.instance(eng, T.JoinConfig, join_type=lambda eng: kind, natural=lambda eng: k == 1, criteria=lambda eng: criteria)


def windows(eng, name):
    b = eng.base(name, True)
    eng.distinct.append(b)
    d = {EachKey(b, eng.str_(name + "_key", True)): shapes.instance(eng, T.Window)}
    eng.pre[id(d)] = d
    return d


def table(eng, name):
    """A name, qualified by a schema, and that by a catalog"""
    k = eng.choose(3, (name, ["catalog.schema.name", "schema.name", "name"]))
    names = {n: eng.str_(n, nonempty=True) if k <= i else None for i, n in enumerate(("catalog", "schema"))}
    return shapes.instance(eng, T.Table, **{n: lambda eng, v=v: v for n, v in names.items()})


def qualified_star(eng, name):
    table = [lambda: eng.str_(name, nonempty=True), lambda: shapes.hole(eng, T.Value, name, owner=T.Star)][eng.choose(2, (name, ["str", "Value"]))]()
    return shapes.instance(eng, T.Star, table=lambda eng: table)


UNITS = ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]


def parameters(eng, name):
    l = shapes.list_of(eng, lambda: shapes.instance(eng, T.Lambda.Variable), name=name)
    l[0].items[0].info["declared"] = True
    eng.distinct.append(l[0].base)
    return l


def special(owner, name):
    if owner is None:
        return None
    if issubclass(owner, T.AggregateFunction):
        if name == "orderby":
            return some(order_term)
        if name == "window":
            return window
    if owner is T.Window:
        if name == "orderby":
            return some(order_term)
        if name == "partitions":
            return some(lambda eng, name: shapes.hole(eng, T.Value, name, exclude=excluded(None, name)))
    if issubclass(owner, T.Query):
        if name == "with_":
            return some_or_none(named_query)
        if name == "orderby":
            return some(order_term)
        if name in ("left_query", "right_query"):
            return operand_query
        if name == "window":
            return lambda eng, name: None if eng.choose(2, (name, ["some", "None"])) else windows(eng, name)
    if owner is T.AliasedStar and name == "star":
        return qualified_star
    if owner is T.TableQuery and name == "table":
        return table
    if owner is T.Join and name == "config":
        return join_config
    if owner is T.AliasedRelation and name == "column_aliases":
        return some(lambda eng, name: eng.str_(name, nonempty=True))
    if owner is T.Unnest and name == "arrays":
        return lambda eng, name: shapes.list_of(eng, lambda: shapes.hole(eng, T.Value, name, exclude=excluded(None, name)), True, name)
    if owner in (T.GroupingSetList, T.Cube, T.Rollup) and name in ("groups", "values"):
        return lambda eng, name: shapes.list_of(eng, lambda: shapes.instance(eng, T.GroupingSet) if name == "groups" else
                                                shapes.hole(eng, T.Value, name, exclude=excluded(None, name)), True, name)
    if owner is T.Interval and name in ("from_interval", "to_interval"):
        return lambda eng, name: shapes.Fin(UNITS + ([None] if name[0] == "t" else []), eng.name(name))
    if owner is T.TypeConstructor and name == "type_name":
        return lambda eng, name: list(shapes.TYPES)[eng.choose(len(shapes.TYPES), (name, list(shapes.TYPES)))]
    if owner is T.Lambda and name == "inputs":
        return parameters
    if owner is T.ListAgg and name == "separator":
        return lambda eng, name: eng.str_(name)
    if owner is T.OverflowFiller and name == "filler":
        return lambda eng, name: eng.str_(name)


def make(eng, cls, **fields):
    """An arbitrary well-formed node: nulls are treated somehow only in windows"""
    if issubclass(cls, T.AggregateFunction) and "null_treatment" not in fields:
        seen = []
        fields["window"] = lambda eng: seen.append(window(eng, "window")) or seen[0]
        fields["null_treatment"] = lambda eng: T.NullTreatment.RESPECT if seen[0] is None else shapes.Fin(list(T.NullTreatment), eng.name("nulls"))
    return shapes.constructed(eng, cls, **fields)


def pad(eng, args, kwargs):
    """ensures: the same text, but for blanks between tokens"""
    t = eng.norm(args[0])
    return SText([Fn("pad", t)]) if isinstance(t, Sym) else t


def known_type(eng, args, kwargs):
    """ensures: the type of a value, which is known (P09)"""
    return shapes.dtype(eng, "result", [n for n in shapes.TYPES if n != "UNKNOWN"])


def lambda_of(eng, args, kwargs):
    """Lambda.from_generic_expr. ensures: the lambda of the body in which the parameters' names are the parameters (P17)"""
    cls, inputs, body = args if len(args) == 3 else [T.Lambda] + args
    return eng.call(T.Lambda, [inputs, body])


def text_excludes(eng, p, b):
    """Lemma: the text of a part is derived from its rule, so that it's not a text that isn't"""
    if p.op != "sql":
        return False
    (rule, prec), _ = phrase_of(eng, p.arg)
    return phrase.parse(rule, [grammar.Tok(t.type, t.text) for t in phrase.lex(b) if t.channel == 0], 0) is None


def engine(**kw):
    eng = common.engine(**kw)
    for f in ("get_arithmetic_type", "common_supertype", "common_known_supertype"):
        # Reading builds the operation of the same operands again
        eng.contracts[getattr(common.conv, f)] = common.some_type
    for c in (T.SetQuery, T.SelectQuery, T.TableQuery, T.Unnest):
        eng.contracts[c._compute_data_type] = common.some_type
    for f in ("infer_type", "infer_decimal", "infer_char", "infer_integral"):
        eng.contracts[getattr(common.inf, f)] = known_type
    eng.methods["sql"] = text_of
    eng.text_excludes = text_excludes
    eng.excluded, eng.special = excluded, special
    eng.contracts[T.Window.is_reference] = is_reference
    eng.contracts[env.MOD["treeno.printer"].pad] = pad
    eng.contracts[T.Lambda.from_generic_expr.__func__] = lambda_of
    return phrase.install(eng, phrase_of)


def chain(rule, inner, cls, *around):
    """Lemma: a phrase that's nothing but a phrase of another rule (in parentheses, if any) has its value"""
    def harness(eng):
        part = shapes.hole(eng, cls, exclude=excluded(None, "part"))
        if cls is T.Query:
            part.info["fields"] = {"with_": lambda eng: eng.born([])}
        l = grammar.Leaf(inner, PRIMARY if inner not in (BOOLEAN, VALUE) else 1, part)
        eng.start()
        toks = [[grammar.Tok(t.type, t.text) for t in phrase.lex(a)] for a in around or ("", "")]
        try:
            back = phrase.reading(eng, rule, toks[0] + [l] + toks[1], f"a {inner} as a {rule}")
        except PyRaise as p:
            raise Refuted("the phrase is accepted", f"{p.exc!r}"[:500])
        eng.prove(eng.norm(back) is eng.norm(part), f"a {rule} that's nothing but a {inner} has its value", f"{back!r} for {part!r}")
    return f"{inner} as {rule}{' ' + '..'.join(around) if around else ''}", "ConvertVisitor", engine, harness
