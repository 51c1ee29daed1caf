"""P02. Contract of sql of every class of relations, queries and their parts: the text is derived from the grammar at the class's level,
and what ConvertVisitor makes of the derivation is the node. Parts fulfil the contract of their own class (induction; expressions: P01)."""
from pydv import phrase, shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common, p01, trips
from vlib import T

ASSUMES = p01.ASSUMES


def trip(cls, mode, **fields):
    def harness(eng):
        node = trips.make(eng, cls, **fields)
        eng.start()
        s = trips.printed(eng, cls, node, mode)
        what = f"the text of a {cls.__name__}"
        items = phrase.tokens(eng, s, trips.phrase_of, what)
        rule, prec = trips.level(cls)
        try:
            back = eng.call(T.query_from_sql, [s]) if issubclass(cls, T.Query) else phrase.reading(eng, rule, items, what)
        except PyRaise as p:
            raise Refuted("the text is accepted", f"{s!r}: {p.exc!r}"[:500])
        d = trips.equal(eng, back, node)
        eng.prove(d is None, "what's read is what was printed", f"{s!r}: {d}")
    return harness


def one_row(eng):
    """A row is in parentheses itself, so that its text is looked into"""
    row = shapes.instance(eng, T.RowConstructor)
    row.info["inline"] = True
    return eng.born([row])


RELATIONS = [T.Table, T.AliasedRelation, T.Join, T.Unnest, T.Lateral, T.TableSample]
QUERIES = [T.UnionQuery, T.IntersectQuery, T.ExceptQuery, T.TableQuery, T.ValuesQuery]
PARTS = [T.GroupBy, T.GroupingSet, T.GroupingSetList, T.Cube, T.Rollup, T.AliasedValue, T.Star, T.AliasedStar]


def each_class(add):
    # The clauses of a SELECT, in several obligations
    for i in range(8):
        with_, grouped, windows = i & 4, i & 2, i & 1
        fields = {
            "with_": lambda eng, y=with_: shapes.list_of(eng, lambda: trips.named_query(eng, "with"), True, "with") if y else eng.born([]),
            "groupby": lambda eng, y=grouped: shapes.instance(eng, T.GroupBy) if y else None,
            "window": lambda eng, y=windows: trips.windows(eng, "window") if y else None,
        }
        name = ", ".join(n if y else "no " + n for n, y in (("WITH", with_), ("GROUP BY", grouped), ("WINDOW", windows)))
        add(T.SelectQuery, f"SelectQuery ({name})", **fields)
    for cls in QUERIES + RELATIONS + PARTS:
        add(cls, cls.__qualname__)


def jobs():
    js = []

    def add(cls, name, **fields):
        js.append((f"{name} printed and read", f"{cls.__module__}.{cls.__qualname__}.sql, ConvertVisitor", trips.engine,
                   trip(cls, T.PrintMode.DEFAULT, **fields), 120))
    each_class(add)
    add(T.GroupingSet, "GroupingSet of one row", values=one_row)
    for rule, inner, cls in (("selectItem", "expression", T.Value), ("relation", "sampledRelation", T.Relation), ("sampledRelation", "aliasedRelation", T.Relation),
                             ("aliasedRelation", "relationPrimary", T.Relation), ("query", "queryNoWith", T.Query), ("queryNoWith", "queryTerm", T.Query),
                             ("queryTerm", "queryPrimary", T.Query), ("groupingElement", "groupingSet", T.Group)):
        js.append(trips.chain(rule, inner, cls))
    for rule, inner, cls in (("relationPrimary", "relation", T.Relation), ("relationPrimary", "query", T.Query), ("queryPrimary", "queryNoWith", T.Query)):
        js.append(trips.chain(rule, inner, cls, "(", ")"))
    return js
