"""P12. Contracts of resolve of every class of relations, of resolve_fields, and of the methods of Schema, over schemas of any number of
columns: what's said in the property, as a function of the schemas of the parts (induction)."""
import attr

from pydv import models, run, shapes, text
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common
from vlib import T, env

relation = env.MOD["treeno.relation"]
res = env.MOD["treeno.datatypes.resolve"]
conv = common.conv
Schema, SchemaField = T.Schema, T.SchemaField

ASSUMES = ["common_supertype and the types of resolved expressions fulfil their contracts (P08, P10)",
           "the columns of two schemas are different objects",
           "chains of aliases and samples around a relation of a join or FROM have a length of at most two (bounded)",
           "names of the columns of a join that aren't shared differ from the shared ones; up to two shared names (bounded)"]


# Arbitrary schemas ----------------------------------------------------------------------------------------------------------
def segment(eng, tag, make, nonempty=False):
    """Any number of columns"""
    b = eng.base(tag, nonempty)
    b.tag = tag
    return Each(b, [make()])


def plain_relation(eng, name="source"):
    """A relation that has no name"""
    return shapes.hole(eng, T.Relation, name, exclude=(T.Table, T.AliasedRelation))


def source(eng, name):
    """An arbitrary relation that a qualifier calls that name"""
    if name is None:
        return plain_relation(eng)
    h = shapes.hole(eng, T.Relation, "source")
    h.classes = (T.Table, T.AliasedRelation)
    h.info["fields"] = {"name": lambda eng: name, "alias": lambda eng: name}
    h.info["called"] = name
    return h


def identifier(eng, hole, args, kwargs):
    """relation.identifier(): the contract that's proved below"""
    hole = eng.norm(hole)
    if isinstance(hole, Hole) and "called" in hole.info:
        return hole.info["called"]
    if isinstance(hole, Hole) and all(issubclass(c, T.Relation) for c in hole.classes) and not set(hole.classes) & {T.Table, T.AliasedRelation}:
        return None
    return NotImplemented


def some_source(eng):
    return source(eng, eng.str_("id", True) if eng.choose(2, ("source", ["named", "without a name"])) == 0 else None)


def name_of(eng, rel):
    """What a qualifier calls the relation"""
    rel = eng.norm(rel)
    if not isinstance(rel, Sym):
        return rel.name if isinstance(rel, T.Table) else rel.alias if isinstance(rel, T.AliasedRelation) else None
    if "called" in rel.info:
        return rel.info["called"]
    k = eng.split(rel, lambda c: c if c in (T.Table, T.AliasedRelation) else None)
    return eng.getattr_(rel, "name") if k is T.Table else eng.getattr_(rel, "alias") if k is T.AliasedRelation else None


def column(eng, name, src, data_type=None):
    """name and src may be functions: they're chosen when they're looked at"""
    return shapes.instance(eng, SchemaField, name=lambda eng: name(eng) if callable(name) else name, source=lambda eng: src(eng) if callable(src) else src,
                           data_type=lambda eng: shapes.dtype(eng, "column") if data_type is None else data_type)


def some_column(eng, named=None):
    return column(eng, (lambda eng: eng.str_("name", True)) if named else None if named is False else some_name, some_source)


def some_name(eng):
    return eng.str_("name", True) if eng.choose(2, ("column", ["named", "without a name"])) == 0 else None


def columns(eng, *parts):
    l = list(parts)
    eng.pre[id(l)] = l
    return l


def schema(eng, fields=None, ids=None, partial=None, tag="columns"):
    fields = columns(eng, segment(eng, tag, lambda: some_column(eng))) if fields is None else fields
    ids, partial = ids if ids is not None else GhostSet(tag + "_ids"), partial if partial is not None else GhostSet(tag + "_partial")
    for s in (ids, partial):
        eng.pre[id(s)] = s
    s = shapes.instance(eng, Schema, fields=lambda eng: fields, relation_ids=lambda eng: ids, partial_ids=lambda eng: partial)
    for f in ("fields", "relation_ids", "partial_ids"):
        eng.getattr_(s, f)
    return s


# Comparing ------------------------------------------------------------------------------------------------------------------
def original(eng, x):
    x = eng.norm(x)
    while isinstance(x, Hole) and x.info.get("copy") is not None:
        x = eng.norm(x.info["copy"])
    return x


def same(eng, a, b):
    a, b = original(eng, a), original(eng, b)
    if a is b:
        return True
    if isinstance(a, Each) and isinstance(b, Each):
        return (a.base is b.base or eng.known_equal(a.base.length, b.base.length)) and len(a.items) == len(b.items) and \
            getattr(a, "partial", False) == getattr(b, "partial", False) and all(same(eng, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        a, b = [x for x in a if not _empty(eng, x)], [x for x in b if not _empty(eng, x)]
        return len(a) == len(b) and all(same(eng, x, y) for x, y in zip(a, b))
    if attr.has(type(a)) and type(a) is type(b) and not isinstance(a, Sym):
        return all(same(eng, getattr(a, f.name), getattr(b, f.name)) for f in attr.fields(type(a)) if f.name != "data_type" or not isinstance(a, T.Relation))
    if isinstance(a, SchemaField) or isinstance(b, SchemaField):
        # A column of which the object doesn't matter
        return all(isinstance(x, SchemaField) or isinstance(x, Hole) and x.classes == (SchemaField,) for x in (a, b)) and \
            all(same(eng, eng.getattr_(a, f), eng.getattr_(b, f)) for f in ("name", "source", "data_type"))
    return common.same(eng, a, b)


def _empty(eng, x):
    return isinstance(x, Each) and (not x.items and not getattr(x, "partial", False) or eng.known_equal(x.base.length, 0))


def prove_columns(eng, got, want, what="the columns are those of the relation"):
    got = eng.norm(eng.getattr_(got, "fields"))
    eng.prove(same(eng, got, want), what, f"{describe(eng, got)}\nrather than {describe(eng, want)}")


def describe(eng, l):
    def one(x):
        if isinstance(x, Each):
            return f"Each[{x.base}]({', '.join(one(i) for i in x.items)}){'?' if getattr(x, 'partial', False) else ''}"
        try:
            return f"({eng.getattr_(x, 'name')!r}, {eng.getattr_(x, 'source')!r:.60}, {eng.getattr_(x, 'data_type')!r})"
        except Exception:
            return repr(x)
    return "[" + ", ".join(one(x) for x in l) + "]"


def probe(eng):
    """An arbitrary name (or none) of a relation"""
    return eng.str_("probe", True) if eng.choose(2, ("probe", ["a name", "None"])) == 0 else None


def prove_member(eng, x, got, want, what):
    got = eng.truth(eng.in_(x, got))
    eng.prove(got == want, what, f"{x!r} is{'' if got else ' not'} a member")


def unknown_id(eng, s, x):
    """Whether not all columns of the relation x are known"""
    fields = eng.norm(eng.getattr_(s, "fields"))
    ids = eng.getattr_(s, "relation_ids")
    if eng.truth(eng.compare_ints(eng.length(fields), 0)):
        return eng.truth(eng.in_(x, ids)) if eng.truth(ids) else x is None
    if eng.truth(eng.in_(x, eng.getattr_(s, "partial_ids"))):
        return True
    return eng.truth(eng.in_(x, models.set_op(eng, "__sub__", ids, known_ids(eng, fields))))


def unknown_columns(eng, s):
    """Whether there's a relation of which columns are unknown"""
    fields = eng.norm(eng.getattr_(s, "fields"))
    if eng.truth(eng.compare_ints(eng.length(fields), 0)):
        return True
    missing = models.set_op(eng, "__sub__", eng.getattr_(s, "relation_ids"), known_ids(eng, fields))
    return eng.truth(eng.getattr_(s, "partial_ids")) or eng.truth(missing)


def known_ids(eng, fields):
    out = []
    for f in fields:
        if isinstance(f, Each):
            e = Each(f.base, [name_of(eng, eng.getattr_(i, "source")) for i in f.items])
            e.partial = getattr(f, "partial", False)
            out.append(e)
        else:
            out.append(name_of(eng, eng.getattr_(f, "source")))
    return SymSet(out)


# The contracts of the parts --------------------------------------------------------------------------------------------------
def tkey(t):
    return id(t) if isinstance(t, Hole) else repr(t)


def common_type(eng, args, kwargs):
    """ensures: the common type of the operands (P08). raises: TypeError if there's none"""
    a, b = [original(eng, x) for x in (list(args) + list(kwargs.values()))[:2]]
    key = ("common",) + tuple(sorted([tkey(a), tkey(b)], key=str))
    if key not in eng.memo:
        eng.keep += [a, b]
        eng.memo[key] = shapes.dtype(eng, "common") if eng.choose(2, ("common type", None)) == 0 else None
    if eng.memo[key] is None:
        raise PyRaise(TypeError("no common type"))
    return eng.memo[key]


def child(eng, hole, args, kwargs):
    """relation.resolve(existing): an arbitrary schema, which only depends on the relation and on the existing schema"""
    hole = eng.norm(hole)
    if not isinstance(hole, Hole) or any(not issubclass(c, T.Relation) for c in hole.classes):
        return NotImplemented
    given = (list(args) + list(kwargs.values()))[0]
    if eng.choose(2, ("resolving a part", None)) == 1:
        raise PyRaise(AssertionError("a part can't be resolved"))
    for h, s, out in eng.resolved:
        if h is hole and s is given:
            return out
    out = eng.schemas.get(id(hole)) or schema(eng, tag=f"columns{len(eng.resolved)}")
    eng.resolved.append((hole, given, out))
    return out


def engine():
    eng = shapes.engine()
    common.type_contracts(eng)
    eng.contracts.pop(getattr(T.Unnest, "_compute_data_type", None), None)
    eng.contracts[conv.common_supertype] = common_type
    eng.methods["resolve"] = child
    eng.methods["identifier"] = identifier
    return eng


def begin(eng):
    eng.resolved, eng.schemas, eng.resolved_nodes = [], {}, []


def given_to(eng, hole):
    """The schema that a part was resolved against"""
    got = [s for h, s, _ in eng.resolved if h is hole]
    eng.prove(len(got) == 1, "the part is resolved once", repr(eng.resolved))
    return got[0]


def run_(eng, f, args, allowed=()):
    """The result of a call, or None if it raised an AssertionError or a TypeError"""
    eng.start()
    try:
        return eng.call(f, args)
    except PyRaise as p:
        if not isinstance(p.exc, (AssertionError, TypeError)) or isinstance(p.exc, TypeError) and "no common type" not in str(p.exc):
            raise Refuted("resolving succeeds", repr(p.exc))
        if "can't be resolved" in str(p.exc) or isinstance(p.exc, TypeError):
            raise Infeasible()
        return None


J = []


def job(name, function):
    def add(h):
        J.append((name, function, engine, h))
        return h
    return add


# Schema ----------------------------------------------------------------------------------------------------------------------
@job("the relations of which columns are unknown", "treeno.relation.Schema.unknown_ids")
def unknown_ids(eng):
    begin(eng)
    s = schema(eng)
    x = probe(eng)
    got = run_(eng, Schema.unknown_ids, [s])
    prove_member(eng, x, got, unknown_id(eng, s, x), "a relation is unknown iff columns of it are")
    common.unchanged(eng)


@job("whether columns are unknown", "treeno.relation.Schema.is_partial")
def is_partial(eng):
    begin(eng)
    s = schema(eng)
    got = run_(eng, Schema.is_partial, [s])
    eng.prove(eng.truth(got) == unknown_columns(eng, s), "columns are unknown iff those of a relation are")
    if unknown_id(eng, s, probe(eng)):
        eng.prove(eng.truth(got), "columns are unknown if those of a relation are")
    common.unchanged(eng)


def identifier_job(cls):
    @job(f"what a qualifier calls a {cls.__name__}", f"treeno.relation.{cls.__name__}.identifier")
    def h(eng):
        begin(eng)
        rel = shapes.instance(eng, cls)
        got = run_(eng, cls.identifier, [rel])
        want = eng.getattr_(rel, "name") if cls is T.Table else eng.getattr_(rel, "alias") if cls is T.AliasedRelation else None
        eng.prove(same(eng, got, want), "the name of a table or the alias, if it has one", repr(got))
        common.unchanged(eng)


for _c in T.node_classes():
    if issubclass(_c, T.Relation):
        identifier_job(_c)


# References to columns ---------------------------------------------------------------------------------------------------------
TABLES = ["no qualifier", "a qualifier", "a value"]


def other_column(eng, name, table):
    """A column that a reference to `name` of `table` doesn't mean"""
    kinds = ["another name", "no name"] + (["another table", "a relation without a name"] if table is not None else [])
    k = kinds[eng.choose(len(kinds), ("column", kinds))]
    n, src = name, None
    if k == "another name":
        n, src = eng.str_("other", True), some_source
        text.assume_different(eng, n, name)
    elif k == "no name":
        n, src = None, some_source
    elif k == "another table":
        t = eng.str_("table", True)
        text.assume_different(eng, t, table)
        src = lambda eng: source(eng, t)
    else:
        src = plain_relation
    return column(eng, n, src)


def the_column(eng, name, table):
    return column(eng, name, some_source if table is None else lambda eng: source(eng, table))


def lookups(eng, name, table):
    """Any schema, and the columns of it that the reference means (up to two of them)"""
    k = eng.choose(3, ("the column", ["one", "none", "several"]))
    other = lambda tag: segment(eng, tag, lambda: other_column(eng, name, table))
    if k == 1:
        return schema(eng, columns(eng, other("others"))), []
    m = the_column(eng, name, table)
    if k == 0:
        return schema(eng, columns(eng, other("before"), m, other("after"))), [m]
    n = the_column(eng, name, table)
    any_ = segment(eng, "rest", lambda: some_column(eng))
    return schema(eng, columns(eng, other("before"), m, other("between"), n, any_)), [m, n]


def field_job(kind, as_part):
    @job(f"resolve_fields of a reference to a column ({kind}{', part of an expression' if as_part else ''})", "treeno.datatypes.resolve.resolve_fields")
    def h(eng):
        begin(eng)
        name = eng.str_("column", True)
        table = {"no qualifier": lambda: None, "a qualifier": lambda: eng.str_("table", True)}[kind]()
        f = shapes.instance(eng, T.Field, name=lambda eng: name, table=lambda eng: table)
        s, meant = lookups(eng, name, table)
        node = shapes.instance(eng, T.Negative, value=lambda eng: f) if as_part else f
        got = run_(eng, res.resolve_fields, [node, s])
        common.unchanged(eng)
        if len(meant) == 2:
            eng.prove(got is None, "an ambiguous reference is reported", repr(got))
            return
        eng.prove(got is not None, "a reference which isn't ambiguous is resolved")
        if as_part:
            got = eng.getattr_(got, "value")
        got = eng.norm(got)
        eng.prove(eng.force(eng.type_of(got)) is T.Field, "it's still a reference", repr(got))
        eng.prove(same(eng, eng.getattr_(got, "name"), name) and same(eng, eng.getattr_(got, "table"), table), "to the same column", repr(got))
        want = eng.getattr_(meant[0] if meant else f, "data_type")
        eng.prove(same(eng, eng.getattr_(got, "data_type"), want), "of the type of the column" if meant else "of the type that was given",
                  f"{eng.getattr_(got, 'data_type')!r} rather than {want!r}")


for _k in TABLES[:2]:
    for _p in (False, True):
        field_job(_k, _p)


def star_schema(eng, table):
    """Any schema, and the columns that table.* stands for: None if it's not known which"""
    if table is None:
        s = schema(eng, columns(eng, segment(eng, "columns", lambda: some_column(eng))))
        fields = eng.getattr_(s, "fields")
        return s, None if unknown_columns(eng, s) else list(fields)

    def other():
        kinds = ["another table", "a relation without a name"]
        if eng.choose(2, ("column", kinds)) == 1:
            return column(eng, some_name, plain_relation)
        t = eng.str_("table", True)
        text.assume_different(eng, t, table)
        return column(eng, some_name, lambda eng: source(eng, t))

    def mine():
        return column(eng, some_name, lambda eng: source(eng, table))
    k = eng.choose(2, ("columns of the table", ["some", "none"]))
    if k == 1:
        s = schema(eng, columns(eng, segment(eng, "others", other)))
        return s, None
    own = [segment(eng, "own", mine, nonempty=True), segment(eng, "own too", mine)]
    s = schema(eng, columns(eng, segment(eng, "before", other), own[0], segment(eng, "between", other), own[1]))
    return s, None if eng.truth(eng.in_(table, eng.getattr_(s, "partial_ids"))) else own


def star_job(kind):
    @job(f"resolve_fields of a star ({kind})", "treeno.datatypes.resolve.resolve_fields")
    def h(eng):
        begin(eng)
        table = {"no qualifier": lambda: None, "a qualifier": lambda: eng.str_("table", True)}[kind]()
        star = shapes.instance(eng, T.Star, table=lambda eng: table)
        eng.getattr_(star, "data_type")
        s, cols = star_schema(eng, table)
        got = run_(eng, res.resolve_fields, [star, s])
        common.unchanged(eng)
        eng.prove(got is not None, "a star is resolved")
        got = eng.norm(got)
        eng.prove(eng.force(eng.type_of(got)) is T.Star and same(eng, eng.getattr_(got, "table"), table), "it's the same star", repr(got))
        t = eng.norm(eng.getattr_(got, "data_type"))
        if cols is None:
            eng.prove(same(eng, t, eng.getattr_(star, "data_type")), "of the type that was given if not all of the columns are known", repr(t))
            return
        eng.prove(not isinstance(t, Hole) and eng.force(t.type_name) == "ROW", "of a row type", repr(t))
        want = [_types(eng, c) for c in cols]
        eng.prove(same(eng, list(t.parameters["dtypes"]), want), "with the types of the columns", f"{t!r} rather than {want!r}")


def _types(eng, c):
    return Each(c.base, [eng.getattr_(i, "data_type") for i in c.items]) if isinstance(c, Each) else eng.getattr_(c, "data_type")


for _k in TABLES[:2]:
    star_job(_k)



# Expressions -------------------------------------------------------------------------------------------------------------------
def token(eng, x, s):
    """resolve_fields(x, s) of a part of an expression: of the same class, with the same names"""
    x = eng.norm(x)
    if isinstance(x, Each):
        e = Each(x.base, [token(eng, i, s) for i in x.items])
        e.partial = getattr(x, "partial", False)
        return e
    if isinstance(x, (list, tuple)):
        return eng.born(type(x)(token(eng, i, s) for i in x))
    if isinstance(x, dict):
        return eng.born({k: token(eng, v, s) for k, v in x.items()})
    if isinstance(x, Hole) and eng.is_none(x):
        return None
    if isinstance(x, Hole) and all(issubclass(c, T.Sql) for c in x.classes) and T.DataType not in x.classes:
        key = ("resolved", id(x), id(s))
        if key not in eng.memo:
            def part(eng, h, name):
                if not models._is_field(x, name) or name == "data_type":
                    return NotImplemented
                return token(eng, eng.getattr_(x, name), s)
            h = Hole(x.classes, f"resolved({x.name})", {"resolved": (x, s), "like": x, "getattr": part,
                                                        "fields": {"data_type": lambda eng: shapes.dtype(eng, "resolved")}})
            eng.keep += [x, s]
            eng.pre[id(h)] = h
            eng.memo[key] = h
        return eng.memo[key]
    if isinstance(x, T.Sql) and not isinstance(x, T.DataType):
        raise Unsupported("a part that isn't unknown")
    return models.f_deepcopy(eng, x)


def is_resolved(eng, got, x, s):
    """Whether got is x with all parts resolved"""
    got, x = eng.norm(got), eng.norm(x)
    if isinstance(got, Hole) and "resolved" in got.info:
        return got.info["resolved"][0] is x and got.info["resolved"][1] is s
    if isinstance(x, Each):
        return isinstance(got, Each) and got.base is x.base and len(got.items) == len(x.items) and not getattr(got, "partial", False) and \
            all(is_resolved(eng, g, i, s) for g, i in zip(got.items, x.items))
    if isinstance(x, (list, tuple)):
        return type(got) is type(x) and len(got) == len(x) and all(is_resolved(eng, g, i, s) for g, i in zip(got, x))
    if isinstance(x, dict):
        return isinstance(got, dict) and common.same(eng, {k: 0 for k in got}, {k: 0 for k in x}) and \
            all(is_resolved(eng, g, i, s) for g, i in zip(got.values(), x.values()))
    if isinstance(x, Hole) and eng.is_none(x):
        return got is None
    if isinstance(x, Hole) and all(issubclass(c, T.Query) for c in x.classes):
        return same(eng, got, x)
    if isinstance(x, Hole) and any(issubclass(c, T.Sql) and not issubclass(c, T.DataType) for c in x.classes):
        return False
    return same(eng, got, x)


def expression_job(cls):
    @job(f"resolve_fields of a {cls.__name__}", "treeno.datatypes.resolve.resolve_fields")
    def h(eng):
        begin(eng)
        fields = {}
        if cls in (T.Cast, T.TryCast, T.Literal):
            fields["data_type"] = lambda eng: shapes.dtype(eng, "target", [n for n in shapes.TYPES if n != "UNKNOWN"])
        if cls is T.Interval:
            fields["from_interval"] = lambda eng: Fin(["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"], "from")
        if cls is T.TypeConstructor:
            fields["type_name"] = lambda eng: Fin(["DATE", "TIMESTAMP", "TIME", "DECIMAL", "CHAR", "JSON"], "type_name")
        if cls in (T.Field, T.Star):
            fields["table"] = lambda eng: shapes.hole(eng, T.Value, "table", exclude=(T.Field,))
        if issubclass(cls, T.Query):
            node = shapes.hole(eng, cls)
            node.classes = (cls,)
        else:
            node = shapes.constructed(eng, cls, **fields)
        s = schema(eng)

        def ih(eng, name, args, kwargs):
            given = list(args) + list(kwargs.values())
            nodes = [a for a in given if a is not s and not isinstance(a, type)]
            if not nodes or any(isinstance(a, Hole) and a.classes == (Schema,) for a in nodes):
                raise Unsupported("recursion with other arguments")
            return token(eng, nodes[0], s)
        eng.ih = ih
        eng.start()
        try:
            got = eng.call(res.resolve_fields, [node, s])
        except PyRaise as p:
            # Types that don't fit (P10)
            if isinstance(p.exc, (AssertionError, TypeError)):
                raise Infeasible()
            raise Refuted("resolving succeeds", repr(p.exc))
        common.unchanged(eng)
        got = eng.norm(got)
        if issubclass(cls, T.Query):
            eng.prove(same(eng, got, node), "a query is left alone", repr(got))
            return
        eng.prove(not isinstance(got, Sym) and type(got) is cls, "the node is of the same class", repr(got))
        for f in attr.fields(cls):
            if f.name in ("data_type", "_column_schema") and cls not in (T.Cast, T.TryCast, T.Literal):
                continue
            g, x = getattr(got, f.name), eng.getattr_(node, f.name)
            eng.prove(is_resolved(eng, g, x, s), f"{f.name} is resolved against the schema", f"{g!r} of {x!r}")
    return h


RELATIONS = (T.Relation,)
for _c in T.node_classes():
    if issubclass(_c, T.Sql) and not issubclass(_c, T.DataType) and (issubclass(_c, T.Query) or not issubclass(_c, T.Relation)) and \
            not issubclass(_c, (T.JoinCriteria, T.JoinConfig, T.Lambda.Variable)):
        expression_job(_c)



# Relations -----------------------------------------------------------------------------------------------------------------------
def unknown():
    return T.unknown()


def query(eng, cls, **fields):
    fields.setdefault("with_", lambda eng: columns(eng))
    return shapes.instance(eng, cls, **fields)


def other_name(eng, *names):
    """A name that differs from the others"""
    x = eng.str_("other", True)
    for n in names:
        if n is not None:
            text.assume_different(eng, x, n)
    return x


def one_of(eng, *names):
    """One of the names, another one, or none"""
    k = eng.choose(len(names) + 2, ("probe", ["a name", "another name", "None"]))
    return names[k] if k < len(names) else other_name(eng, *names) if k == len(names) else None


def prove_unknown(eng, got, x, want, what):
    ids = eng.call_method(got, "unknown_ids")
    prove_member(eng, x, ids, want, what)


def given_existing(eng, part, existing):
    got = given_to(eng, part)
    eng.prove(got is existing, "the part is resolved against the existing schema", repr(got))


def result(eng, node, existing):
    out = run_(eng, type_(eng, node).resolve, [node, existing])
    return out


def type_(eng, node):
    return eng.force(eng.type_of(node))


def returned(eng, out):
    eng.prove(out is not None, "the relation can be resolved")
    c = eng.force(eng.type_of(out))
    eng.prove(c is Schema, "the result is a schema", repr(out))
    return out


def only_itself(eng, node, *names):
    """What resolving is documented to record in the relation"""
    bad = [w for w in eng.writes if w[1] is not node or w[2] not in names]
    eng.prove(not bad, "nothing else is changed", repr(bad)[:300])


@job("resolve of an alias", "treeno.relation.AliasedRelation.resolve")
def alias(eng):
    begin(eng)
    part, name = shapes.hole(eng, T.Relation, "relation"), eng.str_("alias", True)
    rel = shapes.instance(eng, T.AliasedRelation, relation=lambda eng: part, alias=lambda eng: name,
                          column_aliases=lambda eng: None if eng.choose(2, ("aliases", ["None", "empty"])) == 0 else columns(eng))
    existing, inner = schema(eng, tag="existing"), schema(eng, tag="inner")
    eng.schemas[id(part)] = inner
    out = returned(eng, result(eng, rel, existing))
    given_existing(eng, part, existing)
    f = eng.getattr_(inner, "fields")[0]
    prove_columns(eng, out, [Each(f.base, [T.SchemaField(eng.getattr_(i, "name"), rel, eng.getattr_(i, "data_type")) for i in f.items])],
                  "the columns are those of the relation, as columns of the alias")
    x = one_of(eng, name)
    prove_member(eng, x, eng.getattr_(out, "relation_ids"), x is name, "the alias is the only name")
    partial = unknown_columns(eng, inner)
    prove_unknown(eng, out, x, x is name and partial, "columns of the alias are unknown iff columns of the relation are")
    only_itself(eng, rel)


def renamed(eng, node, tag="inner"):
    """Columns (all of the columns of a relation), new names for them, and what they're called then: None if there aren't as many"""
    k = eng.choose(3, ("aliases", ["as many", "not as many", "not as many, but not all columns are known"]))
    names = segment(eng, tag + " aliases", lambda: eng.str_("alias", True), nonempty=True)
    known = lambda eng: shapes.dtype(eng, "column", [n for n in shapes.TYPES if n != "UNKNOWN"])

    def named():
        if eng.choose(2, ("column", ["named", "without a name"])) == 0:
            return column(eng, lambda eng: eng.str_("name", True), plain_relation)
        return column(eng, None, plain_relation, known(eng))
    if k == 0:
        cols = segment(eng, tag, lambda: column(eng, some_name, plain_relation), nonempty=True)
        eng.assume(names.base.length.e == cols.base.length.e)
        return columns(eng, cols), columns(eng, names), [Each(names.base, [T.SchemaField(names.items[0], node, eng.getattr_(cols.items[0], "data_type"))])]
    fields = columns(eng, segment(eng, tag, named, nonempty=k == 1))
    eng.uniform[fields[0].base] = lambda: True
    want = None
    if k == 2:
        fields.append(column(eng, None, plain_relation, T.unknown()))
        fields.append(segment(eng, tag + " rest", lambda: column(eng, some_name, plain_relation)))
        want = [Each(names.base, [T.SchemaField(names.items[0], node, T.unknown())])]
    eng.assume(names.base.length.e != eng.z(eng.length(fields)))
    return fields, columns(eng, names), want


@job("resolve of an alias with names for the columns", "treeno.relation.AliasedRelation.resolve")
def column_aliases(eng):
    begin(eng)
    part, name = shapes.hole(eng, T.Relation, "relation"), eng.str_("alias", True)
    rel = shapes.instance(eng, T.AliasedRelation, relation=lambda eng: part, alias=lambda eng: name, column_aliases=lambda eng: names)
    existing = schema(eng, tag="existing")
    fields, names, want = renamed(eng, rel)
    if eng.choose(2, ("columns", ["some", "none"])) == 1:
        fields = columns(eng)
    complete = eng.choose(2, ("columns", ["all are known", "not all are known"])) == 0
    inner = schema(eng, fields, SymSet([]), SymSet([]) if complete else GhostSet("partial", [(eng.str_("x", True), True)]), tag="inner")
    eng.schemas[id(part)] = inner
    out = result(eng, rel, existing)
    given_existing(eng, part, existing)
    only_itself(eng, rel)
    if unknown_columns(eng, inner):
        want = [Each(names[0].base, [T.SchemaField(names[0].items[0], rel, T.unknown())])]
    if want is None:
        eng.prove(out is None, "another number of names than of columns is reported")
        return
    out = returned(eng, out)
    prove_columns(eng, out, want, "the columns have the names and the types of the columns (unknown ones unless all of them are known)")
    x = one_of(eng, name)
    prove_member(eng, x, eng.getattr_(out, "relation_ids"), x is name, "the alias is the only name")
    prove_unknown(eng, out, x, False, "all columns have names")


def through(cls, attribute):
    @job(f"resolve of {cls.__name__}", f"treeno.relation.{cls.__name__}.resolve")
    def h(eng):
        begin(eng)
        part = shapes.hole(eng, T.Query if cls is T.Lateral else T.Relation, "relation")
        rel = shapes.instance(eng, cls, **{attribute: lambda eng: part})
        existing, inner = schema(eng, tag="existing"), schema(eng, tag="inner")
        eng.schemas[id(part)] = inner
        out = returned(eng, result(eng, rel, existing))
        given_existing(eng, part, existing)
        prove_columns(eng, out, eng.getattr_(inner, "fields"))
        x = probe(eng)
        prove_member(eng, x, eng.getattr_(out, "relation_ids"), eng.truth(eng.in_(x, eng.getattr_(inner, "relation_ids"))), "the names are those of the relation")
        prove_unknown(eng, out, x, unknown_id(eng, inner, x), "columns are unknown iff they are in the relation")
        only_itself(eng, rel)


through(T.Lateral, "subquery")
through(T.TableSample, "relation")


def table_or_alias(eng, name):
    if eng.choose(2, ("source", ["table", "alias"])) == 0:
        return shapes.instance(eng, T.Table, name=lambda eng: name)
    return shapes.instance(eng, T.AliasedRelation, alias=lambda eng: name)


@job("resolve of a table", "treeno.relation.Table.resolve")
def table(eng):
    begin(eng)
    name = eng.str_("table", True)
    k = eng.choose(3, ("table", ["t", "s.t", "c.s.t"]))
    s, c = [(None, None), (eng.str_("schema", True), None), (eng.str_("schema", True), eng.str_("catalog", True))][k]
    own = schema(eng, ids=GhostSet("own_ids", [(name, True)]), partial=SymSet([]), tag="own")
    rel = shapes.instance(eng, T.Table, name=lambda eng: name, schema=lambda eng: s, catalog=lambda eng: c, _column_schema=lambda eng: own)
    eng.getattr_(rel, "_column_schema")
    defined = eng.choose(2, ("the name", ["isn't defined", "is defined"])) == 1

    def qualified(eng, q, catalog):
        return shapes.instance(eng, T.Table, name=lambda eng: name, schema=lambda eng: q, catalog=lambda eng: catalog)

    def mine_source(eng):
        if s is None:
            return table_or_alias(eng, name)
        q = s if eng.choose(2, ("qualifier", ["the same", "None"])) == 0 else None
        if q is None:
            return qualified(eng, None, None)
        i = eng.choose(3, ("catalog", ["None", "the same", "any"]))
        return qualified(eng, q, [None, c, None if c is not None else eng.str_("any", True)][i])

    def other():
        kinds = ["another name", "no name"] + (["an alias", "another schema"] if s is not None else []) + (["another catalog"] if c is not None else [])
        i = kinds[eng.choose(len(kinds), ("column", kinds))]
        src = {"another name": lambda eng: table_or_alias(eng, other_name(eng, name)), "no name": plain_relation,
               "an alias": lambda eng: shapes.instance(eng, T.AliasedRelation, alias=lambda eng: name),
               "another schema": lambda eng: qualified(eng, other_name(eng, s), None if eng.choose(2, ("catalog", None)) == 0 else eng.str_("any", True)),
               "another catalog": lambda eng: qualified(eng, s, other_name(eng, c))}[i]
        return column(eng, some_name, src)
    own_segments = [segment(eng, "mine", lambda: column(eng, some_name, mine_source), nonempty=True)] if eng.choose(2, ("columns", ["some", "none"])) == 0 else []
    existing = schema(eng, columns(eng, segment(eng, "others", other), *own_segments), GhostSet("ids", [(name, defined)]), tag="existing")
    out = returned(eng, result(eng, rel, existing))
    only_itself(eng, rel, "_column_schema")
    x = one_of(eng, name)
    if not defined or s is not None and not own_segments:
        prove_columns(eng, out, eng.getattr_(own, "fields"), "the columns are those of the table")
        prove_unknown(eng, out, x, unknown_id(eng, own, x), "columns are unknown iff the table's are")
        return
    prove_columns(eng, out, own_segments, "the columns are those of the relation of that name")
    prove_member(eng, x, eng.getattr_(out, "relation_ids"), x is name, "its name is the only one")
    prove_unknown(eng, out, x, not own_segments and x is name, "columns are unknown iff there's none")


@job("resolve of a TABLE query", "treeno.relation.TableQuery.resolve")
def table_query(eng):
    begin(eng)
    part = shapes.instance(eng, T.Table)
    rel = query(eng, T.TableQuery, table=lambda eng: part)
    existing, inner = schema(eng, tag="existing"), schema(eng, tag="inner")
    eng.schemas[id(part)] = inner
    out = returned(eng, result(eng, rel, existing))
    given_existing(eng, part, existing)
    prove_columns(eng, out, eng.getattr_(inner, "fields"), "the columns are those of the table")
    only_itself(eng, rel, "data_type")


@job("resolve of VALUES", "treeno.relation.ValuesQuery.resolve")
def values_query(eng):
    begin(eng)
    rel = query(eng, T.ValuesQuery)
    existing = schema(eng, tag="existing")
    k = eng.getattr_(rel, "data_type")
    out = returned(eng, result(eng, rel, existing))
    t = eng.force(eng.getattr_(k, "type_name"))
    if t == "ROW":
        e = eng.getattr_(k, "parameters")["dtypes"][0]
        want = [Each(e.base, [T.SchemaField(None, rel, i) for i in e.items])]
    else:
        want = [T.SchemaField(None, rel, k)]
    prove_columns(eng, out, want, "there's a column for each value of a row")
    prove_member(eng, probe(eng), eng.getattr_(out, "relation_ids"), False, "it has no name")
    only_itself(eng, rel, "data_type")


def set_query(cls):
    @job(f"resolve of {cls.__name__}", "treeno.relation.SetQuery.resolve")
    def h(eng):
        begin(eng)
        left, right = shapes.hole(eng, T.Query, "left"), shapes.hole(eng, T.Query, "right")
        rel = query(eng, cls, left_query=lambda eng: left, right_query=lambda eng: right)
        existing, a, b = schema(eng, tag="existing"), schema(eng, tag="left"), schema(eng, tag="right")
        eng.schemas[id(left)], eng.schemas[id(right)] = a, b
        l, r = eng.getattr_(a, "fields")[0], eng.getattr_(b, "fields")[0]
        as_many = eng.choose(2, ("columns", ["as many", "not as many"])) == 0
        eng.assume(l.base.length.e == r.base.length.e if as_many else l.base.length.e != r.base.length.e)
        out = result(eng, rel, existing)
        if out is None:
            # The types of the queries don't fit (P10)
            types = [eng.force(eng.getattr_(eng.getattr_(q, "data_type"), "type_name")) for q in (left, right)]
            eng.prove("UNKNOWN" not in types, "the query can be resolved", repr(types))
            raise Infeasible()
        returned(eng, out)
        given_existing(eng, left, existing)
        given_existing(eng, right, existing)
        i = l.items[0]
        if as_many and not eng.known_equal(l.base.length, 0):
            try:
                t = common_type(eng, [eng.getattr_(i, "data_type"), eng.getattr_(r.items[0], "data_type")], {})
            except PyRaise:
                raise Refuted("types of columns which don't fit are reported", "")
        else:
            t = T.unknown()
        prove_columns(eng, out, [Each(l.base, [T.SchemaField(eng.getattr_(i, "name"), rel, t)])],
                      "the columns have the names of the left query and the common types")
        prove_member(eng, probe(eng), eng.getattr_(out, "relation_ids"), False, "it has no name")
        only_itself(eng, rel, "data_type")


for _c in (T.UnionQuery, T.IntersectQuery, T.ExceptQuery):
    set_query(_c)



@job("resolve of UNNEST", "treeno.relation.Unnest.resolve")
def unnest(eng):
    begin(eng)
    kinds = [["MAP"], ["ARRAY"], [n for n in shapes.TYPES if n not in ("MAP", "ARRAY")]]

    def array(k):
        h = shapes.hole(eng, T.Value, "array")
        eng.resolved_types[id(h)] = k
        return h
    eng.resolved_types = {}
    n = eng.choose(4, ("arrays", ["any number of one kind", "an array", "a map and an array", "others"]))
    single = []
    if n == 0:
        # (one column each, or two)
        k = eng.choose(3, ("kind", ["map", "array of a type which isn't ROW", "another type"]))
        seg = segment(eng, f"arrays of kind {k}", lambda: array(kinds[k]), nonempty=True)
        eng.not_rows = True
        arrays = columns(eng, seg)
    else:
        eng.not_rows = False
        single = [[1], [0, 1], [2, 1]][n - 1]
        arrays = columns(eng, *[array(kinds[k]) for k in single])
    rel = shapes.instance(eng, T.Unnest, arrays=lambda eng: arrays)
    existing = schema(eng, tag="existing")
    eng.contracts[res.resolve_fields] = resolved
    out = returned(eng, result(eng, rel, existing))
    for node, s in eng.resolved_nodes:
        eng.prove(s is existing, "the arrays are resolved against the columns in front of UNNEST", repr(s))
    want = []
    for a in arrays:
        if isinstance(a, Each):
            want.append(Each(a.base, [c for x in a.items for c in _members(eng, rel, token(eng, x, existing))]))
        else:
            want += _members(eng, rel, token(eng, a, existing))
    if eng.truth(eng.getattr_(rel, "with_ordinality")):
        want.append(T.SchemaField(None, rel, T.bigint()))
    prove_columns(eng, out, want, "there's a column for each member")
    prove_member(eng, probe(eng), eng.getattr_(out, "relation_ids"), False, "it has no name")
    got = eng.getattr_(rel, "arrays")
    eng.prove(same(eng, got, [Each(a.base, [token(eng, i, existing) for i in a.items]) if isinstance(a, Each) else token(eng, a, existing) for a in arrays]),
              "the arrays stay the same but for their types", repr(got))
    only_itself(eng, rel, "arrays", "data_type")


def resolved(eng, args, kwargs):
    """resolve_fields(node, schema): a contract of its own"""
    node, s = (list(args) + list(kwargs.values()))[:2]
    node = eng.norm(node)
    if eng.choose(2, ("resolving an expression", None)) == 1:
        raise PyRaise(AssertionError("a part can't be resolved"))
    eng.resolved_nodes.append((node, s))
    t = token(eng, node, s)
    names = getattr(eng, "resolved_types", {}).get(id(node))
    if names is not None:
        t.info["fields"] = {"data_type": lambda eng: _array_type(eng, names)}
    return t


def _array_type(eng, names):
    t = shapes.dtype(eng, "array", names)
    if names == ["ARRAY"] and eng.not_rows:
        eng.getattr_(t, "type_name")
        t.fields["parameters"] = {"dtype": shapes.dtype(eng, "dtype", [n for n in shapes.TYPES if n != "ROW"])}
        eng.pre[id(t.fields["parameters"])] = t.fields["parameters"]
    return t


def _members(eng, rel, x):
    t = eng.getattr_(x, "data_type")
    name = eng.force(eng.getattr_(t, "type_name"))
    p = eng.getattr_(t, "parameters")
    if name == "MAP":
        return [T.SchemaField(None, rel, p["from_dtype"]), T.SchemaField(None, rel, p["to_dtype"])]
    if name != "ARRAY":
        return [T.SchemaField(None, rel, T.unknown())]
    m = p["dtype"]
    if eng.force(eng.getattr_(m, "type_name")) != "ROW":
        return [T.SchemaField(None, rel, m)]
    e = eng.getattr_(m, "parameters")["dtypes"][0]
    return [Each(e.base, [T.SchemaField(None, rel, i) for i in e.items])]


# Joins ---------------------------------------------------------------------------------------------------------------------------
def simple(eng, name):
    """A relation that's no alias or sample (of an UNNEST)"""
    return shapes.hole(eng, T.Relation, name, exclude=(T.AliasedRelation, T.TableSample))


def wrapped(eng, name):
    """A relation, and whether it's an UNNEST below aliases and samples (up to two of them)"""
    k = eng.choose(4, (name, ["relation", "alias", "sample", "alias of a sample"]))
    inner = simple(eng, name)
    outer = inner
    if k in (2, 3):
        s = inner
        outer = shapes.instance(eng, T.TableSample, relation=lambda eng: s)
    if k in (1, 3):
        r = outer
        outer = shapes.instance(eng, T.AliasedRelation, relation=lambda eng: r)
    return outer, inner


def is_unnest(eng, inner):
    return eng.truth(eng.isinstance_(inner, T.Unnest))


@job("what the relations of a join are resolved against", "treeno.relation.Join.resolve")
def join_parts(eng):
    begin(eng)
    k = eng.choose(2, ("relation", ["left", "right"]))
    parts = [wrapped(eng, "left") if k == 0 else (simple(eng, "left"),) * 2, wrapped(eng, "right") if k == 1 else (simple(eng, "right"),) * 2]
    (left, lbase), (right, rbase) = parts
    rel = shapes.instance(eng, T.Join, left_relation=lambda eng: left, right_relation=lambda eng: right,
                          config=lambda eng: shapes.instance(eng, T.JoinConfig, criteria=lambda eng: None, natural=lambda eng: False))
    existing = schema(eng, tag="existing")
    empty = lambda: schema(eng, columns(eng), SymSet([]), SymSet([]))
    a, b = eng.schemas[id(left)], eng.schemas[id(right)] = empty(), empty()
    returned(eng, result(eng, rel, existing))
    only_itself(eng, rel)
    got = given_to(eng, left)
    if is_unnest(eng, lbase):
        eng.prove(eng.norm(eng.getattr_(got, "fields")) == [], "nothing is in front of the left relation", repr(got))
    else:
        eng.prove(got is existing, "the left relation is resolved against the existing schema", repr(got))
    got = given_to(eng, right)
    eng.prove(got is (a if is_unnest(eng, rbase) else existing), "the right relation sees the left one iff it's an UNNEST", repr(got))


def join(eng, config, a, b):
    """The result of joining relations (which don't see each other) of these schemas"""
    left, right = [shapes.hole(eng, T.Relation, n, exclude=(T.AliasedRelation, T.TableSample, T.Unnest)) for n in ("left", "right")]
    rel = shapes.instance(eng, T.Join, left_relation=lambda eng: left, right_relation=lambda eng: right, config=lambda eng: config)
    existing = schema(eng, tag="existing")
    eng.schemas[id(left)], eng.schemas[id(right)] = a, b
    out = result(eng, rel, existing)
    only_itself(eng, rel)
    return rel, a, b, out


def prove_join(eng, rel, a, b, out, want):
    prove_columns(eng, out, want, "the columns are the shared ones, those of the left and those of the right relation")
    x = probe(eng)
    if x is not None:
        prove_unknown(eng, out, x, unknown_id(eng, a, x) or unknown_id(eng, b, x), "columns are unknown iff they are in one of the relations")


@job("resolve of a join", "treeno.relation.Join.resolve")
def plain_join(eng):
    begin(eng)
    criteria = shapes.instance(eng, T.JoinOnCriteria) if eng.choose(2, ("criteria", ["ON", "None"])) == 0 else None
    config = shapes.instance(eng, T.JoinConfig, criteria=lambda eng: criteria, natural=lambda eng: False)
    a, b = schema(eng, tag="left"), schema(eng, tag="right")
    rel, a, b, out = join(eng, config, a, b)
    returned(eng, out)
    prove_join(eng, rel, a, b, out, eng.getattr_(a, "fields") + eng.getattr_(b, "fields"))


def side(eng, tag, names, others=()):
    """The schema of one side of a join: any number of columns with other names and without a name, and those with the given names (none,
    one or several of each)"""
    src = plain_relation(eng)
    first = [segment(eng, tag, lambda: column(eng, other_name(eng, *names, *others), src)), segment(eng, tag + " nameless", lambda: column(eng, None, src))]
    eng.uniform[first[1].base] = lambda: True  # (none of them has a name)
    found = {}
    parts = list(first)
    for i, n in enumerate(names):
        k = eng.choose(3, (tag, ["one", "none", "several"]))
        found[i] = [column(eng, n, src) for _ in range([1, 0, 2][k])]
        parts += found[i]
    return schema(eng, columns(eng, *parts), SymSet([]), GhostSet(tag + "_partial"), tag=tag), first, found


@job("resolve of a join with shared columns (bounded)", "treeno.relation.Join.resolve")
def shared_join(eng):
    """USING of one or two columns, and NATURAL with up to two shared columns (and any number of others)"""
    begin(eng)
    names = [eng.str_("shared", True) for _ in range(1 + eng.choose(2, ("names", None)))]
    if len(names) == 2:
        text.assume_different(eng, *names)
    natural = eng.choose(2, ("join", ["USING", "NATURAL"])) == 1
    a, l, lfound = side(eng, "left", names)
    b, r, rfound = side(eng, "right", names, [eng.getattr_(l[0].items[0], "name")])
    config = shapes.instance(eng, T.JoinConfig, natural=lambda eng: natural,
                             criteria=lambda eng: None if natural else shapes.instance(eng, T.JoinUsingCriteria, column_names=lambda eng: columns(eng, *names)))
    rel, a, b, out = join(eng, config, a, b)
    if natural:
        shared = [i for i in range(len(names)) if lfound[i] and rfound[i]]
        # (twice in the left relation: ambiguous)
    else:
        shared = list(range(len(names)))
    if any(len(lfound[i]) > 1 or len(rfound[i]) > 1 for i in shared):
        eng.prove(out is None, "an ambiguous shared column is reported")
        return
    returned(eng, out)
    want = []
    for i in shared:
        ts = [eng.getattr_(f[i][0], "data_type") if f[i] else T.unknown() for f in (lfound, rfound)]
        try:
            t = common_type(eng, ts, {})
        except PyRaise:
            raise Refuted("types which don't fit are reported", "")
        want.append(T.SchemaField(names[i], rel, t))
    for first, found in ((l, lfound), (r, rfound)):
        want += first
        for i in range(len(names)):
            if i not in shared:
                want += found[i]
    prove_columns(eng, out, want, "the columns are the shared ones, those of the left and those of the right relation")
    x = probe(eng)
    if x is not None:
        prove_unknown(eng, out, x, unknown_id(eng, a, x) or unknown_id(eng, b, x), "columns are unknown iff they are in one of the relations")



# Queries -------------------------------------------------------------------------------------------------------------------------
def output_name(eng, x):
    """What a column is called: the alias, or the column that it is, if it's one of these"""
    k = eng.split(x, lambda c: c if c in (T.AliasedValue, T.Field, T.Lambda.Variable) else None)
    return eng.getattr_(x, "alias") if k is T.AliasedValue else eng.getattr_(x, "name") if k is not None else None


ITEMS = ["a value", "*", "t.*", "(row).*", "* AS (...)", "t.* AS (...)", "(row).* AS (...)"]


def select_item(eng, rel, kind):
    """A member of the select clause, the schema of the FROM clause, and the output columns it stands for as a function of the member (None: an
    error)"""
    if kind == "a value":
        x = value_item(eng)
        return x, None, lambda y: [T.SchemaField(output_name(eng, x), rel, eng.getattr_(y, "data_type"))]
    aliased = kind.endswith("AS (...)")
    table = None if kind[0] == "*" else eng.str_("table", True) if kind[0] == "t" else shapes.hole(eng, T.Value, "row", exclude=(T.Field,))
    star = shapes.hole(eng, T.Star)
    star.info["fields"] = {"table": lambda eng: table}
    if not aliased:
        s, cols = star_schema(eng, table) if kind != "(row).*" else (None, None)
        want = [T.SchemaField(None, rel, T.unknown())]
        if cols is not None:
            want = [Each(c.base, [T.SchemaField(eng.getattr_(i, "name"), rel, eng.getattr_(i, "data_type")) for i in c.items]) for c in cols]
        return star, s, lambda y: want
    names = None
    s = None
    if kind[0] == "*":
        fields, names, want = renamed(eng, rel)
        complete = eng.choose(2, ("columns", ["all are known", "not all are known"])) == 0
        s = schema(eng, fields, SymSet([]), SymSet([]) if complete else GhostSet("partial", [(eng.str_("x", True), True)]), tag="from")
        if unknown_columns(eng, s):
            want = [Each(names[0].base, [T.SchemaField(names[0].items[0], rel, T.unknown())])]
    else:
        names = columns(eng, segment(eng, "aliases", lambda: eng.str_("alias", True), nonempty=True))
        want = [Each(names[0].base, [T.SchemaField(names[0].items[0], rel, T.unknown())])]
        if kind[0] == "t":
            src = lambda eng: source(eng, table)
            other = segment(eng, "others", lambda: column(eng, some_name, plain_relation))
            partial = eng.choose(2, ("columns", ["all are known", "not all are known"])) == 1
            own = segment(eng, "own", lambda: column(eng, some_name, src), nonempty=True)
            eng.assume(own.base.length.e == names[0].base.length.e)
            s = schema(eng, columns(eng, other, own), GhostSet("ids"), GhostSet("partial", [(table, partial)]), tag="from")
            if not partial:
                want = [Each(names[0].base, [T.SchemaField(names[0].items[0], rel, eng.getattr_(own.items[0], "data_type"))])]
    x = shapes.hole(eng, T.AliasedStar)
    x.info["fields"] = {"star": lambda eng: star, "aliases": lambda eng: names}
    return x, s, lambda y: want


def value_item(eng):
    return shapes.hole(eng, T.Value, "item", exclude=(T.Star, T.AliasedStar))


def select(kind, position):
    @job(f"resolve of SELECT ({kind}{position})", "treeno.relation.SelectQuery.resolve")
    def h(eng):
        begin(eng)
        fields = {}
        rel = query(eng, T.SelectQuery, select=lambda eng: fields["select"], from_=lambda eng: fields["from_"])
        x, s, want = select_item(eng, rel, kind)
        s = s or schema(eng, tag="from")
        items = [x]
        if position == ", alone":
            base = shapes.hole(eng, T.Relation, "from", exclude=(T.AliasedRelation, T.TableSample))
        else:
            base = shapes.hole(eng, T.Query, "from")
            if position == ", after values":
                items.insert(0, segment(eng, "values", lambda: value_item(eng)))
            elif position == ", in front of values":
                items.append(segment(eng, "values", lambda: value_item(eng)))
        fields["select"] = columns(eng, *items)
        fields["from_"] = base
        existing = schema(eng, tag="existing")
        eng.schemas[id(base)] = s
        eng.contracts[res.resolve_fields] = resolved
        out = result(eng, rel, existing)
        got = given_to(eng, base)
        if position == ", alone" and is_unnest(eng, base):
            eng.prove(eng.norm(eng.getattr_(got, "fields")) == [], "nothing is in front of the relation", repr(got))
        else:
            eng.prove(got is existing, "FROM is resolved against the existing schema", repr(got))
        for node, given in eng.resolved_nodes:
            eng.prove(given is s, "the select clause is resolved against the columns of FROM", repr(given))
        columns_ = want(token(eng, x, s))
        if columns_ is None:
            eng.prove(out is None, "another number of names than of columns is reported")
            return
        out = returned(eng, out)
        all_ = []
        for i in items:
            if isinstance(i, Each):
                y = token(eng, i.items[0], s)
                all_.append(Each(i.base, [T.SchemaField(output_name(eng, i.items[0]), rel, eng.getattr_(y, "data_type"))]))
            else:
                all_ += columns_
        prove_columns(eng, out, all_, "the columns are those of the select clause, with their names")
        probe_ = probe(eng)
        prove_member(eng, probe_, eng.getattr_(out, "relation_ids"), False, "it has no name")
        got = eng.getattr_(rel, "select")
        eng.prove(same(eng, got, token(eng, items, s)), "the select clause stays the same but for the types", repr(got))
        only_itself(eng, rel, "select", "data_type")
    return h


for _k in ITEMS:
    for _p in (", alone", ", after values", ", in front of values"):
        select(_k, _p)


@job("resolve of SELECT without FROM", "treeno.relation.SelectQuery.resolve")
def select_without_from(eng):
    begin(eng)
    rel = query(eng, T.SelectQuery, select=lambda eng: items, from_=lambda eng: None)
    items = columns(eng, segment(eng, "values", lambda: value_item(eng), nonempty=True))
    eng.contracts[res.resolve_fields] = resolved
    out = returned(eng, result(eng, rel, schema(eng, tag="existing")))
    x = items[0].items[0]
    prove_columns(eng, out, [Each(items[0].base, [T.SchemaField(output_name(eng, x), rel, eng.getattr_(x, "data_type"))])],
                  "the columns are those of the select clause, with their names")
    prove_member(eng, probe(eng), eng.getattr_(out, "relation_ids"), False, "it has no name")
    only_itself(eng, rel, "select", "data_type")


# Schemas --------------------------------------------------------------------------------------------------------------------------
@job("merging schemas (bounded: up to two columns in the second one)", "treeno.relation.Schema.merge")
def merge(eng):
    begin(eng)
    a = schema(eng, tag="first")
    eng.uniform[eng.getattr_(a, "fields")[0].base] = lambda: True  # (none of them is a column of the second schema)
    new = [some_column(eng) for _ in range(eng.choose(3, ("columns of the second one", None)))]
    b = schema(eng, columns(eng, *new), tag="second")
    out = returned(eng, run_(eng, Schema.merge, [a, b]))
    prove_merged(eng, out, eng.getattr_(a, "fields") + new, a, b, None)
    common.unchanged(eng)


def prove_merged(eng, out, fields, a, b, hidden):
    prove_columns(eng, out, fields, "the columns are those of the first schema (which aren't hidden) and those of the second one")
    x = probe(eng)
    in_ = lambda s, f: eng.truth(eng.in_(x, eng.getattr_(s, f)))
    prove_member(eng, x, eng.getattr_(out, "relation_ids"), in_(a, "relation_ids") or in_(b, "relation_ids"), "it has the relations of both")
    hides = hidden is not None and eng.truth(eng.in_(x, hidden))
    prove_member(eng, x, eng.getattr_(out, "partial_ids"), not hides and in_(a, "partial_ids") or in_(b, "partial_ids"),
                 "columns of a relation aren't known iff they aren't in the schema that has it")


def merged(eng, args, kwargs):
    """Schema.merge: the contract above"""
    a, b = list(args) + list(kwargs.values())
    get = lambda f: [eng.getattr_(s, f) for s in (a, b)]
    return eng.call(Schema, [eng.born(list(eng.norm(get("fields")[0])) + list(eng.norm(get("fields")[1])))] +
                    [models.set_op(eng, "__or__", *get(f)) for f in ("relation_ids", "partial_ids")])


def shadow(names):
    @job("a schema that hides relations of another one" + ("" if names else " (none of them)"), "treeno.relation.Schema.shadow")
    def h(eng):
        begin(eng)
        name = eng.str_("name", True)
        ids = SymSet([name] * names)
        b = schema(eng, ids=ids, tag="second")
        a, visible = hiding(eng, [name])
        eng.contracts[Schema.merge] = merged
        out = returned(eng, run_(eng, Schema.shadow, [a, b]))
        prove_merged(eng, out, (visible if names else list(eng.getattr_(a, "fields"))) + list(eng.getattr_(b, "fields")), a, b, ids)
        common.unchanged(eng)


shadow(1)
shadow(0)


def hiding(eng, names, config="", **kw):
    """Any schema, and the columns of it that aren't columns of relations of these names"""
    def other():
        if eng.choose(2, ("source", ["named", "without a name"])) == 1:
            return column(eng, some_name, plain_relation)
        n = other_name(eng, *names)
        return column(eng, some_name, lambda eng: source(eng, n))

    def hidden(n):
        return lambda: column(eng, some_name, lambda eng: source(eng, n))
    parts = [segment(eng, config + "others", other)]
    rest = [segment(eng, f"{config}hidden {i}", hidden(n)) for i, n in enumerate(names)] + ([segment(eng, "other others", other)] if not config else [])
    return schema(eng, columns(eng, *parts, *rest), tag="existing", **kw), parts + ([rest[-1]] if not config else [])


@job("the type of a column of a schema", "treeno.relation.Schema.column_type")
def column_type(eng):
    begin(eng)
    name = eng.str_("column", True)
    s, meant = lookups(eng, name, None)
    got = run_(eng, Schema.column_type, [s, name])
    common.unchanged(eng)
    if len(meant) == 2:
        eng.prove(got is None, "an ambiguous column is reported")
        return
    eng.prove(got is not None, "a column that isn't ambiguous has a type")
    want = eng.getattr_(meant[0], "data_type") if meant else T.unknown()
    eng.prove(same(eng, got, want), "it's the type of the column, or unknown", f"{got!r} rather than {want!r}")


# WITH -----------------------------------------------------------------------------------------------------------------------------
CONFIGS = {"one query": (0,), "two queries": (0, 1), "two queries of the same name": (0, 0)}


def with_clause(cls, parts, config, checked):
    @job(f"resolve of {cls.__name__} with WITH (bounded): {config}, {checked}", f"treeno.relation.{cls.__name__}.resolve")
    def h(eng):
        begin(eng)
        names = [eng.str_("query", True) for _ in range(2)]
        text.assume_different(eng, *names)
        names = [names[i] for i in CONFIGS[config]]
        queries = [shapes.instance(eng, T.AliasedRelation, alias=lambda eng, n=n: n) for n in names]
        inner = []
        for q, n in zip(queries, names):
            cols = columns(eng, segment(eng, f"columns of {len(inner)}", lambda: column(eng, some_name, source(eng, n), None)))
            inner.append(schema(eng, cols, SymSet([n]), GhostSet("query_partial", [(m, False) for m in names if m is not n]), tag="query"))
            eng.schemas[id(q)] = inner[-1]
        holes = {}

        def part(name, c):
            holes[name] = shapes.instance(eng, T.Table) if c is T.Table else \
                shapes.hole(eng, c, name, exclude=(T.AliasedRelation, T.TableSample, T.Unnest))
            eng.schemas[id(holes[name])] = schema(eng, columns(eng), SymSet([]), SymSet([]), tag=name)
            return holes[name]
        fields = {name: (lambda eng, v=part(name, c): v) for name, c in parts.items()}
        if cls is T.SelectQuery:
            fields["select"] = lambda eng: items
            items = columns(eng, shapes.hole(eng, T.Literal))
        rel = shapes.instance(eng, cls, with_=lambda eng: with_, **fields)
        with_ = columns(eng, *queries)
        existing, visible = hiding(eng, names[:1] if names[-1] is names[0] else names, config + " ")
        eng.contracts[res.resolve_fields] = resolved
        eng.contracts[Schema.merge] = merged
        out = result(eng, rel, existing)
        if out is None:
            raise Infeasible()  # (the types of the queries of a set operation, P10)
        if checked == "the first query":
            eng.prove(given_to(eng, queries[0]) is existing, "the first query is resolved against the existing schema")
            data = [w for w in eng.writes if w[1] is not rel or w[2] not in ("data_type", "select")]
            eng.prove(not data, "nothing else is changed", repr(data)[:300])
        elif checked == "the second query":
            second = list(eng.getattr_(existing, "fields"))[2:] if names[1] is not names[0] else []
            check_visible(eng, given_to(eng, queries[1]), visible + second + list(eng.getattr_(inner[0], "fields")),
                          existing, names[:1], inner[:1], inner, "the second query sees the first one, which hides relations of the same name")
        else:
            last = [i for i in range(len(names)) if all(names[i] is not n for n in names[i + 1:])]
            check_visible(eng, given_to(eng, holes[checked]), visible + [c for i in last for c in eng.getattr_(inner[i], "fields")], existing,
                          [names[i] for i in last], [inner[i] for i in last], inner, "the query sees the queries, which hide relations of the same name")
    return h


def check_visible(eng, got, fields, existing, names, inner, all_, what):
    prove_columns(eng, got, fields, what)
    x = one_of(eng, *names)
    defined = any(x is n for n in names)
    prove_member(eng, x, eng.getattr_(got, "relation_ids"), defined or eng.truth(eng.in_(x, eng.getattr_(existing, "relation_ids"))), what)
    for n, i in zip(names, inner):
        if x is n:
            prove_member(eng, x, eng.getattr_(got, "partial_ids"), eng.truth(eng.in_(x, eng.getattr_(i, "partial_ids"))), what)
            return
    if not any(eng.truth(eng.in_(x, eng.getattr_(i, "partial_ids"))) for i in all_):
        # (only the query itself can be one whose columns aren't known)
        prove_member(eng, x, eng.getattr_(got, "partial_ids"), eng.truth(eng.in_(x, eng.getattr_(existing, "partial_ids"))), what)


for _c, _parts in ((T.SelectQuery, {"from_": T.Relation}), (T.TableQuery, {"table": T.Table}),
                   (T.UnionQuery, {"left_query": T.Query, "right_query": T.Query}), (T.IntersectQuery, {"left_query": T.Query, "right_query": T.Query}),
                   (T.ExceptQuery, {"left_query": T.Query, "right_query": T.Query})):
    for _config in CONFIGS:
        for _part in ["the first query"] + ["the second query"] * (len(CONFIGS[_config]) - 1) + list(_parts):
            with_clause(_c, _parts, _config, _part)


def jobs():
    return J
