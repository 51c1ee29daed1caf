"""P12: what resolving a relation yields, as a pure function of the relation and of the schema given by the user.

Nothing here is taken from the library's resolver. A column is (name, owner, type) where owner is the relation a qualifier
refers to; `complete` tells whether the list holds all of the columns of the relation."""
import attr

from vlib import T


class Ambiguous(Exception):
    """The library has to report it"""


class Skip(Exception):
    """Not specified (the types of the query don't fit each other)"""


def unknown():
    return T.unknown()


HIDDEN = []  # tables with a qualified name of which a WITH query has the last part (see known_findings.json)
MAY_RAISE = []  # set operations whose sides don't have as many known columns


class Out:
    def __init__(self, cols, missing=()):
        # the names of the relations of which columns aren't known (None: a relation without a name)
        self.cols, self.missing = list(cols), set(missing)
        if not self.cols and not self.missing:
            self.missing = {None}

    @property
    def complete(self):
        return not self.missing


def owner_name(owner):
    if isinstance(owner, T.Table):
        return owner.name
    if isinstance(owner, T.AliasedRelation):
        return owner.alias
    return None


def base(rel):
    while isinstance(rel, (T.AliasedRelation, T.TableSample)):
        rel = rel.relation
    return rel


# env: list of ("relation name", [(name, owner, type)]) visible by name; a later one hides an earlier one
def lookup(table, env):
    for names, cols in reversed(env):
        if table.name not in names:
            continue
        mine = [c for c in cols if owner_name(c[1]) == table.name and qualifiers_match(table, c[1])]
        if mine or table.schema is None:
            return mine
        HIDDEN.append(table)
    return None


def qualifiers_match(table, owner):
    if table.schema is None:
        return True
    if not isinstance(owner, T.Table):
        return False
    return owner.schema in (None, table.schema) and (table.catalog is None or owner.catalog in (None, table.catalog))


def visible(env, extra):
    """env with the columns of extra (a WITH query), which hides the relations of its name"""
    return env + [extra]


def resolve(rel, env, before=None):
    """before: the columns UNNEST can refer to"""
    if isinstance(rel, T.Table):
        cols = lookup(rel, env)
        if cols is None:
            f = rel._column_schema.fields
            cols = [(c.name, c.source, c.data_type) for c in f]
        return Out(cols, () if cols else {rel.name})
    if isinstance(rel, T.AliasedRelation):
        inner = inner_of(rel.relation, env, before)
        if rel.column_aliases:
            return Out(rename(inner, rel, rel.column_aliases))
        return Out([(n, rel, t) for n, _, t in inner.cols], () if inner.complete else {rel.alias})
    if isinstance(rel, T.TableSample):
        return inner_of(rel.relation, env, before)
    if isinstance(rel, T.Lateral):
        return resolve(rel.subquery, env)
    if isinstance(rel, T.Unnest):
        scope = before or Out([])
        cols = []
        for array in rel.arrays:
            k = substitute(array, scope).data_type
            if k.type_name == "MAP":
                cols += [k.parameters["from_dtype"], k.parameters["to_dtype"]]
            elif k.type_name != "ARRAY":
                cols.append(unknown())
            elif k.parameters["dtype"].type_name == "ROW":
                cols += k.parameters["dtype"].parameters["dtypes"]
            else:
                cols.append(k.parameters["dtype"])
        if rel.with_ordinality:
            cols.append(T.bigint())
        return Out([(None, rel, k) for k in cols])
    if isinstance(rel, T.Join):
        left = inner_of(rel.left_relation, env, None)
        right = inner_of(rel.right_relation, env, left)
        c = rel.config
        if isinstance(c.criteria, T.JoinUsingCriteria):
            shared = list(c.criteria.column_names)
        elif c.natural:
            names = {n for n, _, _ in right.cols}
            shared = [n for n, _, _ in left.cols if n is not None and n in names]
        else:
            shared = []
        cols = []
        for n in shared:
            cols.append((n, rel, common(one(left, n), one(right, n))))
        for side in (left, right):
            cols += [x for x in side.cols if x[0] not in shared]
        return Out(cols, left.missing | right.missing)
    if isinstance(rel, T.Query):
        env = list(env)
        if isinstance(rel, T.ValuesQuery):
            k = rel.data_type
            kinds = k.parameters["dtypes"] if k.type_name == "ROW" else [k]
            return Out([(None, rel, t) for t in kinds])
        for w in rel.with_:
            o = resolve(w, env)
            env = visible(env, ({w.alias}, o.cols))
        if isinstance(rel, T.TableQuery):
            return resolve(rel.table, env)
        if isinstance(rel, T.SetQuery):
            left, right = resolve(rel.left_query, env), resolve(rel.right_query, env)
            if len(left.cols) != len(right.cols):
                MAY_RAISE.append(rel)
            cols = []
            for i, (n, _, t) in enumerate(left.cols):
                t = common(t, right.cols[i][2]) if len(left.cols) == len(right.cols) else unknown()
                cols.append((n, rel, t))
            # (a TABLE query may have no known columns)
            return Out(cols)
        assert isinstance(rel, T.SelectQuery)
        scope = Out([]) if rel.from_ is None else inner_of(rel.from_, env, Out([]))
        cols = []
        for item in rel.select:
            cols += outputs(item, scope, rel, rel.from_ is not None)
        return Out(cols)
    raise Skip


def inner_of(rel, env, before):
    """Only UNNEST, possibly with an alias or a sample, refers to the columns of the relations in front of it"""
    return resolve(rel, env, before if isinstance(base(rel), T.Unnest) else None)


def one(out, name):
    hits = [t for n, _, t in out.cols if n == name]
    if len(hits) > 1:
        raise Ambiguous
    return hits[0] if hits else unknown()


def common(a, b):
    try:
        return T.common_supertype(a, b)
    except (AssertionError, TypeError):
        raise Skip


def rename(out, owner, names):
    if not out.complete or not out.cols:
        return [(n, owner, unknown()) for n in names]
    if len(names) == len(out.cols):
        return [(n, owner, t) for n, (_, _, t) in zip(names, out.cols)]
    if any(n is None and t == unknown() for n, _, t in out.cols):
        return [(n, owner, unknown()) for n in names]
    raise Ambiguous


def star_columns(star, scope):
    """None if not all of them are known"""
    if isinstance(star.table, T.Value):
        return None
    if star.table is None:
        return scope.cols if scope.complete else None
    if star.table in scope.missing:
        return None
    return [c for c in scope.cols if owner_name(c[1]) == star.table] or None


def outputs(item, scope, query, has_from):
    aliases = None
    star = item
    if isinstance(item, T.AliasedStar):
        star, aliases = item.star, item.aliases
    if isinstance(star, T.Star):
        cols = star_columns(star, scope)
        if aliases is not None:
            return rename(Out(cols or []), query, aliases)
        if cols is None:
            return [(None, query, unknown())]
        return [(n, query, t) for n, _, t in cols]
    value = substitute(item, scope) if has_from else item
    name = None
    if isinstance(item, T.AliasedValue):
        name = item.alias
    elif isinstance(item, T.Field):
        name = item.name
    return [(name, query, value.data_type)]


def substitute(node, scope):
    """The same expression with the types of the columns it refers to (its own type follows by P10)"""
    if isinstance(node, T.Query) or not isinstance(node, T.Sql) or isinstance(node, T.DataType):
        return node
    if isinstance(node, T.Field):
        if isinstance(node.table, T.Value):
            return T.Field(node.name, substitute(node.table, scope), data_type=node.data_type)
        hits = [t for n, o, t in scope.cols if n == node.name and (node.table is None or owner_name(o) == node.table)]
        if len(hits) > 1:
            raise Ambiguous
        return T.Field(node.name, node.table, data_type=hits[0]) if hits else node
    if isinstance(node, T.Star):
        cols = star_columns(node, scope)
        return node if cols is None else T.Star(node.table, data_type=T.row(dtypes=[t for _, _, t in cols]))
    args = {}
    for f in attr.fields(type(node)):
        if not f.init or (f.name == "data_type" and not isinstance(node, (T.Literal, T.Cast, T.TryCast, T.Variable))):
            continue
        k, v = f.name.lstrip("_"), getattr(node, f.name)
        if isinstance(v, list):
            v = [substitute(x, scope) for x in v]
        elif isinstance(v, dict):
            v = {a: substitute(b, scope) for a, b in v.items()}
        else:
            v = substitute(v, scope)
        args[k] = v
    try:
        return type(node)(**args)
    except (AssertionError, TypeError):
        raise Skip
