import copy
import itertools
import random

import attr
from oracles.common import every, random_queries, random_values
from vlib import T, gen, same, sqltext

PLACE = "zz9place"
MODES = [T.PrintOptions(), T.PrintOptions(T.PrintMode.PRETTY, 4), T.PrintOptions(T.PrintMode.PRETTY, 1)]
a = T.Field


def W(x):
    return T.wrap_literal(x)


def q(**kw):
    return T.SelectQuery([a("p"), a("r")], **kw)


def window(w):
    return T.SelectQuery([a("p")], window={"w": w})


# Every place of a tree where there's a string: (name, what it's a node of, builder)
EXPRESSIONS = {
    "column": lambda s: a(s), "column, qualified": lambda s: a(s, "t"), "table of a column": lambda s: a("c", s),
    "member of a row": lambda s: a(s, T.RowConstructor([a("x"), a("y")])), "member of an element": lambda s: a("m", T.Subscript(a(s, "t"), W(1))),
    "operand": lambda s: a("x") + a(s) * W(2), "function argument": lambda s: T.Length(a(s)), "string": lambda s: W(s), "string operand": lambda s: T.Concatenate([W(s), a("x")]),
    "string of a LIKE": lambda s: T.Like(a("x"), W(s)), "escape of a LIKE": lambda s: T.Like(a("x"), a("p"), W(s)),
    "typed string": lambda s: T.TypeConstructor(s, "JSON"), "interval": lambda s: T.Interval(s, "DAY", "SECOND"), "single interval": lambda s: T.Interval(s, "DAY"),
    "lambda parameter": lambda s: T.Transform(a("x"), T.Lambda([T.Variable(s)], T.Variable(s) + a("q"))) if hasattr(T, "Transform") else T.Length(T.Lambda([T.Variable(s)], T.Variable(s) + a("q"))),
    "lambda parameters": lambda s: T.Length(T.Lambda([T.Variable("k"), T.Variable(s)], T.Variable(s) + T.Variable("k"))),
    "separator": lambda s: T.ListAgg(a("x"), s, orderby=[T.OrderTerm(a("o"))]),
    "overflow filler": lambda s: T.ListAgg(a("x"), ",", overflow_filler=T.OverflowFiller(T.CountIndication.WITH_COUNT, s), orderby=[T.OrderTerm(a("o"))]),
    "overflow filler without count": lambda s: T.ListAgg(a("x"), ",", overflow_filler=T.OverflowFiller(T.CountIndication.WITHOUT_COUNT, s), orderby=[T.OrderTerm(a("o"))]),
    "parent window of OVER": lambda s: T.Sum(a("x"), window=T.Window(s)), "parent window with more": lambda s: T.Sum(a("x"), window=T.Window(s, partitions=[a(s)])),
    "case": lambda s: T.Case([T.When(W(s), a(s))], T.Else(W(s))), "cast": lambda s: T.Cast(W(s), data_type=T.tb.varchar()),
    "list": lambda s: T.InList(a(s), [W(s), a("u")]), "array": lambda s: T.Array([W(s), W("x")]),
    "subquery": lambda s: T.InQuery(a("x"), T.SelectQuery([W(s)], from_=T.Table(s))), "between": lambda s: T.Between(a(s), W(s), a("x")),
}
QUERIES = {
    "alias of a value": lambda s: T.SelectQuery([T.AliasedValue(a("x"), s), a("y")]), "table of a star": lambda s: T.SelectQuery([T.Star(s)]),
    "aliases of a star": lambda s: T.SelectQuery([T.AliasedStar(T.Star("t"), ["k", s])]), "table of an aliased star": lambda s: T.SelectQuery([T.AliasedStar(T.Star(s), ["k"])]),
    "selected name": lambda s: T.SelectQuery([a(s)]), "table": lambda s: q(from_=T.Table(s)), "schema": lambda s: q(from_=T.Table("t", s)), "catalog": lambda s: q(from_=T.Table("t", "s", s)),
    "table in a catalog": lambda s: q(from_=T.Table(s, "s", "c")), "alias of a table": lambda s: q(from_=T.AliasedRelation(T.Table("t"), s)),
    "alias of a query": lambda s: q(from_=T.AliasedRelation(T.SelectQuery([a("x")]), s)), "column alias": lambda s: q(from_=T.AliasedRelation(T.Table("t"), "u", ["k", s])),
    "name of a WITH query": lambda s: q(with_=[T.AliasedRelation(T.SelectQuery([a("x")]), s)]),
    "column of a WITH query": lambda s: q(with_=[T.AliasedRelation(T.SelectQuery([a("x")]), "w", [s, "k"])]),
    "USING": lambda s: q(from_=T.Join(T.Table("l"), T.Table("r"), T.JoinConfig(T.JoinType.INNER, criteria=T.JoinUsingCriteria(["k", s])))),
    "ON": lambda s: q(from_=T.Join(T.Table("l"), T.Table("r"), T.JoinConfig(T.JoinType.LEFT, criteria=T.JoinOnCriteria(a(s, "l") == W(s))))),
    "window": lambda s: T.SelectQuery([a("p")], window={"k": T.Window(), s: T.Window(orderby=[T.OrderTerm(a("o"))])}), "parent window": lambda s: window(T.Window(s)),
    "where": lambda s: q(where=a(s) == W(s)), "having": lambda s: q(having=a("x") == W(s)), "order": lambda s: q(orderby=[T.OrderTerm(a(s), T.OrderType.DESC)], limit=1),
    "group": lambda s: q(groupby=T.GroupBy([T.GroupingSet([a(s)]), T.Cube([a(s), W(s)])])), "TABLE": lambda s: T.TableQuery(T.Table("t", s)),
    "VALUES": lambda s: T.ValuesQuery([W(s), W("x")]), "union": lambda s: T.UnionQuery(T.TableQuery(T.Table(s)), T.ValuesQuery([W(s)])),
    "unnest": lambda s: q(from_=T.Unnest([a(s), W(s)])), "lateral": lambda s: q(from_=T.Lateral(T.SelectQuery([W(s)], from_=T.Table(s)))),
    "sample": lambda s: q(from_=T.TableSample(T.Table(s), T.SampleType.SYSTEM, W(1))),
}

CONTENT = gen.STRINGS + ["\x00", "\r\n", "\u2028", "\ufeff", "a\\'b", "'; DROP TABLE x; --", '"; --', "''''", '""""', "' || x || '", "\n'\n\"\n", "*/", "{0}", "%(a)s",
                         "\U0010ffff", "é́", "ʼ", "＇", "U&'x'", "X'00'", "`", "$$", "0'1", "\n\n   x", " lead", "trail ", "''\n''", 'n\n"n', "UNESCAPE", "zz9", "NULL,\nNULL", "x" * 90 + ", y (z), 'w' -- v /* u */ AND b", "w x, " * 40, '"a", ' * 30]


def valid_name(s):
    return s != ""


def contents(tier, seed):
    out = list(CONTENT)
    alphabet = ["'", '"', "\n", "\\", "a", " ", "-", ";", "&"]
    for n in (1, 2) + ((3,) if tier == "thorough" else ()):
        out += ["".join(t) for t in itertools.product(alphabet, repeat=n)]
    r = random.Random(seed)
    for _ in range(60 if tier == "quick" else 2000):
        out.append("".join(r.choice(alphabet + ["é", "x", "1", "\t", "--", "/*", "U&"]) for _ in range(r.randrange(1, 14))))
    return list(dict.fromkeys(out))


STRING_ONLY = {"string", "string operand", "string of a LIKE", "escape of a LIKE", "typed string", "interval", "single interval", "separator", "overflow filler",
               "overflow filler without count", "cast", "array", "VALUES", "having"}


def substituted(x, s):
    """The tree with the placeholder replaced (independent of the library)"""
    if x == PLACE if isinstance(x, str) else False:
        return s
    if isinstance(x, list):
        return [substituted(e, s) for e in x]
    if isinstance(x, dict):
        return {substituted(k, s): substituted(v, s) for k, v in x.items()}
    if isinstance(x, (T.DataType, T.Enum)) or type(x).__name__ == "Schema":
        return x
    if attr.has(type(x)):
        new = copy.copy(x)
        for f in attr.fields(type(x)):
            if f.name == "data_type" and not isinstance(x, (T.Cast, T.TryCast)):
                continue
            new.__dict__[f.name] = substituted(getattr(x, f.name), s)
        return new
    return x


def untyped(a, b):
    """same.diff without the types, which depend on the length of strings"""
    def strip(x):
        if isinstance(x, list):
            return [strip(e) for e in x]
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items()}
        if isinstance(x, (T.DataType, T.Enum)) or not attr.has(type(x)):
            return x
        return (type(x).__name__,) + tuple((f.name, strip(getattr(x, f.name))) for f in attr.fields(type(x))
                                           if f.name not in ("_column_schema",) and (f.name != "data_type" or isinstance(x, (T.Cast, T.TryCast))))
    sa, sb = strip(a), strip(b)
    return None if repr(sa) == repr(sb) else f"{sa!r} != {sb!r}"


def printing(case):
    kind, name, s = case
    if s == "" and (name not in STRING_ONLY or name == "separator"):
        # names aren't empty, and the empty separator is the default
        return None
    build = (EXPRESSIONS if kind == "e" else QUERIES)[name]
    parse = T.expression_from_sql if kind == "e" else T.query_from_sql
    plain, node = build(PLACE), build(s)
    for i, opts in enumerate(MODES):
        text = node.sql(opts)
        want, got = sqltext.tokens(plain.sql(opts)), sqltext.tokens(text)
        bad = f"{name} {s!r}, mode {i}: {text!r}"
        if len(want) != len(got):
            return f"{bad} has {len(got)} tokens instead of {len(want)}"
        for t1, t2 in zip(want, got):
            if sqltext.decode(t1) == PLACE and t1[0] in "'\"":
                if t2[0] != t1[0] or sqltext.decode(t2) != s:
                    return f"{bad}: token {t2!r} stands for {sqltext.decode(t2)!r}"
            elif t1 != t2:
                return f"{bad}: token {t2!r} instead of {t1!r}"
        if not any(sqltext.decode(t) == PLACE for t in want):
            return f"{name}: not printed at all: {want}"
        try:
            back = parse(text)
        except Exception as ex:
            return f"{bad} can't be parsed: {type(ex).__name__}: {ex}"
        d = same.diff(node, back)
        if d:
            return f"{bad} is read back as {same.describe(back)}: {d}"


def cases(tier, seed):
    def mk():
        for s in contents(tier, seed):
            for n in EXPRESSIONS:
                yield "e", n, s
            for n in QUERIES:
                yield "q", n, s
    return mk


# Texts with a quoted name or string in every place of the grammar that has one
E_TEXTS = ["{i}", "{i}.c", "t.{i}", "(ROW(1,2)).{i}", "a[1].{i}", "{s}", "a LIKE {s}", "a LIKE b ESCAPE {s}", "JSON {s}", "INTERVAL {s} DAY", "INTERVAL + {s} YEAR TO MONTH",
           "f({i} -> {i} + 1)", "length(({i}, y) -> {i} + y)", "length({i} -> {i} + 1)", "listagg(x, {s}) WITHIN GROUP (ORDER BY y)", "sum(x) OVER {i}", "sum(x) OVER ({i})",
           "listagg(x, ',' ON OVERFLOW TRUNCATE {s} WITH COUNT) WITHIN GROUP (ORDER BY y)", "a IN ({s}, 'x')", "CASE {s} WHEN {i} THEN {s} END", "{s} || {i}", "ARRAY[{s}]",
           "a AT TIME ZONE {s}", "TRIM({s})", "a IN (SELECT {s})", "{i}[{s}]", "CAST({s} AS VARCHAR)", "concat({s}, {i})", "sum({i}) FILTER (WHERE {i} = {s})", "row({s}, {i})",
           "position({s} IN {i})", "normalize({s})", "substring({s} FROM 1)", "date {s}", "char {s}", "nullif({i}, {s})", "{i} IS DISTINCT FROM {s}", "{i} BETWEEN {s} AND {s}"]
Q_TEXTS = ["SELECT a {i}", "SELECT a AS {i}, b", "SELECT {i}.*", "SELECT t.* AS ({i}, b)", "SELECT a FROM {i}", "SELECT a FROM {i}.t", "SELECT a FROM {i}.s.t", "SELECT a FROM c.s.{i}",
           "SELECT a FROM t {i}", "SELECT a FROM t AS {i} ({i}, k)", "SELECT a FROM (SELECT 1) {i}", "WITH {i} AS (SELECT 1) SELECT a", "WITH w ({i}, k) AS (SELECT 1) SELECT a",
           "SELECT a FROM l JOIN r USING ({i}, k)", "SELECT a FROM t WINDOW {i} AS (PARTITION BY x)", "SELECT a FROM t WINDOW w AS ({i})", "TABLE {i}", "TABLE {i}.t", "VALUES {s}, 'x'",
           "SELECT a WHERE {i} = {s}", "SELECT a ORDER BY {i}", "SELECT a GROUP BY {i}, CUBE ({i})", "SELECT a HAVING {i} = {s}", "SELECT {s} UNION SELECT {s}",
           "SELECT a FROM UNNEST(ARRAY[{s}]) AS {i} (x)", "SELECT a FROM LATERAL (SELECT {s})", "SELECT a FROM {i} TABLESAMPLE SYSTEM (1)", "SELECT a FROM l LEFT JOIN {i} ON {s} = {i}.x"]


def encode(token, s):
    return '"' + s.replace('"', '""') + '"' if token == "i" else "'" + s.replace("'", "''") + "'"


def parsing(case):
    kind, text, s = case
    parse = T.expression_from_sql if kind == "e" else T.query_from_sql
    if s == "" and "{i}" in text:
        return None
    put = lambda v: text.replace("{i}", encode("i", v)).replace("{s}", encode("s", v))
    try:
        plain = parse(put(PLACE))
    except Exception as ex:
        return None if s != PLACE else f"{put(PLACE)} can't be parsed: {ex}"
    if s != PLACE and text.startswith(("INTERVAL", "date", "char", "JSON")) and False:
        return None
    try:
        got = parse(put(s))
    except Exception as ex:
        return f"{put(s)!r} can't be parsed, but {put(PLACE)!r} can: {type(ex).__name__}: {ex}"
    d = untyped(substituted(plain, s), got)
    if d:
        return f"{put(s)!r} is parsed as {same.describe(got)}, but {put(PLACE)!r} as {same.describe(plain)}"


def parse_cases(tier, seed):
    def mk():
        for s in contents(tier, seed + 1):
            for t in E_TEXTS:
                yield "e", t, s
            for t in Q_TEXTS:
                yield "q", t, s
    return mk


def placed():
    # the placeholder has to end up in the tree
    for kind, ts in (("e", E_TEXTS), ("q", Q_TEXTS)):
        for t in ts:
            yield kind, t


def placed_oracle(case):
    kind, text = case
    parse = T.expression_from_sql if kind == "e" else T.query_from_sql
    full = text.replace("{i}", f'"{PLACE}"').replace("{s}", f"'{PLACE}'")
    try:
        tree = parse(full)
    except NotImplementedError:
        return None
    except Exception as ex:
        if text.startswith("f("):
            return None
        return f"{full} can't be parsed: {type(ex).__name__}: {ex}"
    n = repr(same.content(tree)).count(PLACE)
    if n < text.count("{i}") + text.count("{s}"):
        return f"{full} is parsed as {same.describe(tree)}, without {PLACE} in every place"


# Unicode strings -------------------------------------------------------------------------------------------------
def unicode_cases(n, seed):
    def mk():
        r = random.Random(seed)
        points = [0x41, 0x27, 0x22, 0x5c, 0xe9, 0x2603, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0, 0x30, 0x20]
        for k in range(n):
            esc = r.choice("\\\\\\#$!^|~@Zg.*?(){}[]_:;&%é")
            explicit = esc != "\\" or r.random() < 0.3
            text, want = "", ""
            for _ in range(r.randrange(0, 7)):
                kind = r.randrange(4)
                if kind == 0:
                    c = r.choice(points + [r.randrange(0x20, 0xd000)])
                    if c > 0xffff or r.random() < 0.4:
                        text += esc + "+" + r.choice(["%06x", "%06X"]) % c
                    else:
                        text += esc + r.choice(["%04x", "%04X"]) % c
                    want += chr(c)
                elif kind == 1:
                    text += esc + esc
                    want += esc
                else:
                    c = r.choice(["a", "0", "''", "+", '"', "é", "\\", "ab cd", "\n", "DEAD"])
                    if c == esc:
                        continue
                    text += c
                    want += "'" if c == "''" else c
            yield "U&'" + text + "'" + (f" UESCAPE '{esc}'" if explicit else ""), want
    return mk


def unicode_oracle(case):
    text, want = case
    try:
        got = T.expression_from_sql(text)
    except Exception as ex:
        return f"{text!r}, which stands for {want!r}, can't be parsed: {type(ex).__name__}: {ex}"
    if type(got) is not T.Literal or got.value != want or type(got.value) is not str:
        return f"{text!r} stands for {want!r} and is parsed as {same.describe(got)}"
    if got.data_type != T.tb.varchar(max_chars=len(want)):
        return f"{text!r} has the type {got.data_type} instead of VARCHAR({len(want)})"


BAD_UNICODE = [r"U&'\'", r"U&'\12'", r"U&'\+12345'", r"U&'\zzzz'", r"U&'\D800'", r"U&'\DFFF'", r"U&'\+110000'", r"U&'\+00D800'", r"U&'a' UESCAPE ''", r"U&'a' UESCAPE 'ab'",
               r"U&'a' UESCAPE 'a'", r"U&'a' UESCAPE '+'", r"U&'a' UESCAPE ' '", r"U&'a' UESCAPE '\"'", r"U&'#' UESCAPE '#'", r"U&'#004' UESCAPE '#'", r"U&'x\' UESCAPE '\'", r"U&'a' UESCAPE ''''",
               r"U&'\0041\'", r"U&'\ 0041'", r"U&'\004G'"]


def bad_unicode(text):
    text = text.replace('\\"', '"')
    try:
        got = T.expression_from_sql(text)
    except Exception:
        return None
    return f"{text!r} isn't valid, and is parsed as {same.describe(got)}"


# Every name and string of a tree at once -------------------------------------------------------------------------
HARD = "'x\"\"\n y  z{left}{right}{value}{0}%s -- /*\\u0041"
KEPT = {"Interval": ("from_interval", "to_interval", "value"), "TypeConstructor": ("type_name", "value")}


def hardened(x):
    """The tree with something hard to quote added to every name and string (independent of the library)"""
    if isinstance(x, list):
        return [hardened(e) for e in x]
    if isinstance(x, dict):
        return {k + HARD: hardened(v) for k, v in x.items()}
    if isinstance(x, (T.DataType, T.Enum)) or type(x).__name__ == "Schema" or not attr.has(type(x)):
        return x
    new = copy.copy(x)
    for f in attr.fields(type(x)):
        v = getattr(x, f.name)
        if f.name == "data_type" or f.name in KEPT.get(type(x).__name__, ()):
            continue
        if type(x).__name__ == "ListAgg" and f.name == "separator" and v == "":
            continue
        if isinstance(v, list):
            v = [e + HARD if isinstance(e, str) else hardened(e) for e in v]
        else:
            v = v + HARD if isinstance(v, str) else hardened(v)
        new.__dict__[f.name] = v
    return new


def whole(e):
    node = hardened(e)
    plain = e.sql(MODES[0]) if isinstance(e, T.Sql) else None
    parse = T.query_from_sql if isinstance(e, T.Query) else T.expression_from_sql
    want = sqltext.tokens(plain)
    try:
        back0 = parse(plain)
    except Exception:
        return None  # a matter of P01 and P02
    for i, opts in enumerate(MODES[:2]):
        text = node.sql(opts)
        got = sqltext.tokens(text)
        bad = f"mode {i}: {text!r}"
        if len(want) != len(got):
            return f"{bad} has {len(got)} tokens instead of {len(want)} (without {HARD!r} in its names and strings it's {plain!r})"
        for t1, t2 in zip(want, got):
            if t1[0] in "'\"":
                if t2[0] != t1[0] or sqltext.decode(t2) not in (sqltext.decode(t1) + HARD, sqltext.decode(t1)):
                    return f"{bad}: token {t2!r} stands for {sqltext.decode(t2)!r} instead of {sqltext.decode(t1) + HARD!r}"
            elif t1 != t2:
                return f"{bad}: token {t2!r} instead of {t1!r}"
        try:
            back = parse(text)
        except Exception as ex:
            return f"{bad} can't be parsed: {type(ex).__name__}: {ex}"
        if untyped(node, back) and not untyped(e, back0):
            return f"{bad} is read back as {same.describe(back)}"


def bounded(rep, tier, seed):
    q = tier == "quick"
    rep.cases("all names and strings of expressions", every(gen.expressions, gen.pairs, random_values(600 if q else 20000, seed)), whole)
    rep.cases("all names and strings of queries", every(gen.queries, gen.query_pairs, random_queries(400 if q else 15000, seed)), whole)
    rep.cases("names and strings that are printed", cases(tier, seed), printing)
    rep.cases("quoted names and strings that are parsed", parse_cases(tier, seed), parsing)
    rep.cases("places of quoted names and strings", placed, placed_oracle)
    rep.cases("unicode strings", unicode_cases(1500 if tier == "quick" else 40000, seed), unicode_oracle)
    rep.cases("invalid unicode strings", lambda: iter(BAD_UNICODE), bad_unicode)

