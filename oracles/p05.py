"""Parse trees against contracts/conversion.py: the tree the library builds represents what the specification says, or the text is refused."""
import enum
import attr
from vlib import T, gen, same, grammar
from contracts import conversion as C
from contracts import functions as F

RULE = {"e": "standaloneExpression", "q": "singleStatement", "t": "standaloneType"}
PARSE = {"e": lambda s: T.expression_from_sql(s), "q": lambda s: T.query_from_sql(s), "t": lambda s: T.type_from_sql(s)}


def own_parse(kind, text):
    """The parse tree of the text, without the library's own harness; None if the text isn't valid"""
    from antlr4 import CommonTokenStream, InputStream
    from antlr4.error.ErrorListener import ErrorListener
    from treeno.grammar.gen.SqlBaseLexer import SqlBaseLexer
    from treeno.grammar.gen.SqlBaseParser import SqlBaseParser

    class Bad(Exception):
        pass

    class Raise(ErrorListener):
        def syntaxError(self, *a):
            raise Bad()
    parser = SqlBaseParser(CommonTokenStream(SqlBaseLexer(InputStream(text))))
    parser.removeErrorListeners()
    parser.addErrorListener(Raise())
    try:
        node = getattr(parser, RULE[kind])()
    except Bad:
        return None
    if kind == "q":
        node = node.statement()
        if type(node).__name__ != "StatementDefaultContext":
            return None
    return node


def differs(rec, got, path=""):
    """None if the library's object is what the specification says"""
    if isinstance(rec, C.Rec):
        if rec.cls == "DataType":
            if not isinstance(got, T.DataType) or got.type_name != rec.fields["type_name"]:
                return f"{path}: expected the type {rec}, got {same.short(got)}"
            return differs(dict(sorted(rec.fields["parameters"].items())), dict(sorted(got.parameters.items())), path)
        if type(got).__name__ != rec.cls or type(got) is not (T.Variable if rec.cls == "Variable" else getattr(T, rec.cls)):
            return f"{path}: expected {rec.cls}, got {same.short(got)}"
        for f in attr.fields(type(got)):
            if f.name == "_column_schema" or not f.init or f.name == "data_type" and "data_type" not in rec.fields:
                continue
            value = getattr(got, f.name)
            if f.name in rec.fields:
                d = differs(rec.fields[f.name], value, f"{path}.{f.name}")
            else:
                if f.default is attr.NOTHING:
                    return f"{path}.{f.name}: specified nowhere"
                default = f.default.factory() if isinstance(f.default, attr.Factory) else f.default
                d = same.diff(default, value, f"{path}.{f.name}")
            if d:
                return d
        return None
    if isinstance(rec, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(rec):
            return f"{path}: expected {len(rec)} elements, got {same.short(got)}"
        return next(filter(None, (differs(r, g, f"{path}[{i}]") for i, (r, g) in enumerate(zip(rec, got)))), None)
    if isinstance(rec, dict):
        if not isinstance(got, dict) or list(rec) != list(got):
            return f"{path}: expected {sorted(rec)}, got {same.short(got)}"
        return next(filter(None, (differs(r, got[k], f"{path}[{k!r}]") for k, r in rec.items())), None)
    if isinstance(rec, C.DecimalText):
        if not isinstance(got, T.Decimal) or got.as_tuple() != T.Decimal(str(rec)).as_tuple():
            return f"{path}: expected {rec}, got {got!r}"
        return None
    if isinstance(got, enum.Enum):
        return None if got.name == rec else f"{path}: expected {rec}, got {got}"
    if isinstance(rec, float):
        return None if type(got) is float and repr(rec) == repr(got) else f"{path}: expected {rec!r}, got {got!r}"
    return None if type(rec) is type(got) and rec == got else f"{path}: expected {rec!r}, got {same.short(got)}"


def oracle(case):
    kind, text = case[:2]
    must = len(case) > 2  # has to be accepted
    node = own_parse(kind, text)
    if node is None:
        return f"{text!r} isn't valid SQL" if must else None
    try:
        want = C.meaning(node)
    except C.Unsupported as ex:
        want = ex
    try:
        got = PARSE[kind](text)
    except RecursionError:
        raise
    except Exception as ex:
        if must:
            return f"{text} raises {type(ex).__name__}: {ex}"
        return None
    if isinstance(want, C.Unsupported):
        return f"{text}\nhas a construct that can't be represented ({want}), and is converted to {same.describe(got)}"
    d = differs(want, got)
    if d:
        return f"{text}\nis converted to {same.describe(got)}\ninstead of {want}\nfirst difference {d}"


# Texts of every construct, with their variants. {a|b} stands for each of the variants. ---------------------------------------
EXPRESSIONS = """
a {=|<>|!=|<|<=|>|>=} b
a {+|-|*|/|%|\\|\\|} b {+|-|*|/|%|\\|\\|} c
{+|-} a
{+|-} {+|-} 1
-{1|1.5|1E2|'x'|a}
{NOT|NOT NOT} a
a {AND|OR} b {AND|OR} c
NOT a {AND|OR|=} b
a {|NOT} BETWEEN b AND c
a {|NOT} BETWEEN b AND c {AND|OR} d
a {|NOT} IN (b{|, c|, c, 'd'})
a {|NOT} IN (SELECT b{| FROM t})
a {|NOT} LIKE 'x%'{| ESCAPE '!'}
a {|NOT} LIKE b{| ESCAPE c}
a IS {|NOT} NULL
a IS {|NOT} DISTINCT FROM b
a {=|<} {ALL|ANY|SOME} (SELECT b)
{|NOT} EXISTS (SELECT b)
CASE {|a} WHEN b THEN c{| WHEN d THEN e}{| ELSE f} END
CASE {|a} WHEN NULL THEN NULL ELSE {NULL|0|''} END
{CAST|TRY_CAST}(a AS {INTEGER|VARCHAR(3)|DECIMAL(5, 2)|ARRAY(INTEGER)|TIMESTAMP(3) WITH TIME ZONE})
ARRAY[]
ARRAY[a{|, b|, b, c}]
a[b]
a[b][c]
ARRAY[1][2]
(a, b){|[1]}
(a, b, c)
ROW(a{|, b})
(a)
((a))
(SELECT a)
(SELECT a FROM t LIMIT 1)
a{|.b|.b.c|.b.c.d}
"A b"."C""d"
{f|sum}(a).b
(a, b).c
(a.b).c
a[1].b
{NULL|TRUE|FALSE}
{0|1|007|2147483647|2147483648|9223372036854775807|12345678901234567890}
-{0|1|2147483648|2147483649}
{1.5|.5|1.|0.50|00.5|12345678901234567890123456789012345678.|-1.5|- .5|0.00000000000000000000000000000000000001|123456789012345678901234567890123456789.}
{1E5|1.5E-7|.5E+10|1.E2|-1E5}
{''|'a'|'it''s'|''''|'--'|'\\'|'"'|'{{'}
U&'{|a|\\0041|\\+01F600|\\\\|it''s|!|a\\0041b\\\\c}'
U&'{|a|!0041|!+01F600|!!|it''s|\\|a!0041b!!c}' UESCAPE {'!'}
U&'a' UESCAPE {''|'ab'|'+'|'0'|''''|' '|'"'}
U&'{\\|\\00|\\+00|\\D800|\\+110000|\\x}'
X'{|00|0a}'
{DATE|TIME|TIMESTAMP|VARCHAR|CHAR|DECIMAL|JSON|IPADDRESS|BIGINT|"date"|Date} '1'
DOUBLE PRECISION '1'
DOUBLE '1'
INTERVAL {|+|-} '{1|-1|+1}' {YEAR|MONTH|DAY|HOUR|MINUTE|SECOND}
INTERVAL '1' {YEAR TO MONTH|DAY TO SECOND|DAY TO HOUR|HOUR TO MINUTE|MINUTE TO SECOND|YEAR TO SECOND}
{CURRENT_DATE|CURRENT_TIME|CURRENT_TIMESTAMP|LOCALTIME|LOCALTIMESTAMP|CURRENT_USER|CURRENT_CATALOG|CURRENT_SCHEMA|CURRENT_PATH}
{CURRENT_TIME|CURRENT_TIMESTAMP|LOCALTIME|LOCALTIMESTAMP}({0|3|12})
a AT TIME ZONE {'UTC'|INTERVAL '1' HOUR}
EXTRACT({YEAR|DAY} FROM a)
SUBSTRING(a FROM b{| FOR c})
TRIM({|LEADING |TRAILING |BOTH }{|'x' }{|FROM }a)
TRIM(a, b)
POSITION(a IN b)
NORMALIZE(a{|, NFD|, NFC|, NFKD|, NFKC})
GROUPING({|a|a, b.c})
JSON_EXISTS(a, 'lax $')
JSON_VALUE(a, 'lax $')
JSON_QUERY(a, 'lax $')
JSON_OBJECT({|'a': b|KEY a VALUE b})
JSON_ARRAY({|a})
?
a OVER w
{x|(x)|()|(x, y)} -> {x + 1|x|t.x|y|x + y|f.x(x)|(SELECT x)|z}
x -> y -> x + y + z
x -> x -> x
(x, x) -> x
{sum|SUM|Sum|"sum"|"SUM"|count|COUNT|avg|max|min|array_agg|arbitrary}(a)
{count|sum}(*)
count(t.*)
count("T t".*)
a.sum(b)
{sum|count|lower}(DISTINCT a)
{sum|count|lower}(ALL a)
{sum|lower}(a ORDER BY b{| DESC}{| NULLS FIRST}{|, c})
{sum|lower}(a) FILTER (WHERE b > 1)
{sum|lower}(a) {|IGNORE NULLS|RESPECT NULLS} OVER {w|(w)|()|"W w"|(PARTITION BY c{|, d})|(ORDER BY c)|(ORDER BY c DESC NULLS FIRST, d)|(w PARTITION BY c ORDER BY d)}
sum(a) OVER (PARTITION BY b ORDER BY c {RANGE|ROWS|GROUPS} {UNBOUNDED PRECEDING|1 PRECEDING|CURRENT ROW|a + 1 PRECEDING|1 FOLLOWING|UNBOUNDED FOLLOWING})
sum(a) OVER ({RANGE|ROWS|GROUPS} BETWEEN {UNBOUNDED PRECEDING|1 PRECEDING|CURRENT ROW|1 FOLLOWING} AND {2 PRECEDING|CURRENT ROW|2 FOLLOWING|UNBOUNDED FOLLOWING})
sum(a ORDER BY b) FILTER (WHERE c) IGNORE NULLS OVER (PARTITION BY d)
count(*) FILTER (WHERE c) OVER (PARTITION BY d)
listagg({|ALL |DISTINCT }a{|, ';'|, ''|, ','}{| ON OVERFLOW ERROR| ON OVERFLOW TRUNCATE WITH COUNT| ON OVERFLOW TRUNCATE WITHOUT COUNT| ON OVERFLOW TRUNCATE '..' WITH COUNT| ON OVERFLOW TRUNCATE '' WITHOUT COUNT}) WITHIN GROUP (ORDER BY b{| DESC, c})
{RUNNING|FINAL} sum(a)
no_such_function(a)
if(a, b{|, c})
nullif(a, b)
coalesce(a{|, b|, b, c})
concat(a{|, b|, b, c})
try(a / b)
{`a`|1a}
sum(a){|.b|[1]}
(a = b) = c
(a AND b) OR NOT c
- a ** b
power(a, b)
date_add('day', 1, a)
date_diff('day', a, b)
max(a{|, 2})
max_by(a, b{|, 3})
approx_percentile(a, {0.5|b, 0.5|b, c, 0.5})
"""

QUERIES = """
SELECT a
SELECT {|ALL |DISTINCT }a{|, b|, *|, t.*}
SELECT {*|t.*|"T t".*|*, a|a, *|s.t.*|f(a).*|(a, b).*|ARRAY[1].*}
SELECT {t.*|(a, b).*} AS (x{|, y})
SELECT a {|AS }b
SELECT a AS "b ""c"
SELECT a b, c AS d, e
SELECT (SELECT a) b
SELECT a FROM {t|s.t|c.s.t|d.c.s.t|"T t"|"S s"."T t"}
SELECT a FROM t{| u| AS u| u (x)| AS u (x, y)}
SELECT a FROM t, u
SELECT a FROM t {JOIN|INNER JOIN|LEFT JOIN|LEFT OUTER JOIN|RIGHT JOIN|RIGHT OUTER JOIN|FULL JOIN|FULL OUTER JOIN} u {ON t.x = u.x|USING (x)|USING (x, "Y y")}
SELECT a FROM t CROSS JOIN u
SELECT a FROM t NATURAL {|INNER |LEFT |LEFT OUTER |RIGHT |FULL |FULL OUTER }JOIN u
SELECT a FROM t JOIN u JOIN v ON x ON y
SELECT a FROM t JOIN u ON x JOIN v ON y
SELECT a FROM t JOIN (u JOIN v ON x) ON y
SELECT a FROM (t CROSS JOIN u) CROSS JOIN v
SELECT a FROM t CROSS JOIN (u CROSS JOIN v) CROSS JOIN w
SELECT a FROM (SELECT b{| FROM t}){| u| AS u (x)}
SELECT a FROM ((SELECT b))
SELECT a FROM (t){| u}
SELECT a FROM ((t u)) v
SELECT a FROM (VALUES 1, 2) t (x)
SELECT a FROM (TABLE t) u
SELECT a FROM (SELECT 1 UNION SELECT 2) u
SELECT a FROM UNNEST(x{|, y}){| WITH ORDINALITY}{| u (v, w)}
SELECT a FROM t CROSS JOIN UNNEST(t.x) WITH ORDINALITY AS u (v, w)
SELECT a FROM LATERAL (SELECT b){| u}
SELECT a FROM t CROSS JOIN LATERAL (SELECT t.b) u
SELECT a FROM t{| u} TABLESAMPLE {BERNOULLI|SYSTEM} ({10|1.5|x + 1})
SELECT a FROM (t TABLESAMPLE SYSTEM (1)) TABLESAMPLE BERNOULLI (2)
SELECT a FROM (t JOIN u ON x) TABLESAMPLE SYSTEM (1)
SELECT a FROM TABLE(f(1))
SELECT a FROM t FOR {TIMESTAMP|VERSION} AS OF 1
SELECT a FROM t MATCH_RECOGNIZE (PATTERN (A) DEFINE A AS true)
SELECT a {|FROM t }WHERE b
SELECT a FROM t GROUP BY {b|b, c|()|(b)|(b, c)|(b), c|(b, c), d}
SELECT a FROM t GROUP BY {|ALL |DISTINCT }b
SELECT a FROM t GROUP BY {ROLLUP|CUBE} ({b|b, c|(b, c), d})
SELECT a FROM t GROUP BY {ROLLUP|CUBE} ()
SELECT a FROM t GROUP BY GROUPING SETS ({b|(b)|()|(b), (c, d), ()})
SELECT a FROM t GROUP BY DISTINCT a, ROLLUP (b), CUBE (c, d), GROUPING SETS (e, (f, g))
SELECT a FROM t{| GROUP BY b} HAVING c
SELECT a FROM t WINDOW w AS ({|PARTITION BY b|ORDER BY c|v|v ROWS 1 PRECEDING})
SELECT a FROM t WINDOW w AS (), v AS (w), "W w" AS (ORDER BY x)
SELECT a FROM t WINDOW w AS (), w AS (ORDER BY x)
SELECT a FROM t WINDOW w AS (), W AS (ORDER BY x)
SELECT a FROM t ORDER BY b{| ASC| DESC}{| NULLS FIRST| NULLS LAST}{|, c DESC}
SELECT a FROM t{| OFFSET 2| OFFSET 2 ROW| OFFSET 2 ROWS| OFFSET 0}{| LIMIT 3| LIMIT ALL| LIMIT 0| LIMIT 007}
SELECT a FROM t{| ORDER BY b}{| OFFSET 2} FETCH {FIRST|NEXT} {|3 }{ROW|ROWS} {ONLY|WITH TIES}
SELECT a FROM t LIMIT ?
SELECT a FROM t OFFSET ?
SELECT a FROM t WHERE b GROUP BY c HAVING d WINDOW w AS () ORDER BY e OFFSET 1 LIMIT 2
{SELECT a|VALUES 1|TABLE t} {UNION|INTERSECT|EXCEPT}{| ALL| DISTINCT} {SELECT b|VALUES 2|TABLE u}
SELECT a {UNION|INTERSECT|EXCEPT} SELECT b {UNION|INTERSECT|EXCEPT} SELECT c
SELECT a {UNION|INTERSECT|EXCEPT} (SELECT b {UNION|INTERSECT|EXCEPT} SELECT c)
(SELECT a UNION SELECT b) INTERSECT SELECT c
SELECT a UNION ALL SELECT b ORDER BY c OFFSET 1 LIMIT 2
(SELECT a ORDER BY b LIMIT 1) UNION (SELECT c OFFSET 2)
{(SELECT a)|((SELECT a))}{| ORDER BY b}{| LIMIT 1}
(SELECT a {LIMIT 1|LIMIT ALL|ORDER BY b|OFFSET 1}){| LIMIT 2| ORDER BY c| OFFSET 3}
((SELECT a LIMIT 1) OFFSET 2) ORDER BY b
VALUES {1|1, 2|(1, 2)|(1, 2), (3, 4)|(1), (2)|ROW(1)}
VALUES 1{| ORDER BY a}{| OFFSET 1}{| LIMIT 1}
TABLE {t|s.t|c.s.t|d.c.s.t}{| ORDER BY a}{| LIMIT 1}
WITH {|RECURSIVE }w AS (SELECT 1) SELECT a
WITH w{| (x)| (x, "Y y")} AS (SELECT 1) SELECT a FROM w
WITH w AS (SELECT 1), v (x) AS (SELECT 2) {SELECT a|VALUES 1|TABLE w|SELECT a UNION SELECT b}{| LIMIT 1}
WITH w AS (WITH v AS (SELECT 1) SELECT 2) (SELECT 3)
SELECT a FROM (WITH w AS (SELECT 1) SELECT 2) u
SELECT (WITH w AS (SELECT 1) SELECT 2)
SELECT a IN (WITH w AS (SELECT 1) SELECT 2)
"""

TYPES = """
{BOOLEAN|INTEGER|TINYINT|SMALLINT|BIGINT|REAL|DOUBLE|VARBINARY|JSON|DATE|IPADDRESS|UUID|HYPERLOGLOG|P4HYPERLOGLOG|TDIGEST|UNKNOWN|boolean|Integer|"integer"|INT|STRING}
DOUBLE PRECISION
{DECIMAL|VARCHAR|CHAR|Decimal|"VARCHAR"}{|(1)|(5)|(5, 2)|(2, 5)|(0)|(38, 38)|(39)|(INTEGER)|(65537)|(1, 2, 3)}
{TIME|TIMESTAMP}{|(0)|(3)|(12)|(13)|(INTEGER)}{| WITH TIME ZONE| WITHOUT TIME ZONE}
INTERVAL {YEAR TO MONTH|DAY TO SECOND|YEAR|DAY TO HOUR|MONTH TO YEAR}
{ARRAY|QDIGEST}{(INTEGER)|(DECIMAL(5, 2))|(INTEGER, INTEGER)|(3)|}
{INTEGER|VARCHAR(3)|ROW(INTEGER)|TIME(3) WITH TIME ZONE} ARRAY{|[3]}{| ARRAY}
MAP(INTEGER, {VARCHAR|ARRAY(DATE)|3})
MAP(INTEGER)
ARRAY<INTEGER>
MAP<INTEGER, VARCHAR>
ROW(INTEGER{|, VARCHAR(3)|, ROW(DATE)})
ROW(a INTEGER{|, b DATE})
NOTATYPE{|(3)}
INTEGER(3)
"""


def variants(line):
    """All texts of a line of the table"""
    i = line.find("{")
    while i >= 0 and line[i:i + 2] == "{{":
        i = line.find("{", i + 2)
    if i < 0:
        yield line.replace("{{", "{")
        return
    parts, j, part = [], i + 1, ""
    while line[j] != "}":
        if line[j] == "\\" and line[j + 1] == "|":
            part += "|"
            j += 1
        elif line[j] == "{" and line[j + 1] == "{":
            part += "{{"
            j += 1
        elif line[j] == "|":
            parts.append(part)
            part = ""
        else:
            part += line[j]
        j += 1
    parts.append(part)
    for p in parts:
        for rest in variants(line[j + 1:]):
            yield line[:i] + p + rest


def table():
    for kind, block in (("e", EXPRESSIONS), ("q", QUERIES), ("t", TYPES)):
        for line in block.strip("\n").split("\n"):
            for text in variants(line):
                yield kind, text


def functions():
    args = ["a", "b + 1", "'s'", "t.c", "5", "f"]
    for name in list(F.FUNCTIONS) + list(F.VARIADIC):
        for n in range(0, 6):
            yield "e", f"{name}({', '.join(args[:n])})"
            yield "e", f"{name.lower()}({', '.join(args[:n])}) OVER (ORDER BY z)"


# What the documentation and the tests of the library show has to be accepted at least (P01, P02 and P15 have more)
ACCEPTED = [("e", t) for t in ["a = b", "a <> b", "NOT a", "a AND b OR c", "a BETWEEN 1 AND 2", "a IN (1, 2)", "a LIKE 'x' ESCAPE '!'", "a IS NOT NULL", "a IS DISTINCT FROM b", "CASE WHEN a THEN b ELSE c END",
                               "CAST(a AS BIGINT)", "TRY_CAST(a AS BIGINT)", "ARRAY[1, 2]", "a[1]", "(a, b)", "t.a", "-1", "1.5", "1E5", "'x'", "U&'\\0041'", "DATE '2020-01-01'", "INTERVAL '1' DAY", "CURRENT_DATE",
                               "LOCALTIME(3)", "x -> x + 1", "sum(a) FILTER (WHERE b) OVER (PARTITION BY c)", "listagg(a, ',') WITHIN GROUP (ORDER BY b)", "a || b", "NORMALIZE(a, NFC)", "count(*)", "(SELECT 1)"]]
ACCEPTED += [("q", t) for t in ["SELECT 1", "SELECT DISTINCT a, t.* FROM t", "SELECT a FROM t JOIN u USING (x)", "SELECT a FROM t NATURAL LEFT JOIN u", "SELECT a FROM t CROSS JOIN UNNEST(x) WITH ORDINALITY AS u (v, w)",
                                "SELECT a FROM t TABLESAMPLE BERNOULLI (10)", "SELECT a FROM t WHERE b GROUP BY c, ROLLUP (d) HAVING e WINDOW w AS (ORDER BY f) ORDER BY g DESC OFFSET 1 LIMIT 2", "TABLE t", "VALUES 1, 2",
                                "SELECT 1 UNION ALL SELECT 2", "SELECT 1 INTERSECT SELECT 2 EXCEPT SELECT 3", "WITH w (x) AS (SELECT 1) SELECT x FROM w", "SELECT a FROM LATERAL (SELECT 1) t", "(SELECT 1) LIMIT 1", "SELECT 1 LIMIT ALL"]]
ACCEPTED += [("t", t) for t in ["BIGINT", "DECIMAL(5, 2)", "VARCHAR(3)", "TIMESTAMP(3) WITH TIME ZONE", "ROW(INTEGER, DATE)", "MAP(INTEGER, VARCHAR)", "INTEGER ARRAY", "INTERVAL DAY TO SECOND", "DOUBLE PRECISION"]]


def random_texts(n, seed):
    def mk():
        for i in range(n):
            s = grammar.Sentences(seed * 1000003 + i)
            if i % 20 == 0:
                yield "t", s.make("type_", 6)
            elif i % 2:
                yield "q", s.make("query", 6 + i % 30)
            else:
                yield "e", s.make("expression", 4 + i % 24)
    return mk


KEYWORDS = None


def lowered(text):
    """The text with its keywords in lower case; None if the grammar has no such spelling of one of them"""
    from antlr4 import InputStream
    from treeno.grammar.gen.SqlBaseLexer import SqlBaseLexer
    toks = SqlBaseLexer(InputStream(text)).getAllTokens()
    out = list(text)
    names = SqlBaseLexer.symbolicNames
    for t in toks:
        name = names[t.type] if t.type < len(names) else ""
        if t.text.isupper() and name not in ("IDENTIFIER", "STRING", "QUOTED_IDENTIFIER", "UNICODE_STRING", "DOUBLE_VALUE", "BINARY_LITERAL", "DIGIT_IDENTIFIER", "BACKQUOTED_IDENTIFIER", "UNRECOGNIZED"):
            spellings = grammar.keyword(name) if name in grammar.RULES else None
            if not spellings or t.text.lower() not in spellings:
                return None
            out[t.start:t.stop + 1] = t.text.lower()
    return "".join(out)


def letter_case(case):
    kind, text = case
    low = lowered(text)
    if low is None or low == text or own_parse(kind, text) is None:
        return None
    results = []
    for t in (text, low):
        try:
            results.append(PARSE[kind](t))
        except Exception as ex:
            results.append(ex)
    up, down = results
    if isinstance(up, Exception) or isinstance(down, Exception):
        if isinstance(up, Exception) != isinstance(down, Exception):
            return f"{text} gives {up!r:.300}\n{low} gives {down!r:.300}"
        return None
    # names keep their letters
    if same.diff(fold(up), fold(down)):
        return f"{text} is {same.describe(up)}\n{low} is {same.describe(down)}"


def fold(x):
    """For words that can be keywords and names, the letter case is part of the name"""
    import copy
    if isinstance(x, str):
        return x.lower()
    if isinstance(x, (list, tuple)):
        return [fold(e) for e in x]
    if isinstance(x, dict):
        return {fold(k): fold(v) for k, v in x.items()}
    if isinstance(x, enum.Enum) or not attr.has(type(x)):
        return x
    y = copy.copy(x)
    for f in attr.fields(type(x)):
        if f.name != "_column_schema":
            object.__setattr__(y, f.name, fold(getattr(x, f.name)))
    return y


def bounded(rep, tier, seed):
    n = 4000 if tier == "quick" else 100000
    rep.cases("texts of every construct", table, oracle)
    rep.cases("functions and numbers of arguments", functions, oracle)
    rep.cases("texts that are accepted", lambda: [(k, t, True) for k, t in ACCEPTED], oracle)
    rep.cases("random sentences of the grammar", random_texts(n, seed), oracle)
    rep.cases("letter case of keywords", table, letter_case)
    rep.cases("letter case of keywords in random sentences", random_texts(n // 4, seed + 7), letter_case)

