import itertools
import random

from vlib import T, gen, same, sqltext


class Bad(Exception):
    pass


def judge(kind, text):
    """Whether the text is entirely a valid construct, with an own harness around the generated parser: every token is one of the
    grammar, no syntax error, and all of the tokens are used."""
    from antlr4 import CommonTokenStream, InputStream
    from antlr4.ListTokenSource import ListTokenSource
    from antlr4.Token import Token
    from antlr4.error.ErrorListener import ErrorListener
    from treeno.grammar.gen.SqlBaseLexer import SqlBaseLexer
    from treeno.grammar.gen.SqlBaseParser import SqlBaseParser

    class Raise(ErrorListener):
        def syntaxError(self, *a):
            raise Bad()
    lexer = SqlBaseLexer(InputStream(text))
    lexer.removeErrorListeners()
    lexer.addErrorListener(Raise())
    try:
        toks = [t for t in lexer.getAllTokens() if t.channel == Token.DEFAULT_CHANNEL]
        if any(t.type == SqlBaseLexer.UNRECOGNIZED and t.text != ";" for t in toks):
            return False
        if kind == "q" and toks and toks[-1].text == ";":
            toks.pop()
        if any(t.text == ";" for t in toks):
            return False
        parser = SqlBaseParser(CommonTokenStream(ListTokenSource(toks)))
        parser.removeErrorListeners()
        parser.addErrorListener(Raise())
        # All rules that are followed by the end of the text
        if kind == "q":
            node = parser.singleStatement()
            return type(node.statement()).__name__ == "StatementDefaultContext" and parser.getNumberOfSyntaxErrors() == 0
        node = parser.standaloneExpression() if kind == "e" else parser.standaloneType()
        return parser.getNumberOfSyntaxErrors() == 0
    except Bad:
        return False


PARSE = {"e": lambda s: T.expression_from_sql(s), "q": lambda s: T.query_from_sql(s), "t": lambda s: T.type_from_sql(s)}
AST = {"e": lambda s: T.AST(s).expression(), "q": lambda s: T.AST(s).query(), "t": lambda s: T.AST(s).type()}


def rejected(kind, text):
    for f, name in ((PARSE[kind], "parsed"), (AST[kind], "accepted by AST")):
        try:
            got = f(text)
        except Exception:
            continue
        return f"{text!r} isn't a valid {dict(e='expression', q='query', t='type')[kind]}, and is {name}: {same.describe(got) if isinstance(got, T.Sql) else got.getText()}"


def oracle(case):
    kind, text = case
    if judge(kind, text):
        try:
            AST[kind](text)
        except Exception as ex:
            return f"{text!r} is valid, and isn't accepted by AST: {type(ex).__name__}: {ex}"
        return None
    return rejected(kind, text)


def curated(case):
    kind, text = case
    if judge(kind, text):
        return f"{text!r} isn't a valid construct, but the parser accepts it"
    return rejected(kind, text)


INVALID = {
    "e": r"""
1 +| + | |1 2|a b|a, b|(a|a)|()|(a,)|f(|f(a|f(a,)|f(,a)|f(a b)|a.|.a|a..b|1 = = 2|= 1|a =|a < > b|NOT|a AND|AND a|a AND AND b|a OR OR b|a NOT b|a IN|a IN ()|a IN (1,)|a IN 1
a BETWEEN 1|a BETWEEN 1 AND|a BETWEEN AND 2|a LIKE|a LIKE 'x' ESCAPE|a IS|a IS NOT|a IS 1|a IS DISTINCT b|CASE|CASE END|CASE WHEN a END|CASE WHEN a THEN END|CASE WHEN a THEN b|CASE a THEN b END
CASE WHEN a THEN b ELSE END|CAST(a)|CAST(a AS)|CAST(AS INTEGER)|CAST(a INTEGER)|TRY_CAST(a AS INTEGER|ARRAY[|ARRAY[1|ARRAY[1,]|ARRAY 1|a[|a[]|a[1|a]|a[1 2]|'abc|"abc|'a'b'|`abc|'a' 'b'|"a" "b"|1;|a;|;|a;b
1 -- x\n 2|/* x|a /* x|a */|a ? b|a @ b|a # b|a ~ b|a ! b|a ^ b|a & b|a b$|a : b|a \ b|{a}|$1|a -> |-> a|(a, -> b|(a b) -> c|INTERVAL|INTERVAL '1'|INTERVAL 1 DAY|INTERVAL '1' DAYS|INTERVAL '1' DAY TO|INTERVAL '1' TO DAY
sum(x) OVER|sum(x) OVER (|sum(x) OVER (PARTITION x)|sum(x) OVER (ORDER x)|sum(x) OVER (ROWS)|sum(x) OVER (ROWS BETWEEN 1 PRECEDING)|sum(x) FILTER|sum(x) FILTER (x)|sum(x) FILTER WHERE x|sum(DISTINCT)|sum(x ORDER x)
listagg(x)|listagg(x) WITHIN GROUP|listagg(x) WITHIN GROUP (x)|listagg(x, y, z) WITHIN GROUP (ORDER BY x)|x AT TIME|x AT TIME ZONE|x AT ZONE 'a'|EXTRACT(x)|EXTRACT(YEAR x)|POSITION(a, b)|SUBSTRING(a FROM)|TRIM(|ROW()|ROW(|ROW
SELECT 1|(SELECT 1|SELECT|EXISTS|EXISTS 1|a IS NULL NULL|a + - |1e|1.2.3|0x1F|1a|a 'b'|DATE|DATE 1|TRUE FALSE|NULL NULL|a AS b|*|t.*|count(*|count(*, 1)|DISTINCT a|ALL a|a ASC|a,|,a|a.1|a.*.b|U&'a' UESCAPE|U&'a' UESCAPE b|f(a) b|(a) (b)|a => b|é|a é|１|a\u00a0+b
""",
    "q": r"""
SELECT| |SELECT FROM t|SELECT a FROM|SELECT a FROM WHERE b|SELECT a,|SELECT , a|SELECT a b c|SELECT a AS|SELECT a AS 'b'|SELECT * AS x|SELECT a FROM t WHERE|SELECT a WHERE b WHERE c|SELECT a FROM t FROM u|SELECT a GROUP|SELECT a GROUP BY
SELECT a GROUP BY b,|SELECT a HAVING|SELECT a ORDER|SELECT a ORDER BY|SELECT a ORDER BY b,|SELECT a ORDER BY b ASC DESC|SELECT a ORDER BY b NULLS|SELECT a ORDER BY b NULLS FIRST LAST|SELECT a LIMIT|SELECT a LIMIT b|SELECT a LIMIT -1
SELECT a LIMIT 1 LIMIT 2|SELECT a LIMIT 1 OFFSET 2|SELECT a OFFSET|SELECT a OFFSET 1 OFFSET 2|SELECT a FETCH|SELECT a FETCH FIRST|SELECT a FETCH FIRST 1|SELECT a FETCH FIRST 1 ROW|SELECT a HAVING b GROUP BY c|SELECT a ORDER BY b WHERE c
SELECT a LIMIT 1 ORDER BY b|SELECT a FROM t WHERE b FROM u|SELECT a FROM t JOIN|SELECT a FROM t JOIN u|SELECT a FROM t JOIN u ON|SELECT a FROM t JOIN u USING|SELECT a FROM t JOIN u USING ()|SELECT a FROM t JOIN u USING k|SELECT a FROM t CROSS u
SELECT a FROM t CROSS JOIN u ON b|SELECT a FROM t LEFT u|SELECT a FROM t OUTER JOIN u ON b|SELECT a FROM t INNER JOIN u|SELECT a FROM t NATURAL u|SELECT a FROM t NATURAL CROSS JOIN u|SELECT a FROM t NATURAL JOIN u ON b|SELECT a FROM t,|SELECT a FROM , t
SELECT a FROM t u v|SELECT a FROM t (a, b)|SELECT a FROM t u ()|SELECT a FROM t u (a,)|SELECT a FROM (t|SELECT a FROM t)|SELECT a FROM ()|SELECT a FROM UNNEST|SELECT a FROM UNNEST()|SELECT a FROM UNNEST(b) WITH|SELECT a FROM LATERAL SELECT 1|SELECT a FROM LATERAL t
SELECT a FROM t TABLESAMPLE|SELECT a FROM t TABLESAMPLE (1)|SELECT a FROM t TABLESAMPLE SYSTEM|SELECT a FROM t TABLESAMPLE SYSTEM ()|SELECT a FROM t TABLESAMPLE OTHER (1)|SELECT a UNION|UNION SELECT a|SELECT a UNION UNION SELECT b|SELECT a UNION ALL DISTINCT SELECT b
SELECT a INTERSECT|SELECT a EXCEPT b|(SELECT a|SELECT a)|()|WITH|WITH SELECT a|WITH w SELECT a|WITH w AS SELECT 1 SELECT a|WITH w AS (SELECT 1)|WITH w AS (SELECT 1), SELECT a|WITH w () AS (SELECT 1) SELECT a|WITH w AS (SELECT 1) WITH v AS (SELECT 1) SELECT a|WITH w AS (t) SELECT a
TABLE|TABLE 'a'|TABLE a b|TABLE a, b|VALUES|VALUES 1,|VALUES ,1|VALUES ()|VALUES (1|SELECT a; SELECT b|SELECT a;;|; SELECT a|SELECT a; b|SELECT a;x|SELECT a x y|SELECT a FROM t WINDOW|SELECT a FROM t WINDOW w|SELECT a FROM t WINDOW w AS|SELECT a FROM t WINDOW w AS PARTITION BY b
SELECT a FROM t WINDOW w AS (PARTITION BY b) x|SELECT a FROM a.b.|SELECT a FROM .b|SELECT a FROM 'b'|SELECT a FROM 1|SELECT 1 +|SELECT (1|SELECT 1)|SELECT 'a|SELECT "a|SELECT a -- x\n b c|SELECT a /* b|SELECT a FROM t # x|SELECT a FROM t @|SELECT a$|SELECT a FROM t WHERE a ? b|SELECT DISTINCT
SELECT ALL DISTINCT a|SELECT a GROUP BY CUBE|SELECT a GROUP BY ROLLUP (|SELECT a GROUP BY GROUPING SETS|SELECT a GROUP BY GROUPING SETS ()|SELECT a GROUP BY DISTINCT ALL b|a|1|SELECT a AND|SELECT NOT|FROM t|FROM t SELECT a|SELEC a|SELECT a FORM t|DROP TABLE t|CREATE TABLE t AS SELECT 1|EXPLAIN SELECT 1
INSERT INTO t SELECT 1|SHOW TABLES|USE x|DELETE FROM t|SELECT a é|SELECT a FROM t WHERE é|SELECT a\|SELECT a,;|SELECT a FROM t;)|SELECT a FROM t;--\n;
""",
    "t": r"""
 |INTEGER INTEGER|INTEGER,|(INTEGER)|INTEGER)|DECIMAL(|DECIMAL(1|DECIMAL()|DECIMAL(1,)|DECIMAL(,1)|DECIMAL(1 2)|VARCHAR('a')|VARCHAR(-1)|VARCHAR(1.5)|ARRAY(|ARRAY(INTEGER|ARRAY<INTEGER|ARRAY<>|MAP<INTEGER>|MAP<INTEGER,>|ROW(|ROW()|ROW(INTEGER|ROW(a INTEGER,)
TIMESTAMP WITH|TIMESTAMP WITH TIME|TIMESTAMP WITH ZONE|TIMESTAMP() WITH TIME ZONE|TIME ZONE|TIMESTAMP TIME ZONE|INTERVAL|INTERVAL YEAR|INTERVAL TO MONTH|INTERVAL YEAR TO|INTERVAL YEAR MONTH|DOUBLE PRECISION PRECISION|1|'a'|INTEGER;|;|INTEGER ARRAY ARRAY[|INTEGER[|INTEGER[]|INTEGER -- x\n INTEGER|INTEGER @|INTEGER é|a b c|VARCHAR(1)(2)|INTEGER + 1|"a|TIMESTAMP (3|.|a.b|INTEGER/*
""",
}


# Words that can be names as well, and types in front of strings
VALID = {"INTERVAL", "INTERVAL '1'", "sum(x) OVER (ROWS)", "POSITION(a, b)", "ROW()", "ROW", "1e", "0x1F", "1a", "a 'b'", "DATE", "SELECT a LIMIT", "SELECT a OFFSET", "SELECT a FETCH",
         "SELECT a FROM LATERAL t", "SELECT a FROM t TABLESAMPLE", "SELECT a FROM t WINDOW", "INTERVAL YEAR"}


def invalid():
    for kind, block in INVALID.items():
        for line in block.strip("\n").split("\n"):
            for t in line.split("|") + ["a || ", "|| a", "a | b", "a ||| b", "|"]:
                if t in VALID:
                    continue
                t = t.replace("\\n", "\n").replace("\\u00a0", "\u00a0")
                yield kind, t


def corpus(seed, n):
    g = gen.Gen(seed)
    g.simple_names = True
    out = []
    for i in range(n):
        out.append(("e", str(g.expression(1 + i % 3))))
        out.append(("q", str(g.query(1 + i % 2))))
    out += [("t", str(t)) for t in gen.types()]
    return [c for c in out if len(c[1]) < 300]


EXTRA = ["(", ")", ",", ";", "a", "1", "'s'", '"q"', ".", "*", "+", "-", "=", "SELECT", "FROM", "AND", "NOT", "AS", "NULL", "ORDER", "BY", "[", "]", "'", '"', "@", "#", "$", "~", "\\", "{",
         "é", "`", "?", "|", "->", "--", "/*", "*/", "!", "^", "\x00", "&", ":", "%", "\u00a0", "END", "OVER", "ON", "UNION", "LIMIT 1", "DISTINCT", "1e", "U&'\\'", "X'", "\ufeff"]


def broken(seed, n):
    def mk():
        r = random.Random(seed)
        texts = corpus(seed, max(60, n // 40))
        for i in range(n):
            kind, text = r.choice(texts)
            k = r.randrange(8)
            toks = sqltext.tokens(text)
            j = r.randrange(len(toks))
            if k == 0:
                text = text[:r.randrange(len(text))]
            elif k == 1:
                text = text + " " + r.choice(EXTRA)
            elif k == 2:
                text = " ".join(toks[:j] + toks[j + 1:])
            elif k == 3:
                text = " ".join(toks[:j] + [r.choice(EXTRA)] + toks[j:])
            elif k == 4:
                text = " ".join(toks[:j] + [r.choice(EXTRA)] + toks[j + 1:])
            elif k == 5:
                p = r.randrange(len(text) + 1)
                text = text[:p] + r.choice(EXTRA) + text[p:]
            elif k == 6:
                text = r.choice(EXTRA) + " " + text
            else:
                text = " ".join(toks[:j] + [toks[j], toks[j]] + toks[j + 1:])
            yield kind, text
    return mk


def trailing():
    """Everything behind and in front of complete constructs"""
    base = [("e", "a"), ("e", "1 + b"), ("e", "f(x)"), ("e", "'s'"), ("e", "CASE WHEN a THEN b END"), ("q", "SELECT a"), ("q", "SELECT a FROM t"), ("q", "TABLE t"), ("q", "VALUES 1"),
            ("q", "SELECT a FROM t ORDER BY b"), ("q", "SELECT a LIMIT 1"), ("q", "(SELECT a)"), ("q", "SELECT a UNION SELECT b"), ("q", "WITH w AS (SELECT 1) SELECT a FROM t WHERE b"),
            ("t", "INTEGER"), ("t", "DECIMAL(1,2)"), ("t", "ARRAY(INTEGER)"), ("t", "TIMESTAMP(3) WITH TIME ZONE"), ("t", "ROW(INTEGER)"), ("t", "INTERVAL DAY TO SECOND")]
    for kind, b in base:
        for x in EXTRA:
            yield kind, b + " " + x
            yield kind, x + " " + b
            yield kind, b + x
            yield kind, b + ";" + x
            yield kind, b + " ; " + x
            yield kind, b + "\n\n" + x + "\n"
        for x in ("", " ", "\n", ";", " ;", "; ", ";\n", ";;", "; ;", " -- c", ";-- c", "/* c */;", "; /* c */"):
            yield kind, b + x


def accepted():
    """What has to be accepted: all of the text may be in comments and white space besides the construct"""
    for pre, post in itertools.product(("", " ", "\n\t", "-- c\n", "/* c */", "/* 'c\" */ "), ("", " ", "\r\n", " -- c", "\n/* c */", "/**/")):
        yield "e", pre + "a" + post
        yield "t", pre + "INTEGER" + post
        yield "q", pre + "SELECT a" + post
        yield "q", pre + "SELECT a" + post.replace(" -- c", "") + ";" + post


def accept_oracle(case):
    kind, text = case
    try:
        PARSE[kind](text)
    except Exception as ex:
        return f"{text!r} is valid, and isn't accepted: {type(ex).__name__}: {ex}"


def bounded(rep, tier, seed):
    rep.cases("texts that aren't valid", invalid, curated)
    rep.cases("text around complete constructs", trailing, oracle)
    rep.cases("valid texts with comments and white space", accepted, accept_oracle)
    rep.cases("broken texts", broken(seed, 6000 if tier == "quick" else 200000), oracle)

