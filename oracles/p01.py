from vlib import T, gen, same
from oracles.common import grammar_agrees, random_values


def round_trip(e, parse):
    try:
        s = str(e)
    except Exception as ex:
        return f"tree {same.describe(e)}\ncan't be printed: {type(ex).__name__}: {ex}"
    try:
        e2 = parse(s)
    except Exception as ex:
        return f"tree {same.describe(e)}\nprints {s}\nwhich can't be parsed: {type(ex).__name__}: {ex}"
    d = same.diff(e, e2, norm=True)
    if d:
        return f"tree {same.describe(e)}\nprints {s}\nwhich parses to {same.describe(e2)}\nfirst difference {d}"
    return None


def oracle(e):
    return round_trip(e, T.expression_from_sql)


def bounded(rep, tier, seed):
    grammar_agrees(rep, tier)
    rep.cases("leaf values, names, types and clause combinations", gen.expressions, oracle)
    rep.cases("operand kind in operand position", gen.pairs, oracle)
    rep.cases("operator nesting three deep", gen.chains, oracle)
    rep.cases("random trees", random_values(2000 if tier == "quick" else 60000, seed), oracle)
    for v in (0.3, -2.5, 0.0, 100.0, 1234.5678, 0.0001):
        r = oracle(T.wrap_literal(v))
        rep.count("float without exponent", 1)
        if r:
            # the recorded finding: the digits are right, and only the type isn't
            e2 = T.expression_from_sql(str(T.wrap_literal(v)))
            known = isinstance(e2, T.Literal) and isinstance(e2.value, T.Decimal) and str(e2.value) == repr(v)
            rep.violation("float literal without exponent" if known else f"float literal {v}", r)

