from vlib import T, gen, same, sqltext
from oracles.common import random_values, random_queries, misc_nodes, every

SPACES = [4, 0, 1, 2, 8, 30, 79, 80, 81, 200]


def oracle(e, spaces=SPACES):
    def show(mode, n):
        try:
            return e.sql(T.PrintOptions(mode=mode, spaces=n)), None
        except NotImplementedError:
            return None, "NotImplementedError"
        except Exception as ex:
            return None, type(ex).__name__
    for n in spaces:
        d, derr = show(T.PrintMode.DEFAULT, n)
        p, perr = show(T.PrintMode.PRETTY, n)
        if derr != perr:
            return f"tree {same.describe(e)}\nspaces={n}: default {derr or 'printed'}, pretty {perr or 'printed'}"
        if d is None:
            continue
        a, b = sqltext.tokens(d), sqltext.tokens(p)
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return f"tree {same.describe(e)}\nspaces={n}\ndefault {d!r}\npretty  {p!r}\ntoken {i}: {a[i:i+3]} != {b[i:i+3]}"
    return None


def some(e):
    return oracle(e, (4, 2, 81))


def bounded(rep, tier, seed):
    rep.cases("expressions", gen.expressions, some)
    rep.cases("windows, groupings, relations, order terms and other parts", misc_nodes, oracle)
    rep.cases("queries", gen.queries, some)
    rep.cases("operands of queries", gen.query_pairs, some)
    rep.cases("operator nesting", gen.chains, lambda e: oracle(e, (4,)))
    rep.cases("operand kinds", gen.pairs, lambda e: oracle(e, (4,)))
    n = 3000 if tier == "quick" else 60000
    rep.cases("random trees", random_values(n, seed), oracle)
    rep.cases("random queries", random_queries(n, seed), oracle)
    rep.cases("strings in every place", places, lambda e: oracle(e, (4, 81)))
    rep.cases("strings through pad", pads(5 if tier == "quick" else 7), pad_oracle)
    rep.cases("lists through join_stmts", joins, join_oracle)


def places():
    from oracles import p04
    for builders in (p04.EXPRESSIONS, p04.QUERIES):
        for name, build in builders.items():
            for s in p04.CONTENT:
                try:
                    e = build(s)
                except Exception:
                    # what may not be built is up to other properties
                    continue
                yield e


def pads(n):
    import itertools
    alphabet = ["'", '"', "\n", "a", " "]

    def mk():
        for k in range(n + 1):
            for t in itertools.product(alphabet, repeat=k):
                yield "".join(t)
    return mk


def pad_oracle(s):
    # only texts in which every quote is closed can be printed
    toks = sqltext.tokens(s)
    if any(t in ("'", '"') for t in toks):
        return None
    for n in (0, 1, 4):
        out = T.pad(s, n)
        if sqltext.tokens(out) != toks:
            return f"pad({s!r}, {n}) = {out!r} changes the tokens"
    return None


def joins():
    for count in range(0, 5):
        for length in (0, 1, 3, 25, 38, 39, 40, 75, 76, 77, 78, 79, 80, 81, 200):
            for delim in (",", " ", " AND "):
                yield [('"' + chr(97 + i) * length + '"') for i in range(count)], delim


def join_oracle(case):
    items, delim = case
    for mode in T.PrintMode:
        for n in SPACES:
            got = T.join_stmts(list(items), T.PrintOptions(mode=mode, spaces=n), delimiter=delim)
            want = sqltext.tokens(delim.join(items))
            if sqltext.tokens(got) != want:
                return f"join_stmts({items!r}, {mode}, spaces={n}, delimiter={delim!r}) = {got!r}"
    return None

