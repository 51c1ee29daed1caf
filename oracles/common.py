from vlib import T, gen, same, par


def random_values(n, seed, depths=(2, 3, 4), simple=False):
    def mk():
        for i in range(n):
            g = gen.Gen(seed * 1000003 + i)
            g.simple_names = simple
            yield g.expression(depths[i % len(depths)])
    return mk


def random_queries(n, seed, depths=(2, 3), simple=False):
    def mk():
        for i in range(n):
            g = gen.Gen(seed * 1000003 + 500009 + i)
            g.simple_names = simple
            yield g.query(depths[i % len(depths)])
    return mk


def misc_nodes():
    """One or more instances of every node class that isn't an expression or a query by itself"""
    yield from gen.windows()
    yield from gen.groupbys()
    yield from gen.relations(1)
    g = gen.Gen(11)
    for _ in range(60):
        yield g.window(2)
        yield g.groupby(2)
        yield g.relation(2)
        yield from g.orderby(2)
        yield g.bound(2)
        yield g.lambda_(2)
        yield g.select_item(2)
    for x in gen.operands():
        yield T.When(x, x)
        yield T.Else(x)
        yield T.OrderTerm(x)
        yield T.Lambda([T.Variable("lam"), T.Variable("b2")], x)
        yield T.AliasedValue(x, "al")
    yield T.Star()
    yield T.Star("t")
    yield T.AliasedStar(T.Star("t"), ["x", "y"])
    yield T.OverflowFiller(T.CountIndication.WITH_COUNT, "x")
    yield T.Variable("v")
    for t in gen.types():
        yield t


def every(*gens):
    def mk():
        for g in gens:
            yield from g()
    return mk


def texts(cases, step=1):
    import itertools
    for e in itertools.islice(cases, 0, None, step):
        try:
            yield str(e)
        except Exception:
            pass  # reported elsewhere


def grammar_agrees(rep, tier, queries=False):
    """The grammar of the proofs against the generated parser, on printed texts (bounded)"""
    from pydv import crosscheck
    k = 1 if tier == "thorough" else 4
    if queries:
        ts = [("query", t) for g, n in ((gen.queries(), k), (random_queries(60, 1)(), 1)) for t in texts(g, n)]
    else:
        ts = [("standaloneExpression", t) for g, n in ((gen.expressions(), k), (gen.pairs(), 12 * k), (gen.chains(), 5 * k),
                                                       (random_values(150, 1)(), 1)) for t in texts(g, n)]
    crosscheck.check(rep, "derivation of a printed text against ANTLR's", ts)
