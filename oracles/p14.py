import itertools
from collections import Counter
from vlib import T, gen, same
from oracles.common import random_values, random_queries, misc_nodes, every


class Recorder:
    def __init__(self):
        self.seen = []

    def visit(self, node):
        self.seen.append(node)


def oracle(node):
    rec = Recorder()
    before = same.snapshot(node)
    try:
        node.visit(rec)
    except Exception as ex:
        return f"({same.describe(node)}).visit raises {type(ex).__name__}: {ex}"
    want = same.children(node)
    a, b = Counter(map(id, rec.seen)), Counter(map(id, want))
    if a != b:
        names = {id(x): same.short(x) if isinstance(x, T.Sql) else repr(x) for x in rec.seen + want}
        missed = [names[i] for i in (b - a).elements()]
        extra = [names[i] for i in (a - b).elements()]
        return f"({same.describe(node)}).visit misses {missed} and visits {extra} too often"
    if same.snapshot(node) != before:
        return f"({same.describe(node)}).visit changes the node"


def deep(node):
    for n in same.walk(node):
        r = oracle(n)
        if r:
            return r


def optional():
    """All combinations of optional parts of the nodes that aren't values"""
    a = T.Field
    for w in gen.windows():
        yield w
        yield T.Sum(a("x"), window=w, filter_=a("f"), orderby=[T.OrderTerm(a("o"))])
        yield T.SelectQuery([a("x")], window={"w": w, "v": T.Window("u")})
    for b in (T.BoundType.PRECEDING, T.BoundType.FOLLOWING):
        yield T.BoundedFrameBound(b, a("x"))
        yield T.UnboundedFrameBound(b)
    yield T.CurrentFrameBound()
    for j in gen.relations(1):
        yield j
        if isinstance(j, T.Join):
            yield j.config
            if j.config.criteria:
                yield j.config.criteria
    for g in gen.groupbys():
        yield g
        yield from g.groups
    yield T.JoinOnCriteria(a("x"))
    yield T.JoinUsingCriteria(["a"])
    for c in T.node_classes():
        yield from ()


def dispatch(cls):
    """The visitor class calls the method of exactly the node's class"""
    from treeno.visitor import TreenoVisitor
    log = []

    class V(TreenoVisitor):
        def __getattribute__(self, name):
            if name.startswith("visit_"):
                object.__getattribute__(self, name)  # has to exist
                return lambda node: log.append((name, node))
            return object.__getattribute__(self, name)
    node = cls.__new__(cls)
    try:
        V().visit(node)
    except Exception as ex:
        return f"TreenoVisitor().visit of a {cls.__qualname__} raises {type(ex).__name__}: {ex}"
    if len(log) != 1 or log[0][0] != "visit_" + cls.__name__ or log[0][1] is not node:
        return f"TreenoVisitor().visit of a {cls.__qualname__} calls {[n for n, _ in log]}"


def bounded(rep, tier, seed):
    rep.cases("systematic expressions", gen.expressions, oracle)
    rep.cases("operands", gen.pairs, oracle)
    rep.cases("other parts", every(optional, misc_nodes), deep)
    rep.cases("queries", gen.queries, deep)
    rep.cases("operands of queries", gen.query_pairs, deep)
    rep.cases("visitor methods", T.node_classes, dispatch)
    n = 4000 if tier == "quick" else 100000
    rep.cases("random trees", random_values(n, seed), deep)
    rep.cases("random queries", random_queries(n, seed), deep)

