from vlib import T, gen
from oracles.common import grammar_agrees, random_queries
from oracles.p01 import round_trip


def oracle(q):
    return round_trip(q, T.query_from_sql)


def bounded(rep, tier, seed):
    grammar_agrees(rep, tier, queries=True)
    rep.cases("clauses, relations, set operations, groupings, windows", gen.queries, oracle)
    rep.cases("operand kind in operand position", gen.query_pairs, oracle)
    rep.cases("random queries", random_queries(1500 if tier == "quick" else 40000, seed), oracle)
    if tier == "thorough":
        rep.cases("relations nested two deep", lambda: (T.SelectQuery([T.Star()], from_=r) for r in gen.relations(2)), oracle)

