"""P12: resolving a relation yields what the independent specification in contracts/schema.py says."""
import copy
import random

from contracts import schema as S
from vlib import T, same

RELS = ["a", "b", "t"]
COLS = ["x", "y", "z"]


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def type(self, d=1):
        k = self.r.randrange(10)
        if k < 3:
            return T.integer()
        if k < 5:
            return T.bigint()
        if k < 6:
            return T.varchar(max_chars=3)
        if k < 7:
            return T.decimal(precision=10, scale=2)
        if d and k < 8:
            return T.array(dtype=self.type(0))
        if d and k < 9:
            return self.r.choice([lambda: T.map_(self.type(0)), lambda: T.array(dtype=T.row(dtypes=[self.type(0), self.type(0)]))])()
        return T.double()

    def table(self, known=0.3):
        t = T.Table(self.r.choice(RELS + ["w1", "w2"]), *self.r.choice([(), (), (), (), ("s",), ("s2",), ("s", "c"), ("s", "c2")]))
        if self.r.random() < known:
            names = self.r.sample(COLS, self.r.randrange(1, 4))
            t = T.Table(t.name, t.schema, t.catalog, T.Schema([T.SchemaField(n, t, self.type()) for n in names], set()))
        return t

    def user_schema(self):
        """What a user passes in: the columns of some tables, some of them with qualified names"""
        fields, ids = [], set()
        for name in self.r.sample(RELS, self.r.randrange(0, 4)):
            for variant in self.r.choice([[()], [()], [("s",)], [("s", "c")], [("s",), ("s2",)], [("s", "c"), ("s", "c2")]]):
                t = T.Table(name, *variant)
                for n in self.r.sample(COLS, self.r.randrange(0, 4)):
                    fields.append(T.SchemaField(n, t, self.type()))
            ids.add(name)
        return T.Schema(fields, ids)

    def field(self):
        return T.Field(self.r.choice(COLS), self.r.choice([None, None, None] + RELS))

    def value(self, d):
        k = self.r.randrange(14)
        if d <= 0 or k < 4:
            return self.field() if self.r.random() < 0.75 else T.wrap_literal(self.r.choice([1, 2 ** 40, "ab", 1.5]))
        v = lambda: self.value(d - 1)  # noqa
        if k == 4:
            return T.Array([v(), v()]) if self.r.random() < 0.6 else T.Array([self.field()])
        if k == 5:
            return T.RowConstructor([v(), v()])
        if k == 6:
            return T.IsNull(v())
        if k == 7:
            return T.Equal(self.field(), v())
        if k == 8:
            return T.If(T.IsNull(v()), self.field(), self.field())
        if k == 9:
            return T.Case([T.When(T.IsNull(v()), self.field())], T.Else(self.field()))
        if k == 10:
            return T.Coalesce([self.field(), self.field()])
        if k == 11:
            return T.Sum(self.field(), filter_=T.IsNull(v())) if self.r.random() < 0.5 else T.Max(self.field())
        if k == 12:
            return T.Cast(v(), T.bigint())
        return self.field() + self.field()

    def item(self, d, rels=()):
        k = self.r.random()
        if k < 0.15:
            return T.Star()
        if k < 0.27:
            return T.Star(self.r.choice(RELS))
        if k < 0.34:
            return T.AliasedStar(T.Star(self.r.choice(RELS)), [self.r.choice(COLS + ["p", "q"]) for _ in range(self.r.randrange(1, 4))])
        if k < 0.55:
            return self.field()
        if k < 0.75:
            return T.AliasedValue(self.value(d), self.r.choice(COLS))
        if k < 0.8:
            return self.query(0)
        return self.value(d)

    def query(self, d, with_=True):
        k = self.r.randrange(12)
        kw = {}
        if with_ and d > 0 and self.r.random() < 0.35:
            kw["with_"] = [T.AliasedRelation(self.query(d - 1), self.r.choice(RELS + ["w1", "w2"]),
                                             self.r.choice([None, None, ["x"], ["x", "y"], ["p", "x", "y"]])) for _ in range(self.r.randrange(1, 3))]
        if k == 0:
            return T.TableQuery(self.table(), **kw)
        if k == 1:
            n = self.r.randrange(1, 4)
            row = lambda: [T.wrap_literal(self.r.choice([1, 2 ** 40])) for _ in range(n)]  # noqa
            return T.ValuesQuery([T.RowConstructor(row()) if n > 1 else row()[0] for _ in range(self.r.randrange(1, 3))], **kw)
        if k in (2, 3) and d > 0:
            cls = self.r.choice([T.UnionQuery, T.IntersectQuery, T.ExceptQuery])
            return cls(self.query(d - 1, False), self.query(d - 1, False), **kw)
        items = [self.item(1) for _ in range(self.r.choice([1, 1, 2, 2, 3]))]
        return T.SelectQuery(items, self.relation(d) if self.r.random() < 0.93 else None, **kw)

    def unnest(self):
        return T.Unnest([self.value(1) if self.r.random() < 0.6 else T.Array([T.wrap_literal(1)]) for _ in range(self.r.randrange(1, 3))],
                        with_ordinality=self.r.random() < 0.3)

    def relation(self, d):
        k = self.r.randrange(12)
        if d <= 0 or k < 2:
            return self.table()
        if k < 5:
            return T.AliasedRelation(self.relation(d - 1), self.r.choice(RELS),
                                     self.r.choice([None, None, None, ["x"], ["x", "y"], ["p", "x", "y"], ["x", "x"]]))
        if k < 6:
            return T.TableSample(self.relation(d - 1), T.SampleType.BERNOULLI, T.wrap_literal(10))
        if k < 7:
            return self.query(d - 1)
        if k < 8:
            return T.Lateral(self.query(d - 1))
        if k < 9:
            return self.unnest()
        left = self.relation(d - 1)
        right = self.relation(d - 1) if self.r.random() < 0.75 else self.unnest()
        if isinstance(right, T.Unnest) and self.r.random() < 0.5:
            right = T.AliasedRelation(right, self.r.choice(RELS), self.r.choice([None, ["x"], ["x", "y"]]))
        j = self.r.randrange(5)
        if j == 0:
            c = T.JoinConfig(T.JoinType.CROSS)
        elif j == 1:
            c = T.JoinConfig(T.JoinType.INNER, criteria=T.JoinOnCriteria(T.Equal(self.field(), self.field())))
        elif j == 2:
            c = T.JoinConfig(self.r.choice([T.JoinType.LEFT, T.JoinType.RIGHT, T.JoinType.OUTER]), natural=True)
        else:
            c = T.JoinConfig(T.JoinType.INNER, criteria=T.JoinUsingCriteria(self.r.sample(COLS, self.r.randrange(1, 3))))
        return T.Join(left, right, c)


def cases(n, seed):
    def mk():
        for i in range(n):
            g = G(seed * 7919 + i)
            for _ in range(20):
                try:
                    rel = g.query(2 + i % 2) if i % 3 else g.relation(2 + i % 2)
                    user = g.user_schema() if i % 4 else T.Schema.empty_schema()
                except (AssertionError, TypeError):
                    continue
                yield rel, user
                break
    return mk


def check(case, explicit=False):
    rel, user = case
    env = [(user.relation_ids, [(f.name, f.source, f.data_type) for f in user.fields])]
    text = f"relation: {same.describe(rel)}\nschema: " + "; ".join(
        f"{f.source} {f.name} {f.data_type}" for f in user.fields) + f" relations {sorted(user.relation_ids)}"
    S.MAY_RAISE.clear()
    S.HIDDEN.clear()
    try:
        want = S.resolve(rel, env, S.Out([(f.name, f.source, f.data_type) for f in user.fields], user.relation_ids - {f.source.identifier() for f in user.fields}))
    except S.Skip:
        return None
    except S.Ambiguous:
        want = None
    if S.HIDDEN and user.fields and not explicit:
        return None
    try:
        got = rel.resolve(copy.copy(user))
    except AssertionError as e:
        if want is None or S.MAY_RAISE:
            return None
        return f"raised {e!r}\nwhere the columns are {show(want)}\n{text}"
    except (TypeError, KeyError, AttributeError, IndexError) as e:
        if want is None:
            return None
        return f"raised {e!r}\n{text}"
    if want is None:
        return f"an ambiguous or ill-fitting reference isn't reported\n{text}"
    have = [(f.name, f.source, f.data_type) for f in got.fields]
    if len(have) != len(want.cols):
        return f"columns {show(S.Out(have))}\nexpected {show(want)}\n{text}"
    for (n, o, k), (n2, o2, k2) in zip(have, want.cols):
        if n != n2 or o is not o2 or same.diff(k, k2):
            return f"columns {show(S.Out(have))}\nexpected {show(want)}\n{text}"
    if isinstance(rel, T.SelectQuery):
        return select_type(rel, want, text)
    return None


def select_type(rel, want, text):
    for x in rel.select:
        # (a nameless column of unknown type may stand for several ones)
        if isinstance(x, T.AliasedStar) and x.data_type.type_name == "ROW" and len(x.data_type.parameters["dtypes"]) != len(x.aliases):
            return None
    gap = any(isinstance(x, (T.Star, T.AliasedStar)) and x.data_type.type_name != "ROW" for x in rel.select)
    kinds = [k for _, _, k in want.cols]
    k = T.unknown() if gap else kinds[0] if len(kinds) == 1 else T.row(dtypes=kinds)
    if same.diff(rel.data_type, k):
        return f"the query's type is {rel.data_type}, not {k}\n{text}"


def show(out):
    return "[" + ", ".join(f"{n}: {k} of {type(o).__name__} {S.owner_name(o)}" for n, o, k in out.cols) + "]"


def bounded(rep, tier, seed):
    n = 9000 if tier == "quick" else 120000
    rep.cases("random relations and queries against the reference resolver", cases(n, seed), check)


    t = T.Table("a", "s")
    for key, case in [
        ("WITH a hides s.a", (T.SelectQuery([T.Field("x")], T.Table("a", "s"), with_=[T.AliasedRelation(T.SelectQuery([T.wrap_literal("q")]), "a")]),
                              T.Schema([T.SchemaField("x", t, T.integer())], {"a"}))),
    ]:
        f = check(case, True)
        rep.count("single cases", 1)
        if f:
            rep.violation(key, f)

