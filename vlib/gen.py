"""Well-formed trees of every node class: systematic ones (every field varied over its alternatives) and random ones.

What well-formed means is the precondition of P01-P03, P11, P13 and P14; DESIGN.md lists it.
"""
import itertools
import random
from decimal import Decimal

import attr

from vlib import T

NAMES = ["a", "B c", 'q"u"o', "it's", "x\ny", "é☃", "--", "{}", "{left}", "select", "1a", "\\", "%s", "/*", ";", "a.b", " ",
         '"', "'", '""', "\t", "𝒳", "\n  \n", "NULL", "a" * 90]
STRINGS = NAMES + ["", "''", "'" * 3, "\\'", "0", "%", "a'b\"c\nd"]
INTS = [0, 1, 7, -1, -5, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 10**18, -10**18, 2**63]
DECIMALS = [Decimal(t) for t in ("0", "1", "1.5", "-1.5", "0.05", "-0.001", "100", "3.140", "1E+3", "1E-7", "12345678901234567890123456789012345678",
                                 "0.00000000000000000000000000000000000001"[:39], ".5", "-7")]
FLOATS = [1e30, 2.5e-10, -1e22, 1e16, -2.5e-7, 1e300, 5e-324, 1.7976931348623157e308]


def types0():
    b = T.tb
    return [b.boolean(), b.integer(), b.bigint(), b.tinyint(), b.smallint(), b.real(), b.double(), b.decimal(precision=10, scale=2),
            b.decimal(), b.varchar(), b.varchar(max_chars=5), b.char(), b.char(max_chars=7), b.varbinary(), b.json(), b.date(),
            b.time(), b.time(precision=6), b.time(precision=3, timezone=True), b.timestamp(), b.timestamp(precision=9),
            b.timestamp(precision=0, timezone=True), b.timestamp(timezone=True), b.interval(from_interval="YEAR", to_interval="MONTH"),
            b.interval(from_interval="DAY", to_interval="SECOND"), b.ip(), b.uuid(), b.hll(), b.p4hll(), b.tdigest()]


def types():
    b, t0 = T.tb, types0()
    out = list(t0)
    for t in t0[:3] + [t0[7], t0[9], t0[10], t0[15], t0[18], t0[20], t0[23]]:
        out += [b.array(dtype=t), b.map_(from_dtype=t0[9], to_dtype=t), b.row(dtypes=[t]), b.row(dtypes=[t, t0[1]]), b.qdigest(dtype=t)]
    out += [b.array(dtype=b.array(dtype=t0[1])), b.map_(from_dtype=b.row(dtypes=[t0[1], t0[2]]), to_dtype=b.array(dtype=t0[9])),
            b.row(dtypes=[b.row(dtypes=[t0[1]]), b.array(dtype=b.map_(from_dtype=t0[1], to_dtype=t0[7])), t0[0]])]
    return out


class Gen:
    """Random well-formed trees; deterministic for a seed."""

    def __init__(self, seed, max_names=None):
        self.r = random.Random(seed)
        self.scope = []
        self.names = NAMES if max_names is None else NAMES[:max_names]
        self._types = types()
        self.simple_names = False

    # leaves -----------------------------------------------------------------------------------------------------
    def name(self):
        if self.simple_names or self.r.random() < 0.5:
            return self.r.choice("abcdefghkxyz")
        return self.r.choice(self.names)

    def field_name(self):
        while True:
            n = self.name()
            if n not in self.scope:
                return n

    def string(self):
        return self.r.choice(STRINGS)

    def type_(self):
        return self.r.choice(self._types)

    def literal(self):
        k = self.r.randrange(7)
        if k == 0:
            return T.NULL
        v = [None, self.r.choice([True, False]), self.r.choice(INTS), self.r.choice(DECIMALS), self.r.choice(FLOATS), self.string(),
             self.r.randrange(100)][k]
        return T.wrap_literal(v)

    def number(self):
        return T.wrap_literal(self.r.choice(INTS[:6]))

    def atom(self):
        k = self.r.random()
        if self.scope and k < 0.35:
            return T.Variable(self.r.choice(self.scope))
        if k < 0.7:
            table = None
            if self.r.random() < 0.4:
                table = self.name()
            # a qualified name may be the same as a parameter
            return T.Field(self.name() if table else self.field_name(), table)
        if k < 0.9:
            return self.literal()
        return self.r.choice([self.type_constructor, self.interval, self.nullary])()

    def type_constructor(self):
        v, t = self.r.choice([("2020-01-01", "DATE"), ("12:00:00.123", "TIME"), ("2020-01-01 00:00:00.12 UTC", "TIMESTAMP"), ("1.50", "DECIMAL"),
                              ("ab'c", "CHAR"), ("{}", "JSON"), ("x", "VARCHAR"), ("1.2.3.4", "IPADDRESS"), ("7", "BIGINT"), ("1e3", "DOUBLE"),
                              ("7", "tinyint"), ("", "VARBINARY"), ("12:00:00", "time")])
        return T.TypeConstructor(v, t)

    def interval(self):
        v = self.r.choice(["1", "-1", "3-2", "1 02:03:04.5", "x'y", ""])
        if self.r.random() < 0.5:
            return T.Interval(v, self.r.choice(["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]))
        return T.Interval(v, *self.r.choice([("YEAR", "MONTH"), ("DAY", "SECOND"), ("DAY", "HOUR"), ("HOUR", "MINUTE"), ("MINUTE", "SECOND")]))

    def nullary(self):
        cls = self.r.choice(NULLARY())
        if "precision" in attr.fields_dict(cls) and self.r.random() < 0.5:
            return cls(precision=self.r.randrange(13))
        return cls()

    # values -----------------------------------------------------------------------------------------------------
    def value(self, d, allow_query=True):
        if d <= 0:
            return self.atom()
        classes = VALUE_CLASSES()
        for _ in range(50):
            k = self.r.random()
            if k < 0.12:
                return self.atom()
            if k < 0.17 and allow_query:
                return self.query(d - 1, with_=self.r.random() < 0.3)
            cls = self.r.choice(classes[0] if k < 0.7 else classes[1])
            try:
                return self.make(cls, d)
            except (AssertionError, TypeError, ValueError):
                continue
        return self.atom()

    def expression(self, d):
        while True:
            v = self.value(d, allow_query=False)
            if not isinstance(v, T.Query):
                return v

    def values(self, d, lo=1, hi=3):
        return [self.value(d) for _ in range(self.r.randint(lo, hi))]

    def maybe(self, f, p=0.4):
        return f() if self.r.random() < p else None

    def table_base(self, d):
        """What may be in front of a dot: a name, or an expression which isn't itself a bare name"""
        k = self.r.random()
        if k < 0.4:
            return None
        if k < 0.75 or d <= 0:
            return self.name()
        while True:
            v = self.value(d - 1)
            if not isinstance(v, (T.Field, T.Variable)):
                return v

    def arg(self, d):
        if self.r.random() < 0.08:
            return self.lambda_(d)
        return self.value(d)

    def lambda_(self, d):
        names = self.r.sample([n for n in self.names], self.r.choice([0, 1, 1, 2, 3]))
        outer = self.scope
        self.scope = outer + names
        try:
            body = self.value(d - 1)
        finally:
            self.scope = outer
        return T.Lambda([T.Variable(n) for n in names], body)

    def make(self, cls, d):
        """An instance of one class with random fields"""
        name = cls.__name__
        special = getattr(self, "make_" + name, None)
        if special:
            return special(d)
        kw = {}
        is_fn = issubclass(cls, T.Function)
        if issubclass(cls, T.AggregateFunction):
            kw.update(self.agg(d))
        for f in attr.fields(cls):
            if not f.init or f.name == "data_type" or f.name in kw or (f.kw_only and issubclass(cls, T.AggregateFunction)):
                continue
            v = self.by_annotation(f, d, is_fn)
            if v is not _SKIP:
                kw[f.name.lstrip("_")] = v
        return cls(**kw)

    def by_annotation(self, f, d, is_fn=False):
        t = str(f.type).replace("typing.", "").replace("treeno.", "")
        if "List[expression.Value]" in t:
            return [self.arg(d - 1) if is_fn else self.value(d - 1) for _ in range(self.r.randint(1, 3))]
        if t.startswith("Optional[expression.Value"):
            return self.maybe(lambda: self.value(d - 1), 0.5)
        if t == "<class 'expression.Value'>":
            return self.arg(d - 1) if is_fn else self.value(d - 1)
        if t == "<class 'int'>":
            return self.r.randrange(13) if self.r.random() < 0.6 else _SKIP
        if t == "<class 'str'>":
            return self.string()
        if t.startswith("Optional[functions.string.NormalForm"):
            return self.maybe(lambda: self.r.choice(list(T.NormalForm)), 0.7)
        if f.default is not attr.NOTHING:
            return _SKIP
        raise NotImplementedError(f"{f.name}: {t}")

    def agg(self, d):
        kw = {}
        if self.r.random() < 0.3:
            kw["orderby"] = self.orderby(d - 1)
        if self.r.random() < 0.3:
            kw["filter_"] = self.value(d - 1)
        if self.r.random() < 0.35:
            kw["window"] = self.window(d - 1)
            if self.r.random() < 0.4:
                kw["null_treatment"] = T.NullTreatment.IGNORE
        return kw

    def orderby(self, d):
        return [T.OrderTerm(self.value(d), self.r.choice(list(T.OrderType)), self.r.choice(list(T.NullOrder)))
                for _ in range(self.r.randint(1, 2))]

    def bound(self, d):
        k = self.r.randrange(3)
        if k == 0:
            return T.CurrentFrameBound()
        bt = self.r.choice(list(T.BoundType))
        return T.UnboundedFrameBound(bt) if k == 1 else T.BoundedFrameBound(bt, self.value(d))

    def window(self, d):
        kw = {}
        if self.r.random() < 0.3:
            kw["parent_window"] = self.name()
            if self.r.random() < 0.4:
                return T.Window(**kw)
        if self.r.random() < 0.5:
            kw["orderby"] = self.orderby(d)
        if self.r.random() < 0.5:
            kw["partitions"] = self.values(d, 1, 2)
        if self.r.random() < 0.6:
            kw.update(frame_type=self.r.choice(list(T.FrameType)), start_bound=self.bound(d), end_bound=self.bound(d))
        return T.Window(**kw)

    def make_Field(self, d):
        table = self.table_base(d)
        return T.Field(self.name() if table is not None else self.field_name(), table)

    def make_Literal(self, d):
        return self.literal()

    def make_Cast(self, d):
        return T.Cast(self.value(d - 1), data_type=self.type_())

    def make_TryCast(self, d):
        return T.TryCast(self.value(d - 1), data_type=self.type_())

    def make_Case(self, d):
        return T.Case([T.When(self.value(d - 1), self.value(d - 1)) for _ in range(self.r.randint(1, 3))],
                      self.maybe(lambda: T.Else(self.value(d - 1))), self.maybe(lambda: self.value(d - 1)))

    def make_InQuery(self, d):
        return T.InQuery(self.value(d - 1), self.query(d - 1, with_=self.r.random() < 0.3))

    def make_InList(self, d):
        vals = self.values(d - 1)
        # A single parenthesised query is IN (query)
        if len(vals) == 1 and isinstance(vals[0], T.Query):
            vals.append(self.atom())
        return T.InList(self.value(d - 1), vals)

    def make_TypeConstructor(self, d):
        return self.type_constructor()

    def make_Interval(self, d):
        return self.interval()

    def make_Count(self, d):
        kw = self.agg(d)
        if self.r.random() < 0.3:
            kw.pop("orderby", None)
            kw.pop("null_treatment", None)
            return T.Count(T.Star(), **kw)
        return T.Count(self.value(d - 1), **kw)

    def make_ListAgg(self, d):
        kw = {}
        if self.r.random() < 0.5:
            kw["separator"] = self.string()
        if self.r.random() < 0.5:
            kw["overflow_filler"] = T.OverflowFiller(self.r.choice(list(T.CountIndication)), self.string())
        return T.ListAgg(self.value(d - 1), orderby=self.orderby(d - 1), **kw)

    def make_FromUnixtime(self, d):
        k = self.r.randrange(3)
        kw = {} if k == 0 else {"zone": self.value(d - 1)} if k == 1 else {"hours": self.value(d - 1), "minutes": self.value(d - 1)}
        return T.FromUnixtime(self.value(d - 1), **kw)

    def make_Concatenate(self, d):
        return T.Concatenate([self.arg(d - 1) for _ in range(self.r.randint(2, 3))])

    def make_Coalesce(self, d):
        return T.Coalesce([self.arg(d - 1) for _ in range(self.r.randint(2, 3))])

    # queries ----------------------------------------------------------------------------------------------------
    def constraints(self, d, with_=True):
        kw = {}
        if self.r.random() < 0.3:
            kw["offset"] = self.r.choice([0, 1, 10])
        if self.r.random() < 0.3:
            kw["limit"] = self.r.choice([0, 1, 10**12])
        if self.r.random() < 0.3:
            kw["orderby"] = self.orderby(d - 1)
        if with_ and self.r.random() < 0.4:
            kw["with_"] = [T.AliasedRelation(self.query(d - 1, with_=self.r.random() < 0.3), self.name(), self.maybe(self.column_names))
                           for _ in range(self.r.randint(1, 2))]
        return kw

    def column_names(self):
        return [self.name() for _ in range(self.r.randint(1, 3))]

    def query(self, d, with_=True):
        if d <= 0:
            k = self.r.randrange(4)
            if k == 0:
                return T.TableQuery(self.table())
            if k == 1:
                return T.ValuesQuery([self.atom()])
            return T.SelectQuery([self.atom()])
        for _ in range(50):
            k = self.r.random()
            try:
                kw = self.constraints(d, with_)
                if k < 0.5:
                    return self.make_SelectQuery(d, kw)
                if k < 0.6:
                    return T.TableQuery(self.table(), **kw)
                if k < 0.7:
                    return T.ValuesQuery(self.values(d - 1), **kw)
                cls = self.r.choice([T.UnionQuery, T.UnionQuery, T.IntersectQuery, T.ExceptQuery])
                q = T.SetQuantifier.DISTINCT
                if cls is T.UnionQuery:
                    q = self.r.choice(list(T.SetQuantifier))
                return cls(self.query(d - 1, with_=False), self.query(d - 1, with_=False), q, **kw)
            except (AssertionError, TypeError, ValueError):
                continue
        return T.SelectQuery([self.atom()])

    def select_item(self, d):
        k = self.r.random()
        if k < 0.1:
            return T.Star()
        if k < 0.25:
            table = self.table_base(d)
            if table is None:
                table = "t"
            star = T.Star(table)
            return star if k < 0.17 else T.AliasedStar(star, self.column_names())
        v = self.value(d)
        return T.AliasedValue(v, self.name()) if k < 0.5 else v

    def make_SelectQuery(self, d, kw=None):
        kw = self.constraints(d) if kw is None else kw
        if self.r.random() < 0.7:
            kw["from_"] = self.relation(d - 1)
        if self.r.random() < 0.3:
            kw["where"] = self.value(d - 1)
        if self.r.random() < 0.3:
            kw["groupby"] = self.groupby(d - 1)
        if self.r.random() < 0.2:
            kw["having"] = self.value(d - 1)
        if self.r.random() < 0.2:
            kw["window"] = {self.name(): self.window(d - 1) for _ in range(self.r.randint(1, 2))}
        if self.r.random() < 0.3:
            kw["select_quantifier"] = T.SetQuantifier.DISTINCT
        return T.SelectQuery([self.select_item(d - 1) for _ in range(self.r.randint(1, 3))], **kw)

    def grouping_set(self, d):
        return T.GroupingSet(self.values(d, 0, 2))

    def groupby(self, d):
        groups = []
        for _ in range(self.r.randint(1, 3)):
            k = self.r.randrange(4)
            groups.append([lambda: self.grouping_set(d), lambda: T.GroupingSetList([self.grouping_set(d) for _ in range(self.r.randint(1, 2))]),
                           lambda: T.Cube(self.values(d, 1, 2)), lambda: T.Rollup(self.values(d, 1, 2))][k]())
        return T.GroupBy(groups, self.r.choice(list(T.SetQuantifier)))

    def table(self):
        k = self.r.randrange(3)
        return T.Table(self.name()) if k == 0 else T.Table(self.name(), self.name()) if k == 1 else T.Table(self.name(), self.name(), self.name())

    def relation(self, d):
        if d <= 0:
            return self.table()
        for _ in range(50):
            k = self.r.random()
            try:
                if k < 0.15:
                    return self.table()
                if k < 0.35:
                    return T.AliasedRelation(self.relation(d - 1), self.name(), self.maybe(self.column_names))
                if k < 0.65:
                    jt = self.r.choice(list(T.JoinType))
                    if jt == T.JoinType.CROSS:
                        config = T.JoinConfig(jt)
                    elif self.r.random() < 0.25:
                        config = T.JoinConfig(jt, natural=True)
                    elif self.r.random() < 0.5:
                        config = T.JoinConfig(jt, criteria=T.JoinUsingCriteria(self.column_names()))
                    else:
                        config = T.JoinConfig(jt, criteria=T.JoinOnCriteria(self.value(d - 1)))
                    return T.Join(self.relation(d - 1), self.relation(d - 1), config)
                if k < 0.73:
                    return T.Unnest(self.values(d - 1, 1, 2), with_ordinality=self.r.random() < 0.5)
                if k < 0.8:
                    return T.Lateral(self.query(d - 1))
                if k < 0.9:
                    return T.TableSample(self.relation(d - 1), self.r.choice(list(T.SampleType)), self.value(d - 1))
                return self.query(d - 1)
            except (AssertionError, TypeError, ValueError):
                continue
        return self.table()


_SKIP = object()
_cache = {}


def NULLARY():
    if "n" not in _cache:
        _cache["n"] = [c for c in T.node_classes() if issubclass(c, T.Function)
                       and not [f for f in attr.fields(c) if f.init and f.name not in ("data_type", "precision")]]
    return _cache["n"]


def VALUE_CLASSES():
    """(operators and special forms, functions) which may be used as operands"""
    if "v" not in _cache:
        skip = (T.Star, T.AliasedStar, T.AliasedValue, T.Lambda, T.Variable)
        vs = [c for c in T.node_classes() if issubclass(c, T.Value) and not issubclass(c, T.Query) and c not in skip]
        _cache["v"] = ([c for c in vs if not issubclass(c, T.Function)], [c for c in vs if issubclass(c, T.Function) and c not in NULLARY()])
    return _cache["v"]


# Systematic ---------------------------------------------------------------------------------------------------------
def a(n="a"):
    return T.Field(n)


def operands():
    """One representative printed form per kind of operand, for every value class"""
    g = Gen(1)
    g.simple_names = True
    out = []
    for cls in VALUE_CLASSES()[0] + VALUE_CLASSES()[1] + NULLARY():
        inst = None
        for _ in range(60):
            try:
                inst = minimal(cls)
                break
            except NotImplementedError:
                inst = g.make(cls, 1)
                break
            except (AssertionError, TypeError, ValueError):
                continue
        if inst is not None:
            out.append(inst)
    w = T.wrap_literal
    out += [w(-1), w(Decimal("-1.5")), w(Decimal("7")), w(Decimal(".5")), w(1e30), w(-1e30), w(True), T.NULL, w("it's"), a('q"x'), T.Field("f", "t"),
            T.Field("f", T.Subscript(a(), w(1))), T.Field("f", T.RowConstructor([a(), a("b")])), T.Field("f", w(1)), T.Field("f", a("x") + a("y")),
            T.Not(a("x") == a("y")), T.Not(T.IsNull(a("x"))), T.Not(T.Between(a("x"), a("y"), a("z"))), T.Not(T.Not(a("x"))),
            T.Not(T.Like(a("x"), a("y"))), T.Not(T.InList(a("x"), [a("y")])), T.Not(T.DistinctFrom(a("x"), a("y"))), T.Not(a("x") != a("y")),
            T.Not(T.InQuery(a("x"), T.SelectQuery([w(1)]))), T.Not(a("x") < a("y")), -w(1), -w(-1), -(-a("x")), +w(-1), +(-a("x")),
            T.RowConstructor([a("x")]), T.RowConstructor([a("x"), a("y")]), T.Case([T.When(a("x"), a("y"))], T.Else(a("z")), a("v")),
            T.Like(a("x"), a("y"), a("z")), T.SelectQuery([w(1)]), T.ValuesQuery([w(1)]), T.TableQuery(T.Table("t")),
            T.UnionQuery(T.SelectQuery([w(1)]), T.SelectQuery([w(2)])), T.SelectQuery([a()], with_=[T.AliasedRelation(T.SelectQuery([w(1)]), "w")]),
            T.Subscript(T.Subscript(a(), w(1)), w(2)), T.Subscript(-a(), w(1)), T.Cast(a(), data_type=T.tb.decimal(precision=3, scale=1)),
            T.Interval("-1", "DAY"), T.Interval("1-2", "YEAR", "MONTH"), T.TypeConstructor("it's", "CHAR")]
    return out


def minimal(cls):
    """The smallest instance of a value class, with distinct fields as operands"""
    kw, n = {}, itertools.count()
    if cls in (T.Cast, T.TryCast):
        kw["data_type"] = T.tb.bigint()
    for f in attr.fields(cls):
        if not f.init or f.default is not attr.NOTHING or f.name == "data_type":
            continue
        t = str(f.type).replace("typing.", "").replace("treeno.", "")
        if "List[expression.Value]" in t:
            kw[f.name] = [a("xyz"[next(n) % 3]), a("xyz"[next(n) % 3])]
        elif t == "<class 'expression.Value'>":
            kw[f.name] = a("xyzuvw"[next(n) % 6])
        else:
            raise NotImplementedError(t)
    if cls is T.ListAgg:
        kw["orderby"] = [T.OrderTerm(a("o"))]
    return cls(**kw)


def value_slots(cls):
    """Names of the fields that hold one operand, or a list of operands"""
    out = []
    for f in attr.fields(cls):
        t = str(f.type).replace("typing.", "").replace("treeno.", "")
        if f.init and f.name != "data_type" and ("expression.Value" in t) and "Variable" not in t:
            out.append((f.name, "List" in t))
    return out


def pairs(classes=None, ops=None):
    """Every class with every kind of operand in every operand position (the others are plain columns)"""
    classes = classes or VALUE_CLASSES()[0] + VALUE_CLASSES()[1]
    ops = ops or operands()
    for cls in classes:
        if cls in (T.Literal, T.TypeConstructor, T.Interval):
            continue
        for name, is_list in value_slots(cls):
            if cls is T.Field and name == "table":
                base = T.Field("f", "t")
            elif cls is T.Case:
                base = T.Case([T.When(a("x"), a("y"))], T.Else(a("z")))
            elif cls is T.InQuery:
                base = T.InQuery(a("x"), T.SelectQuery([T.wrap_literal(1)]))
            else:
                base = minimal(cls)
            for op in ops:
                if cls is T.Field and isinstance(op, (T.Field, T.Variable)):
                    continue
                if cls is T.InList and is_list and isinstance(op, T.Query):
                    vals = [[op, a("b")]]
                elif is_list:
                    vals = [[op, a("b")], [a("b"), op], [op]] if cls not in (T.Concatenate, T.Coalesce) else [[op, a("b")], [a("b"), op]]
                else:
                    vals = [op]
                for v in vals:
                    kw = {f.name.lstrip("_"): getattr(base, f.name) for f in attr.fields(cls) if f.init and f.name != "data_type"}
                    if cls in (T.Cast, T.TryCast):
                        kw["data_type"] = base.data_type
                    kw[name] = v
                    if cls is T.QDigestAgg and name == "accuracy":
                        kw["weight"] = a("w")
                    if cls is T.FromUnixtime and name in ("hours", "minutes"):
                        kw["hours" if name == "minutes" else "minutes"] = a("m")
                    if cls is T.ListAgg and name == "filter_":
                        continue
                    try:
                        yield cls(**kw)
                    except (AssertionError, TypeError, ValueError):
                        continue  # P10 decides which of these have to be constructible
    for op in ops:
        yield T.Case([T.When(op, a("x"))])
        yield T.Case([T.When(a("x"), op)])
        yield T.Case([T.When(a("x"), a("x"))], T.Else(op))
        yield T.Case([T.When(a("x"), a("x")), T.When(op, op)])
        yield T.Length(T.Lambda([T.Variable("lam")], op))


def leaves():
    w = T.wrap_literal
    for i in INTS + DECIMALS + FLOATS:
        yield w(i)
        yield T.Negative(w(i))
        yield T.Positive(w(i))
        yield a() - w(i)
        yield w(i) - w(i)
        yield T.Subscript(w(i), w(i))
        yield T.Field("x", w(i))
    for s in STRINGS:
        yield w(s)
        yield T.Like(w(s), w(s), w(s))
        for t in ("VARCHAR", "CHAR", "JSON", "DATE", "VARBINARY", "UUID"):
            yield T.TypeConstructor(s, t)
        if not s.startswith(("-", "+")):
            yield T.Interval(s, "DAY")
            yield T.Interval("-" + s, "HOUR", "SECOND")
        yield T.ListAgg(a(), s, T.OverflowFiller(T.CountIndication.WITH_COUNT, s), orderby=[T.OrderTerm(a())])
    for s in NAMES:
        yield a(s)
        for s2 in NAMES[:6]:
            yield T.Field(s, s2)
        yield T.Length(T.Lambda([T.Variable(s)], T.Variable(s)))
        yield T.Length(T.Lambda([T.Variable(s), T.Variable("zz")], T.Variable(s) + a("k")))
        yield T.Sum(a(), window=T.Window(parent_window=s))
        yield T.Sum(a(), window=T.Window(parent_window=s, orderby=[T.OrderTerm(a())]))
    for t in types():
        yield T.Cast(a(), data_type=t)
        yield T.TryCast(a(), data_type=t)
    for f1 in ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]:
        yield T.Interval("1", f1)
        for f2 in ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]:
            yield T.Interval("1", f1, f2)
    for c in NULLARY():
        yield c()
        if "precision" in attr.fields_dict(c):
            for p in range(13):
                yield c(precision=p)
    for s in STRINGS:
        for nf in list(T.NormalForm) + [None]:
            yield T.Normalize(w(s), nf)
    for tc in ["TIME", "TIMESTAMP", "DATE", "DECIMAL", "CHAR", "VARCHAR", "DOUBLE", "REAL", "INTEGER", "BIGINT", "TINYINT", "SMALLINT", "BOOLEAN",
               "IPADDRESS", "UUID", "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST", "time", "Timestamp"]:
        try:
            yield T.TypeConstructor("1.5", tc)
        except AssertionError:
            pass
    yield T.Lambda([], a()) if False else T.Length(T.Lambda([], a()))


def aggregates():
    """Every combination of the clauses of an aggregate call, for every aggregate function"""
    full_window = T.Window(orderby=[T.OrderTerm(a("o"))], partitions=[a("p")])
    aggs = [c for c in VALUE_CLASSES()[1] if issubclass(c, T.AggregateFunction) and c is not T.ListAgg]
    for cls in aggs:
        base = minimal(cls)
        opt = [n for n, l in value_slots(cls) if attr.fields_dict(cls)[n].default is not attr.NOTHING and n != "filter_"]
        for order, flt, win, nulls, k in itertools.product([0, 1], [0, 1], [None, full_window, T.Window(parent_window="w")], [0, 1], range(2 ** len(opt))):
            if nulls and win is None:
                continue
            kw = {f.name: getattr(base, f.name) for f in attr.fields(cls) if f.init and f.name != "data_type" and not f.kw_only}
            for i, n in enumerate(opt):
                kw[n] = a("n%d" % i) if k >> i & 1 else None
            if order:
                kw["orderby"] = [T.OrderTerm(a("o1"), T.OrderType.DESC), T.OrderTerm(a("o2"), null_order=T.NullOrder.FIRST)]
            if flt:
                kw["filter_"] = a("f") > 1
            if win is not None:
                kw["window"] = win
            if nulls:
                kw["null_treatment"] = T.NullTreatment.IGNORE
            try:
                yield cls(**kw)
            except AssertionError:
                continue
    yield T.Count(T.Star())
    yield T.Count(T.Star(), filter_=a("f"), window=full_window)
    for w in windows():
        yield T.Sum(a("s"), window=w)
    for n in (1, 2, 3):
        for ot, no in itertools.product(T.OrderType, T.NullOrder):
            yield T.ListAgg(a("s"), ",", orderby=[T.OrderTerm(a("o%d" % i), ot, no) for i in range(n)])
    for ci in T.CountIndication:
        yield T.ListAgg(a("s"), overflow_filler=T.OverflowFiller(ci), orderby=[T.OrderTerm(a("o"))])


def windows():
    bounds = [T.CurrentFrameBound()] + [T.UnboundedFrameBound(b) for b in T.BoundType] + [T.BoundedFrameBound(b, o) for b in T.BoundType
                                                                                            for o in (T.wrap_literal(5), a("x") + 1)]
    for ft, s, e in itertools.product(T.FrameType, bounds, bounds):
        yield T.Window(frame_type=ft, start_bound=s, end_bound=e)
    for parent, order, part, ft in itertools.product([None, "w", 'a"b'], [None, 1, 2], [None, 1, 2], T.FrameType):
        yield T.Window(parent, [T.OrderTerm(a("o%d" % i)) for i in range(order)] if order else None,
                       [a("p%d" % i) for i in range(part)] if part else None, ft)


def relations(depth=1):
    t = [T.Table("t"), T.Table("t", "s"), T.Table("t", "s", "c")]
    q = [T.SelectQuery([a()]), T.ValuesQuery([T.wrap_literal(1)]), T.TableQuery(T.Table("q")),
         T.UnionQuery(T.SelectQuery([a()]), T.SelectQuery([a("b")])),
         T.SelectQuery([a()], with_=[T.AliasedRelation(T.SelectQuery([T.wrap_literal(1)]), "w", ["c"])], limit=3)]
    base = t[:1] + q + [T.Unnest([a("u")]), T.Unnest([a("u"), a("v")], with_ordinality=True), T.Lateral(q[0])]
    if depth <= 0:
        return base
    out = list(t) + base[1:]
    inner = relations(depth - 1)
    for r in inner:
        out.append(T.AliasedRelation(r, "al"))
        out.append(T.AliasedRelation(r, 'a"l', ["c1", 'c"2']))
        for st in T.SampleType:
            out.append(T.TableSample(r, st, T.wrap_literal(5)))
        for other in (T.Table("o"), r):
            for jt in T.JoinType:
                if jt == T.JoinType.CROSS:
                    configs = [T.JoinConfig(jt)]
                else:
                    configs = [T.JoinConfig(jt, natural=True), T.JoinConfig(jt, criteria=T.JoinUsingCriteria(["k", 'k"2'])),
                               T.JoinConfig(jt, criteria=T.JoinOnCriteria(a("x") == a("y")))]
                for c in configs:
                    out += [T.Join(r, other, c)] + ([T.Join(other, r, c)] if other is not r else [])
    return out


def queries():
    """Every clause present or absent, and every relation in FROM"""
    W = T.wrap_literal
    with1 = [T.AliasedRelation(T.SelectQuery([W(1)]), "w1", ["c"]), T.AliasedRelation(T.TableQuery(T.Table("w1")), 'w"2')]
    clause = dict(from_=T.Table("t"), where=a("w") > 1, groupby=T.GroupBy([T.GroupingSet([a("g")])]), having=a("h"),
                  select_quantifier=T.SetQuantifier.DISTINCT, window={"w": T.Window(orderby=[T.OrderTerm(a())])},
                  orderby=[T.OrderTerm(a("o"), T.OrderType.DESC)], offset=0, limit=0, with_=with1)
    names = list(clause)
    for k in range(2 ** len(names)):
        kw = {n: clause[n] for i, n in enumerate(names) if k >> i & 1}
        yield T.SelectQuery([a("s")], **kw)
    outer = ["orderby", "offset", "limit", "with_"]
    s1, s2, v, t = T.SelectQuery([a("l")]), T.SelectQuery([a("r")], where=a("w"), limit=1, orderby=[T.OrderTerm(a("z"))]), T.ValuesQuery([W(1), W(2)]), T.TableQuery(T.Table("x", "y"))
    sets = [(T.UnionQuery, T.SetQuantifier.ALL), (T.UnionQuery, T.SetQuantifier.DISTINCT), (T.IntersectQuery, T.SetQuantifier.DISTINCT),
            (T.ExceptQuery, T.SetQuantifier.DISTINCT)]
    for k in range(2 ** len(outer)):
        kw = {n: clause[n] for i, n in enumerate(outer) if k >> i & 1}
        yield T.TableQuery(T.Table("t", "s", "c"), **kw)
        yield T.ValuesQuery([W(1), T.RowConstructor([W(2), W(3)]), a()], **kw) if False else T.ValuesQuery([W(1), W(2)], **kw)
        for cls, qf in sets:
            yield cls(s1, s2, qf, **kw)
            inner_kw = {n: v2 for n, v2 in kw.items() if n != "with_"}
            yield cls(cls(s1, t, qf, **inner_kw), v, qf)
            yield cls(v, cls(t, s1, qf, **inner_kw), qf)
    for (c1, q1), (c2, q2) in itertools.product(sets, sets):
        yield c1(c2(s1, s2, q2), t, q1)
        yield c1(t, c2(s1, s2, q2), q1)
    for r in relations(2 if False else 1):
        yield T.SelectQuery([T.Star()], from_=r)
        yield T.SelectQuery([a()], from_=T.Join(T.Table("l"), T.TableSample(r, T.SampleType.SYSTEM, W(1)), T.JoinConfig(T.JoinType.CROSS)))
        yield T.SelectQuery([a()], from_=T.AliasedRelation(T.AliasedRelation(r, "x"), "y"))
        yield T.SelectQuery([a()], from_=T.Lateral(T.SelectQuery([a()], from_=r)))
    for g in groupbys():
        yield T.SelectQuery([a()], groupby=g)
    for w in windows():
        yield T.SelectQuery([a()], window={"w": w, 'x"y': w})
    for sel in [[T.Star()], [T.Star("t")], [T.AliasedStar(T.Star("t"), ["x", "y"])], [T.AliasedValue(a(), "al"), T.Star(), a("b")],
                [T.Star(T.RowConstructor([a(), a("b")]))], [T.AliasedStar(T.Star(T.Subscript(a(), W(1))), ['q"'])], [T.AliasedValue(T.Star, "x")] if False else [a()]]:
        yield T.SelectQuery(sel, from_=T.Table("t"))
    for n in NAMES:
        yield T.SelectQuery([T.AliasedValue(a(n), n), T.Star(n), T.AliasedStar(T.Star(n), [n, "z"])],
                            from_=T.AliasedRelation(T.Table(n, n, n), n, [n, "zz"]), window={n: T.Window(parent_window=n)},
                            with_=[T.AliasedRelation(T.TableQuery(T.Table(n)), n, [n])])
        yield T.SelectQuery([a()], from_=T.Join(T.Table(n), T.Table("b"), T.JoinConfig(T.JoinType.INNER, criteria=T.JoinUsingCriteria([n, "k"]))))


def query_pairs(ops=None):
    """Every kind of operand in every operand position of a query"""
    for op in ops or operands():
        yield T.SelectQuery([op])
        yield T.SelectQuery([a(), op, T.AliasedValue(op, "al")])
        yield T.SelectQuery([a()], where=op)
        yield T.SelectQuery([a()], having=op)
        yield T.SelectQuery([a()], orderby=[T.OrderTerm(op), T.OrderTerm(op, T.OrderType.DESC, T.NullOrder.FIRST)])
        yield T.SelectQuery([a()], groupby=T.GroupBy([T.GroupingSet([op]), T.GroupingSet([op, a()]), T.Cube([op]), T.Rollup([a(), op]),
                                                      T.GroupingSetList([T.GroupingSet([op]), T.GroupingSet([a(), op])])]))
        yield T.ValuesQuery([op, a()]) if op.data_type.type_name == "UNKNOWN" else T.ValuesQuery([op, op])
        yield T.SelectQuery([a()], from_=T.Unnest([op, a()]))
        yield T.SelectQuery([a()], from_=T.TableSample(T.Table("t"), T.SampleType.BERNOULLI, op))
        yield T.SelectQuery([a()], from_=T.Join(T.Table("l"), T.Table("r"), T.JoinConfig(T.JoinType.LEFT, criteria=T.JoinOnCriteria(op))))
        yield T.SelectQuery([T.Sum(a(), filter_=op, window=T.Window(None, [T.OrderTerm(op)], [op, a()], T.FrameType.ROWS,
                                                                    T.BoundedFrameBound(T.BoundType.PRECEDING, op), T.BoundedFrameBound(T.BoundType.FOLLOWING, op)))])
        if not isinstance(op, (T.Field, T.Variable)):
            yield T.SelectQuery([T.Star(op), T.AliasedStar(T.Star(op), ["x"])], from_=T.Table("t"))


def groupbys():
    x = a("x")
    row = T.RowConstructor([x, a("y")])
    sets = [T.GroupingSet([]), T.GroupingSet([x]), T.GroupingSet([x, a("y")]), T.GroupingSet([row]), T.GroupingSet([row, x]),
            T.GroupingSet([T.RowConstructor([x])]), T.GroupingSet([x + 1])]
    groups = sets + [T.GroupingSetList([s]) for s in sets] + [T.GroupingSetList(sets), T.Cube([x]), T.Cube([x, row]), T.Rollup([x]), T.Rollup([x, a("y"), row])]
    for g in groups:
        for q in T.SetQuantifier:
            yield T.GroupBy([g], q)
    for g1, g2 in itertools.product(groups, groups):
        yield T.GroupBy([g1, g2])


def expressions():
    yield from leaves()
    yield from aggregates()
    for cls in VALUE_CLASSES()[0] + VALUE_CLASSES()[1]:
        opt = [n for n, l in value_slots(cls) if attr.fields_dict(cls)[n].default is not attr.NOTHING and not attr.fields_dict(cls)[n].kw_only]
        if not opt or cls is T.Field or cls is T.Literal:
            continue
        try:
            base = minimal(cls)
        except NotImplementedError:
            continue
        for k in range(2 ** len(opt)):
            kw = {f.name: getattr(base, f.name) for f in attr.fields(cls) if f.init and f.name != "data_type"}
            for i, n in enumerate(opt):
                kw[n] = a("n%d" % i) if k >> i & 1 else None
            try:
                yield cls(**kw)
            except AssertionError:
                pass
    for n in (1, 2, 3, 4):
        vs = [a("v%d" % i) for i in range(n)]
        yield T.Array(vs)
        yield T.RowConstructor(vs)
        yield T.InList(a(), vs)
        if n > 1:
            yield T.Coalesce(vs)
            yield T.Concatenate(vs)
        yield T.Case([T.When(v, v) for v in vs])
        yield T.Length(T.Lambda([T.Variable("p%d" % i) for i in range(n)], T.Variable("p0")))


def chains(depth3_classes=None):
    """Operators in operators in operators: what precedence and associativity have to get right"""
    x, y, z, w = a("x"), a("y"), a("z"), a("w")
    un = [lambda v: -v, lambda v: +v, lambda v: T.Not(v), lambda v: T.IsNull(v), lambda v: T.Subscript(v, w), lambda v: v if isinstance(v, T.Field) else T.Field("f", v)]
    bins = [T.Add, T.Minus, T.Multiply, T.Divide, T.Modulus, T.Concatenate, T.Equal, T.LessThan, T.And, T.Or, T.DistinctFrom]

    def b(cls, l, r):
        return cls([l, r]) if cls is T.Concatenate else cls(l, r)

    mixed = [lambda l, r, c=c: b(c, l, r) for c in bins] + [lambda l, r: T.Like(l, r), lambda l, r: T.Between(l, r, w), lambda l, r: T.Between(w, l, r),
                                                           lambda l, r: T.InList(l, [r]), lambda l, r: T.Not(T.Like(l, r)), lambda l, r: T.Not(T.Equal(l, r))]
    lit = T.wrap_literal(-1)
    for f in mixed:
        for g in mixed:
            yield f(g(x, y), z)
            yield f(x, g(y, z))
            for h in mixed[:12]:
                yield f(g(h(x, y), z), w)
                yield f(x, g(h(y, z), w))
                yield f(x, g(y, h(z, w)))
                yield f(g(x, h(y, z)), w)
        for u in un:
            for operand in (x, lit):
                yield f(u(operand), u(y))
                yield u(f(x, operand))
            for u2 in un:
                yield u2(u(f(x, y)))
                yield f(x, u2(u(f(x, y))))
