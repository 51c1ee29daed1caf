import itertools
import operator
from decimal import Decimal
from vlib import T, gen, same
from oracles.p09 import expected
from oracles import p08
from oracles.p08 import key

BINARY = {"+": (operator.add, "Add"), "-": (operator.sub, "Minus"), "*": (operator.mul, "Multiply"), "/": (operator.truediv, "Divide"),
          "%": (operator.mod, "Modulus"), "**": (operator.pow, "Power"), "==": (operator.eq, "Equal"), "!=": (operator.ne, "NotEqual"),
          ">": (operator.gt, "GreaterThan"), ">=": (operator.ge, "GreaterThanOrEqual"), "<": (operator.lt, "LessThan"),
          "<=": (operator.le, "LessThanOrEqual"), "&": (operator.and_, "And"), "|": (operator.or_, "Or")}
UNARY = {"-": (operator.neg, "Negative"), "+": (operator.pos, "Positive"), "~": (operator.invert, "Not")}
PLAIN = [1, 0, -3, True, False, 2.5, Decimal("1.50"), "it's", "", 2**40, -1e30]
ATTRS = {"Power": ("x", "p")}


def wrapped(o):
    return o if isinstance(o, T.Value) else T.Literal(o, data_type=mkt(expected(o)))


def mkt(k):
    return T.DataType(k[0], parameters=dict(k[1:]))


def incompatible(l, r):
    try:
        p08.arithmetic(key(wrapped(l).data_type), key(wrapped(r).data_type))
    except p08.NoType:
        return True
    return False


def binary(case):
    sym, l, r = case
    f, name = BINARY[sym]
    both = [l, r]
    before = same.snapshot(both)
    what = f"{same.describe(l)} {sym} {same.describe(r)}"
    try:
        got = f(l, r)
    except Exception as ex:
        if isinstance(ex, TypeError) and name in ("Add", "Minus", "Multiply", "Divide", "Modulus") and incompatible(l, r):
            return None  # no common type: a type error (P08, P10)
        return f"{what} raises {type(ex).__name__}: {ex}"
    la, ra = ATTRS.get(name, ("left", "right"))
    if type(got) is not getattr(T, name):
        return f"{what} is {same.describe(got) if isinstance(got, T.Sql) else repr(got)}, expected a {name}"
    for side, attr_, o in (("left", la, l), ("right", ra, r)):
        v = getattr(got, attr_)
        if isinstance(o, T.Value):
            if v is not o and same.diff(v, o):
                return f"{what} has the {side} operand {same.describe(v)}"
        else:
            d = same.diff(v, wrapped(o)) or (None if key(v.data_type) == expected(o) else "type")
            if d:
                return f"{what} has the {side} operand {same.describe(v)}: {d}"
    for f_ in type(got).__attrs_attrs__:
        if f_.name not in (la, ra, "data_type"):
            return f"{what} has a part {f_.name}"
    if same.snapshot(both) != before:
        return f"{what} changes its operands"


def unary(case):
    sym, v = case
    f, name = UNARY[sym]
    before = same.snapshot(v)
    try:
        got = f(v)
    except Exception as ex:
        return f"{sym}({same.describe(v)}) raises {type(ex).__name__}: {ex}"
    if type(got) is not getattr(T, name) or (got.value is not v and same.diff(got.value, v)):
        return f"{sym}({same.describe(v)}) is {same.describe(got)}, expected a {name}"
    if same.snapshot(v) != before:
        return f"{sym}({same.describe(v)}) changes its operand"


def compatible():
    out = []
    for t in [None, T.tb.integer(), T.tb.bigint(), T.tb.double(), T.tb.decimal(precision=5, scale=2), T.tb.varchar(max_chars=2), T.tb.boolean(),
              T.tb.date(), T.tb.timestamp(precision=3), T.tb.array(dtype=T.tb.integer())]:
        out.append(T.Field("f") if t is None else T.Field("f", "t", data_type=t))
    return out


def binaries():
    ops = list(gen.operands()) + compatible() + [T.NULL]
    x = T.Field("x")
    for sym in BINARY:
        for o in ops:
            yield sym, o, x
            yield sym, x, o
            yield sym, o, o
            for p in PLAIN[:4]:
                yield sym, o, p
        for p in PLAIN:
            yield sym, x, p
            # a plain operand on the left, where Python turns a comparison around
        for a, b in itertools.product(compatible(), compatible()):
            yield sym, a, b
    # operators of operators
    for s1, s2 in itertools.product(BINARY, BINARY):
        a, b, c = T.Field("a"), T.Field("b"), T.Field("c")
        yield s1, BINARY[s2][0](a, b), c
        yield s1, a, BINARY[s2][0](b, c)


MIRROR = {"==": "==", "!=": "!=", ">": "<", ">=": "<=", "<": ">", "<=": ">="}


def mirrored():
    for sym in MIRROR:
        for p in PLAIN:
            yield sym, p


def mirror(case):
    """Python evaluates 1 < x as x > 1"""
    sym, p = case
    x = T.Field("x")
    got = BINARY[sym][0](p, x)
    name = BINARY[MIRROR[sym]][1]
    if type(got) is not getattr(T, name) or got.left is not x or same.diff(got.right, wrapped(p)):
        return f"{p!r} {sym} x is {got!r}"


def unaries():
    for sym in UNARY:
        for o in list(gen.operands()) + compatible() + [T.NULL]:
            yield sym, o
            for s2 in UNARY:
                yield sym, UNARY[s2][0](o)


SQL_BINARY = {"+": "Add", "-": "Minus", "*": "Multiply", "/": "Divide", "%": "Modulus", "=": "Equal", "<>": "NotEqual", "!=": "NotEqual",
              ">": "GreaterThan", ">=": "GreaterThanOrEqual", "<": "LessThan", "<=": "LessThanOrEqual", "AND": "And", "OR": "Or", "and": "And", "or": "Or",
              "IS DISTINCT FROM": "DistinctFrom"}


def sql_ops():
    ops = ["a", "1", "'s'", "t.c", "f[1]", "CAST(a AS DOUBLE)", "(a)"]
    for sym, name in SQL_BINARY.items():
        for l, r in itertools.product(ops, ops):
            yield f"{l} {sym} {r}", name, l, r
            if sym.isalpha() is False and " " not in sym:
                yield f"{l}{sym}{r}", name, l, r
    for sym, name in (("-", "Negative"), ("+", "Positive"), ("NOT ", "Not"), ("not ", "Not"), ("- ", "Negative")):
        for v in ["a", "t.c", "(1)", "f[1]"]:
            yield f"{sym}{v}", name, v, None
    for sym in ("AND", "OR"):
        yield f"a {sym} b {sym} c", SQL_BINARY[sym], f"a {sym} b", "c"
    for sym in ("+", "-", "*", "/", "%"):
        yield f"a {sym} b {sym} c", SQL_BINARY[sym], f"a {sym} b", "c"
    yield "a OR b AND c", "Or", "a", "b AND c"
    yield "a AND b OR c", "Or", "a AND b", "c"
    yield "a + b * c", "Add", "a", "b * c"
    yield "a * b + c", "Add", "a * b", "c"
    yield "a - b / c", "Minus", "a", "b / c"
    yield "a % b - c", "Minus", "a % b", "c"
    yield "NOT a AND b", "And", "NOT a", "b"
    yield "NOT a = b", "Not", "a = b", None
    yield "a = b AND c < d", "And", "a = b", "c < d"
    yield "-a * b", "Multiply", "-a", "b"
    yield "a * -b", "Multiply", "a", "-b"
    yield "a + b = c - d", "Equal", "a + b", "c - d"
    yield "a || b = c", "Equal", "a || b", "c"
    yield "(a + b) * c", "Multiply", "a + b", "c"


def sql_oracle(case):
    text, name, l, r = case
    try:
        e, le = T.expression_from_sql(text), T.expression_from_sql(l)
        re_ = T.expression_from_sql(r) if r is not None else None
    except Exception as ex:
        return f"{text!r} raises {type(ex).__name__}: {ex}"
    cls = getattr(T, name)
    if name == "Not" and r is None and l == "a = b":
        want = [cls(le), T.NotEqual(le.left, le.right)]
    else:
        want = [cls(le) if r is None else cls(le, re_)]
    if all(same.diff(e, w) for w in want):
        return f"{text!r} is {same.describe(e)}, expected {same.describe(want[0])}"


def bounded(rep, tier, seed):
    rep.cases("binary operators", binaries, binary)
    rep.cases("comparisons with a plain value on the left", mirrored, mirror)
    rep.cases("unary operators", unaries, unary)
    rep.cases("operators in SQL", sql_ops, sql_oracle)

    def rand():
        for i in range(3000 if tier == "quick" else 60000):
            g = gen.Gen(seed * 104729 + i)
            sym = g.r.choice(list(BINARY))
            yield sym, g.expression(2), g.r.choice([g.expression(2), g.r.choice(PLAIN)])
    rep.cases("random operands", rand, binary)

