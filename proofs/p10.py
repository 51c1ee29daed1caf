"""P10. Contract of __attrs_post_init__ of every class of values and queries, with the converters of its attributes: the data type is
spec(class, parts) of contracts/result_types.py. The spec is executed along with the constructor, over symbolic types: it compares with
type terms, and the common type of two types is the same uninterpreted term in both (of which P08 proves the contract)."""
import importlib.util
import os

import attr
import z3

from proofs import common, p08
from pydv import shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from vlib import T

conv, inf = common.conv, common.inf
ASSUMES = [
    "common_supertype, common_known_supertype and get_arithmetic_type fulfil their contracts (P08), infer_decimal, infer_char and "
    "infer_timelike_precision theirs (P09)",
    "what's concatenated is at most three values, with array types nested at most twice (bounded)",
]


class Key:
    """What the table of result types takes for the key of a type: a symbolic type, an expected one, or a type of every element"""

    def __init__(self, eng, of, base=None):
        self.eng, self.of, self.base = eng, of, base

    @property
    def name(self):
        return self.of.name if isinstance(self.of, p08.Expected) else self.eng.force(self.eng.getattr_(self.of, "type_name"))

    @property
    def params(self):
        return self.of.params if isinstance(self.of, p08.Expected) else self.eng.getattr_(self.of, "parameters")

    def __getitem__(self, i):
        return self.name if i == 0 else [(k, wrap(self.eng, v)) for k, v in self.params.items()]

    def __eq__(self, other):
        assert isinstance(other, tuple) and len(other) == 1, other
        return self.name == other[0] and not self.params

    __hash__ = None


class EachOf:
    """An arbitrary element of a list of any length"""

    def __init__(self, part, base):
        self.part, self.base = part, base


class Fold:
    """The common type of the known ones among types"""

    def __init__(self, items):
        self.items = items


def wrap(eng, v):
    v = eng.norm(v)
    return Key(eng, v) if isinstance(v, (p08.Expected, T.DataType)) or isinstance(v, Hole) and v.classes == (T.DataType,) else \
        eng.zb(v) if isinstance(v, SBool) else eng.z(v) if isinstance(v, SInt) else v


def expected(eng, k):
    """The key the table gives as a type to compare with"""
    if isinstance(k, Key):
        return k.of
    if isinstance(k, tuple):
        if k[0] == "ROW":
            return p08.Expected("ROW", dtypes=[Each(x.base, [expected(eng, x)]) if isinstance(x, Key) and x.base else expected(eng, x) for x in k[1]])
        p = {n: expected(eng, v) if isinstance(v, (Key, tuple)) else v for n, v in k[1:]}
        return p08.Expected(k[0], **{n: z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v) if isinstance(v, int) else v for n, v in p.items()})
    return k


def known(eng, items):
    """Contract of common_known_supertype: a type or no common type, the same for the same types in the same order"""
    key = ("known",) + tuple((id(b), id(t)) for b, t in items)
    eng.keep += [x for i in items for x in i]
    if key not in eng.memo:
        eng.memo[key] = p08.NO_TYPE if eng.choose(2, ("common type", None)) else shapes.dtype(eng, "common")
    return eng.memo[key]


def known_contract(eng, args, kwargs):
    items = []
    for x in eng.elements(args[0]):
        if isinstance(x, Each) and len(x.items) == 1 and not getattr(x, "partial", False):
            items.append((x.base, eng.norm(x.items[0])))
        elif isinstance(x, Each):
            raise Unsupported("the common type of a part of a list")
        else:
            items.append((None, eng.norm(x)))
    r = known(eng, items)
    if r is p08.NO_TYPE:
        raise PyRaise(TypeError("No common supertypes"))
    return r


def arithmetic(eng, a, b):
    a, b = eng.norm(a), eng.norm(b)
    key = ("arithmetic",) + tuple(sorted((id(a), id(b))))
    eng.keep += [a, b]
    if key not in eng.memo:
        eng.memo[key] = shapes.dtype(eng, "arithmetic")
        if eng.choose(2, ("arithmetic type", None)):
            # Only types of elements may be without a common type
            eng.memo[key] = p08.NO_TYPE
            names = {eng.force(eng.getattr_(x, "type_name")) for x in (a, b)}
            if len(names) > 1 or not names <= {"ARRAY", "MAP", "ROW"}:
                raise Infeasible()
    return eng.memo[key]


def arithmetic_contract(eng, args, kwargs):
    r = arithmetic(eng, *(list(args) + list(kwargs.values())))
    if r is p08.NO_TYPE:
        raise PyRaise(TypeError("No common types"))
    return r


def once(name, make):
    """A function of its argument"""
    def contract(eng, args, kwargs):
        x = eng.norm(args[0])
        key = (name, x.key() if isinstance(x, SText) else id(x))
        eng.keep.append(x)
        if key not in eng.memo:
            eng.memo[key] = make(eng)
        return eng.memo[key]
    return contract


def engine():
    eng = shapes.engine()
    eng.contracts[conv.common_supertype] = lambda eng, args, kwargs: p08.join_contract(eng, args, kwargs)
    eng.contracts[conv.common_known_supertype] = known_contract
    eng.contracts[conv.get_arithmetic_type] = arithmetic_contract
    eng.contracts[inf.infer_type] = lambda eng, args, kwargs: shapes.dtype(eng, "inferred")
    eng.contracts[inf.infer_timelike_precision] = once("precision", lambda eng: eng.int_("precision", 0, 12))
    eng.contracts[inf.infer_decimal] = once("decimal", lambda eng: shapes.dtype(eng, "decimal", ["DECIMAL"]))
    eng.contracts[inf.infer_char] = once("char", lambda eng: shapes.dtype(eng, "char", ["CHAR"]))
    eng.equal_hook = p08.parts_equal
    return eng


def table(eng):
    """contracts/result_types.py, over symbolic types"""
    s = importlib.util.spec_from_file_location("result_types_symbolic", os.path.join(os.path.dirname(os.path.dirname(__file__)), "contracts", "result_types.py"))
    R = importlib.util.module_from_spec(s)
    s.loader.exec_module(R)

    def T_(v):
        if isinstance(v, EachOf):
            return Key(eng, eng.norm(eng.getattr_(v.part, "data_type")), v.base)
        return Key(eng, eng.norm(eng.getattr_(v, "data_type")))

    def result(r):
        if r is p08.NO_TYPE:
            raise R.NoType
        return Key(eng, r)

    def symbolic(k):
        return k.of if isinstance(k, Key) else expected(eng, k)

    R.T_ = T_
    R.join = lambda a, b: result(p08.join(eng, symbolic(a), symbolic(b)))
    R.join_known = lambda ks: result(known(eng, [(k.base, k.of) for k in ks]))
    R.arithmetic = lambda a, b: result(arithmetic(eng, a.of, b.of))
    R.get = lambda k, name, default=None: wrap(eng, k.params.get(name, default))
    R.min, R.max = lambda *a: minimum(p08.zmin, a), lambda *a: minimum(p08.zmax, a)
    return R


def minimum(f, a):
    if len(a) == 1:
        return (max if f is p08.zmax else min)(*a)
    a = [z3.IntVal(x) if isinstance(x, int) else x for x in a]
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


def parts(eng, kw):
    p = {}
    for n, v in kw.items():
        v = eng.norm(v)
        if isinstance(v, Hole) and type(None) in v.classes:
            v = None if eng.truth(eng.is_(v, None)) else eng.norm(v)
        if isinstance(v, list):
            v = [EachOf(x.items[0], x.base) if isinstance(x, Each) else x for x in v]
        if isinstance(v, Fin):
            v = eng.force(v)
        p[n] = wrap(eng, v)
    return p


def same_type(eng, got, want):
    got = eng.norm(got)
    if isinstance(want, p08.Expected) and want.name == "ROW":
        if isinstance(got, Hole) and got.fields.get("type_name") is None or eng.force(eng.getattr_(got, "type_name")) != "ROW":
            return False
        ds = eng.getattr_(got, "parameters").get("dtypes")
        if set(eng.getattr_(got, "parameters")) != {"dtypes"} or not isinstance(ds, list) or len(ds) != len(want.params["dtypes"]):
            return False
        return all(isinstance(x, Each) == isinstance(y, Each) and (x.base is y.base and not getattr(x, "partial", False) and len(x.items) == 1 and
                   same_type(eng, x.items[0], y.items[0]) if isinstance(x, Each) else same_type(eng, x, y)) for x, y in zip(ds, want.params["dtypes"]))
    if isinstance(want, p08.Expected) and want.name in ("ARRAY", "MAP", "QDIGEST", "INTERVAL"):
        if not (isinstance(got, Hole) or isinstance(got, T.DataType)) or eng.force(eng.getattr_(got, "type_name")) != want.name:
            return False
        p = eng.getattr_(got, "parameters")
        return set(p) == set(want.params) and all(p[k] == w if isinstance(w, str) else same_type(eng, p[k], w) for k, w in want.params.items())
    if want is None:
        return False
    return p08.same_type(eng, got, want)


def check(eng, cls, kw, spec):
    """The constructor of the parts gives the type, or fails because there's none"""
    what = cls.__name__
    R = table(eng)
    p = parts(eng, kw)
    eng.start()
    try:
        want = expected(eng, spec(R, p))
    except R.NoType:
        want = "none"
    except R.Invalid:
        want = "invalid"
    try:
        x = eng.call(cls, [], dict(kw))
    except PyRaise as ex:
        eng.prove(want == "none" and isinstance(ex.exc, TypeError) or want == "invalid", "a node of operands of any type is constructed", f"{what}: {ex.exc!r}, its type is {want!r}")
        return
    eng.prove(want not in ("none", "invalid"), "there's no node if there's no type", what)
    got = eng.norm(eng.getattr_(x, "data_type"))
    ok = same_type(eng, got, want)
    eng.prove(ok, "the data type is that of the operation", "" if ok else f"{what}: {describe(eng, got)}, expected {describe(eng, want)}")
    common.unchanged(eng)


def describe(eng, t):
    if isinstance(t, p08.Expected):
        return f"{t.name} {t.params}"
    return f"{t!r} {t.fields if isinstance(t, Hole) else getattr(t, 'parameters', '')}"


def some_known(eng):
    """A type that isn't unknown"""
    return shapes.dtype(eng, "data_type", [n for n in shapes.TYPES if n != "UNKNOWN"])


def optional_value(eng, name):
    return shapes.hole(eng, T.Value, name) if eng.choose(2, (name, ["given", "None"])) == 0 else None


def of_class(cls, fixed=None, spec=None):
    """fixed: attributes the constructor requires more of than their type"""
    def harness(eng):
        h = shapes.instance(eng, cls)
        kw = {}
        for f in attr.fields(cls):
            n = f.name.lstrip("_")
            if not f.init or n in ASIDE or n == "data_type" and cls not in GIVEN or fixed and n in fixed(eng, None):
                continue
            kw[n] = eng.getattr_(h, f.name)
        if fixed:
            kw.update(fixed(eng, kw))
        if cls in GIVEN:
            want = lambda R, p: Key(eng, eng.norm(kw["data_type"]))
        else:
            want = lambda R, p: (spec or (lambda eng, R, p: R.spec(cls.__name__, p)))(eng, R, p)
        check(eng, cls, kw, want)
    return harness


GIVEN = (T.Cast, T.TryCast, T.Field, T.Lambda.Variable, T.Literal, T.Star)
ASIDE = ("orderby", "filter_", "window", "null_treatment")


def fixed(**makers):
    """Attributes made in one go, before others are"""
    def make(eng, kw):
        return makers if kw is None else {n: m(eng) for n, m in makers.items()}
    return make


def literal(eng, kw):
    if kw is None:
        return ("value", "data_type")
    v = shapes.literal_value(eng, "value")
    return {"value": v, "data_type": some_known(eng) if v is not None else shapes.dtype(eng, "data_type")}


def accuracy(eng, kw):
    if kw is None:
        return ("weight", "accuracy")
    w = optional_value(eng, "weight")
    return {"weight": w, "accuracy": optional_value(eng, "accuracy") if w is not None else None}


def offset(eng, kw):
    if kw is None:
        return ("zone", "hours", "minutes")
    k = eng.choose(3, ("offset", ["none", "zone", "hours"]))
    return {n: shapes.hole(eng, T.Value, n) if (n == "zone") == (k == 1) and k else None for n in ("zone", "hours", "minutes")}


def precision(eng):
    return eng.int_("precision", 0, 12)


FIXED = {
    "Interval": fixed(from_interval=lambda eng: ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"][eng.choose(6, ("unit", None))]),
    "Cast": fixed(data_type=some_known), "TryCast": fixed(data_type=some_known), "Literal": literal, "QDigestAgg": accuracy, "FromUnixtime": offset,
    "ListAgg": fixed(orderby=lambda eng: shapes.list_of(eng, lambda: shapes.instance(eng, T.OrderTerm), True)),
}
for _c in ("CurrentTime", "CurrentTimestamp", "LocalTime", "LocalTimestamp"):
    FIXED[_c] = fixed(precision=precision)


def star_type(eng, R, p):
    return R.T_(p["star"])


def rows(eng, t):
    """The element types of a row"""
    return eng.getattr_(t.of, "parameters")["dtypes"]


def set_type(eng, R, p):
    """The common type of both queries, which have as many columns"""
    a, b = R.T_(p["left_query"]), R.T_(p["right_query"])
    if "UNKNOWN" in (a.name, b.name):
        return R.mk("UNKNOWN")
    if (a.name == "ROW") != (b.name == "ROW"):
        raise R.Invalid
    if a.name == "ROW" and not eng.truth(eng.eq(eng.length(rows(eng, a)), eng.length(rows(eng, b)))):
        raise R.Invalid
    return R.join(a, b)


def select(eng, kw):
    """One value that isn't a star, or one and then any number of them"""
    if kw is None:
        return ("select",)
    v = [shapes.hole(eng, T.Value, "first", exclude=STARS)]
    if eng.choose(2, ("select", ["one", "several"])):
        v += shapes.list_of(eng, lambda: shapes.hole(eng, T.Value, "other", exclude=STARS), True)
    return {"select": eng.born(v)}


def select_star(eng, kw):
    """A star somewhere among other values"""
    if kw is None:
        return ("select",)
    v = [shapes.hole(eng, T.Value, "star", exclude=[c for c in shapes.values_of(T.Value) if c not in STARS])]
    k = eng.choose(4, ("star", ["alone", "first", "last", "between"]))
    if k & 1:
        v = v + shapes.list_of(eng, lambda: shapes.hole(eng, T.Value, "after", exclude=STARS), True)
    if k & 2:
        v = shapes.list_of(eng, lambda: shapes.hole(eng, T.Value, "before", exclude=STARS), True) + v
    return {"select": eng.born(v)}


def star_query(eng, R, p):
    """The columns of the star where they're known, and the others"""
    out = []
    for v in p["select"]:
        t = R.T_(v)
        if not isinstance(v, EachOf) and eng.norm(v).classes[0] in STARS:
            if t.name != "ROW":
                return R.mk("UNKNOWN")
            out += [Key(eng, eng.norm(x.items[0]), x.base) if isinstance(x, Each) else Key(eng, x) for x in rows(eng, t)]
        else:
            out.append(t)
    if len(out) == 1 and (out[0].base is None or eng.truth(eng.eq(eng.length([Each(out[0].base, [0])]), 1))):
        return Key(eng, out[0].of)
    return ("ROW", tuple(out))


STARS = (T.Star, T.AliasedStar)
QUERY = ("offset", "limit", "orderby", "with_", "where", "groupby", "having", "window", "from_", "select_quantifier")


def of_query(cls, made, spec=None):
    """The clauses that don't matter are left out: the frame of the constructor (nothing but the named attributes is read)"""
    def harness(eng):
        kw = made(eng, {})
        check(eng, cls, kw, lambda R, p: (spec or (lambda eng, R, p: R.spec(cls.__name__, p)))(eng, R, p))
    return harness


def operands(eng, kw):
    return {n: shapes.hole(eng, T.Query, n) for n in ("left_query", "right_query")}


def columns_of_table(eng, kw):
    """No known column, one, or several"""
    k = eng.choose(3, ("columns", ["none", "one", "several"]))
    fs = [shapes.instance(eng, T.SchemaField)] if k else []
    if k == 2:
        fs += shapes.list_of(eng, lambda: shapes.instance(eng, T.SchemaField), True)
    eng.born(fs)
    schema = shapes.instance(eng, T.Schema, fields=lambda eng: fs)
    return {"table": shapes.instance(eng, T.Table, _column_schema=lambda eng: schema)}


def table_type(eng, R, p):
    fs = eng.getattr_(eng.getattr_(p["table"], "_column_schema"), "fields")
    ks = [Key(eng, eng.norm(eng.getattr_(f.items[0], "data_type")), f.base) if isinstance(f, Each) else Key(eng, eng.norm(eng.getattr_(f, "data_type"))) for f in fs]
    return R.mk("UNKNOWN") if not ks else ks[0] if len(ks) == 1 else ("ROW", tuple(ks))


KINDS = [["UNKNOWN"], ["VARCHAR"], ["CHAR"], ["VARBINARY"], None, "array", "arrays"]


def concatenated(n):
    def made(eng, kw):
        if kw is None:
            return ("values",)
        out = []
        for i in range(n):
            v = shapes.hole(eng, T.Field, f"value{i}")
            k = KINDS[eng.choose(len(KINDS), ("kind", i))]
            others = [t for t in shapes.TYPES if [t] not in KINDS and t != "ARRAY"]
            if isinstance(k, str):
                t = shapes.dtype(eng, "element", [[x for x in shapes.TYPES if x != "ARRAY"], ["BIGINT", "UNKNOWN", "ROW", "CHAR"], ["BIGINT", "UNKNOWN"]][n - 1])
                for _ in range(1 if k == "array" else 2):
                    a = shapes.dtype(eng, "array", ["ARRAY"])
                    a.fields["parameters"] = eng.born({"dtype": t})
                    eng.pre[id(a.fields["parameters"])] = a.fields["parameters"]
                    t = a
            else:
                t = shapes.dtype(eng, "type", k or [others, others[:8], others[:2]][n - 1])
            v.fields["data_type"] = t
            out.append(v)
        return {"values": eng.born(out)}
    return made


def typed(name, upper):
    """Contract of TypeConstructor: the type of its name, of the text's precision or length"""
    def harness(eng):
        v = eng.str_("value")
        eng.start()
        what = f"{name} literal"
        inferred = {"DECIMAL": ("decimal",), "CHAR": ("char",), "TIME": ("precision",), "TIMESTAMP": ("precision",)}.get(name)
        try:
            x = eng.call(T.TypeConstructor, [], {"value": v, "type_name": name if upper else name.lower()})
        except PyRaise as ex:
            raise Refuted("a literal of every type is constructed", f"{what}: {ex.exc!r}")
        got = eng.norm(eng.getattr_(x, "data_type"))
        if name in ("DECIMAL", "CHAR"):
            ok = any(k[0] == inferred[0] and got is eng.norm(t) for k, t in eng.memo.items() if isinstance(k, tuple))
        elif inferred:
            n = [t for k, t in eng.memo.items() if isinstance(k, tuple) and k[:2] == ("precision", v.key())]
            ok = len(n) == 1 and same_type(eng, got, p08.Expected(name, precision=eng.z(n[0]), timezone=z3.BoolVal(False)))
        else:
            ok = same_type(eng, got, p08.Expected(name))
        eng.prove(ok, "a literal of a type has that type", "" if ok else f"{what}: {describe(eng, got)}")
    return harness


PLAIN = ["BOOLEAN", "TINYINT", "SMALLINT", "INTEGER", "BIGINT", "REAL", "DOUBLE", "VARCHAR", "VARBINARY", "JSON", "DATE", "IPADDRESS", "UUID",
         "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST", "DECIMAL", "CHAR", "TIME", "TIMESTAMP"]
APART = (T.Concatenate, T.TypeConstructor)


def classes():
    return [c for c in shapes.values_of(T.Value) + [T.When, T.Else] if c not in shapes.values_of(T.Query) and c not in APART]


def jobs():
    js = []
    for c in classes():
        js.append((f"type of {c.__name__}", f"{c.__name__}.__attrs_post_init__", engine, of_class(c, FIXED.get(c.__name__), star_type if c is T.AliasedStar else None)))
    for n in (1, 2, 3):
        js.append((f"type of Concatenate of {n} values (bounded)", "Concatenate.__attrs_post_init__, _get_array_concat_type, _get_string_concat_type", engine,
                   of_class(T.Concatenate, concatenated(n)), 120))
    for c in (T.UnionQuery, T.IntersectQuery, T.ExceptQuery):
        js.append((f"type of {c.__name__}", "SetQuery._compute_data_type", engine, of_query(c, operands, set_type), 120))
    js.append(("type of SelectQuery", "SelectQuery._compute_data_type", engine, of_query(T.SelectQuery, select)))
    js.append(("type of SelectQuery with a star", "SelectQuery._compute_data_type", engine, of_query(T.SelectQuery, select_star, star_query)))
    js.append(("type of TableQuery", "TableQuery._compute_data_type", engine, of_query(T.TableQuery, columns_of_table, table_type)))
    js.append(("type of ValuesQuery", "ValuesQuery.__attrs_post_init__", engine,
               of_query(T.ValuesQuery, lambda eng, kw: {"exprs": shapes.list_of(eng, lambda: shapes.hole(eng, T.Value, "expr"), True)})))
    for name in PLAIN:
        for upper in (True, False):
            js.append((f"type of {name if upper else name.lower()} '..'", "TypeConstructor.__attrs_post_init__", engine, typed(name, upper)))
    return js
