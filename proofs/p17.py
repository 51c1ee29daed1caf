"""P17: contract of Lambda.from_generic_expr(inputs, body): the body is Subst(body), where
  Subst(Field(name, None)) = Variable(name) if name is the name of an input
  Subst(node) = a new node of the same class with Subst of all its parts
  Subst(list/dict) = a container of the same type with Subst of its elements
  Subst(x) = x for everything else.
Recursive calls fulfil the contract (induction over the body)."""
import attr

from pydv import shapes, text
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common
from vlib import T, env

expr = env.MOD["treeno.expression"]
Variable = T.Lambda.Variable


def token(eng, x):
    """Subst(x) for a part of the body"""
    x = eng.norm(x)
    if isinstance(x, Each):
        e = Each(x.base, [token(eng, i) for i in x.items])
        e.partial = getattr(x, "partial", False)
        return e
    if isinstance(x, (list, tuple)):
        return eng.born(type(x)(token(eng, i) for i in x))
    if isinstance(x, dict):
        return eng.born({k: token(eng, v) for k, v in x.items()})
    if isinstance(x, Hole) and eng.is_none(x):
        return None
    if isinstance(x, (Hole, T.Sql)):
        x = eng.norm(x)
        cs = list(x.classes) if isinstance(x, Hole) else [type(x)]
        if T.DataType in cs or any(not issubclass(c, T.Sql) for c in cs):
            return x
        key = ("subst", id(x))
        if key not in eng.memo:
            if T.Field in cs and Variable not in cs:
                cs.append(Variable)
            # Replacing a reference by a parameter changes no type: both are unknown until they're resolved
            kept = {"data_type": lambda eng: eng.getattr_(x, "data_type")}
            if cs == [Variable]:
                kept["name"] = lambda eng: eng.getattr_(x, "name")
            h = Hole(cs, f"subst({getattr(x, 'name', '')})", {"subst": x, "fields": kept})
            eng.pre[id(h)] = h
            eng.memo[key] = h
        return eng.memo[key]
    return x


def is_subst(eng, got, x):
    got, x = eng.norm(got), eng.norm(x)
    if isinstance(got, Hole) and got.info.get("subst") is x:
        return True
    if isinstance(x, Each):
        return isinstance(got, Each) and got.base is x.base and len(got.items) == len(x.items) and not getattr(got, "partial", False) and \
            all(is_subst(eng, g, i) for g, i in zip(got.items, x.items))
    if isinstance(x, (list, tuple)):
        return type(got) is type(x) and len(got) == len(x) and all(is_subst(eng, g, i) for g, i in zip(got, x))
    if isinstance(x, dict):
        return isinstance(got, dict) and common.same(eng, {k: 0 for k in got}, {k: 0 for k in x}) and \
            all(is_subst(eng, g, i) for g, i in zip(got.values(), x.values()))
    if isinstance(x, T.Sql) and not isinstance(x, T.DataType):
        return not isinstance(got, Sym) and node(eng, got, x)
    if isinstance(x, Hole):
        if T.DataType in x.classes:
            return common.same(eng, got, x) or type(got) is T.DataType and common.same(eng, got.type_name, eng.getattr_(x, "type_name"))
        if eng.is_none(x):
            return got is None
        if any(not issubclass(c, T.Sql) for c in x.classes):
            return got is x
        if isinstance(got, Hole):
            return False
        return node(eng, got, x)
    return common.same(eng, got, x)


def node(eng, got, x):
    cls = eng.force(eng.type_of(x))
    if type(got) is not cls:
        return False
    for f in attr.fields(cls):
        if f.name in ("data_type", "_column_schema"):
            continue
        if not is_subst(eng, getattr(got, f.name), eng.getattr_(x, f.name)):
            raise Refuted(f"part {f.name} of a {cls.__name__}", f"{getattr(got, f.name)!r} for {eng.getattr_(x, f.name)!r}")
    return True


def engine():
    eng = common.engine()
    conv = common.conv
    for f in ("get_arithmetic_type", "common_supertype", "common_known_supertype"):
        # The body exists, and parameters have no type of their own that could clash
        eng.contracts[getattr(conv, f)] = common.some_type
    return eng


# What nodes contain besides nodes: the recursion has to fulfil the contract for these as well
PARTS = {
    "list of nodes": lambda eng: shapes.list_of(eng, lambda: common.value(eng)),
    "list with a node": lambda eng: eng.born([common.value(eng), common.value(eng), "a"]),
    "tuple of nodes": lambda eng: (common.value(eng), common.value(eng)),
    "dict of nodes": lambda eng: eng.born({EachKey(eng.base("window"), eng.str_("key", True)): shapes.instance(eng, T.Window)}),
    "dict with a node": lambda eng: eng.born({"w": shapes.instance(eng, T.Window), "v": 3}),
    "string": lambda eng: eng.str_("text"),
    "number": lambda eng: eng.int_("number"),
    "boolean": lambda eng: eng.bool_("flag"),
    "decimal": lambda eng: common.plain(eng, "Decimal"),
    "None": lambda eng: None,
    "enumeration": lambda eng: Fin(list(T.SetQuantifier), "quantifier"),
}


def job(cls, case=None):
    def harness(eng):
        names = Each(eng.base("inputs"), [shapes.instance(eng, Variable)])
        eng.distinct.append(names.base)
        inputs = [names]
        fields = {}
        if cls is T.Cast or cls is T.TryCast:
            fields["data_type"] = lambda eng: shapes.dtype(eng, "target", [n for n in shapes.TYPES if n != "UNKNOWN"])
        if cls is T.Literal:
            fields["data_type"] = lambda eng: shapes.dtype(eng, "target", [n for n in shapes.TYPES if n != "UNKNOWN"])
        if cls is T.Interval:
            fields["from_interval"] = lambda eng: Fin(["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"], "from")
        if cls is T.TypeConstructor:
            fields["type_name"] = lambda eng: Fin(["DATE", "TIMESTAMP", "TIME", "DECIMAL", "CHAR", "JSON"], "type_name")
        name = eng.str_("name", True)
        if cls is T.Field:
            fields["name"] = lambda eng: name
            # An arbitrary other parameter has another name
            text.assume_different(eng, name, eng.getattr_(names.items[0], "name"))
            other = eng.norm(eng.getattr_(names.items[0], "name")).pieces[0]
            eng.uniform[names.base] = lambda: other.root() is other and other.value is None and other.excluded <= {""}
            if case == "a parameter":
                inputs.append(shapes.constructed(eng, Variable, name=lambda eng: name))
            elif case == "another name":
                fields["table"] = lambda eng: None
        eng.pre[id(inputs)] = inputs
        if cls in PARTS:
            body = PARTS[cls](eng)
        else:
            body = shapes.dtype(eng, "body") if cls is T.DataType else shapes.constructed(eng, cls, **fields)

        def ih(eng, name, args, kwargs):
            given = [a for a in list(args) + list(kwargs.values()) if not isinstance(a, (type, SymSet, set))]
            if not given:
                raise Unsupported("recursion without an argument")
            return token(eng, given[0])
        eng.ih = ih
        eng.start()
        try:
            lam = eng.call(T.Lambda.from_generic_expr, [inputs, body])
        except PyRaise as p:
            raise Refuted("building the lambda succeeds", repr(p.exc))
        eng.prove(type(lam) is T.Lambda, "a lambda is built", repr(lam))
        eng.prove(common.same(eng, lam.inputs, inputs), "with the parameters", repr(lam.inputs))
        if cls is T.Field and case == "a parameter" and eng.is_none(body.table):
            got = eng.norm(lam.expr)
            eng.prove(type(got) is Variable and common.same(eng, got.name, name), "an unqualified reference to a parameter becomes that parameter", repr(got))
        else:
            got = eng.norm(lam.expr)
            eng.prove(is_subst(eng, got, body) if not isinstance(got, Hole) or cls is T.DataType else False, "the body is Subst(body)", f"{got!r} for {body!r}")
        common.unchanged(eng)
    return f"from_generic_expr of a {cls if cls in PARTS else cls.__name__}" + (f" ({case})" if case else ""), "treeno.expression.Lambda.from_generic_expr", engine, harness


def jobs():
    return [job(c) for c in T.node_classes() if issubclass(c, T.Sql) and c is not T.Field] + \
        [job(p) for p in PARTS] + [job(T.Field, case) for case in ("a parameter", "another name")]
