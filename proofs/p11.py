"""P11: contract of _same_content: Same(l, r), the structural equality, defined by
  Same(node, node') iff both are of the same class and Same(f, f') for every field f
  Same(list, list') iff both have the same length and Same holds for the elements
  Same(dict, dict') iff both have the same keys and Same holds for the values
  Same(x, y) for everything else iff x == y in python, and numbers are of the same type.
Recursive calls fulfil the contract (induction; for a pair that's being compared already, the comparison of that pair decides)."""
import attr
import z3

from pydv import models, shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common
from vlib import T, env

base = env.MOD["treeno.base"]


def key(eng, x):
    x = eng.norm(x)
    if isinstance(x, SText):
        return ("text", x.key())
    if isinstance(x, (SInt, SBool)):
        return ("int", x.e.sexpr())
    if isinstance(x, (str, int, float, type(None))):
        return (type(x).__name__, x)
    eng.keep.append(x)
    return id(x)


def Same(eng, l, r):
    l, r = eng.norm(l), eng.norm(r)
    if l is r:
        return True
    k = sorted([repr(key(eng, l)), repr(key(eng, r))])
    return eng.memo_bool(("Same", *k), "same")


def engine(top=1):
    eng = common.engine()
    state = {"depth": 0}

    def same_content(eng, args, kwargs):
        # The outermost call is the one whose body is verified
        if not eng.memo.get("inside"):
            eng.memo["inside"] = True
            return NotImplemented
        l, r = args[0], args[1]
        return Same(eng, l, r)
    if hasattr(base, "_same_content"):
        eng.contracts[base._same_content] = same_content

    def equals(eng, args, kwargs):
        if not eng.memo.get("outside"):
            eng.memo["outside"] = True
            return NotImplemented
        return Same(eng, args[0], args[1])
    eng.contracts[base.Sql.equals] = equals

    def each_item(eng, d, k):
        # An item of a dictionary with the same keys
        for x in d:
            if isinstance(x, EachKey):
                return d[x]
    eng.each_item = each_item
    return eng


def iff(eng, got, want, what):
    got, want = eng.norm(got), eng.norm(want)
    eng.prove(isinstance(got, (bool, SBool)), "the result is a boolean", repr(got))
    eng.prove(eng.norm(SBool(eng.zb(got) == eng.zb(want))), what, f"{got} iff {want}")
    common.unchanged(eng)


def attempt(f):
    try:
        return f()
    except PyRaise as p:
        raise Refuted("the comparison succeeds", repr(p.exc))


def some(eng, cls):
    if cls is T.DataType:
        # Any name and any parameters
        return shapes.instance(eng, cls, type_name=lambda eng: eng.str_("name"), parameters=lambda eng: make(eng, "dict", 0))
    return shapes.instance(eng, cls)


def same_class(cls):
    def harness(eng):
        a, b = some(eng, cls), some(eng, cls)
        eng.start()
        got = attempt(lambda: eng.call(base.Sql.equals, [a, b]))
        want = eng.all_of([lambda f=f: Same(eng, eng.getattr_(a, f.name), eng.getattr_(b, f.name)) for f in attr.fields(cls)])
        iff(eng, got, want, f"equals of two {cls.__name__} iff all {len(attr.fields(cls))} parts are the same")
    return f"equals: {cls.__name__} and {cls.__name__}", "treeno.base._same_content", engine, harness


def other_class(cls):
    def harness(eng):
        a = some(eng, cls)
        b = Hole([c for c in T.node_classes() if c is not cls], "other")
        eng.pre[id(b)] = b
        eng.start()
        swap = eng.choose(2)
        got = attempt(lambda: eng.call(base.Sql.equals, [b, a] if swap else [a, b]))
        iff(eng, got, False, "nodes of different classes are different")
    return f"equals: {cls.__name__} and others", "treeno.base._same_content", engine, harness


def identity(cls):
    def harness(eng):
        a = some(eng, cls)
        eng.start()
        got = attempt(lambda: eng.call(base.Sql.equals, [a, a]))
        iff(eng, got, True, "a node equals itself")
    return f"equals: {cls.__name__} and itself", "treeno.base.Sql.equals", engine, harness


KINDS = common.PLAIN + ["None", "enum", "list", "dict", "object"]


def make(eng, kind, n):
    if kind == "None":
        return None
    if kind == "enum":
        return Fin(list(T.SetQuantifier) + list(T.JoinType) + list(T.NullOrder), f"enum{n}")
    if kind == "list":
        return shapes.list_of(eng, lambda: shapes.hole(eng, T.Sql, f"e{n}_"))
    if kind == "dict":
        d = {EachKey(eng.base("D"), eng.str_(f"k{n}", True)): shapes.hole(eng, T.Sql, f"v{n}_")}
        eng.pre[id(d)] = d
        return d
    if kind == "object":
        return object()
    return common.plain(eng, kind, f"x{n}")


def not_a_node(kind):
    def harness(eng):
        a = Hole(T.node_classes(), "node")
        eng.pre[id(a)] = a
        other = make(eng, kind, 1)
        eng.start()
        got = attempt(lambda: eng.call(base.Sql.equals, [a, other]))
        iff(eng, got, False, "a node is no " + kind)
    return f"equals: node and {kind}", "treeno.base.Sql.equals", engine, harness


def content(k1, k2):
    """_same_content of everything that isn't a node, by its use in the only part of a Lambda.Variable that isn't a type"""
    def harness(eng):
        x, y = make(eng, k1, 1), make(eng, k2, 2)
        if k1 == k2 == "list" and eng.choose(2) == 0:
            eng.assume(x[0].base.length.e == y[0].base.length.e)
        eng.start()
        got = attempt(lambda: eng.call(base._same_content, [x, y, set()]))
        numbers = ("int", "bool", "Decimal", "float")
        if k1 == k2 == "list":
            if eng.known_equal(x[0].base.length, y[0].base.length):
                want = models.f_all(eng, [Each(x[0].base, [Same(eng, x[0].items[0], y[0].items[0])])])
            else:
                eng.assume(x[0].base.length.e != y[0].base.length.e)
                want = False
        elif k1 == k2 == "dict":
            kx, ky = list(x)[0], list(y)[0]
            want = eng.all_of([lambda: models.Keys(x).equal(eng, y), lambda: models.f_all(eng, [Each(kx.base, [Same(eng, x[kx], y[ky])])])])
        elif k1 == k2 and k1 not in ("None", "object"):
            want = eng.eq(x, y)
        elif k1 == k2 == "None":
            want = True
        else:
            want = False
        iff(eng, got, want, f"the same content of {k1} and {k2}")
    return f"_same_content: {k1} and {k2}", "treeno.base._same_content", engine, harness


def fixed_dicts(i, ka, kb):
    def harness(eng):
        x = {k: shapes.hole(eng, T.Sql, "x") for k in ka}
        y = {k: shapes.hole(eng, T.Sql, "y") for k in kb}
        eng.pre[id(x)], eng.pre[id(y)] = x, y
        eng.start()
        got = attempt(lambda: eng.call(base._same_content, [x, y, set()]))
        want = False if set(ka) != set(kb) else eng.all_of([lambda k=k: Same(eng, x[k], y[k]) for k in ka])
        iff(eng, got, want, "the same content of dictionaries")
    return f"_same_content: keys {'/'.join(ka)} and {'/'.join(kb)}", "treeno.base._same_content", engine, harness


def assertion():
    def harness(eng):
        a, b = Hole(T.node_classes(), "a"), Hole(T.node_classes(), "b")
        eng.pre[id(a)], eng.pre[id(b)] = a, b
        eng.memo["outside"] = True
        eng.start()
        same = Same(eng, a, b)
        try:
            eng.call(base.Sql.assert_equals, [a, b])
            raised = False
        except PyRaise as p:
            if not isinstance(p.exc, AssertionError):
                raise Refuted("assert_equals raises nothing but AssertionError", repr(p.exc))
            raised = True
        iff(eng, not raised, same, "assert_equals fails iff the nodes differ")
    return "assert_equals", "treeno.base.Sql.assert_equals", engine, harness


def jobs():
    out = []
    for c in T.node_classes():
        out += [same_class(c), other_class(c), identity(c)]
    out += [not_a_node(k) for k in KINDS]
    if hasattr(base, "_same_content"):
        out += [content(a, b) for a in KINDS for b in KINDS]
        dicts = [[], ["p"], ["q"], ["p", "q"], ["q", "p"]]
        out += [fixed_dicts(0, a, b) for a in dicts for b in dicts]
    return out + [assertion()]
