"""P01. Contract of C.sql for every class C of expressions: the text is derived from `expression` (at C's level, see trips.LEVELS), and
what ConvertVisitor makes of the derivation is the node. Parts fulfil the contract of their own class (induction)."""
from decimal import Decimal

from pydv import phrase, shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common, trips
from vlib import T


ASSUMES = [
    "AST(text).expression/query/type() is the derivation of the whole text from the rule, as ANTLR prefers it (P06); pydv/grammar.py "
    "derives from SqlBase.g4 what the generated parser derives (bounded cross-check in this run)",
    "replacing the phrases of a sentential form by their derivations keeps its derivation: no part captures what follows it (the levels "
    "of the parts make this hold; bounded: pairs, chains and random trees)",
    "printed nodes are well-formed (see the property); a parameter of a lambda is a field until the lambda is built (P17)",
    "the lexer's tokens next to an unknown part are those next to a place holder: quoting and separation are obligations of the text",
    "pad keeps tokens as they are (P03)",
]


def reads_as(eng, node, back):
    """Whether what's read is what was printed. NOT a = b is a <> b in SQL, and a parameter is a name until its lambda is built."""
    cls = eng.pytype(node)
    if cls is T.Lambda.Variable:
        return None if type(back) is T.Field and back.table is None and common.same(eng, back.name, node.name) else f"{back!r} for {node!r}"
    if cls is T.Not:
        inner, other = eng.norm(node.value), {T.Equal: T.NotEqual, T.NotEqual: T.Equal}
        if isinstance(inner, Hole) and inner.classes[0] in other and len(inner.classes) == 1 and type(back) is other[inner.classes[0]]:
            return next((d for f in ("left", "right") for d in [trips.equal(eng, getattr(back, f), eng.getattr_(inner, f), f)] if d), None)
    return trips.equal(eng, back, node)


def trip(cls, mode, **fields):
    def harness(eng):
        node = trips.make(eng, cls, **fields)
        eng.start()
        s = trips.printed(eng, cls, node, mode)
        what = f"the text of a {cls.__name__}"
        items = phrase.tokens(eng, s, trips.phrase_of, what)
        rule, prec = trips.level(cls)
        phrase.derived(rule, items, what, prec if prec < trips.PRIMARY else 0)
        try:
            back = eng.call(T.expression_from_sql, [s]) if issubclass(cls, T.Value) else phrase.reading(eng, rule, items, what)
        except PyRaise as p:
            raise Refuted("the text is accepted", f"{s!r}: {p.exc!r}"[:500])
        d = reads_as(eng, node, back)
        eng.prove(d is None, "what's read is what was printed", f"{s!r}: {d}")
    return harness


LITERALS = {"a string": lambda eng: eng.str_("value"), "an integer": lambda eng: eng.int_("value"), "a boolean": lambda eng: eng.bool_("value"),
            "NULL": lambda eng: None, "a decimal": lambda eng: Opaque(Decimal, eng.name("value"))}


def value_classes():
    return [c for c in T.node_classes() if issubclass(c, T.Value) and not issubclass(c, T.Query) and c not in trips.ASIDE]


PARTS = [T.When, T.OrderTerm, T.Window, T.BoundedFrameBound, T.UnboundedFrameBound, T.CurrentFrameBound]


def reference(eng):
    """Contract of Window.is_reference: whether there's nothing but the name of a window"""
    w = shapes.instance(eng, T.Window)
    eng.contracts.pop(T.Window.is_reference, None)
    eng.start()
    got = eng.truth(eng.call(T.Window.is_reference, [w]))
    bound = lambda name, cls: eng.truth(eng.isinstance_(eng.getattr_(w, name), (cls,)))
    none = lambda name: eng.is_none(eng.getattr_(w, name)) or False
    want = not none("parent_window") and none("orderby") and none("partitions") and \
        eng.force(eng.getattr_(w, "frame_type")) is T.FrameType.RANGE and bound("start_bound", T.UnboundedFrameBound) and \
        eng.force(eng.getattr_(eng.getattr_(w, "start_bound"), "bound_type")) is T.BoundType.PRECEDING and bound("end_bound", T.CurrentFrameBound)
    eng.prove(got == want, "nothing but a name", f"{got} for {w!r}")


def each_class(add):
    for cls in value_classes() + PARTS:
        if cls is T.Literal:
            for kind, value in LITERALS.items():
                add(cls, f"Literal ({kind})", value=value)
        else:
            add(cls, cls.__qualname__)


def jobs():
    js = []

    def add(cls, name, **fields):
        js.append((f"{name} printed and read", f"{cls.__module__}.{cls.__qualname__}.sql, ConvertVisitor", trips.engine,
                   trip(cls, T.PrintMode.DEFAULT, **fields), 120))
    each_class(add)
    js.append(("Window.is_reference", "treeno.window.Window.is_reference", trips.engine, reference))
    for rule, inner in (("standaloneExpression", trips.BOOLEAN), ("expression", trips.BOOLEAN), ("expression", "primaryExpression"),
                        (trips.BOOLEAN, trips.VALUE), (trips.VALUE, "primaryExpression")):
        js.append(trips.chain(rule, inner, T.Value))
    js.append(trips.chain("primaryExpression", trips.BOOLEAN, T.Value, "(", ")"))
    return js
