"""P15. Contract of visitFunctionCall, from_args and the constructor and sql of every function, against contracts/functions.py: a call of a
name (in any case) with a number of arguments is the class's node with the arguments in their positions, which is printed as that call."""
import attr

from contracts import functions as F
from pydv import grammar, phrase, shapes, text
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common, p03, trips
from vlib import T

ASSUMES = [
    "the parser's derivation of a call is that of pydv/grammar.py (P01, P02: cross-checked)",
    "the text of a token is that of the text's characters (antlr4); keywords have upper-case and lower-case forms",
    "computing types of known operands doesn't fail (P08, P10)",
]
PRIMARY = "primaryExpression"


def tok(s):
    ts = phrase.lex(s)
    return [grammar.Tok(t.type, t.text) for t in ts if t.channel == 0]


def name_tokens(eng, name):
    """The token of a function's name, in any case"""
    ts = tok(name)
    if len(ts) == 1 and ts[0].type == phrase.SqlBaseLexer.IDENTIFIER:
        v = eng.str_("name", nonempty=True)
        if not eng.truth(eng.eq(eng.call_method(v, "upper"), name)):
            raise Infeasible()
        return [grammar.Tok(ts[0].type, v)]
    return ts if eng.choose(2, ("case", ["upper", "lower"])) == 0 else tok(name.lower())


def operand(eng, name):
    """An argument that isn't a query (which has parentheses: P02)"""
    return shapes.hole(eng, T.Value, name, exclude=trips.excluded(None, "arg") + tuple(shapes.values_of(T.Query)))


def operands(eng, n):
    return [operand(eng, f"arg{i}") for i in range(n)]


def leaf(part, rule=trips.BOOLEAN, prec=1):
    l = grammar.Leaf(rule, prec, part)
    l.split = None
    return l


def listed(parts):
    out = []
    for i, p in enumerate(parts):
        out += (tok(",") if i else []) + [leaf(p)]
    return out


def read(eng, items, what):
    try:
        return phrase.reading(eng, PRIMARY, items, what)
    except PyRaise as p:
        raise Refuted("the call is accepted", f"{what}: {p.exc!r}"[:500])


def arguments(eng, back, cls, given, what):
    """The arguments are bound to the attributes of a node; everything else has its default"""
    c = getattr(T, cls)
    eng.prove(type(back) is c, "the node is of the function's class", f"{what}: {back!r} instead of a {cls}")
    for name, part in given.items():
        got = eng.getattr_(back, name)
        eng.prove(eng.norm(got) is eng.norm(part) or common.same(eng, got, part), "the argument is in its position", f"{what}: {name} is {got!r}, expected {part!r}")
    for f in attr.fields(c):
        if f.name not in given and f.init and f.name != "data_type":
            d = f.default.factory() if isinstance(f.default, attr.Factory) else f.default
            got = eng.getattr_(back, f.name)
            eng.prove(got is d or common.same(eng, got, d), "what isn't an argument has its default", f"{what}: {f.name} is {got!r}")


def call(name, n, cls, attrs):
    def harness(eng):
        head, args = name_tokens(eng, name), operands(eng, n)
        eng.start()
        what = f"{name} of {n} arguments"
        back = read(eng, head + tok("(") + listed(args) + tok(")"), what)
        arguments(eng, back, cls, dict(zip(attrs, args)), what)
        s = trips.printed(eng, getattr(T, cls), back, T.PrintMode.DEFAULT)
        items = phrase.tokens(eng, s, trips.phrase_of, what)
        d = p03.same_tokens(eng, items, tok(name) + tok("(") + listed(args) + tok(")"))
        eng.prove(d is None, "the node is printed as the call", f"{s!r}: {d}")
    return harness


def keywords(name, n, cls, attrs):
    """Contract of the constructor: an attribute given by its name is the one that's printed in its position"""
    def harness(eng):
        args = operands(eng, n)
        eng.start()
        node = eng.call(getattr(T, cls), [], dict(zip(attrs, args)))
        s = trips.printed(eng, getattr(T, cls), node, T.PrintMode.DEFAULT)
        d = p03.same_tokens(eng, phrase.tokens(eng, s, trips.phrase_of, name), tok(name) + tok("(") + listed(args) + tok(")"))
        eng.prove(d is None, "the attributes are printed in their positions", f"{s!r}: {d}")
    return harness


def clauses(name, n, cls, attrs):
    """ORDER BY, FILTER, the treatment of nulls and OVER of an aggregate function"""
    def harness(eng):
        head, args = name_tokens(eng, name), operands(eng, n)
        order = trips.some(trips.order_term)(eng, "orderby")
        condition = operand(eng, "filter") if eng.choose(2, ("filter", ["yes", "no"])) == 0 else None
        window = shapes.instance(eng, T.Window) if eng.choose(2, ("window", ["yes", "no"])) == 0 else None
        nulls = [None, T.NullTreatment.IGNORE, T.NullTreatment.RESPECT][eng.choose(3, ("nulls", ["None", "IGNORE", "RESPECT"])) if window is not None else 0]
        if window is not None:
            window.info["reference"] = False
        eng.start()
        what = f"{name} with clauses"
        items = head + tok("(") + listed(args)
        given = dict(zip(attrs, args))
        if order is not None:
            items += tok("ORDER BY") + [grammar.Several(order[0].base, phrase.lex(",")[0].type, [leaf(order[0].items[0], "sortItem", trips.PRIMARY)])]
            given["orderby"] = order
        items += tok(")")
        if condition is not None:
            items += tok("FILTER (WHERE") + [leaf(condition)] + tok(")")
            given["filter_"] = condition
        if window is not None:
            items += (tok(nulls.name + " NULLS") if nulls else []) + tok("OVER (") + [leaf(window, "windowSpecification", trips.PRIMARY)] + tok(")")
            given["window"] = window
            if nulls:
                given["null_treatment"] = nulls
        arguments(eng, read(eng, items, what), cls, given, what)
    return harness


def variadic(name, cls, attribute):
    def harness(eng):
        head = name_tokens(eng, name)
        args = shapes.list_of(eng, lambda: operand(eng, "arg"), True)
        eng.start()
        what = f"{name} of any number of arguments"
        items = tok("(") + [grammar.Several(args[0].base, phrase.lex(",")[0].type, [leaf(args[0].items[0])])] + tok(")")
        arguments(eng, read(eng, head + items, what), cls, {attribute: args}, what)
    return harness


def wrong_number(name, n):
    def harness(eng):
        head, args = name_tokens(eng, name), operands(eng, n)
        eng.start()
        try:
            back = phrase.reading(eng, PRIMARY, head + tok("(") + listed(args) + tok(")"), name)
        except PyRaise:
            eng.prove(True, "a wrong number of arguments is reported")
            return
        eng.prove(False, "a wrong number of arguments is reported", f"{name} of {n} arguments is {back!r}")
    return harness


def known_names():
    return sorted(set(F.FUNCTIONS) | set(F.VARIADIC) | set(F.SPECIAL) | set(F.OTHER))


def unknown(eng):
    v = eng.str_("name", nonempty=True)
    upper = eng.call_method(v, "upper")
    for n in known_names():
        if eng.truth(eng.eq(upper, n)):
            raise Infeasible()
    args = operands(eng, 1)
    eng.start()
    try:
        back = phrase.reading(eng, PRIMARY, [grammar.Tok(phrase.SqlBaseLexer.IDENTIFIER, v)] + tok("(") + listed(args) + tok(")"), "unknown")
    except PyRaise:
        eng.prove(True, "a name that isn't one of a function is reported")
        return
    eng.prove(False, "a name that isn't one of a function is reported", f"{v!r} is {back!r}")


def special(name, cls, precision):
    def harness(eng):
        ts = tok(name) if eng.choose(2, ("case", ["upper", "lower"])) == 0 else tok(name.lower())
        given = {}
        if precision and eng.choose(2, ("precision", ["yes", "no"])) == 0:
            n = eng.int_("precision", 0, 12)
            given["precision"] = n
            ts = ts + tok("(") + [grammar.Tok(phrase.SqlBaseLexer.INTEGER_VALUE, SText([Fn("digits", n, n)]))] + tok(")")
        eng.start()
        arguments(eng, read(eng, ts, name), cls, given, name)
    return harness


def jobs():
    js = []
    for name in F.FUNCTIONS:
        for n, cls, attrs in F.overloads(name):
            js.append((f"{name}/{n}", "ConvertVisitor.visitFunctionCall, Function.from_args, " + cls, trips.engine, call(name, n, cls, attrs)))
            js.append((f"{name}/{n} by keywords", cls + ".sql", trips.engine, keywords(name, n, cls, attrs)))
            if name in F.AGGREGATES:
                js.append((f"{name}/{n} with clauses", "ConvertVisitor.visitFunctionCall, " + cls, trips.engine, clauses(name, n, cls, attrs)))
        ns = {o[0] for o in F.overloads(name)}
        for n in range(max(ns) + 2):
            if n not in ns:
                js.append((f"{name}/{n} is an error", "ConvertVisitor.visitFunctionCall", trips.engine, wrong_number(name, n)))
    for name, (cls, a) in F.VARIADIC.items():
        js.append((f"{name}/any number", "ConvertVisitor.visitFunctionCall, " + cls, trips.engine, variadic(name, cls, a)))
    for name, (cls, precision) in F.SPECIAL.items():
        js.append((name, "ConvertVisitor.visitSpecialDateTimeFunction etc.", trips.engine, special(name, cls, precision)))
    js.append(("unknown names", "ConvertVisitor.visitFunctionCall", trips.engine, unknown))
    return js
