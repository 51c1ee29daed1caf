"""P03. Contract of C.sql for every class C: under any indentation, the pretty text has the tokens of the default text, parts being alike
(induction). Contract of join_stmts: the statements with the delimiter in between, and at most a newline in front of each of them."""
from pydv import grammar, phrase, shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common, p01, p02, trips
from vlib import T, env

printer = env.MOD["treeno.printer"]
ASSUMES = [
    "pad keeps the tokens of a text (bounded: every text of up to 5 characters over quotes, newline, blank and a letter)",
    "tokens of a text next to an unknown part are those next to a place holder: separation is an obligation of the text, in both modes",
    "printed nodes are well-formed (see the property)",
]


def joined(eng, args, kwargs):
    """join_stmts. ensures: the statements with the delimiter in between; line breaks in between as well (an obligation of its own)"""
    stmts, delimiter = args[0], kwargs.get("delimiter", args[2] if len(args) > 2 else ",")
    return eng.call_method(delimiter, "join", stmts)


def engine():
    eng = trips.engine()
    eng.contracts[printer.join_stmts] = joined
    return eng


def same_tokens(eng, xs, ys):
    """None, or where two sentential forms differ"""
    if len(xs) != len(ys):
        return f"{len(xs)} and {len(ys)} tokens"
    for x, y in zip(xs, ys):
        if type(x) is not type(y):
            return f"{x!r} and {y!r}"
        if isinstance(x, grammar.Several):
            d = f"{x!r} and {y!r}" if x.base is not y.base or x.sep != y.sep else same_tokens(eng, x.items, y.items)
        elif isinstance(x, grammar.Leaf):
            d = None if x.value is y.value or common.same(eng, x.value, y.value) else f"{x!r} and {y!r}"
        else:
            d = None if x.type == y.type and common.same(eng, x.text, y.text) else f"{x!r} and {y!r}"
        if d:
            return d
    return None


def both(cls, **fields):
    def harness(eng):
        node = shapes.dtype(eng, "type", fields["names"]) if cls is T.DataType else trips.make(eng, cls, **fields)
        spaces = eng.int_("spaces", 0)
        eng.start()
        out = []
        for mode in (T.PrintMode.DEFAULT, T.PrintMode.PRETTY):
            try:
                out.append(eng.call(cls.sql, [node, eng.call(T.PrintOptions, [], {"mode": mode, "spaces": spaces})]))
            except PyRaise as p:
                out.append(p)
        a, b = out
        if isinstance(a, PyRaise) or isinstance(b, PyRaise):
            eng.prove(isinstance(a, PyRaise) and isinstance(b, PyRaise), "printed in both modes or in neither", f"{out!r}")
            return
        d = same_tokens(eng, phrase.tokens(eng, a, trips.phrase_of, "the default text"), phrase.tokens(eng, b, trips.phrase_of, "the pretty text"))
        eng.prove(d is None, "the same tokens in both modes", f"default {a!r}\npretty {b!r}\n{d}")
    return harness


def join(mode, delimiter):
    def harness(eng):
        stmts = shapes.list_of(eng, lambda: eng.str_("stmt"))
        opts = eng.call(T.PrintOptions, [], {"mode": mode, "spaces": eng.int_("spaces", 0)})
        eng.contracts.pop(printer.join_stmts, None)
        eng.start()
        got = eng.call(printer.join_stmts, [stmts, opts], {"delimiter": delimiter})
        want = eng.call_method(delimiter, "join", stmts)
        eng.prove(common.same(eng, without_breaks(got), want), "the statements in order, with the delimiter in between", f"{got!r} for {want!r}")
    return harness


def without_breaks(s):
    if not isinstance(s, SText):
        return s
    out = []
    for p in s.pieces:
        if isinstance(p, Rep) and p.items and isinstance(p.items[0], str) and p.items[0].startswith("\n"):
            p = Rep(p.base, p.sep, [p.items[0][1:]] + list(p.items[1:]) if len(p.items[0]) > 1 else list(p.items[1:]))
        out.append(p)
    return SText(out)


def jobs():
    js = []

    def add(cls, name, **fields):
        js.append((f"{name} in both modes", f"{cls.__module__}.{cls.__qualname__}.sql", engine, both(cls, **fields), 120))
    p02.each_class(add)
    p01.each_class(add)
    for n in shapes.TYPES:
        add(T.DataType, f"DataType {n}", names=[n])
    for mode in (T.PrintMode.DEFAULT, T.PrintMode.PRETTY):
        for delimiter in (",", " ", " AND "):
            js.append((f"join_stmts ({mode.name}, {delimiter!r})", "treeno.printer.JoinPrinter", engine, join(mode, delimiter)))
    return js
