"""P09. Contracts of infer_type and the functions it calls, of wrap_literal, and of the conversion of literals in SQL: the type is the
one of the value, for all integers (z3), all texts (by their length) and all decimals (by their positional text)."""
from decimal import Decimal

import z3

from proofs import common, p08, trips
from pydv import grammar, phrase, shapes, text
from pydv.engine import Refuted
from pydv.values import *  # noqa
from vlib import T

inf, expr = common.inf, common.expr
LEXER = phrase.SqlBaseLexer
ASSUMES = [
    "format(d, 'f') of a finite decimal is an optional minus, digits, and a point with digits if the exponent is negative (Python's documentation)",
    "Decimal(text), int(text) and float(text) are the numbers denoted by the tokens of the lexer (Python's documentation)",
    "the parser's derivation of a literal is that of pydv/grammar.py (P01: cross-checked)",
    "the text of a time has at most one dot, in front of its fraction, and its zone doesn't start with a digit",
]


def digits(eng, name):
    return Fn("digits", StrVar(eng.name(name), True))


def decimal(eng):
    """A finite decimal with its positional text, and its numbers of digits and of fractional digits"""
    negative, fraction = eng.choose(2, ("sign", None)), eng.choose(2, ("point", None))
    whole, frac = digits(eng, "whole"), digits(eng, "fraction")
    written = SText((["-"] if negative else []) + [whole] + ([".", frac] if fraction else []))
    d = Opaque(Decimal, eng.name("decimal"), **{"finite": True})
    d.info[("f", "text")] = written
    s = eng.z(text.length(eng, SText([frac]))) if fraction else z3.IntVal(0)
    return d, eng.z(text.length(eng, SText([whole]))) + s, s


def value(eng, kind):
    """A value of a kind, and what its type has to be"""
    if kind == "int":
        v = eng.int_("value")
        return v, "INTEGER" if eng.branch(z3.And(v.e >= -2**31, v.e <= 2**31 - 1), "32 bits") else "BIGINT", {}, None
    if kind == "bool":
        return eng.bool_("value"), "BOOLEAN", {}, None
    if kind == "float":
        return Opaque(float, eng.name("value")), "DOUBLE", {}, None
    if kind == "str":
        v = eng.str_("value")
        return v, "VARCHAR", {"max_chars": eng.z(text.length(eng, v))}, None
    d, p, s = decimal(eng)
    return d, "DECIMAL", {"precision": p, "scale": s}, p > 38


def engine():
    eng = phrase.install(shapes.engine(), trips.phrase_of)
    eng.methods["sql"] = trips.text_of
    return eng


def has_type(eng, got, name, params, what):
    ok = p08.same_type(eng, got, p08.Expected(name, **params))
    eng.prove(ok, "the type is the one of the value", "" if ok else f"{what}: {got!r} {getattr(got, 'parameters', '')}, expected {name} {params}")


def attempt(eng, f, args, none, what):
    """The result, or None where there's no type (none: a condition)"""
    try:
        r = eng.call(f, args)
    except PyRaise as p:
        if none is None or eng.check(z3.Not(none)) != z3.unsat:
            raise Refuted("every value has a type", f"{what}: {p.exc!r}")
        eng.prove(True, "a value without a type is reported")
        return None
    return r


def split_no_type(eng, none):
    """Separates the values that have no type"""
    if none is not None:
        eng.branch(none, "no type")


def inferred(kind):
    def harness(eng):
        v, name, params, none = value(eng, kind)
        split_no_type(eng, none)
        eng.start()
        r = attempt(eng, inf.infer_type, [v], none, f"infer_type of a {kind}")
        if r is not None:
            has_type(eng, r, name, params, f"infer_type of a {kind}")
        common.unchanged(eng)
    return f"infer_type of a {kind}", "infer_type", engine, harness


def wrapped(kind):
    """wrap_literal, and the operators and constructors that call it"""
    def harness(eng):
        v, name, params, none = value(eng, kind)
        split_no_type(eng, none)
        how = eng.choose(4, ("how", ["wrap_literal", "wrap_literal_list", "operator", "constructor"]))
        other = shapes.hole(eng, T.Field, "other")
        other.fields["data_type"] = shapes.dtype(eng, "type", ["UNKNOWN"])
        eng.start()
        what = f"a {kind} as a literal"
        if how == 0:
            r = attempt(eng, expr.wrap_literal, [v], none, what)
        elif how == 1:
            r = attempt(eng, expr.wrap_literal_list, [eng.born([other, v])], none, what)
            if r is not None:
                eng.prove(len(r) == 2 and eng.norm(r[0]) is eng.norm(other), "values stay as they are", repr(r))
                r = r[1]
        elif how == 2:
            r = attempt(eng, T.Value.__add__, [other, v], none, what)
            r = r if r is None else eng.getattr_(r, "right")
        else:
            r = attempt(eng, T.Between, [other, v, other], none, what)
            r = r if r is None else eng.getattr_(r, "lower")
        if r is None:
            return
        eng.prove(type(r) is T.Literal, "a plain value is a literal", f"{what}: {r!r}")
        eng.prove(common.same(eng, eng.getattr_(r, "value"), v), "the literal has the value", f"{what}: {eng.getattr_(r, 'value')!r}")
        has_type(eng, eng.getattr_(r, "data_type"), name, params, what)
        common.unchanged(eng)
    return f"a {kind} as a literal", "wrap_literal, wrap_literal_list", engine, harness


def kept(eng):
    v = shapes.hole(eng, T.Value, "value")
    eng.start()
    eng.prove(eng.norm(eng.call(expr.wrap_literal, [v])) is eng.norm(v), "a value isn't wrapped")
    common.unchanged(eng)


def reported(eng):
    v = [None, [], (), set(), {}, object(), b"x", 1j][eng.choose(8, ("value", None))]
    eng.start()
    try:
        r = eng.call(expr.wrap_literal, [v])
    except PyRaise:
        eng.prove(True, "what isn't a literal is reported")
        return
    eng.prove(False, "what isn't a literal is reported", f"{v!r} is {r!r}")


# Literals in SQL ------------------------------------------------------------------------------------------------------------
def tok(kind, written):
    return grammar.Tok(kind, written)


def read(eng, items, what):
    try:
        return phrase.reading(eng, "valueExpression", items, what)
    except PyRaise as p:
        raise Refuted("the literal is accepted", f"{what}: {p.exc!r}")


def minus(eng):
    """With a minus or without, and its tokens"""
    m = eng.choose(2, ("sign", None)) == 1
    return m, [tok(LEXER.MINUS, "-")] if m else []


def literal(eng, r, what):
    eng.prove(type(r) is T.Literal, "it's one literal", f"{what}: {r!r}")
    return eng.getattr_(r, "value"), eng.getattr_(r, "data_type")


def integer(eng):
    m, sign = minus(eng)
    written = SText([digits(eng, "digits")])
    n = eng.z(eng.memo_int(("intof", written.key()), "intof", 0))
    n = -n if m else n
    small = eng.branch(z3.And(n >= -2**31, n <= 2**31 - 1), "32 bits")
    eng.start()
    v, t = literal(eng, read(eng, sign + [tok(LEXER.INTEGER_VALUE, written)], "an integer"), "an integer")
    eng.prove(eng.pytype(v) is int and eng.check(eng.z(v) != n) == z3.unsat, "the literal has the value", repr(v))
    has_type(eng, t, "INTEGER" if small else "BIGINT", {}, "an integer")


def decimal_text(eng):
    """A decimal is the one of its text, sign included, with the type infer_decimal gives it"""
    m, sign = minus(eng)
    form = eng.choose(3, ("form", ["1.5", "1.", ".5"]))
    written = ([] if form == 2 else [digits(eng, "whole")]) + ["."] + ([] if form == 1 else [digits(eng, "fraction")])
    made = []

    def decimal_of(eng, s):
        d = Opaque(Decimal, eng.name("decimal"))
        made.append((s.key(), d))
        return d

    def infer(eng, args, kwargs):
        given.append(eng.norm(args[0]))
        return dtype
    given, dtype = [], shapes.dtype(eng, "decimal", ["DECIMAL"])
    eng.decimal_of = decimal_of
    eng.contracts[inf.infer_decimal] = infer
    eng.contracts[inf.infer_type] = infer
    eng.start()
    v, t = literal(eng, read(eng, sign + [tok(LEXER.DECIMAL_VALUE, SText(written))], "a decimal"), "a decimal")
    want = SText((["-"] if m else []) + written).key()
    eng.prove(any(k == want and d is v for k, d in made), "the literal has the value", f"{v!r} of {made}")
    eng.prove(given and given[-1] is v and eng.norm(t) is dtype, "the type is the one of the decimal", f"{t!r}")


def double(eng):
    m, sign = minus(eng)
    written = SText([Fn("nonempty", StrVar(eng.name("double"), True))])
    eng.start()
    v, t = literal(eng, read(eng, sign + [tok(LEXER.DOUBLE_VALUE, written)], "a double"), "a double")
    want = SText((["-"] if m else []) + list(written.pieces)).key()
    eng.prove(isinstance(v, Opaque) and v.pytype is float and isinstance(v.info.get("text"), SText) and v.info["text"].key() == want, "the literal has the value", repr(v))
    has_type(eng, t, "DOUBLE", {}, "a double")


def string(eng):
    c = eng.str_("content")
    written = SText(["'", *(Fn("replace", p, "'", "''") for p in c.pieces), "'"])
    eng.start()
    v, t = literal(eng, read(eng, [tok(LEXER.STRING, written)], "a string"), "a string")
    eng.prove(common.same(eng, v, c), "the literal has the value", f"{v!r} for {c!r}")
    has_type(eng, t, "VARCHAR", {"max_chars": eng.z(text.length(eng, c))}, "a string")


def constant(sql, v, name):
    def harness(eng):
        ts = [grammar.Tok(t.type, t.text) for t in phrase.lex(sql)]
        eng.start()
        got, t = literal(eng, read(eng, ts, sql), sql)
        eng.prove(got is v, "the literal has the value", f"{sql} is {got!r}")
        has_type(eng, t, name, {}, sql)
    return f"{sql} in SQL", "ConvertVisitor.visitBooleanLiteral, visitNullLiteral", engine, harness


def fraction(eng):
    """infer_timelike_precision: the number of digits of the fraction, whatever is in front or behind"""
    front, zone = StrVar(eng.name("time"), True), StrVar(eng.name("zone"))
    front.without = zone.without = frozenset(".")
    k = eng.choose(3, ("form", ["no fraction", "fraction", "fraction and zone"]))
    n = z3.IntVal(0)
    pieces = [front]
    if k:
        f = digits(eng, "fraction")
        n = eng.z(text.length(eng, SText([f])))
        pieces += [".", f]
    if k == 2:
        pieces += [[" ", "+", "-", "Z"][eng.choose(4, ("zone", None))], zone]
    eng.start()
    try:
        r = eng.call(inf.infer_timelike_precision, [SText(pieces)])
    except PyRaise as p:
        raise Refuted("every time has a precision", repr(p.exc))
    eng.prove(eng.pytype(r) is int and eng.check(eng.z(r) != n) == z3.unsat, "the precision is the number of digits of the fraction", f"{r!r}, expected {n}")


def length_of_char(eng):
    v = eng.str_("value")
    big = eng.branch(eng.z(text.length(eng, v)) > 65536, "too long")
    eng.start()
    try:
        r = eng.call(inf.infer_char, [v])
    except PyRaise as p:
        eng.prove(big, "every short text has a CHAR type", repr(p.exc))
        return
    has_type(eng, r, "CHAR", {"max_chars": eng.z(text.length(eng, v))}, "a char")


KINDS = ["int", "bool", "float", "str", "Decimal"]


def jobs():
    js = [inferred(k) for k in KINDS] + [wrapped(k) for k in KINDS]
    js += [("a value as a literal", "wrap_literal", engine, kept), ("what isn't a literal", "wrap_literal, infer_type", engine, reported)]
    js += [("integers in SQL", "ConvertVisitor.visitIntegerLiteral", engine, integer), ("decimals in SQL", "ConvertVisitor.visitDecimalLiteral", engine, decimal_text),
           ("doubles in SQL", "ConvertVisitor.visitDoubleLiteral", engine, double), ("strings in SQL", "ConvertVisitor.visitStringLiteral, visitBasicStringLiteral", engine, string)]
    for s, v, name in (("TRUE", True, "BOOLEAN"), ("FALSE", False, "BOOLEAN"), ("NULL", None, "UNKNOWN")):
        js += [constant(s, v, name), constant(s.lower(), v, name)]
    js += [("the precision of a time", "infer_timelike_precision", engine, fraction), ("the length of a CHAR", "infer_char", engine, length_of_char)]
    return js
