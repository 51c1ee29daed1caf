"""P16: contracts of the operators of Value, and of apply_operator"""
import ast

from pydv import shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common
from proofs.common import conv, inf
from vlib import T, env

BINARY = {"Add": ("Add", "left", "right"), "Sub": ("Minus", "left", "right"), "Mult": ("Multiply", "left", "right"),
          "Div": ("Divide", "left", "right"), "Mod": ("Modulus", "left", "right"), "Pow": ("Power", "x", "p"),
          "BitAnd": ("And", "left", "right"), "BitOr": ("Or", "left", "right")}
COMPARE = {"Eq": "Equal", "NotEq": "NotEqual", "Gt": "GreaterThan", "GtE": "GreaterThanOrEqual", "Lt": "LessThan", "LtE": "LessThanOrEqual"}
MIRROR = {"Eq": "Eq", "NotEq": "NotEq", "Gt": "Lt", "GtE": "LtE", "Lt": "Gt", "LtE": "GtE"}
UNARY = {"USub": "Negative", "UAdd": "Positive", "Invert": "Not"}
SQL_BINARY = {"AND": "And", "OR": "Or", "=": "Equal", ">": "GreaterThan", ">=": "GreaterThanOrEqual", "<": "LessThan", "<=": "LessThanOrEqual",
              "<>": "NotEqual", "!=": "NotEqual", "+": "Add", "-": "Minus", "*": "Multiply", "/": "Divide", "%": "Modulus"}
SQL_UNARY = {"+": "Positive", "-": "Negative"}
ARITHMETIC = {"Add", "Minus", "Multiply", "Divide", "Modulus"}


def engine():
    eng = common.engine()
    # Literals get the type that infer_type gives for the very value

    def infer(eng, args, kwargs):
        t = shapes.dtype(eng, "inferred", [n for n in shapes.TYPES if n != "UNKNOWN"])  # P09
        eng.memo.setdefault("inferred", []).append((args[0], t))
        return t
    eng.contracts[inf.infer_type] = infer
    return eng


def is_wrapped(eng, got, given):
    """got is the operand as it was given, wrapped as a literal if it isn't a Value"""
    given = eng.norm(given)
    if isinstance(given, Hole):
        return eng.norm(got) is given
    got = eng.norm(got)
    if type(got) is not T.Literal:
        return False
    types = [t for v, t in eng.memo.get("inferred", []) if common.same(eng, v, given)]
    return common.same(eng, got.value, given) and any(got.data_type is t for t in types)


def ensures(eng, got, cls, operands):
    got = eng.norm(got)
    eng.prove(type(got) is getattr(T, cls), "the node of the operation", f"{got!r} instead of a {cls}")
    for name, given in operands:
        eng.prove(is_wrapped(eng, getattr(got, name), given), f"operand {name}", f"{getattr(got, name)!r} instead of {given!r}")
    common.unchanged(eng)


def attempt(eng, cls, f):
    try:
        return f()
    except PyRaise as p:
        if cls in ARITHMETIC and isinstance(p.exc, TypeError) and "no common type" in str(p.exc):
            return None  # P08
        raise Refuted("the operation succeeds", repr(p.exc))


def binary(op, cls, names, kind):
    def harness(eng):
        left = common.value(eng, "left")
        right = common.value(eng, "right") if kind == "Value" else left if kind == "itself" else common.plain(eng, kind)
        eng.start()
        opn = getattr(ast, op)()
        f = (lambda: eng.compare(opn, left, right)) if op in COMPARE else (lambda: eng.binop(opn, left, right))
        got = attempt(eng, cls, f)
        if got is not None:
            ensures(eng, got, cls, [(names[0], left), (names[1], right)])
    return f"Value {op} {kind}", f"treeno.expression.Value.__{op.lower()}__", engine, harness


def mirrored(op, kind):
    cls = COMPARE[MIRROR[op]]

    def harness(eng):
        right = common.value(eng, "right")
        left = common.plain(eng, kind)
        eng.start()
        got = attempt(eng, cls, lambda: eng.compare(getattr(ast, op)(), left, right))
        ensures(eng, got, cls, [("left", right), ("right", left)])
    return f"{kind} {op} Value", f"treeno.expression.Value.__{MIRROR[op].lower()}__", engine, harness


def unary(op, cls):
    def harness(eng):
        v = common.value(eng, "operand")
        eng.start()
        name = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
        got = attempt(eng, cls, lambda: eng.call_method(v, name))
        ensures(eng, got, cls, [("value", v)])
    return f"{op} Value", f"treeno.expression.Value.__{op.lower()}__", engine, harness


def applied(symbol, cls, n):
    def harness(eng):
        args = [common.value(eng, "arg") for _ in range(n)]
        eng.start()
        got = attempt(eng, cls, lambda: eng.call(env.MOD["treeno.builder.convert"].apply_operator, [symbol] + args))
        if got is not None:
            ensures(eng, got, cls, list(zip(["left", "right"] if n == 2 else ["value"], args)))
    return f"apply_operator {symbol}/{n}", "treeno.builder.convert.apply_operator", engine, harness


def jobs():
    out = []
    for op, (cls, l, r) in BINARY.items():
        out += [binary(op, cls, (l, r), k) for k in ["Value", "itself"] + common.PLAIN]
    for op, cls in COMPARE.items():
        out += [binary(op, cls, ("left", "right"), k) for k in ["Value", "itself"] + common.PLAIN]
        out += [mirrored(op, k) for k in common.PLAIN]
    out += [unary(op, cls) for op, cls in UNARY.items()]
    out += [applied(s, c, 2) for s, c in SQL_BINARY.items()] + [applied(s, c, 1) for s, c in SQL_UNARY.items()]
    return out
