"""Contracts that several properties use for the functions they call"""
from pydv import run, shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from vlib import T, env

conv = env.MOD["treeno.datatypes.conversions"]
inf = env.MOD["treeno.datatypes.inference"]
expr = env.MOD["treeno.expression"]


def some_type(eng, args, kwargs):
    """ensures: a well-formed data type"""
    return shapes.dtype(eng, "result")


def some_type_or_error(eng, args, kwargs):
    """ensures: a well-formed data type. raises: TypeError if there's none"""
    if eng.choose(2, ("common type", None)) == 1:
        raise PyRaise(TypeError("no common type"))
    return shapes.dtype(eng, "result")


def type_contracts(eng):
    """What nodes need to know about type computations (their own contracts are P07 to P09)"""
    for f in ("get_arithmetic_type", "common_supertype", "common_known_supertype"):
        eng.contracts[getattr(conv, f)] = some_type_or_error
    for f in ("infer_type", "infer_decimal", "infer_char", "infer_integral"):
        eng.contracts[getattr(inf, f)] = some_type
    functions = env.MOD["treeno.functions.common"]
    for f in [getattr(functions, n, None) for n in ("_get_array_concat_type", "_get_string_concat_type")] + \
            [getattr(c, "_compute_data_type", None) for c in (T.SelectQuery, T.Unnest)]:
        if f is not None:
            eng.contracts[f] = some_type
    eng.contracts[inf.infer_timelike_precision] = lambda eng, args, kwargs: eng.int_("precision", 0, 12)


def engine(**kw):
    eng = shapes.engine(**kw)
    type_contracts(eng)
    return eng


def value(eng, name="value"):
    return shapes.hole(eng, T.Value, name)


PLAIN = ["int", "bool", "str", "Decimal", "float"]


def plain(eng, kind, name="plain"):
    from decimal import Decimal
    return {"int": lambda: eng.int_(name), "bool": lambda: eng.bool_(name), "str": lambda: eng.str_(name),
            "Decimal": lambda: Opaque(Decimal, eng.name(name)), "float": lambda: Opaque(float, eng.name(name))}[kind]()


def unchanged(eng, *allowed):
    eng.prove(not [w for w in eng.writes if not any(w[1] is a for a in allowed)], "nothing that was there before is changed", repr(eng.writes)[:300])


def check(rep, pid):
    """The deductive part of a check"""
    import importlib
    mod = importlib.import_module("proofs." + pid.lower())
    refuted = run.obligations(rep, mod.jobs())
    return refuted


def same(eng, a, b):
    """Whether two values are the same by construction: the same object, equal texts, numbers, or containers of the same"""
    a, b = eng.norm(a), eng.norm(b)
    if a is b:
        return True
    if isinstance(a, SText) or isinstance(b, SText):
        return isinstance(a, SText) and isinstance(b, SText) and a.key() == b.key()
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
        if isinstance(a, (SInt, SBool)) and type(a) is type(b):
            import z3
            return eng.check(a.e != b.e) == z3.unsat
        if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)) and eng.pytype(a) is eng.pytype(b):
            return eng.known_equal(a, b) if eng.pytype(a) is int else eng.check(eng.zb(a) != eng.zb(b)) == __import__("z3").unsat
        return False
    if isinstance(a, Each) or isinstance(b, Each):
        return isinstance(a, Each) and isinstance(b, Each) and a.base is b.base and len(a.items) == len(b.items) and \
            getattr(a, "partial", False) == getattr(b, "partial", False) and all(same(eng, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(eng, x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        ka = [(k.base, k.key) if isinstance(k, EachKey) else (None, k) for k in a]
        kb = [(k.base, k.key) if isinstance(k, EachKey) else (None, k) for k in b]
        return len(ka) == len(kb) and all(x[0] is y[0] and same(eng, x[1], y[1]) for x, y in zip(ka, kb)) and \
            all(same(eng, x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, Sym) or isinstance(b, Sym):
        return False
    import attr
    if attr.has(type(a)) and type(a) is type(b):
        return all(same(eng, getattr(a, f.name), getattr(b, f.name)) for f in attr.fields(type(a)))
    return type(a) is type(b) and a == b
