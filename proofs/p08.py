"""P08: contract of common_supertype(a, b), for each pair of type names and all parameters: the join of a and b in the lattice of
types (written down from the Trino type system), whichever comes first. For nested types, join is a function of the element
types of which only the contract is known (induction over the nesting). get_arithmetic_type is the same on numbers."""
import itertools

import z3

from pydv import shapes
from pydv.engine import Refuted
from pydv.values import *  # noqa
from proofs import common
from vlib import T

conv = common.conv
INTEGRAL = {"TINYINT": 3, "SMALLINT": 5, "INTEGER": 10, "BIGINT": 19}
NUMERIC = set(INTEGRAL) | {"REAL", "DOUBLE", "DECIMAL"}
STRING = {"CHAR", "VARCHAR"}
NO_TYPE = "no common type"


def zmax(a, b):
    return z3.If(a >= b, a, b)


def zmin(a, b):
    return z3.If(a <= b, a, b)


def join(eng, x, y):
    """ensures: the join of two types, the same for both orders, if there's one; x if they're equal. raises: TypeError"""
    x, y = eng.norm(x), eng.norm(y)
    if x is y or eng.truth(eng.eq(x, y)):
        return x
    key = ("join",) + tuple(sorted((id(x), id(y))))
    eng.keep += [x, y]
    if key not in eng.memo:
        eng.memo[key] = NO_TYPE if eng.choose(2, ("join", None)) else shapes.dtype(eng, "join")
    return eng.memo[key]


def join_contract(eng, args, kwargs):
    r = join(eng, *(list(args) + list(kwargs.values())))
    if r is NO_TYPE:
        raise PyRaise(TypeError("No common supertypes"))
    return r


def given(eng, name, label, inner=None):
    h = shapes.dtype(eng, label, [name])
    h.info["top"] = True
    return h, eng.getattr_(h, "parameters")


class Expected:
    """A type name with its parameters: integer terms, booleans, types or lists of types"""

    def __init__(self, name, **params):
        self.name, self.params = name, params


def ez(eng, v):
    return eng.z(v) if not z3.is_expr(v) else v


def zb(eng, v):
    return eng.zb(v) if not z3.is_expr(v) else v


def spec(eng, na, pa, nb, pb, a, b):
    """What the join of two types of these names with these parameters is: an Expected, one of a and b, or None (no common type)"""
    names = {na, nb}
    if "UNKNOWN" in names:
        return None
    if na == nb and not pa:
        return a
    if names <= NUMERIC:
        if names <= set(INTEGRAL):
            return a if INTEGRAL[na] > INTEGRAL[nb] else b
        for n in ("DOUBLE", "REAL"):
            if n in names:
                return Expected(n)
        (p1, s1), (p2, s2) = [(z3.IntVal(INTEGRAL[n]), z3.IntVal(0)) if n in INTEGRAL else (ez(eng, p["precision"]), ez(eng, p["scale"]))
                              for n, p in ((na, pa), (nb, pb))]
        s = zmax(s1, s2)
        return Expected("DECIMAL", precision=zmin(z3.IntVal(38), zmax(p1 - s1, p2 - s2) + s), scale=s)
    if names <= STRING:
        ls = [p.get("max_chars") for p in (pa, pb)]
        if "CHAR" not in names:
            return Expected("VARCHAR") if None in [l if l is None else 0 for l in ls] else Expected("VARCHAR", max_chars=zmax(*[ez(eng, l) for l in ls]))
        return Expected("CHAR", max_chars=zmin(z3.IntVal(65536), zmax(*[z3.IntVal(65536) if l is None else ez(eng, l) for l in ls])))
    if names <= {"TIME", "TIMESTAMP"}:
        p = {"timezone": z3.Or(zb(eng, pa["timezone"]), zb(eng, pb["timezone"]))}
        if "precision" in pa and "precision" in pb:
            p["precision"] = zmax(ez(eng, pa["precision"]), ez(eng, pb["precision"]))
        return Expected("TIMESTAMP" if "TIMESTAMP" in names else "TIME", **p)
    if names == {"DATE", "TIMESTAMP"}:
        return a if na == "TIMESTAMP" else b
    if names == {"HYPERLOGLOG", "P4HYPERLOGLOG"}:
        return Expected("HYPERLOGLOG")
    if na != nb:
        return None
    if na == "ARRAY":
        x = join(eng, pa["dtype"], pb["dtype"])
        return None if x is NO_TYPE else Expected("ARRAY", dtype=x)
    if na == "MAP":
        x, y = join(eng, pa["from_dtype"], pb["from_dtype"]), None
        if x is not NO_TYPE:
            y = join(eng, pa["to_dtype"], pb["to_dtype"])
        return None if NO_TYPE in [v if v is NO_TYPE else 0 for v in (x, y)] else Expected("MAP", from_dtype=x, to_dtype=y)
    if na == "QDIGEST":
        return a if eng.truth(eng.eq(pa["dtype"], pb["dtype"])) else None
    if na == "INTERVAL":
        return a if pa["from_interval"] == pb["from_interval"] and pa["to_interval"] == pb["to_interval"] else None
    raise Unsupported(f"{na} and {nb}")


def same_type(eng, got, want):
    """got is an instance of DataType equal to what's expected"""
    got, want = eng.norm(got), want if isinstance(want, Expected) else eng.norm(want)
    if got is want:
        return True
    if isinstance(want, Hole):
        if isinstance(got, Hole) and got.info.get("equal") is want:
            return True
        return eng.truth(eng.eq(got, want))
    if not (isinstance(got, Hole) and T.DataType in got.classes or isinstance(got, T.DataType)):
        return False
    if eng.force(eng.getattr_(got, "type_name")) != want.name:
        return False
    p = eng.getattr_(got, "parameters")
    if set(p) != set(want.params):
        return False
    for k, w in want.params.items():
        g = p[k]
        if z3.is_expr(w) and z3.is_bool(w):
            if eng.pytype(g) is not bool or eng.check(zb(eng, g) != w) != z3.unsat:
                return False
        elif z3.is_expr(w):
            if eng.pytype(g) is not int or eng.check(ez(eng, g) != w) != z3.unsat:
                return False
        elif isinstance(w, Each):
            raise Unsupported("a repetition of types")
        elif isinstance(w, list) and any(isinstance(x, Each) for x in w):
            g = eng.norm(g)
            if not isinstance(g, list) or len(g) != 1 or not isinstance(g[0], Each) or getattr(g[0], "partial", False) or g[0].base is not w[0].base or \
                    len(g[0].items) != 1 or not same_type(eng, g[0].items[0], w[0].items[0]):
                return False
        elif isinstance(w, list):
            if not isinstance(g, list) or len(g) != len(w) or not all(same_type(eng, x, y) for x, y in zip(g, w)):
                return False
        elif not same_type(eng, g, w):
            return False
    return True


def parts_equal(eng, a, b):
    """Whether two element types are equal: a symbol, as their names and parameters don't matter to the join of the whole"""
    for x in (a, b):
        if not isinstance(x, Hole) or x.classes != (T.DataType,) or x.info.get("top"):
            return NotImplemented
    return eng.memo_bool(("same type",) + tuple(sorted((id(a), id(b)))), "same type")


def engine():
    eng = shapes.engine()
    eng.equal_hook = parts_equal
    return eng


def outcome(eng, f, args, what):
    """The result of a call: a type, or None for none (UNKNOWN or a type error)"""
    try:
        r = eng.norm(eng.call(f, args))
    except PyRaise as p:
        if isinstance(p.exc, TypeError) and "ommon" in str(p.exc):
            return None
        raise Refuted(what, f"raises {p.exc!r}")
    eng.prove(isinstance(r, T.DataType) or isinstance(r, Hole) and r.classes == (T.DataType,), "a data type", repr(r))
    if eng.truth(eng.eq(eng.getattr_(r, "type_name"), "UNKNOWN")):
        return None
    return r


def compare(eng, f, a, b, want, what):
    eng.ih = lambda eng, name, args, kwargs: join_contract(eng, args, kwargs)
    got = outcome(eng, f, [a, b], what)
    if want is None:
        eng.prove(got is None, what, f"{got!r}, but there's no common type")
    elif got is None:
        # Element types may have no known common type: then the join of these is UNKNOWN, not that of the whole
        eng.prove(False, what, f"none, expected {getattr(want, 'name', want)} {getattr(want, 'params', '')}")
    else:
        eng.prove(same_type(eng, got, want), what, f"{got!r} {getattr(got, 'parameters', '')}, expected {getattr(want, 'name', want)} {getattr(want, 'params', '')}")


def pair(na, nb, swapped, f=None):
    f = f or conv.common_supertype

    def harness(eng):
        (a, pa), (b, pb) = given(eng, na, "left"), given(eng, nb, "right")
        eng.start()
        if f is not conv.common_supertype:
            eng.contracts[conv.common_supertype] = lambda eng, args, kwargs: join_contract(eng, args, kwargs)
        want = spec(eng, na, pa, nb, pb, a, b)
        if f is conv.get_arithmetic_type and not ({na, nb} <= NUMERIC or na == nb) and want is not None:
            want = None
        args = (b, a) if swapped else (a, b)
        compare(eng, f, *args, want, f"{f.__name__} is the common type")
        common.unchanged(eng)
    return f"{f.__name__} of {nb if swapped else na} and {na if swapped else nb}" + (" (swapped)" if swapped else ""), f"{f.__module__}.{f.__name__}", engine, harness


def no_arithmetic(na):
    """get_arithmetic_type of types of different names that aren't numeric: unknown, never an error"""
    f = conv.get_arithmetic_type

    def harness(eng):
        others = [n for n in shapes.TYPES if n != na and not {n, na} <= NUMERIC]
        a, b = shapes.dtype(eng, "one", [na]), shapes.dtype(eng, "other", others)
        a.info["top"] = b.info["top"] = True
        args = (a, b) if eng.choose(2, ("order", None)) else (b, a)
        eng.start()
        try:
            got = eng.norm(eng.call(f, list(args)))
        except PyRaise as p:
            raise Refuted("no arithmetic type isn't an error", f"raises {p.exc!r}")
        eng.prove(eng.truth(eng.eq(eng.getattr_(got, "type_name"), "UNKNOWN")), "no arithmetic type is unknown", repr(got))
        common.unchanged(eng)
    return f"get_arithmetic_type of {na} and a type that isn't like it", f"{f.__module__}.{f.__name__}", engine, harness


def rows(same):
    """Rows of any number of fields: as many in both (the arbitrary field stands for all of them), or not"""
    f = conv.common_supertype

    def harness(eng):
        hs, base = [], None
        for label in ("left", "right"):
            h = shapes.dtype(eng, label, ["ROW"])
            h.info["top"] = True
            fields = shapes.list_of(eng, lambda: shapes.dtype(eng, "field"), True)
            if same and base is not None:
                fields[0].base = base
            base = fields[0].base
            h.fields["parameters"] = eng.born({"dtypes": eng.born(fields)})
            hs.append(h)
        a, b = hs
        x, y = [h.fields["parameters"]["dtypes"][0] for h in hs]
        if not same:
            eng.assume(eng.z(x.base.length) != eng.z(y.base.length))
        eng.start()
        want = None
        if same:
            j = join(eng, x.items[0], y.items[0])
            want = None if j is NO_TYPE else Expected("ROW", dtypes=[Each(base, [j])])
        compare(eng, f, a, b, want, "common_supertype of rows")
        compare(eng, f, b, a, want, "common_supertype of rows (swapped)")
        common.unchanged(eng)
    return f"common_supertype of rows of {'as many' if same else 'different numbers of'} fields", f"{f.__module__}.{f.__name__}", engine, harness


def fold(n):
    """common_known_supertype of n types: joins of those that are known, from left to right"""
    f = conv.common_known_supertype

    def make():
        eng = shapes.engine()
        eng.contracts[conv.common_supertype] = join_contract
        eng.equal_hook = parts_equal
        return eng

    def harness(eng):
        hs, known = [], []
        for i in range(n):
            k = eng.choose(2, ("known", i))
            hs.append(shapes.dtype(eng, "type", [t for t in shapes.TYPES if t != "UNKNOWN"] if k else ["UNKNOWN"]))
            known += hs[-1:] * k
        given = eng.born(list(hs))
        eng.start()
        want = None
        for i, h in enumerate(known):
            want = h if i == 0 else join(eng, want, h)
            if want is NO_TYPE:
                break
        try:
            got = eng.norm(eng.call(f, [given]))
        except PyRaise as p:
            eng.prove(isinstance(p.exc, TypeError) and want is NO_TYPE, "common_known_supertype fails iff there's no common type", repr(p.exc))
            common.unchanged(eng)
            return
        if want is None:
            eng.prove(eng.truth(eng.eq(eng.getattr_(got, "type_name"), "UNKNOWN")), "common_known_supertype of nothing known is unknown", repr(got))
        else:
            eng.prove(got is want, "common_known_supertype is the join of the known ones", f"{got!r}, expected {want!r}")
        common.unchanged(eng)
    return f"common_known_supertype of {n} types (bounded)", f"{f.__module__}.{f.__name__}", make, harness


def fold_all():
    """common_known_supertype of any number of types. An invariant of the fold: joined from left to right, what's come out so far is the join
    of the known ones so far. The step: the function that's folded gives the join of any two types (or fails as there's none); what it's
    folded over: an arbitrary type is among it iff it's known (so nothing's folded iff none is known), in the order given."""
    f = conv.common_known_supertype

    def make():
        eng = shapes.engine()
        eng.contracts[conv.common_supertype] = join_contract
        eng.equal_hook = parts_equal
        return eng

    def harness(eng):
        known = eng.choose(2, ("known", None)) == 1
        h = shapes.dtype(eng, "type", [t for t in shapes.TYPES if t != "UNKNOWN"] if known else ["UNKNOWN"])
        h.info["top"] = True
        base = eng.base("types", True)
        given = eng.born([Each(base, [h])])
        folded = []

        def need(cond, what, seen):
            # Other ways to fold are possible, and are left to the obligations for few types
            if not cond:
                raise Unsupported(f"not shown that {what}: {seen}")
            eng.prove(True, what)

        def rule(eng, step, es, init):
            folded.append(True)
            need(not init and len(es) == 1 and es[0].base is base, "what's folded are the types given", repr(es))
            need(len(es[0].items) == known and all(eng.norm(i) is h for i in es[0].items), "a type is folded iff it's known", repr(es))
            x, y = shapes.dtype(eng, "so far"), shapes.dtype(eng, "next")
            want = join(eng, x, y)
            try:
                got = eng.norm(eng.call(step, [x, y]))
            except PyRaise as p:
                need(isinstance(p.exc, TypeError) and want is NO_TYPE, "the step fails iff there's no common type", repr(p.exc))
                raise
            need(got is want, "the step is the join of two types", f"{got!r}, expected {want!r}")
            # Nothing's folded of nothing: reduce fails
            if eng.truth(eng.eq(eng.length(es), 0)):
                need(False, "something is folded", "reduce of no types")
            folded.append(shapes.dtype(eng, "fold"))
            return folded[-1]
        eng.fold = rule
        eng.start()
        try:
            got = eng.norm(eng.call(f, [given]))
        except PyRaise as p:
            need(isinstance(p.exc, TypeError) and folded, "common_known_supertype fails iff the fold does", repr(p.exc))
            common.unchanged(eng)
            return
        if folded:
            need(got is folded[-1], "common_known_supertype is the fold of the known ones", repr(got))
        else:
            need(not known and eng.truth(eng.eq(eng.getattr_(got, "type_name"), "UNKNOWN")), "only nothing known is unknown", repr(got))
        common.unchanged(eng)
    return "common_known_supertype of any number of types", f"{f.__module__}.{f.__name__}", make, harness


def jobs():
    out = [fold_all()] + [fold(n) for n in range(5)]
    names = [n for n in shapes.TYPES if n != "ROW"]
    for na, nb in itertools.combinations_with_replacement(names, 2):
        for swapped in (False, True):
            out.append(pair(na, nb, swapped))
            if {na, nb} <= NUMERIC or na == nb:
                out.append(pair(na, nb, swapped, conv.get_arithmetic_type))
    out += [no_arithmetic(n) for n in shapes.TYPES]
    out += [rows(True), rows(False)]
    return out
