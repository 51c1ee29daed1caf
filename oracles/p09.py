"""Types of literals: for Python values and for SQL text."""
import itertools
import random
from decimal import Decimal
from vlib import T, gen, same
from oracles.p08 import key, mk


def digits(text):
    """(precision, scale) of a plain decimal text: all digits are counted, except that nothing else is"""
    t = text.lstrip("+-")
    whole, dot, frac = t.partition(".")
    return len(whole) + len(frac), len(frac)


def plain(d):
    """Positional text of a decimal, from its digits and exponent"""
    sign, ds, exp = d.as_tuple()
    s = "".join(map(str, ds))
    if exp >= 0:
        # a zero has one digit
        return ("-" if sign else "") + (s + "0" * exp if s.strip("0") else s)
    s = s.rjust(-exp + 1, "0")
    return ("-" if sign else "") + s[:exp] + "." + s[exp:]


def expected(v):
    if isinstance(v, bool):
        return mk("BOOLEAN")
    if isinstance(v, int):
        return mk("INTEGER") if -2**31 <= v <= 2**31 - 1 else mk("BIGINT")
    if isinstance(v, float):
        return mk("DOUBLE")
    if isinstance(v, str):
        return mk("VARCHAR", max_chars=len(v))
    p, s = digits(plain(v))
    return mk("DECIMAL", precision=p, scale=s) if p <= 38 else None


def value(v):
    want = expected(v)
    for name, f in (("wrap_literal", lambda x: T.wrap_literal(x).data_type), ("infer_type", T.infer_type),
                    ("x + value", lambda x: (T.Field("x") + x).right.data_type)):
        try:
            got = key(f(v))
        except Exception as ex:
            if want is None:
                continue
            return f"{name}({v!r}) raises {type(ex).__name__}: {ex}"
        if got != want:
            return f"{name}({v!r}) has the type {got}, expected {want}"
    lit = T.wrap_literal(v) if want else None
    if lit is not None and (type(lit.value) is not type(v) or repr(lit.value) != repr(v)):
        return f"wrap_literal({v!r}) holds {lit.value!r}"


def values(n, seed):
    def mk_():
        yield from (True, False)
        for b in (0, 1, 2**31, 2**32, 2**63, 2**15, 2**7, 10**9, 10**10, 10**18):
            for d in (-2, -1, 0, 1, 2):
                yield b + d
                yield -(b + d)
        yield from gen.FLOATS
        yield from (0.0, -0.0, 1.5, -1.5, 1e16, 1e-5, 100.0)
        yield from gen.STRINGS
        yield from ("x" * k for k in (0, 1, 2, 100, 1000))
        yield from gen.DECIMALS
        for sign, ds, exp in itertools.product((0, 1), ((0,), (1,), (1, 2, 3), (1, 0, 0), (0, 0, 1), (9,) * 38, (9,) * 39, (5,) * 20), range(-40, 12)):
            yield Decimal((sign, ds, exp))
        r = random.Random(seed)
        for _ in range(n):
            k = r.randrange(4)
            if k == 0:
                yield r.randint(-2**r.randint(1, 70), 2**r.randint(1, 70))
            elif k == 1:
                yield r.uniform(-10**r.randint(0, 20), 10**r.randint(0, 20))
            elif k == 2:
                yield "".join(chr(r.choice([39, 34, 97, 92, 10, 9731, 0x1d4b3])) for _ in range(r.randint(0, 30)))
            else:
                yield Decimal((r.randint(0, 1), tuple(r.randint(0, 9) for _ in range(r.randint(1, 38))), r.randint(-39, 5)))
    return mk_


def texts(n, seed):
    """(SQL, type key, Python value or None)"""
    def mk_():
        for i in (0, 1, 7, 2**31 - 1, 2**31, 2**31 + 1, 2**32, 10**18, 123456789, 2**63 - 1):
            k = mk("INTEGER") if i < 2**31 else mk("BIGINT")
            yield str(i), k, i
            yield "00" + str(i), k, i
            if i < 2**31:
                yield f"-{i}", mk("INTEGER"), None
            yield f"- {i}", None, None
        yield "-2147483648", mk("INTEGER"), None
        yield "-2147483649", mk("BIGINT"), None
        for s in ("1.5", "0.5", ".5", "5.", "00.50", "1.000", "123.456", "0.0", "12345678901234567890.123456789", "9" * 38 + ".", "." + "1" * 37, "007.10"):
            p, sc = digits(s)
            yield s, mk("DECIMAL", precision=None, scale=sc), Decimal(s)
            yield "-" + s, mk("DECIMAL", precision=None, scale=sc), None
        for s in ("1E0", "1.5E10", ".5E-3", "5.E+3", "1E300", "123.456E7"):
            yield s, mk("DOUBLE"), float(s)
            yield "-" + s, mk("DOUBLE"), None
        for s in ("true", "TRUE"):
            yield s, mk("BOOLEAN"), True
        yield "false", mk("BOOLEAN"), False
        for s in gen.STRINGS:
            yield "'" + s.replace("'", "''") + "'", mk("VARCHAR", max_chars=len(s)), s
        yield "NULL", mk("UNKNOWN"), None
        yield "null", mk("UNKNOWN"), None
        yield "U&'\\0041b'", mk("VARCHAR", max_chars=2), "Ab"
        r = random.Random(seed)
        for _ in range(n):
            i = r.randint(0, 2**r.randint(1, 63) - 1)
            yield str(i), mk("INTEGER") if i < 2**31 else mk("BIGINT"), i
            a, b = str(r.randint(1, 10**r.randint(1, 18))), "".join(r.choice("0123456789") for _ in range(r.randint(0, 18)))
            s = a + "." + b
            yield s, mk("DECIMAL", precision=None, scale=len(b)), Decimal(s)
            e = f"{s}E{r.randint(-30, 30)}"
            yield e, mk("DOUBLE"), float(e)
    return mk_


def text(case):
    s, want, v = case
    if want is None:
        return None
    try:
        e = T.expression_from_sql(s)
    except Exception as ex:
        return f"literal {s!r} raises {type(ex).__name__}: {ex}"
    got = key(e.data_type)
    if want[0] == "DECIMAL":
        # leading zeros of the text aren't kept by Python's decimals; the written digits are those of the value
        d = dict(got[1:])
        inner = e.value if isinstance(e, T.Negative) else e
        if got[0] != "DECIMAL" or d.get("scale") != dict(want[1:])["scale"]:
            return f"literal {s!r} has the type {got}, expected scale {dict(want[1:])['scale']}"
        if not isinstance(inner, T.Literal) or not isinstance(inner.value, Decimal):
            return f"literal {s!r} is {same.describe(e)}"
        p, sc = digits(plain(inner.value))
        if d["precision"] != p:
            return f"literal {s!r} has the precision {d['precision']}, expected {p}"
        significant = s.lstrip("+-").lstrip("0").replace(".", "")
        if not max(len(significant), 1) <= d["precision"] <= len(s.lstrip("+-").replace(".", "")) + 1:
            return f"literal {s!r} has the precision {d['precision']}"
    elif got != want:
        return f"literal {s!r} has the type {got}, expected {want}"
    if v is not None and not (isinstance(e, T.Literal) and type(e.value) is type(v) and e.value == v):
        return f"literal {s!r} is {same.describe(e)}, expected the value {v!r}"


def temporal():
    zones = ["", " UTC", " +02:00", "+02:00", "-05:30", " America/New_York"]
    for frac in range(0, 13):
        f = "." + "123456789012"[:frac] if frac else ""
        for z in zones:
            yield "12:34:56" + f + z, "TIME", frac
            yield "2020-01-01 12:34:56" + f + z, "TIMESTAMP", frac


def temporal_oracle(case):
    v, name, p = case
    want = mk(name, precision=p, timezone=False)
    for what, f in (("tree", lambda: T.TypeConstructor(v, name)), ("text", lambda: T.expression_from_sql(f"{name} '{v}'"))):
        try:
            got = key(f().data_type)
        except Exception as ex:
            return f"{name} '{v}' ({what}) raises {type(ex).__name__}: {ex}"
        if dict(got[1:]).get("precision") != p or got[0] != name:
            return f"{name} '{v}' ({what}) has the type {got}, expected the precision {p}"


def bounded(rep, tier, seed):
    n = 4000 if tier == "quick" else 200000
    rep.cases("Python values", values(n, seed), value)
    rep.cases("literals in SQL", texts(n // 2, seed), text)
    rep.cases("times and timestamps", temporal, temporal_oracle)

