"""The coercion lattice, written down from the Trino type system and not from treeno's tables."""
import itertools
import random
from vlib import T, gen, same
from oracles import p07

INTEGRAL = {"TINYINT": 3, "SMALLINT": 5, "INTEGER": 10, "BIGINT": 19}
NUMERIC = list(INTEGRAL) + ["REAL", "DOUBLE", "DECIMAL"]
CONTAINERS = ("ARRAY", "MAP", "ROW")
UNKNOWN, ERROR = ("UNKNOWN",), "TypeError"


class NoType(Exception):
    pass


def key(t):
    """A hashable form of a type, independent of DataType.__eq__"""
    n, p = t.type_name, t.parameters
    if n == "ROW":
        return (n, tuple(map(key, p["dtypes"])))
    return (n,) + tuple(sorted((k, key(v) if isinstance(v, T.DataType) else v) for k, v in p.items()))


def mk(n, **p):
    return (n,) + tuple(sorted(p.items()))


def get(k, name, default=None):
    return dict(k[1:]).get(name, default)


def join(a, b):
    """The least common supertype of two keys; UNKNOWN or NoType if there's none"""
    if a == b:
        return a
    na, nb = a[0], b[0]
    if "UNKNOWN" in (na, nb):
        return UNKNOWN
    names = {na, nb}
    if names <= set(NUMERIC):
        if names <= set(INTEGRAL):
            return a if INTEGRAL[na] > INTEGRAL[nb] else b
        if "DOUBLE" in names:
            return mk("DOUBLE")
        if "REAL" in names:
            return mk("REAL")
        (p1, s1), (p2, s2) = [(INTEGRAL[k[0]], 0) if k[0] in INTEGRAL else (get(k, "precision"), get(k, "scale")) for k in (a, b)]
        s = max(s1, s2)
        return mk("DECIMAL", precision=min(38, max(p1 - s1, p2 - s2) + s), scale=s)
    if names <= {"CHAR", "VARCHAR"}:
        la, lb = get(a, "max_chars"), get(b, "max_chars")
        if "CHAR" not in names:
            return mk("VARCHAR") if la is None or lb is None else mk("VARCHAR", max_chars=max(la, lb))
        return mk("CHAR", max_chars=min(65536, max(65536 if x is None else x for x in (la, lb))))
    if na == nb and na in ("TIME", "TIMESTAMP") or names == {"TIME", "TIMESTAMP"}:
        p = {"timezone": get(a, "timezone") or get(b, "timezone")}
        if get(a, "precision") is not None and get(b, "precision") is not None:
            p["precision"] = max(get(a, "precision"), get(b, "precision"))
        return mk("TIMESTAMP" if "TIMESTAMP" in names else "TIME", **p)
    if names == {"DATE", "TIMESTAMP"}:
        return a if na == "TIMESTAMP" else b
    if names == {"DATE", "TIME"}:
        return UNKNOWN
    if names == {"HYPERLOGLOG", "P4HYPERLOGLOG"}:
        return mk("HYPERLOGLOG")
    if na != nb:
        raise NoType
    if na == "ARRAY":
        return mk("ARRAY", dtype=join(get(a, "dtype"), get(b, "dtype")))
    if na == "MAP":
        return mk("MAP", from_dtype=join(get(a, "from_dtype"), get(b, "from_dtype")), to_dtype=join(get(a, "to_dtype"), get(b, "to_dtype")))
    if na == "ROW":
        if len(a[1]) != len(b[1]):
            return UNKNOWN
        return ("ROW", tuple(join(x, y) for x, y in zip(a[1], b[1])))
    return UNKNOWN  # different intervals or digests


def arithmetic(a, b):
    if a == b:
        return a
    if a[0] == b[0] and a[0] in NUMERIC + ["VARCHAR", "CHAR", "TIME", "TIMESTAMP", "INTERVAL", "ARRAY", "MAP", "ROW"]:
        return join(a, b)
    if a[0] in NUMERIC and b[0] in NUMERIC:
        return join(a, b)
    return UNKNOWN


def evaluate(f, *args):
    try:
        r = f(*args)
    except TypeError as ex:
        # the documented error, rather than an internal failure which is a TypeError as well
        return ERROR if "common" in str(ex).lower() and "type" in str(ex).lower() else f"TypeError: {ex}"
    except Exception as ex:
        return f"{type(ex).__name__}: {ex}"
    if not isinstance(r, T.DataType):
        return f"returns {r!r}"
    if p07.expected(r.type_name, r.parameters) is None or same.diff(dict(sorted(p07.expected(r.type_name, r.parameters).items())), dict(sorted(r.parameters.items()))):
        return f"ill-formed {same.describe(r)}"
    return key(r)


def spec(f, *args):
    try:
        return f(*args)
    except NoType:
        return ERROR


def oracle(pair):
    a, b = pair
    both = [a, b]
    before = same.snapshot(both)
    for name, lib, ref in (("common_supertype", T.common_supertype, join), ("get_arithmetic_type", T.get_arithmetic_type, arithmetic)):
        got, want = evaluate(lib, a, b), spec(ref, key(a), key(b))
        if got != want and not (want in (UNKNOWN, ERROR) and got in (UNKNOWN, ERROR)):
            return f"{name}({a}, {b}) is {got}, expected {want}"
        back = evaluate(lib, b, a)
        if back != got:
            return f"{name}({a}, {b}) is {got}, with the operands swapped {back}"
    if same.snapshot(both) != before:
        return f"common_supertype({a}, {b}) changed its operands"


def known(pair):
    """common_known_supertype leaves out the types that aren't known"""
    ts = list(pair)
    keys = [key(t) for t in ts if t.type_name != "UNKNOWN"]

    def ref():
        if not keys:
            return UNKNOWN
        k = keys[0]
        for o in keys[1:]:
            k = join(k, o)
        return k
    got, want = evaluate(T.common_known_supertype, iter(ts)), spec(ref)
    if got != want:
        return f"common_known_supertype([{', '.join(map(str, ts))}]) is {got}, expected {want}"


def pool(big):
    b = T.tb
    out = [b.decimal(precision=p, scale=s) for p, s in ((1, 0), (1, 1), (3, 2), (5, 0), (10, 0), (10, 2), (19, 0), (19, 19), (20, 5), (38, 0), (38, 38), (38, 19), (37, 30))]
    out += [b.varchar(max_chars=n) for n in (0, 1, 5, 65536, 65537, 10**6)] + [b.char(max_chars=n) for n in (0, 1, 5, 65535, 65536)]
    out += [f(timezone=z, **({} if p is None else {"precision": p})) for f in (b.time, b.timestamp) for z in (True, False) for p in (None, 0, 3, 12)]
    out += [b.unknown()] + gen.types0()
    d, v = b.decimal(precision=3, scale=2), b.varchar(max_chars=2)
    inner = [b.integer(), b.bigint(), d, v, b.varchar(), b.boolean(), b.unknown(), b.timestamp(precision=3), b.date(), b.array(dtype=b.integer()), b.array(dtype=d)]
    out += [b.array(dtype=t) for t in inner] + [b.qdigest(dtype=t) for t in inner[:4]]
    out += [b.row(dtypes=[t]) for t in inner] + [b.row(dtypes=[t, b.integer()]) for t in inner] + [b.row(dtypes=[v, t]) for t in inner[:4]]
    out += [b.map_(from_dtype=t, to_dtype=b.integer()) for t in inner] + [b.map_(from_dtype=v, to_dtype=t) for t in inner]
    out += [b.array(dtype=b.row(dtypes=[b.array(dtype=t), t])) for t in inner[:6]]
    if big:
        out += list(gen.types()) + list(p07.nested(200))
    seen, uniq = set(), []
    for t in out:
        if key(t) not in seen:
            seen.add(key(t))
            uniq.append(t)
    return uniq


def all_pairs(big):
    p = pool(big)

    def mk_():
        return itertools.product(p, p)
    return mk_


def decimals():
    ds = [(p, s) for p in range(1, 39, 1) for s in sorted({0, 1, p // 2, p - 1, p} & set(range(p + 1)))]
    r = random.Random(5)
    b = T.tb
    for p, s in ds:
        for q, t in r.sample(ds, 25):
            yield b.decimal(precision=p, scale=s), b.decimal(precision=q, scale=t)
        for t in gen.types0()[1:7]:
            yield b.decimal(precision=p, scale=s), t


def triples():
    r = random.Random(3)
    p = pool(False)
    by = {}
    for t in p:
        by.setdefault(t.type_name, []).append(t)
    for i in range(20000):
        n = r.choice([0, 1, 2, 3, 4])
        if r.random() < 0.7:
            base = r.choice(list(by.values())) + [T.tb.unknown()]
            yield [r.choice(base) for _ in range(n)]
        else:
            yield [r.choice(p) for _ in range(n)]


def bounded(rep, tier, seed):
    rep.cases("pairs of types", all_pairs(tier != "quick"), oracle)
    rep.cases("pairs of decimals", decimals, oracle)
    rep.cases("lists of types", triples, known)

