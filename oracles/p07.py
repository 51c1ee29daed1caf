"""Which data types exist, written down from the Trino type system and not from treeno's tables."""
import itertools
from vlib import T, gen, same

PLAIN = ["BOOLEAN", "INTEGER", "TINYINT", "SMALLINT", "BIGINT", "REAL", "DOUBLE", "VARBINARY", "JSON", "DATE", "IPADDRESS", "UUID",
         "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST", "UNKNOWN"]
PARAMETERS = {"DECIMAL": ["precision", "scale"], "VARCHAR": ["max_chars"], "CHAR": ["max_chars"], "TIME": ["precision", "timezone"],
              "TIMESTAMP": ["precision", "timezone"], "ARRAY": ["dtype"], "QDIGEST": ["dtype"], "MAP": ["from_dtype", "to_dtype"],
              "ROW": ["dtypes"], "INTERVAL": ["from_interval", "to_interval"]}
NAMES = PLAIN + list(PARAMETERS)


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def expected(name, params):
    """The parameters the type must have, or None if there's no such type"""
    if not isinstance(name, str) or name.upper() not in NAMES:
        return None
    name = name.upper()
    if set(params) - set(PARAMETERS.get(name, [])):
        return None
    p = dict(params)
    if name in PLAIN:
        return p
    if name == "DECIMAL":
        p.setdefault("precision", 38)
        p.setdefault("scale", 0)
        ok = is_int(p["precision"]) and is_int(p["scale"]) and 1 <= p["precision"] <= 38 and 0 <= p["scale"] <= p["precision"]
    elif name == "VARCHAR":
        ok = "max_chars" not in p or (is_int(p["max_chars"]) and p["max_chars"] >= 0)
    elif name == "CHAR":
        p.setdefault("max_chars", 1)
        ok = is_int(p["max_chars"]) and 0 <= p["max_chars"] <= 65536
    elif name in ("TIME", "TIMESTAMP"):
        p.setdefault("timezone", False)
        ok = ("precision" not in p or (is_int(p["precision"]) and 0 <= p["precision"] <= 12)) and isinstance(p["timezone"], bool)
    elif name in ("ARRAY", "QDIGEST"):
        ok = isinstance(p.get("dtype"), T.DataType)
    elif name == "MAP":
        ok = isinstance(p.get("from_dtype"), T.DataType) and isinstance(p.get("to_dtype"), T.DataType)
    elif name == "ROW":
        ok = isinstance(p.get("dtypes"), list) and len(p["dtypes"]) > 0 and all(isinstance(t, T.DataType) for t in p["dtypes"])
    else:
        ok = (p.get("from_interval"), p.get("to_interval")) in (("YEAR", "MONTH"), ("DAY", "SECOND"))
    return p if ok else None


def pool(param):
    i, v = T.tb.integer(), T.tb.varchar(max_chars=3)
    if param in ("precision", "scale", "max_chars"):
        return [-1, 0, 1, 2, 3, 12, 13, 37, 38, 39, 65536, 65537, True, False, "1", 1.0, None]
    if param == "timezone":
        return [True, False, 0, 1, "true", None]
    if param in ("dtype", "from_dtype", "to_dtype"):
        return [i, v, T.tb.array(dtype=v), T.tb.row(dtypes=[i, v]), "INTEGER", None, [i]]
    if param == "dtypes":
        return [[i], [i, v], [i, T.tb.row(dtypes=[v])], [], (i,), ["INTEGER"], [i, None], i, None]
    return ["YEAR", "MONTH", "DAY", "SECOND", "HOUR", "year", None, ""]


def cases():
    for name in NAMES + ["integer", "Varchar", "Decimal", "row", "NOTATYPE", "", "INT", "IP", "STRING"]:
        own = PARAMETERS.get(name.upper(), [])
        opts = [[None] + [(p, v) for v in pool(p)] for p in own]
        for combo in itertools.product(*opts):
            yield name, dict(c for c in combo if c)
        for other in {p for ps in PARAMETERS.values() for p in ps} - set(own):
            yield name, {other: pool(other)[1]}
            yield name, {**{p: pool(p)[1] for p in own}, other: pool(other)[1]}
        yield name, {**{p: pool(p)[1] for p in own}, "other": 1}


def oracle(case):
    name, params = case
    want = expected(name, params)
    given = dict(params)
    try:
        t = T.DataType(name, parameters=params)
    except Exception as ex:
        if want is not None:
            return f"DataType({name!r}, {same.describe(given)}) is valid but raises {type(ex).__name__}: {ex}"
        return None
    if want is None:
        return f"DataType({name!r}, {same.describe(given)}) isn't a type, but was created with {same.describe(t.parameters)}"
    if t.type_name != name.upper() or same.diff(dict(sorted(t.parameters.items())), dict(sorted(want.items()))):
        return f"DataType({name!r}, {same.describe(given)}) has {t.type_name} {same.describe(t.parameters)}, expected {same.describe(want)}"
    return trip(t)


def text_of(t):
    """The SQL of a type, independent of treeno's printing"""
    n, p = t.type_name, t.parameters
    if n in ("TIME", "TIMESTAMP"):
        return n + (f"({p['precision']})" if "precision" in p else "") + (" WITH TIME ZONE" if p["timezone"] else "")
    if n == "DECIMAL":
        return f"DECIMAL({p['precision']},{p['scale']})"
    if n in ("VARCHAR", "CHAR"):
        return n + (f"({p['max_chars']})" if "max_chars" in p else "")
    if n == "ROW":
        return "ROW(" + ",".join(map(text_of, p["dtypes"])) + ")"
    if n in ("ARRAY", "QDIGEST"):
        return f"{n}({text_of(p['dtype'])})"
    if n == "MAP":
        return f"MAP({text_of(p['from_dtype'])},{text_of(p['to_dtype'])})"
    if n == "INTERVAL":
        return f"INTERVAL {p['from_interval']} TO {p['to_interval']}"
    return n


def squeeze(s):
    return s.replace(", ", ",").replace(" ,", ",")


def trip(t):
    s = str(t)
    if squeeze(s) != text_of(t):
        return f"{same.describe(t)} prints {s!r}, expected {text_of(t)!r}"
    for mode in T.PrintMode:
        if squeeze(" ".join(t.sql(T.PrintOptions(mode=mode)).split())) != text_of(t):
            return f"{same.describe(t)} prints {t.sql(T.PrintOptions(mode=mode))!r} in {mode}"
    for text in (s, s.lower(), text_of(t).replace(",", " , ")):
        try:
            back = T.type_from_sql(text)
        except Exception as ex:
            return f"{same.describe(t)}: {text!r} can't be parsed: {type(ex).__name__}: {ex}"
        d = same.diff(content(t), content(back))
        if d:
            return f"{same.describe(t)}: {text!r} parses to {same.describe(back)}: {d}"
    return None


def content(t):
    if isinstance(t, T.DataType):
        return [t.type_name, sorted((k, content(v)) for k, v in t.parameters.items())]
    if isinstance(t, list):
        return [content(e) for e in t]
    return t


def nested(depth):
    base = gen.types()
    import random
    r = random.Random(depth)

    def grow(k):
        if k == 0:
            return r.choice(base)
        c = r.randrange(4)
        if c == 0:
            return T.tb.array(dtype=grow(k - 1))
        if c == 1:
            return T.tb.map_(from_dtype=grow(k - 1), to_dtype=grow(r.randrange(k)))
        if c == 2:
            return T.tb.qdigest(dtype=grow(k - 1))
        return T.tb.row(dtypes=[grow(r.randrange(k)) for _ in range(r.randint(1, 4))])
    for i in range(depth):
        yield grow(r.randint(1, 4))


def params():
    b = T.tb
    for p in range(1, 39):
        for s in range(0, p + 1):
            yield b.decimal(precision=p, scale=s)
    for p in range(13):
        for z in (True, False):
            yield b.time(precision=p, timezone=z)
            yield b.timestamp(precision=p, timezone=z)
    for z in (True, False):
        yield b.time(timezone=z)
        yield b.timestamp(timezone=z)
    for n in (0, 1, 2, 10, 65536, 10**9, 2**31 - 1, 10**12):
        yield b.varchar(max_chars=n)
        if n <= 65536:
            yield b.char(max_chars=n)
    yield from gen.types()
    yield b.unknown()


BUILDERS = {"boolean": "BOOLEAN", "tinyint": "TINYINT", "smallint": "SMALLINT", "integer": "INTEGER", "bigint": "BIGINT", "real": "REAL",
            "double": "DOUBLE", "decimal": "DECIMAL", "varchar": "VARCHAR", "char": "CHAR", "varbinary": "VARBINARY", "json": "JSON",
            "date": "DATE", "time": "TIME", "timestamp": "TIMESTAMP", "interval": "INTERVAL", "array": "ARRAY", "map_": "MAP", "row": "ROW",
            "unknown": "UNKNOWN", "ip": "IPADDRESS", "uuid": "UUID", "hll": "HYPERLOGLOG", "p4hll": "P4HYPERLOGLOG", "qdigest": "QDIGEST",
            "tdigest": "TDIGEST"}


def builder(item):
    fn, name = item
    f = getattr(T.tb, fn)
    if name in PLAIN:
        t = f()
        return None if (t.type_name, t.parameters) == (name, {}) else f"builder.{fn}() is {same.describe(t)}"
    opts = [[None] + [(p, v) for v in pool(p)] for p in PARAMETERS[name]]
    for combo in itertools.product(*opts):
        kw = dict(c for c in combo if c)
        want = expected(name, kw)
        try:
            t = f(**kw)
        except Exception as ex:
            if want is not None:
                return f"builder.{fn}(**{same.describe(kw)}) raises {type(ex).__name__}: {ex}"
            continue
        if want is None or t.type_name != name or content(dict_type(want, name)) != content(t):
            return f"builder.{fn}(**{same.describe(kw)}) is {same.describe(t)}"


def dict_type(p, name):
    class X:
        pass
    t = T.DataType.__new__(T.DataType)
    t.type_name, t.parameters = name, p
    return t


# Other spellings in SQL of the same types
SPELLINGS = [("DOUBLE PRECISION", lambda b: b.double()), ("ARRAY<INTEGER>", None), ("INTEGER ARRAY", lambda b: b.array(dtype=b.integer())),
             ("INTEGER ARRAY[3]", None), ("INTEGER ARRAY ARRAY", lambda b: b.array(dtype=b.array(dtype=b.integer()))),
             ("TIMESTAMP WITHOUT TIME ZONE", lambda b: b.timestamp()), ("TIME (3) WITHOUT TIME ZONE", lambda b: b.time(precision=3)),
             ("TIME WITH TIME ZONE", lambda b: b.time(timezone=True)), ("timestamp(3) with time zone", lambda b: b.timestamp(precision=3, timezone=True)),
             ("DECIMAL(5)", lambda b: b.decimal(precision=5)), ("DECIMAL", lambda b: b.decimal()), ("CHAR", lambda b: b.char()),
             ("VARCHAR", lambda b: b.varchar()), ("MAP(VARCHAR(3), ARRAY(ROW(INTEGER, DECIMAL(3,1))))", lambda b: b.map_(
                 from_dtype=b.varchar(max_chars=3), to_dtype=b.array(dtype=b.row(dtypes=[b.integer(), b.decimal(precision=3, scale=1)])))),
             ("INTERVAL YEAR TO MONTH", lambda b: b.interval(from_interval="YEAR", to_interval="MONTH")),
             ("interval day to second", lambda b: b.interval(from_interval="DAY", to_interval="SECOND")),
             # not types
             ("INTEGER(3)", None), ("DECIMAL(5,6)", None), ("DECIMAL(39)", None), ("DECIMAL(5,2,1)", None), ("VARCHAR(1,2)", None), ("CHAR(65537)", None),
             ("ROW()", None), ("ARRAY(INTEGER,INTEGER)", None), ("MAP(INTEGER)", None), ("INTERVAL YEAR TO SECOND", None), ("INTERVAL DAY TO DAY", None),
             ("TIMESTAMP(13)", None), ("NOTATYPE", None), ("VARCHAR(INTEGER)", None), ("DECIMAL(0)", None), ("ARRAY", None), ("ARRAY(3)", None),
             ("DATE(3)", None), ("INTERVAL MONTH TO YEAR", None), ("ROW(x)", None), ("ROW(NOTATYPE)", None), ("BOOLEAN(INTEGER)", None)]


def spelling(item):
    text, want = item
    try:
        t = T.type_from_sql(text)
    except Exception as ex:
        return f"type {text!r} can't be parsed: {type(ex).__name__}: {ex}" if want else None
    if want is None:
        return f"type {text!r} isn't a (supported) type, but parses to {same.describe(t)}"
    d = same.diff(content(t), content(want(T.tb)))
    return f"type {text!r} parses to {same.describe(t)}: {d}" if d else None


def bounded(rep, tier, seed):
    rep.cases("names and parameters", cases, oracle)
    rep.cases("values of the parameters", params, trip)
    rep.cases("nested types", lambda: nested(1500 if tier == "quick" else 30000), trip)
    rep.cases("builders", lambda: BUILDERS.items(), builder)
    rep.cases("spellings", lambda: SPELLINGS, spelling)

