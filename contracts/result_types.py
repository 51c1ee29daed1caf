"""The result type of every value class, as a function of its parts (Trino's documentation; not derived from treeno's code).

spec(cls name, parts) -> type key, where parts maps the attribute names to nodes or plain values. Raises NoType where there's no
common type, and Invalid where the node can't exist."""
from oracles.p08 import mk, join, arithmetic, key, UNKNOWN, NoType, get  # noqa: F401

B, V = "BOOLEAN", "VARCHAR"


class Invalid(Exception):
    pass


def T_(v):
    return key(v.data_type)


def join_known(ks):
    ks = [k for k in ks if k[0] != "UNKNOWN"]
    if not ks:
        return UNKNOWN
    r = ks[0]
    for k in ks[1:]:
        r = join(r, k)
    return r


def array(k):
    return mk("ARRAY", dtype=k)


def map_(a, b):
    return mk("MAP", from_dtype=a, to_dtype=b)


DAY_SECOND = mk("INTERVAL", from_interval="DAY", to_interval="SECOND")
YEAR_MONTH = mk("INTERVAL", from_interval="YEAR", to_interval="MONTH")
CONST = {}
for _t, _names in {
    "BOOLEAN": "Not Equal NotEqual GreaterThan GreaterThanOrEqual LessThan LessThanOrEqual And Or IsNull DistinctFrom Between InList InQuery Like "
               "BoolAnd BoolOr Every LuhnCheck",
    "BIGINT": "Count CountIf BitwiseAndAgg BitwiseOrAgg ApproxDistinct ToMilliseconds DateDiff HammingDistance Length LevenshteinDistance",
    "INTEGER": "CodePoint",
    "DOUBLE": "Avg GeometricMean Corr CovarPop CovarSamp Kurtosis RegrIntercept RegrSlope Skewness StdDev StdDevPop StdDevSamp Variance VarPop VarSamp "
              "ToUnixtime Power",
    "VARCHAR": "ListAgg ToISO8601 HumanReadableSeconds Chr Lower LPad LTrim Replace Reverse RPad RTrim Soundex Normalize FromUTF8 "
               "CurrentUser CurrentCatalog CurrentSchema CurrentPath",
    "VARBINARY": "Checksum ToUTF8",
    "DATE": "CurrentDate Date LastDayOfMonth FromISO8601Date",
    "HYPERLOGLOG": "ApproxSet",
    "TDIGEST": "TDigestAgg",
    "UNKNOWN": "Lambda Star",
}.items():
    for _n in _names.split():
        CONST[_n] = mk(_t)
for _n, _p in {"FromISO8601Timestamp": 3, "FromISO8601TimestampNanos": 9, "FromUnixtime": 3, "FromUnixtimeNanos": 9, "Now": 3}.items():
    CONST[_n] = mk("TIMESTAMP", precision=_p, timezone=True)
CONST["ParseDuration"] = DAY_SECOND
CONST["NumericHistogram"] = map_(mk("DOUBLE"), mk("DOUBLE"))
# the same type as one of the parts
SAME = {"Positive": "value", "Negative": "value", "Sum": "value", "Arbitrary": "value", "MapUnion": "value", "DateTrunc": "value", "DateAdd": "timestamp",
        "NullIf": "value1", "Try": "expr", "AliasedValue": "value", "AliasedStar": "star", "When": "value", "Else": "value"}
ARITHMETIC = ["Add", "Multiply", "Divide", "Modulus"]
GIVEN = ["Cast", "TryCast", "Field", "Variable", "Literal"]  # the type is an argument


def layers(k):
    return layers(get(k, "dtype")) + 1 if k[0] == "ARRAY" else 0


def concatenate(ks):
    names = {k[0] for k in ks}
    if "UNKNOWN" in names:
        return UNKNOWN
    if "ARRAY" in names:
        n = [layers(k) for k in ks]
        if max(n) - min(n) > 1:
            raise Invalid
        r = None
        for k, c in zip(ks, n):
            e = get(k, "dtype") if c == max(n) else k
            r = e if r is None else join(r, e)
        return array(r)
    if names == {"VARCHAR"}:
        return mk("VARCHAR")
    if names <= {"VARCHAR", "CHAR"}:
        total = 0
        for k in ks:
            m = get(k, "max_chars")
            total += 65536 if m is None else min(m, 65536)
        return mk("CHAR", max_chars=min(65536, total))
    if names == {"VARBINARY"}:
        return mk("VARBINARY")
    return UNKNOWN


def spec(name, p):
    if name in CONST:
        return CONST[name]
    if name in SAME:
        return T_(p[SAME[name]])
    if name in ARITHMETIC or name == "Minus":
        a, b = T_(p["left"]), T_(p["right"])
        if name == "Minus" and ({a[0], b[0]} <= {"DATE", "TIMESTAMP"} or a[0] == b[0] == "TIME"):
            return DAY_SECOND
        return arithmetic(a, b)
    if name in ("Array", "Coalesce"):
        if name == "Array" and not p["values"]:
            raise Invalid
        r = join_known([T_(v) for v in p["values"]])
        return array(r) if name == "Array" else r
    if name == "RowConstructor":
        return ("ROW", tuple(T_(v) for v in p["values"]))
    if name == "Subscript":
        k = T_(p["value"])
        return get(k, "dtype") if k[0] == "ARRAY" else get(k, "to_dtype") if k[0] == "MAP" else UNKNOWN
    if name == "Case":
        return join_known([T_(b) for b in p["branches"]] + ([T_(p["else_"])] if p["else_"] is not None else []))
    if name == "Interval":
        return YEAR_MONTH if p["from_interval"] in ("YEAR", "MONTH") else DAY_SECOND
    if name == "If":
        a = T_(p["true_value"])
        return a if p["false_value"] is None else join(a, T_(p["false_value"]))
    if name == "Concatenate":
        return concatenate([T_(v) for v in p["values"]])
    if name == "ArrayAgg":
        return array(T_(p["value"]))
    if name in ("Max", "MaxBy", "Min", "MinBy"):
        k = T_(p["value"])
        return k if p["num_values"] is None else array(k)
    if name in ("Histogram", "ApproxMostFrequent"):
        return map_(T_(p["value"]), mk("BIGINT"))
    if name == "MapAgg":
        return map_(T_(p["key"]), T_(p["value"]))
    if name == "MultiMapAgg":
        return map_(T_(p["key"]), array(T_(p["value"])))
    if name == "ApproxPercentile":
        k = T_(p["percentage"])
        return UNKNOWN if k == UNKNOWN else array(T_(p["value"])) if k[0] == "ARRAY" else T_(p["value"])
    if name == "Merge":
        k = T_(p["value"])
        return k if k[0] in ("TDIGEST", "QDIGEST", "UNKNOWN") else mk("HYPERLOGLOG")
    if name == "QDigestAgg":
        return mk("QDIGEST", dtype=T_(p["value"]))
    if name in ("CurrentTime", "CurrentTimestamp"):
        return mk("TIME" if name == "CurrentTime" else "TIMESTAMP", precision=p["precision"], timezone=True)
    if name in ("LocalTime", "LocalTimestamp"):
        return mk("TIME" if name == "LocalTime" else "TIMESTAMP", precision=p["precision"], timezone=False)
    if name in ("AtTimezone", "WithTimezone"):
        k = T_(p["value"])
        return mk("TIMESTAMP", **{**dict(k[1:]), "timezone": True}) if k[0] == "TIMESTAMP" else UNKNOWN
    if name == "TypeConstructor":
        from oracles import p07, p09
        from decimal import Decimal
        t, v = p["type_name"].upper(), p["value"]
        if t == "DECIMAL":
            k = p09.expected(Decimal(v))
            if k is None:
                raise Invalid
            return k
        if t == "CHAR":
            return mk("CHAR", max_chars=len(v))
        if t in ("TIME", "TIMESTAMP"):
            import re
            m = re.search(r"\d:\d+(?::\d+)?(?:\.(\d*))?", v)
            return mk(t, precision=len(m.group(1) or ""), timezone=False) if m else None
        return None
    # queries, when nothing was resolved yet
    if name == "SelectQuery":
        ks = [T_(s) for s in p["select"]]
        if any(type(s).__name__ in ("Star", "AliasedStar") for s in p["select"]):
            return UNKNOWN
        return ks[0] if len(ks) == 1 else ("ROW", tuple(ks))
    if name in ("UnionQuery", "IntersectQuery", "ExceptQuery"):
        return join(T_(p["left_query"]), T_(p["right_query"]))
    if name == "ValuesQuery":
        return join_known([T_(v) for v in p["exprs"]])
    return None
