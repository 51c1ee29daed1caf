"""The SQL functions treeno knows: name -> (class, attributes in the order of the SQL arguments, number of required ones).

Written down from Trino's documentation of each function. Overloads in which the position of an argument depends on how many there are have an
entry per number of arguments."""
ONE = 1


def f(cls, *attrs, req=None):
    return cls, attrs, len(attrs) if req is None else req


FUNCTIONS = {
    "SUM": f("Sum", "value"), "ARBITRARY": f("Arbitrary", "value"), "ARRAY_AGG": f("ArrayAgg", "value"), "AVG": f("Avg", "value"),
    "BOOL_AND": f("BoolAnd", "value"), "BOOL_OR": f("BoolOr", "value"), "CHECKSUM": f("Checksum", "value"), "COUNT": f("Count", "value"),
    "COUNT_IF": f("CountIf", "value"), "EVERY": f("Every", "value"), "GEOMETRIC_MEAN": f("GeometricMean", "value"),
    "MAX": f("Max", "value", "num_values", req=1), "MAX_BY": f("MaxBy", "value", "max_by", "num_values", req=2),
    "MIN": f("Min", "value", "num_values", req=1), "MIN_BY": f("MinBy", "value", "min_by", "num_values", req=2),
    "BITWISE_AND_AGG": f("BitwiseAndAgg", "value"), "BITWISE_OR_AGG": f("BitwiseOrAgg", "value"), "HISTOGRAM": f("Histogram", "value"),
    "MAP_AGG": f("MapAgg", "key", "value"), "MAP_UNION": f("MapUnion", "value"), "MULTIMAP_AGG": f("MultiMapAgg", "key", "value"),
    "APPROX_DISTINCT": f("ApproxDistinct", "key", "epsilon", req=1), "APPROX_MOST_FREQUENT": f("ApproxMostFrequent", "buckets", "value", "capacity"),
    "APPROX_PERCENTILE": {2: f("ApproxPercentile", "value", "percentage"), 3: f("ApproxPercentile", "value", "weight", "percentage")},
    "APPROX_SET": f("ApproxSet", "value"), "MERGE": f("Merge", "value"),
    "NUMERIC_HISTOGRAM": f("NumericHistogram", "buckets", "value", "weight", req=2),
    "QDIGEST_AGG": f("QDigestAgg", "value", "weight", "accuracy", req=1), "TDIGEST_AGG": f("TDigestAgg", "value", "weight", req=1),
    "CORR": f("Corr", "y", "x"), "COVAR_POP": f("CovarPop", "y", "x"), "COVAR_SAMP": f("CovarSamp", "y", "x"), "KURTOSIS": f("Kurtosis", "y", "x"),
    "REGR_INTERCEPT": f("RegrIntercept", "y", "x"), "REGR_SLOPE": f("RegrSlope", "y", "x"), "SKEWNESS": f("Skewness", "value"),
    "STDDEV": f("StdDev", "value"), "STDDEV_POP": f("StdDevPop", "value"), "STDDEV_SAMP": f("StdDevSamp", "value"),
    "VARIANCE": f("Variance", "value"), "VAR_POP": f("VarPop", "value"), "VAR_SAMP": f("VarSamp", "value"),
    "IF": f("If", "condition", "true_value", "false_value", req=2), "NULLIF": f("NullIf", "value1", "value2"), "TRY": f("Try", "expr"),
    "DATE": f("Date", "value"), "LAST_DAY_OF_MONTH": f("LastDayOfMonth", "value"), "FROM_ISO8601_TIMESTAMP": f("FromISO8601Timestamp", "value"),
    "FROM_ISO8601_TIMESTAMP_NANOS": f("FromISO8601TimestampNanos", "value"), "FROM_ISO8601_DATE": f("FromISO8601Date", "value"),
    "AT_TIMEZONE": f("AtTimezone", "value", "zone"), "WITH_TIMEZONE": f("WithTimezone", "value", "zone"),
    "FROM_UNIXTIME": {1: f("FromUnixtime", "value"), 2: f("FromUnixtime", "value", "zone"), 3: f("FromUnixtime", "value", "hours", "minutes")},
    "FROM_UNIXTIME_NANOS": f("FromUnixtimeNanos", "value"), "NOW": f("Now"), "TO_ISO8601": f("ToISO8601", "value"),
    "TO_MILLISECONDS": f("ToMilliseconds", "value"), "TO_UNIXTIME": f("ToUnixtime", "value"), "DATE_TRUNC": f("DateTrunc", "unit", "value"),
    "DATE_ADD": f("DateAdd", "unit", "value", "timestamp"), "DATE_DIFF": f("DateDiff", "unit", "timestamp1", "timestamp2"),
    "PARSE_DURATION": f("ParseDuration", "value"), "HUMAN_READABLE_SECONDS": f("HumanReadableSeconds", "value"),
    "POWER": f("Power", "x", "p"),
    "CHR": f("Chr", "number"), "CODEPOINT": f("CodePoint", "string"), "HAMMING_DISTANCE": f("HammingDistance", "string1", "string2"),
    "LENGTH": f("Length", "string"), "LEVENSHTEIN_DISTANCE": f("LevenshteinDistance", "string1", "string2"), "LOWER": f("Lower", "string"),
    "LPAD": f("LPad", "string", "size", "pad_string"), "LTRIM": f("LTrim", "string"), "LUHN_CHECK": f("LuhnCheck", "string"),
    "REPLACE": f("Replace", "string", "search", "replace", req=2), "REVERSE": f("Reverse", "string"), "RPAD": f("RPad", "string", "size", "pad_string"),
    "RTRIM": f("RTrim", "string"), "SOUNDEX": f("Soundex", "string"), "TO_UTF8": f("ToUTF8", "string"),
    "FROM_UTF8": f("FromUTF8", "binary", "replace", req=1),
}
# All arguments go into one list
VARIADIC = {"COALESCE": ("Coalesce", "values"), "CONCAT": ("Concatenate", "values")}
# Without parentheses; True if there may be a precision
SPECIAL = {"CURRENT_DATE": ("CurrentDate", False), "CURRENT_TIME": ("CurrentTime", True), "CURRENT_TIMESTAMP": ("CurrentTimestamp", True),
           "LOCALTIME": ("LocalTime", True), "LOCALTIMESTAMP": ("LocalTimestamp", True), "CURRENT_USER": ("CurrentUser", False),
           "CURRENT_CATALOG": ("CurrentCatalog", False), "CURRENT_SCHEMA": ("CurrentSchema", False), "CURRENT_PATH": ("CurrentPath", False)}
OTHER = {"LISTAGG": "ListAgg", "NORMALIZE": "Normalize"}
AGGREGATES = """SUM ARBITRARY ARRAY_AGG AVG BOOL_AND BOOL_OR CHECKSUM COUNT COUNT_IF EVERY GEOMETRIC_MEAN MAX MAX_BY MIN MIN_BY BITWISE_AND_AGG
BITWISE_OR_AGG HISTOGRAM MAP_AGG MAP_UNION MULTIMAP_AGG APPROX_DISTINCT APPROX_MOST_FREQUENT APPROX_PERCENTILE APPROX_SET MERGE NUMERIC_HISTOGRAM
QDIGEST_AGG TDIGEST_AGG CORR COVAR_POP COVAR_SAMP KURTOSIS REGR_INTERCEPT REGR_SLOPE SKEWNESS STDDEV STDDEV_POP STDDEV_SAMP VARIANCE VAR_POP
VAR_SAMP""".split()


def overloads(name):
    """(number of arguments, class, attribute of each argument) of every form"""
    e = FUNCTIONS[name]
    if isinstance(e, dict):
        return [(n, c, a) for n, (c, a, r) in e.items()]
    c, a, r = e
    return [(n, c, a[:n]) for n in range(r, len(a) + 1)]
