"""What each construct of the grammar means: for every ANTLR context class a function from the context (and V, the meaning of its parts) to the
node that represents it. Written from the grammar and Trino's documentation, with none of the library's code.

A node is a Rec: the name of its class and the attributes that aren't at their default. Unsupported stands for constructs which treeno has no node
for: converting them must raise.
"""
from contracts import functions as F


class Unsupported(Exception):
    pass


class Rec:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return f"{self.cls}({', '.join(f'{k}={v!r}' for k, v in self.fields.items())})"

    def but(self, **changes):
        return Rec(self.cls, {**self.fields, **changes})


def N(cls, **fields):
    return Rec(cls, fields)


def opt(V, ctx):
    return None if ctx is None else V(ctx)


def values(V, ctxs):
    return [V(c) for c in ctxs]


def negated(ctx, rec):
    return N("Not", value=rec) if ctx.NOT() is not None else rec


# Constructs that only pass on the meaning of their one part ----------------------------------------------------
def only_child(V, ctx):
    kids = list(ctx.getChildren())
    if len(kids) != 1 or not hasattr(kids[0], "getRuleIndex"):
        raise Unsupported(type(ctx).__name__)
    return V(kids[0])


# Queries ----------------------------------------------------------------------------------------------------------
def StatementDefault(V, ctx):
    return V(ctx.query())


def Query(V, ctx):
    query = V(ctx.queryNoWith())
    if ctx.with_() is not None:
        return query.but(with_=V(ctx.with_()))
    return query


def With_(V, ctx):
    if ctx.RECURSIVE() is not None:
        raise Unsupported("RECURSIVE")
    return values(V, ctx.namedQuery())


def NamedQuery(V, ctx):
    return N("AliasedRelation", relation=V(ctx.query()), alias=V(ctx.name), column_aliases=opt(V, ctx.columnAliases()))


CONSTRAINTS = ("orderby", "offset", "limit")


def QueryNoWith(V, ctx):
    query = V(ctx.queryTerm())
    if ctx.FETCH() is not None:
        raise Unsupported("FETCH")
    own = {}
    if ctx.ORDER() is not None:
        own["orderby"] = values(V, ctx.sortItem())
    if ctx.offset is not None:
        own["offset"] = V(ctx.offset)
    if ctx.limit is not None:
        own["limit"] = V(ctx.limit)
    if own and any(query.fields.get(c) is not None for c in CONSTRAINTS):
        raise Unsupported("constraints around a constrained query")
    return query.but(**own)


def RowCount(V, ctx):
    if ctx.QUESTION_MARK() is not None:
        raise Unsupported("?")
    return int(ctx.INTEGER_VALUE().getText())


def LimitRowCount(V, ctx):
    return None if ctx.ALL() is not None else V(ctx.rowCount())


def SortItem(V, ctx):
    rec = N("OrderTerm", value=V(ctx.expression()), order_type="ASC", null_order="LAST")
    if ctx.ordering is not None:
        rec = rec.but(order_type=ctx.ordering.text.upper())
    if ctx.nullOrdering is not None:
        rec = rec.but(null_order=ctx.nullOrdering.text.upper())
    return rec


SET_OPERATIONS = {"UNION": "UnionQuery", "INTERSECT": "IntersectQuery", "EXCEPT": "ExceptQuery"}


def SetOperation(V, ctx):
    quantifier = "DISTINCT" if ctx.setQuantifier() is None else V(ctx.setQuantifier())
    if quantifier == "ALL" and ctx.operator.text.upper() != "UNION":
        raise Unsupported("ALL in INTERSECT and EXCEPT")
    return N(SET_OPERATIONS[ctx.operator.text.upper()], left_query=V(ctx.left), right_query=V(ctx.right), set_quantifier=quantifier)


def SetQuantifier(V, ctx):
    return "DISTINCT" if ctx.DISTINCT() is not None else "ALL"


def Table(V, ctx):
    return N("TableQuery", table=table(V(ctx.qualifiedName())))


def table(names):
    if len(names) > 3:
        raise Unsupported("table name with more than three parts")
    rec = N("Table", name=names[-1])
    if len(names) > 1:
        rec = rec.but(schema=names[-2])
    if len(names) > 2:
        rec = rec.but(catalog=names[-3])
    return rec


def InlineTable(V, ctx):
    return N("ValuesQuery", exprs=values(V, ctx.expression()))


def Subquery(V, ctx):
    return V(ctx.queryNoWith())


def QuerySpecification(V, ctx):
    rec = N("SelectQuery", select=values(V, ctx.selectItem()), select_quantifier="ALL")
    if ctx.setQuantifier() is not None:
        rec = rec.but(select_quantifier=V(ctx.setQuantifier()))
    relations = ctx.relation()
    if len(relations) > 1:
        raise Unsupported("several relations in FROM")
    if len(relations) == 1:
        rec = rec.but(from_=V(relations[0]))
    if ctx.where is not None:
        rec = rec.but(where=V(ctx.where))
    if ctx.groupBy() is not None:
        rec = rec.but(groupby=V(ctx.groupBy()))
    if ctx.having is not None:
        rec = rec.but(having=V(ctx.having))
    if ctx.WINDOW() is not None:
        pairs = values(V, ctx.windowDefinition())
        windows = dict(pairs)
        if len(windows) != len(pairs):
            raise Unsupported("windows with the same name")
        rec = rec.but(window=windows)
    return rec


def SelectSingle(V, ctx):
    value = V(ctx.expression())
    if ctx.identifier() is not None:
        return N("AliasedValue", value=value, alias=V(ctx.identifier()))
    return value


def SelectAll(V, ctx):
    star = N("Star", table=None)
    if ctx.primaryExpression() is not None:
        star = N("Star", table=base(V(ctx.primaryExpression())))
    if ctx.columnAliases() is not None:
        return N("AliasedStar", star=star, aliases=V(ctx.columnAliases()))
    return star


def base(value):
    """What stands in front of a dot: the name of a relation, or a value"""
    if value.cls == "Field":
        if value.fields.get("table") is not None:
            raise Unsupported("name with more than two parts")
        return value.fields["name"]
    return value


def GroupBy(V, ctx):
    quantifier = "ALL" if ctx.setQuantifier() is None else V(ctx.setQuantifier())
    return N("GroupBy", groups=values(V, ctx.groupingElement()), groupby_quantifier=quantifier)


def SingleGroupingSet(V, ctx):
    return V(ctx.groupingSet())


def GroupingSet(V, ctx):
    return N("GroupingSet", values=values(V, ctx.expression()))


def Rollup(V, ctx):
    return N("Rollup", values=values(V, ctx.expression()))


def Cube(V, ctx):
    return N("Cube", values=values(V, ctx.expression()))


def MultipleGroupingSets(V, ctx):
    return N("GroupingSetList", groups=values(V, ctx.groupingSet()))


# Windows ----------------------------------------------------------------------------------------------------------
def WindowDefinition(V, ctx):
    return (V(ctx.name), V(ctx.windowSpecification()))


def WindowSpecification(V, ctx):
    rec = N("Window", parent_window=None, orderby=None, partitions=None, frame_type="RANGE", start_bound=UNBOUNDED, end_bound=CURRENT)
    if ctx.windowFrame() is not None:
        rec = rec.but(**V(ctx.windowFrame()).fields)
    if ctx.existingWindowName is not None:
        rec = rec.but(parent_window=V(ctx.existingWindowName))
    if ctx.PARTITION() is not None:
        rec = rec.but(partitions=values(V, ctx.partition))
    if ctx.ORDER() is not None:
        rec = rec.but(orderby=values(V, ctx.sortItem()))
    return rec


UNBOUNDED = N("UnboundedFrameBound", bound_type="PRECEDING")
CURRENT = N("CurrentFrameBound")
PATTERN_PARTS = ("MEASURES", "AFTER", "INITIAL", "SEEK", "PATTERN", "SUBSET", "DEFINE")


def WindowFrame(V, ctx):
    for part in PATTERN_PARTS:
        if getattr(ctx, part)() is not None:
            raise Unsupported("pattern recognition")
    return V(ctx.frameExtent())


def FrameExtent(V, ctx):
    rec = N("Window", frame_type=ctx.frameType.text.upper(), start_bound=V(ctx.start), end_bound=CURRENT)
    if ctx.end is not None:
        rec = rec.but(end_bound=V(ctx.end))
    return rec


def UnboundedFrame(V, ctx):
    return N("UnboundedFrameBound", bound_type=ctx.boundType.text.upper())


def CurrentRowBound(V, ctx):
    return CURRENT


def BoundedFrame(V, ctx):
    return N("BoundedFrameBound", bound_type=ctx.boundType.text.upper(), offset=V(ctx.expression()))


def Over(V, ctx):
    if ctx.windowName is not None:
        return N("Window", parent_window=V(ctx.windowName))
    return V(ctx.windowSpecification())


# Relations --------------------------------------------------------------------------------------------------------
def JoinRelation(V, ctx):
    if ctx.CROSS() is not None:
        right, config = V(ctx.right), N("JoinConfig", join_type="CROSS")
    elif ctx.NATURAL() is not None:
        right, config = V(ctx.right), N("JoinConfig", join_type=V(ctx.joinType()), natural=True)
    else:
        right, config = V(ctx.rightRelation), N("JoinConfig", join_type=V(ctx.joinType()), criteria=V(ctx.joinCriteria()))
    return N("Join", left_relation=V(ctx.left), right_relation=right, config=config)


def JoinType(V, ctx):
    if ctx.LEFT() is not None:
        return "LEFT"
    if ctx.RIGHT() is not None:
        return "RIGHT"
    if ctx.FULL() is not None:
        return "OUTER"
    return "INNER"


def JoinCriteria(V, ctx):
    if ctx.USING() is not None:
        return N("JoinUsingCriteria", column_names=values(V, ctx.identifier()))
    return N("JoinOnCriteria", constraint=V(ctx.booleanExpression()))


def RelationDefault(V, ctx):
    return V(ctx.sampledRelation())


def SampledRelation(V, ctx):
    if ctx.TABLESAMPLE() is not None:
        return N("TableSample", relation=V(ctx.patternRecognition()), sample_type=V(ctx.sampleType()), percentage=V(ctx.percentage))
    return V(ctx.patternRecognition())


def SampleType(V, ctx):
    return "BERNOULLI" if ctx.BERNOULLI() is not None else "SYSTEM"


def PatternRecognition(V, ctx):
    if ctx.MATCH_RECOGNIZE() is not None:
        raise Unsupported("MATCH_RECOGNIZE")
    return V(ctx.aliasedRelation())


def AliasedRelation(V, ctx):
    relation = V(ctx.relationPrimary())
    if ctx.identifier() is not None:
        return N("AliasedRelation", relation=relation, alias=V(ctx.identifier()), column_aliases=opt(V, ctx.columnAliases()))
    return relation


def ColumnAliases(V, ctx):
    return values(V, ctx.identifier())


def TableName(V, ctx):
    if ctx.queryPeriod() is not None:
        raise Unsupported("query period")
    return table(V(ctx.qualifiedName()))


def QualifiedName(V, ctx):
    return values(V, ctx.identifier())


def SubqueryRelation(V, ctx):
    return V(ctx.query())


def Unnest(V, ctx):
    return N("Unnest", arrays=values(V, ctx.expression()), with_ordinality=ctx.ORDINALITY() is not None)


def Lateral(V, ctx):
    return N("Lateral", subquery=V(ctx.query()))


def ParenthesizedRelation(V, ctx):
    return V(ctx.relation())


# Expressions ------------------------------------------------------------------------------------------------------
def And_(V, ctx):
    return N("And", left=V(ctx.booleanExpression(0)), right=V(ctx.booleanExpression(1)))


def Or_(V, ctx):
    return N("Or", left=V(ctx.booleanExpression(0)), right=V(ctx.booleanExpression(1)))


def LogicalNot(V, ctx):
    return N("Not", value=V(ctx.booleanExpression()))


def Predicated(V, ctx):
    if ctx.predicate() is None:
        return V(ctx.valueExpression())
    return V(ctx.predicate(), V(ctx.valueExpression()))


COMPARISONS = {"=": "Equal", "<>": "NotEqual", "!=": "NotEqual", "<": "LessThan", "<=": "LessThanOrEqual", ">": "GreaterThan", ">=": "GreaterThanOrEqual"}


def Comparison(V, ctx, left):
    return N(COMPARISONS[V(ctx.comparisonOperator())], left=left, right=V(ctx.right))


def ComparisonOperator(V, ctx):
    return ctx.getText()


def Between(V, ctx, left):
    return negated(ctx, N("Between", value=left, lower=V(ctx.lower), upper=V(ctx.upper)))


def InList(V, ctx, left):
    return negated(ctx, N("InList", value=left, exprs=values(V, ctx.expression())))


def InSubquery(V, ctx, left):
    return negated(ctx, N("InQuery", value=left, query=V(ctx.query())))


def Like(V, ctx, left):
    return negated(ctx, N("Like", value=left, pattern=V(ctx.pattern), escape=opt(V, ctx.escape)))


def NullPredicate(V, ctx, left):
    return negated(ctx, N("IsNull", value=left))


def DistinctFrom(V, ctx, left):
    return negated(ctx, N("DistinctFrom", left=left, right=V(ctx.right)))


def ValueExpressionDefault(V, ctx):
    return V(ctx.primaryExpression())


def ArithmeticUnary(V, ctx):
    return N("Negative" if ctx.operator.text == "-" else "Positive", value=V(ctx.valueExpression()))


ARITHMETIC = {"+": "Add", "-": "Minus", "*": "Multiply", "/": "Divide", "%": "Modulus"}


def ArithmeticBinary(V, ctx):
    return N(ARITHMETIC[ctx.operator.text], left=V(ctx.left), right=V(ctx.right))


def Concatenation(V, ctx):
    return N("Concatenate", values=[V(ctx.left), V(ctx.right)])


def NullLiteral(V, ctx):
    return N("Literal", value=None, data_type=T("UNKNOWN"))


def T(name, **parameters):
    return N("DataType", type_name=name, parameters=parameters)


def IntervalLiteral(V, ctx):
    return V(ctx.interval())


def Interval(V, ctx):
    text = V(ctx.string())
    if ctx.sign is not None and ctx.sign.text == "-":
        # The sign in front of the string and the one in it are multiplied
        if text.startswith("-"):
            text = text[1:]
        elif text.startswith("+"):
            text = "-" + text[1:]
        else:
            text = "-" + text
    return N("Interval", value=text, from_interval=V(ctx.from_), to_interval=opt(V, ctx.to))


def IntervalField(V, ctx):
    return ctx.getText().upper()


def TypeConstructor(V, ctx):
    if ctx.DOUBLE() is not None:
        return N("TypeConstructor", value=V(ctx.string()), type_name="DOUBLE")
    return N("TypeConstructor", value=V(ctx.string()), type_name=V(ctx.identifier()).upper())


def NumericLiteral(V, ctx):
    return V(ctx.number())


def sign(ctx):
    return "-" if ctx.MINUS() is not None else ""


def IntegerLiteral(V, ctx):
    value = int(sign(ctx) + ctx.INTEGER_VALUE().getText())
    return N("Literal", value=value, data_type=T("INTEGER") if -2**31 <= value < 2**31 else T("BIGINT"))


def DecimalLiteral(V, ctx):
    text = ctx.DECIMAL_VALUE().getText()
    whole, fraction = text.split(".")
    # Superfluous zeros in front don't count, and there's always one digit in front of the point
    digits, scale = len(whole.lstrip("0") or "0") + len(fraction), len(fraction)
    if digits > 38:
        raise Unsupported("decimal of more than 38 digits")
    return N("Literal", value=DecimalText(sign(ctx) + text), data_type=T("DECIMAL", precision=digits, scale=scale))


class DecimalText(str):
    """A decimal number, as written"""


def DoubleLiteral(V, ctx):
    return N("Literal", value=float(sign(ctx) + ctx.DOUBLE_VALUE().getText()), data_type=T("DOUBLE"))


def BooleanLiteral(V, ctx):
    return N("Literal", value=V(ctx.booleanValue()), data_type=T("BOOLEAN"))


def BooleanValue(V, ctx):
    return ctx.TRUE() is not None


def StringLiteral(V, ctx):
    text = V(ctx.string())
    return N("Literal", value=text, data_type=T("VARCHAR", max_chars=len(text)))


def undouble(text, quote):
    return text.replace(quote + quote, quote)


def BasicStringLiteral(V, ctx):
    return undouble(ctx.STRING().getText()[1:-1], "'")


def UnicodeStringLiteral(V, ctx):
    escape = "\\"
    if ctx.UESCAPE() is not None:
        escape = undouble(ctx.STRING().getText()[1:-1], "'")
    return unicode_text(undouble(ctx.UNICODE_STRING().getText()[3:-1], "'"), escape)


HEX = "0123456789abcdefABCDEF"


def unicode_text(text, escape):
    if len(escape) != 1 or escape in "+'\"" + HEX or escape.isspace():
        raise Unsupported("escape character")
    out, i = "", 0
    while i < len(text):
        if text[i] != escape:
            out += text[i]
            i += 1
            continue
        if text[i + 1:i + 2] == escape:
            out += escape
            i += 2
            continue
        start, n = (i + 2, 6) if text[i + 1:i + 2] == "+" else (i + 1, 4)
        code = text[start:start + n]
        if len(code) != n or any(c not in HEX for c in code):
            raise Unsupported("incomplete escape")
        point = int(code, 16)
        if point > 0x10FFFF or 0xD800 <= point <= 0xDFFF:
            raise Unsupported("not a character")
        out += chr(point)
        i = start + n
    return out


def RowConstructor(V, ctx):
    return N("RowConstructor", values=values(V, ctx.expression()))


def no_distinct(V, ctx):
    if ctx.setQuantifier() is not None and V(ctx.setQuantifier()) != "ALL":
        raise Unsupported("DISTINCT in a function")


def Listagg(V, ctx):
    no_distinct(V, ctx)
    rec = N("ListAgg", value=V(ctx.expression()), separator="", overflow_filler=None, orderby=values(V, ctx.sortItem()))
    if ctx.string() is not None:
        rec = rec.but(separator=V(ctx.string()))
    if ctx.listAggOverflowBehavior() is not None:
        rec = rec.but(overflow_filler=V(ctx.listAggOverflowBehavior()))
    return rec


def ListAggOverflowBehavior(V, ctx):
    if ctx.ERROR() is not None:
        return None
    filler = "..." if ctx.string() is None else V(ctx.string())
    return N("OverflowFiller", count_indication=V(ctx.listaggCountIndication()), filler=filler)


def ListaggCountIndication(V, ctx):
    return "WITH_COUNT" if ctx.WITH() is not None else "WITHOUT_COUNT"


def FunctionCall(V, ctx):
    if ctx.processingMode() is not None:
        raise Unsupported("pattern recognition")
    names = V(ctx.qualifiedName())
    if len(names) != 1:
        raise Unsupported("qualified function name")
    name = names[0].upper()
    no_distinct(V, ctx)
    if ctx.ASTERISK() is not None:
        args = [N("Star", table=opt(V, ctx.label))]
    else:
        args = values(V, ctx.expression())
    rec = call(name, args)
    clauses = {}
    if len(ctx.sortItem()) > 0:
        clauses["orderby"] = values(V, ctx.sortItem())
    if ctx.filter_() is not None:
        clauses["filter_"] = V(ctx.filter_())
    if ctx.nullTreatment() is not None:
        clauses["null_treatment"] = V(ctx.nullTreatment())
    if ctx.over() is not None:
        clauses["window"] = V(ctx.over())
    if clauses and name not in F.AGGREGATES:
        raise Unsupported("clauses of an aggregate function")
    return rec.but(**clauses)


def call(name, args):
    if name in F.VARIADIC:
        cls, attribute = F.VARIADIC[name]
        return Rec(cls, {attribute: args})
    if name not in F.FUNCTIONS:
        raise Unsupported("function")
    for count, cls, attributes in F.overloads(name):
        if count == len(args):
            return Rec(cls, dict(zip(attributes, args)))
    raise Unsupported("number of arguments")


def Filter_(V, ctx):
    return V(ctx.booleanExpression())


def NullTreatment(V, ctx):
    return "IGNORE" if ctx.IGNORE() is not None else "RESPECT"


def Lambda_(V, ctx):
    names = values(V, ctx.identifier())
    if len(set(names)) != len(names):
        raise Unsupported("parameters with the same name")
    return N("Lambda", inputs=[N("Variable", name=n) for n in names], expr=captured(V(ctx.expression()), names))


def captured(part, names):
    """The unqualified references to parameters are uses of the parameters"""
    if isinstance(part, Rec):
        if part.cls == "Field" and part.fields.get("table") is None and part.fields["name"] in names:
            return N("Variable", name=part.fields["name"])
        return Rec(part.cls, {k: captured(v, names) for k, v in part.fields.items()})
    if isinstance(part, list):
        return [captured(p, names) for p in part]
    if isinstance(part, dict):
        return {k: captured(p, names) for k, p in part.items()}
    return part


def SubqueryExpression(V, ctx):
    return V(ctx.query())


def SimpleCase(V, ctx):
    return SearchedCase(V, ctx).but(value=V(ctx.operand))


def SearchedCase(V, ctx):
    rec = N("Case", branches=values(V, ctx.whenClause()), else_=None, value=None)
    if ctx.elseExpression is not None:
        rec = rec.but(else_=N("Else", value=V(ctx.elseExpression)))
    return rec


def WhenClause(V, ctx):
    return N("When", condition=V(ctx.condition), value=V(ctx.result))


def Cast(V, ctx):
    return N("Cast" if ctx.CAST() is not None else "TryCast", expr=V(ctx.expression()), data_type=V(ctx.type_()))


def ArrayConstructor(V, ctx):
    return N("Array", values=values(V, ctx.expression()))


def Subscript(V, ctx):
    return N("Subscript", value=V(ctx.value), index=V(ctx.index))


def ColumnReference(V, ctx):
    return N("Field", name=V(ctx.identifier()), table=None)


def Dereference(V, ctx):
    return N("Field", name=V(ctx.fieldName), table=base(V(ctx.base)))


def SpecialDateTimeFunction(V, ctx):
    cls, has_precision = F.SPECIAL[ctx.name.text.upper()]
    if ctx.precision is not None:
        return N(cls, precision=int(ctx.precision.text))
    return N(cls)


def CurrentUser(V, ctx):
    return N("CurrentUser")


def CurrentCatalog(V, ctx):
    return N("CurrentCatalog")


def CurrentSchema(V, ctx):
    return N("CurrentSchema")


def CurrentPath(V, ctx):
    return N("CurrentPath")


def Normalize(V, ctx):
    return N("Normalize", string=V(ctx.valueExpression()), normal_form=opt(V, ctx.normalForm()))


def NormalForm(V, ctx):
    return ctx.getText().upper()


def ParenthesizedExpression(V, ctx):
    return V(ctx.expression())


def UnquotedIdentifier(V, ctx):
    return ctx.getText()


def QuotedIdentifier(V, ctx):
    return undouble(ctx.getText()[1:-1], '"')


# Types ------------------------------------------------------------------------------------------------------------
def RowType(V, ctx):
    return T("ROW", dtypes=values(V, ctx.rowField()))


def RowField(V, ctx):
    if ctx.identifier() is not None:
        raise Unsupported("names of the fields of a row")
    return V(ctx.type_())


def IntervalType(V, ctx):
    fields = (V(ctx.from_), opt(V, ctx.to))
    if fields not in (("YEAR", "MONTH"), ("DAY", "SECOND")):
        raise Unsupported("interval type")
    return T("INTERVAL", from_interval=fields[0], to_interval=fields[1])


def DateTimeType(V, ctx):
    parameters = {"timezone": ctx.WITH() is not None}
    if ctx.precision is not None:
        parameters["precision"] = V(ctx.precision)
        if not isinstance(parameters["precision"], int) or parameters["precision"] > 12:
            raise Unsupported("precision")
    return T(ctx.base.text.upper(), **parameters)


def DoublePrecisionType(V, ctx):
    return T("DOUBLE")


def ArrayType(V, ctx):
    if ctx.INTEGER_VALUE() is not None:
        raise Unsupported("array size")
    return T("ARRAY", dtype=V(ctx.type_()))


PARAMETERS = {"DECIMAL": ["precision", "scale"], "VARCHAR": ["max_chars"], "CHAR": ["max_chars"], "ARRAY": ["dtype"], "QDIGEST": ["dtype"],
              "MAP": ["from_dtype", "to_dtype"], "ROW": ["dtypes"]}
PLAIN = ["BOOLEAN", "INTEGER", "TINYINT", "SMALLINT", "BIGINT", "REAL", "DOUBLE", "VARBINARY", "JSON", "DATE", "IPADDRESS", "UUID",
         "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST", "UNKNOWN"]


def GenericType(V, ctx):
    name = V(ctx.identifier()).upper()
    args = values(V, ctx.typeParameter())
    if name in PLAIN and not args:
        return T(name)
    if name == "DECIMAL" and len(args) <= 2 and all(isinstance(a, int) for a in args):
        precision, scale = (args + [38, 0][len(args):])
        if 1 <= precision <= 38 and 0 <= scale <= precision:
            return T(name, precision=precision, scale=scale)
    if name == "VARCHAR" and len(args) <= 1 and all(isinstance(a, int) for a in args):
        return T(name, **dict(zip(["max_chars"], args)))
    if name == "CHAR" and len(args) <= 1 and all(isinstance(a, int) and a <= 65536 for a in args):
        return T(name, max_chars=(args + [1])[0])
    if name in ("TIME", "TIMESTAMP") and len(args) <= 1 and all(isinstance(a, int) and a <= 12 for a in args):
        # only with quoted names
        return T(name, timezone=False, **dict(zip(["precision"], args)))
    if name in ("ARRAY", "QDIGEST") and len(args) == 1 and isinstance(args[0], Rec):
        return T(name, dtype=args[0])
    if name == "MAP" and len(args) == 2 and all(isinstance(a, Rec) for a in args):
        return T(name, from_dtype=args[0], to_dtype=args[1])
    raise Unsupported("type")


def TypeParameter(V, ctx):
    return int(ctx.INTEGER_VALUE().getText()) if ctx.INTEGER_VALUE() is not None else V(ctx.type_())


# Rules with a single alternative that is a single rule
PASS_ON = ["Expression", "StandaloneExpression", "StandaloneType", "QueryTermDefault", "QueryPrimaryDefault"]
SPECS = {k: v for k, v in list(globals().items()) if k[:1].isupper() and callable(v) and k not in ("Rec", "N", "T", "Unsupported", "DecimalText")}
SPECS.update({"Expression": lambda V, ctx: V(ctx.booleanExpression()), "StandaloneExpression": lambda V, ctx: V(ctx.expression()),
              "StandaloneType": lambda V, ctx: V(ctx.type_()), "QueryTermDefault": lambda V, ctx: V(ctx.queryPrimary()),
              "QueryPrimaryDefault": lambda V, ctx: V(ctx.querySpecification())})


def meaning(ctx, *inherited):
    """The meaning of a whole parse tree"""
    name = type(ctx).__name__
    assert name.endswith("Context"), name
    spec = SPECS.get(name[:-len("Context")])
    if spec is None:
        raise Unsupported(name)
    return spec(meaning, ctx, *inherited)
