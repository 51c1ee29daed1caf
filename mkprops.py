# Generates properties.jsonl (kept so that the text has one source). Run: python3 mkprops.py
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
E="treeno/expression.py"; R="treeno/relation.py"; C="treeno/builder/convert.py"
p("P01","Printed expressions parse back to the same expression",
 "For every expression tree that can be built from the library's public node types, the SQL text it prints is a valid SQL expression, and parsing that text yields an expression with the same node types, the same operands in the same order and the same literal values. In particular, parentheses are present wherever operator precedence or associativity would otherwise regroup the operands, so printing never changes the meaning of an expression.",
 ["inputs"],"all expression trees (any nesting depth, any combination of operators, predicates, negation, functions, subscripts, CASE, casts, literals, subqueries as operands), any literal values; trees that SQL can express: lists are non-empty where SQL requires it, names are non-empty, floats are finite, interval values are in canonical form, lambdas are arguments of functions whose bodies refer to parameters through parameter nodes, aliases and stars stand only in select lists, IGNORE NULLS only with a window; NOT (a = b) may be written as a <> b",
 "Tests print a handful of trees of depth two or three; operator pairs, negated forms and literal edge values form an unbounded space, and a wrong pair still prints plausible SQL.",
 [E,"treeno/functions/*.py","treeno/window.py",C,"treeno/util.py"],
 [("precedence-driven parenthesisation",E+" pemdas_str, OPERATOR_PRECEDENCE"),("per-node SQL printers",E+" *.sql / to_string"),("SQL to tree conversion",C+" ConvertVisitor")],
 observe=["str(expr)","expression_from_sql"])
p("P02","Printed queries parse back to the same query",
 "For every query that can be built (SELECT, VALUES, TABLE, UNION/INTERSECT/EXCEPT, with WITH, FROM, joins, aliases, samples, unnest, lateral, WHERE, GROUP BY, HAVING, WINDOW, ORDER BY, OFFSET, LIMIT), the printed text is valid SQL and parsing it yields the same query. No clause, alias, join criterion, quantifier, ordering or row limit is lost, invented, reordered or attached to a different part of the query.",
 ["inputs"],"all query trees: every subset of clauses, every nesting of relations and set operations, any names and counts (including zero); trees that SQL can express: operands of set operations have no WITH of their own, joins have criteria unless CROSS or NATURAL, WITH entries are aliased queries, an aliased star is qualified, a catalog implies a schema",
 "Tests cover single clauses with default settings; combinations of clauses and nestings of relations (set operation with ORDER BY, join on the right of a join, alias of an alias, LIMIT 0) are combinatorial.",
 [R,"treeno/window.py","treeno/groupby.py","treeno/orderby.py","treeno/printer.py",C],
 [("query and relation printers",R+" *.sql"),("statement assembly","treeno/printer.py StatementPrinter"),("relation parenthesisation",R+" relation_string"),("SQL to tree conversion",C+" visitQuery.. visitQuerySpecification")],
 observe=["str(query)","query_from_sql"])
p("P03","Pretty printing changes whitespace between tokens only",
 "For every tree and every indentation setting, the pretty form and the default form consist of the same sequence of SQL tokens: they differ only in the whitespace between tokens, never inside a quoted name or a string, and never join or split tokens. Printing succeeds in both modes or in neither.",
 ["inputs","configurations"],"all trees; both print modes; all indentation widths; any contents of names and strings (line breaks, spaces, quotes)",
 "Layout depends on accumulated text lengths, line breaks and nesting depth, so a given test sees one layout; names and strings with line breaks are never tested.",
 ["treeno/printer.py",E,R,"treeno/functions/aggregate.py","treeno/window.py"],
 [("line wrapping and padding","treeno/printer.py JoinPrinter, StatementPrinter, pad"),("mode-dependent separators",E+" And/Or/Case; "+R+" SetQuery, relation_string")],
 observe=["node.sql(PrintOptions(PRETTY, n))"])
p("P04","Names and strings are quoted so they read back exactly",
 "Any string used as a name (column, table, alias, window, lambda parameter) or as string content appears in the printed SQL as exactly one token whose decoded value is that same string, whatever characters it contains. Conversely, parsing a quoted name or string literal yields exactly the characters it denotes, so no content can end the token early or change the structure of the statement.",
 ["inputs"],"all non-empty names and all strings over Unicode, in every position where a node prints a name or a string (an empty LISTAGG separator is the default and may be omitted; a sign in front of an interval is part of its string)",
 "Tests use letters only; the failing contents (quotes, doubled quotes, leading/trailing quotes, escapes) and the positions that skip quoting are not sampled.",
 ["treeno/util.py",E,R,"treeno/window.py","treeno/functions/aggregate.py",C],
 [("quoting helpers","treeno/util.py quote_identifier, quote_literal, chain_identifiers"),("decoding",C+" visitQuotedIdentifier, visitBasicStringLiteral, visitUnicodeStringLiteral")],
 observe=["str(node)","expression_from_sql / query_from_sql"])
p("P05","Parsing never silently drops or confuses an SQL construct",
 "For every SQL text the grammar accepts, conversion either raises an error or returns a tree in which every clause, operand, modifier, parameter and keyword of the text that affects its meaning is represented, in source order. Two texts with different meanings are never converted to equal trees, and a tree position never holds a stray string or nothing where an operand was written. Keywords written in upper case and in lower case are treated alike.",
 ["inputs"],"all texts derivable from the SQL grammar's query, expression and type rules, with keywords in the letter cases for which the grammar accepts them (True or Current_date in mixed case are names)",
 "Tests parse only supported forms and compare with one expected tree each; a construct the converter forgets (a quantifier, a FETCH clause, an extra type parameter) yields no error at all.",
 [C,"treeno/grammar/SqlBase.g4"],
 [("per-construct conversion",C+" ConvertVisitor.visit*"),("fallback for constructs without a conversion","treeno/grammar/gen/SqlBaseVisitor.py visitChildren")],
 observe=["query_from_sql, expression_from_sql, type_from_sql"])
p("P06","Text that is not valid SQL is rejected",
 "Parsing a text as a query, expression or type raises an error whenever the text is not entirely a valid construct of that kind: a syntax error, an unrecognised character, or trailing text after a complete construct (other than a final semicolon after a query) is never ignored or repaired silently.",
 ["inputs"],"all texts outside the grammar, including valid texts with tokens removed, inserted, replaced or appended",
 "No test parses invalid text; the parser's default error recovery returns a tree for a different statement.",
 ["treeno/grammar/parse.py",C],
 [("entry points","treeno/grammar/parse.py AST.query/expression/type"),("conversion entry points",C+" *_from_sql")],
 observe=["query_from_sql, expression_from_sql, type_from_sql"])
p("P07","Data types are valid by construction and round-trip through text",
 "A data type object can only be created if its name is a known type and its parameters are exactly those the type allows, with required ones present, the right kinds and permitted ranges, and defaults filled in. Every such type prints to SQL text that parses back to an equal type.",
 ["inputs"],"all type names, all parameter sets and values, arbitrarily nested array/map/row/digest types",
 "Tests list a few types; parameter combinations and nesting are unbounded and the wrong ones print plausible text.",
 ["treeno/datatypes/types.py","treeno/datatypes/builder.py",C],
 [("validation","treeno/datatypes/types.py DataType.__attrs_post_init__, FIELDS, VALIDATORS"),("printing","treeno/datatypes/types.py DataType.sql, emit_*"),("parsing",C+" visitGenericType, visitRowType, visitDateTimeType, visitIntervalType, visitArrayType")],
 observe=["DataType(...)","type_from_sql"])
p("P08","The common type of two data types is a sound least upper bound",
 "Combining two data types gives a well-formed type that is independent of operand order, equals the operand when both are the same, and can represent every value of both operands (length, precision, scale, zone and element types are never narrowed) up to the maximum the type system allows. Types without a common type are reported as unknown or as a type error, never as an unrelated type or an internal failure.",
 ["inputs"],"all pairs of data types with all parameter values, nested to any depth",
 "The function has over 600 type-name pairs, each with numeric parameters; tests check a few pairs in one order.",
 ["treeno/datatypes/conversions.py"],
 [("supertype computation","treeno/datatypes/conversions.py common_supertype, get_arithmetic_type, common_*")],
 observe=["common_supertype","get_arithmetic_type"])
p("P09","Literal values get the exact SQL type of the value",
 "Wrapping a Python value as a literal yields the SQL type that value has: booleans BOOLEAN, integers INTEGER exactly when they fit 32 bits and BIGINT otherwise, floats DOUBLE, strings VARCHAR of their length, and decimals DECIMAL with exactly the number of digits and fractional digits written. The same holds for literals in parsed SQL, regardless of sign or notation.",
 ["inputs"],"all Python ints, floats, strings, booleans and decimals (any sign and exponent, up to the 38 digits of a DECIMAL) and their SQL spellings",
 "Boundary values, negative and exponent decimals are an infinite space; tests use 1, 2.2 and 'a'.",
 ["treeno/datatypes/inference.py",E,C],
 [("inference","treeno/datatypes/inference.py infer_*"),("literal conversion",C+" visitIntegerLiteral, visitDecimalLiteral, visitDoubleLiteral, visitStringLiteral")],
 observe=["wrap_literal(v).data_type","expression_from_sql(text).data_type"])
p("P10","Every expression reports the result type its operation has",
 "The data type of an operator, predicate, constructor or function node is the result type documented for that operation as a function of its operands' types: predicates are boolean, arithmetic takes the common numeric type, constructors take their element types, each function its declared type. An operand of unknown or parameterless type leads to an unknown or partial type, never to a failure to construct the node.",
 ["inputs"],"all node classes over all combinations of operand types including unknown and types with missing optional parameters (a cast has a known type; a set operation of a row and a non-row or of different column counts is an error)",
 "About 130 node classes times operand types; tests check about a dozen combinations, and unknown operands (any unresolved column) are the common case in practice.",
 [E,"treeno/functions/*.py",R,"treeno/datatypes/conversions.py"],
 [("type computation","__attrs_post_init__ of every node class"),("query row types",R+" _compute_data_type")],
 observe=["node.data_type"])
p("P11","Structural equality holds exactly for identical trees",
 "Two nodes compare as structurally equal if and only if they are of the same node type and all their parts are structurally equal, at every depth. The comparison is reflexive, symmetric and transitive, never confuses different operations or classes with the same contents, and always returns a boolean.",
 ["inputs"],"all pairs of nodes, including pairs differing only in the class of one nested node; values that are not nodes are compared as Python values of the same number type, dictionaries regardless of order, cyclic trees coinductively",
 "Most tests compare nodes with an overloaded operator that builds SQL and is always truthy, so they cannot fail; differing-only-in-class pairs are not tested.",
 ["treeno/base.py",E],
 [("equality","treeno/base.py Sql.equals, assert_equals")],
 observe=["a.equals(b)"])
p("P12","Schema resolution yields exactly the relation's output columns",
 "Resolving a relation yields one entry per output column, in order, with the column's name (if any), its source and its type; table aliases, column aliases, WITH queries, joins, samples, unnest and set operations rename, concatenate or pass on columns accordingly. A column reference gets the type of the one visible column with that name (and table, if qualified); an unknown column stays unknown, an ambiguous one is reported, and columns of unrelated tables are never used.",
 ["inputs"],"all relations over all schemas: any number of tables and columns, duplicate and unnamed columns, any alias and WITH nesting; column references in select lists and UNNEST, against the FROM of their own query; a star over columns that are not all known is one nameless entry of unknown type",
 "Tests resolve a few two-column queries; mis-scoping only shows for particular combinations of qualified names, duplicates, unnamed columns and nested scopes.",
 [R,"treeno/datatypes/resolve.py"],
 [("relation schemas",R+" Relation.resolve implementations, Schema.merge, maybe_prune_schema"),("reference resolution","treeno/datatypes/resolve.py resolve_fields, _make_field, _make_star")],
 state=[("Schema","visible columns and relation names in a scope",R)],
 observe=["relation.resolve(schema)"])
p("P13","Operations do not modify the objects they are given",
 "Printing, comparing, converting, combining types and resolving references leave the objects passed in (nodes, types, schemas, print options, parameter dictionaries and lists) unchanged, and nodes built from the same objects do not affect one another. Repeating an operation gives the same result regardless of what was done before in the process.",
 ["inputs","histories"],"all nodes and all sequences of library operations; the documented caching of a table's or query's resolved schema is the only permitted change (resolving records the resolved types in the relation that is resolved)",
 "Aliasing and hidden state only show when an object is shared or reused after another operation; each test builds fresh objects.",
 ["treeno/datatypes/types.py",R,E,"treeno/datatypes/resolve.py","treeno/printer.py","treeno/functions/aggregate.py"],
 [("parameter handling","treeno/datatypes/types.py DataType"),("reference resolution","treeno/datatypes/resolve.py resolve_fields"),("printing","*.sql")],
 observe=["equality of snapshots taken before and after"])
p("P14","A visitor reaches every child node exactly once",
 "Traversing any node with a visitor calls the visitor exactly once for each SQL node that is directly part of it (operands, list elements, optional clauses that are present, order terms, filters, windows, WITH queries), and for nothing else. Traversal succeeds for every node whatever optional parts are absent.",
 ["inputs"],"all node classes, all combinations of present and absent optional parts and list lengths; data types and names are not nodes",
 "There is no traversal test; each of about 150 node classes has its own hand-written child list.",
 [E,R,"treeno/functions/*.py","treeno/window.py","treeno/groupby.py","treeno/orderby.py"],
 [("child enumeration","visit() of every node class")],
 observe=["node.visit(recording visitor)"])
p("P15","SQL function names and arguments map to the right function",
 "Each function name in SQL, in any letter case, converts to the node for exactly that function with the call's arguments bound in their documented positions, and that node prints the same name with the arguments in the same order. Which functions are available does not depend on which other modules were imported before.",
 ["inputs","histories"],"all registered functions, all admissible argument counts and values, all import orders; ordinary names in any letter case, special forms that are keywords of the grammar (CURRENT_DATE, NORMALIZE) in upper or lower case",
 "About 100 functions with optional arguments; tests call a few of them and always after importing their modules.",
 ["treeno/functions/*.py",C],
 [("registry","treeno/functions/base.py NAMES_TO_FUNCTIONS, FUNCTIONS_TO_NAMES, Function.from_args"),("call conversion",C+" visitFunctionCall, visitSpecialDateTimeFunction, visitListagg, visitNormalize")],
 observe=["expression_from_sql('F(...)')","str(node)"])
p("P16","Python operators on values build the matching SQL operation",
 "Applying a Python operator to values (arithmetic, comparison, logical, unary, power, modulus) builds the SQL node of that operation with the operands in the written order, wrapping plain Python operands as literals, and leaves the operands unchanged. The SQL operators of parsed text build the same nodes.",
 ["inputs"],"all operators over all pairs of values and plain Python operands (arithmetic on operands without a common type is a type error)",
 "Equality of nodes cannot be asserted with ==, so the existing operator tests are vacuous; operand order and operator identity need checking for every operator.",
 [E,C],
 [("operator overloads",E+" Value.__add__ .. __or__"),("operator dispatch",C+" apply_operator")],
 observe=["a op b"])
p("P17","Lambda parameters capture exactly the unqualified uses of their names",
 "When a lambda is built from a body expression, every unqualified reference to a parameter name in the body becomes that parameter, at any depth, and nothing else in the body changes; qualified references and other names stay as they were. The original body is not modified.",
 ["inputs"],"all bodies (any nesting, including lists, optional parts, nested lambdas) and all parameter lists; the data types of rebuilt nodes may be recomputed",
 "The tests bind one parameter in one small body; depth and container kinds are unbounded.",
 [E,"treeno/util.py"],
 [("substitution",E+" Lambda.from_generic_expr"),("child access","treeno/util.py children, construct_container")],
 observe=["Lambda.from_generic_expr","expression_from_sql('f(x, y -> ...)')"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
