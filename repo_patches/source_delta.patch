From a669f2bfe18f21245b9ef3ea827d6b40e5027ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 01/50] fix: escape quotes inside quoted names and string
 literals, and decode them exactly

---
 treeno/builder/convert.py | 4 ++--
 treeno/expression.py      | 3 ++-
 treeno/util.py            | 6 ++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f454929..3b41cfd 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -732,7 +732,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitBasicStringLiteral(
         self, ctx: SqlBaseParser.BasicStringLiteralContext
     ) -> str:
-        return ctx.getText().strip("'")
+        return ctx.getText()[1:-1].replace("''", "'")
 
     @overrides
     def visitUnicodeStringLiteral(
@@ -956,7 +956,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitQuotedIdentifier(
         self, ctx: SqlBaseParser.QuotedIdentifierContext
     ) -> str:
-        return ctx.getText().strip('"')
+        return ctx.getText()[1:-1].replace('""', '"')
 
     @overrides
     def visitUnquotedIdentifier(
diff --git a/treeno/expression.py b/treeno/expression.py
index 8e969a7..d7f385a 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -66,6 +66,7 @@ from treeno.util import (
     is_dictlike,
     is_listlike,
     parenthesize,
+    quote_identifier,
     quote_literal,
 )
 
@@ -285,7 +286,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f'{self.value.sql(opts)} "{self.alias}"'
+        return f"{self.value.sql(opts)} {quote_identifier(self.alias)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
diff --git a/treeno/util.py b/treeno/util.py
index 3c67115..fef026a 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -22,7 +22,8 @@ T = TypeVar("T")
 
 
 def quote_identifier(identifier: str) -> str:
-    return f'"{identifier}"'
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def parenthesize(val: Any) -> str:
@@ -42,7 +43,8 @@ def chain_identifiers(*identifiers: Optional[str], join_string=".") -> str:
 
 
 def quote_literal(literal: str) -> str:
-    return f"'{literal}'"
+    escaped = literal.replace("'", "''")
+    return f"'{escaped}'"
 
 
 def nth(
-- 
2.43.0


From d13be2fd623ecaa1aa6e64bff2933ec6fcab8de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 02/50] fix: print every name as a quoted identifier, with the
 syntax alias lists need

---
 treeno/expression.py | 43 ++++++++++++++++++++++---------------------
 treeno/relation.py   | 16 ++++++++++++----
 treeno/window.py     |  3 ++-
 3 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index d7f385a..439d517 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -60,7 +60,6 @@ from treeno.datatypes.inference import (
 from treeno.datatypes.types import DataType
 from treeno.printer import join_stmts, pad
 from treeno.util import (
-    chain_identifiers,
     children,
     construct_container,
     is_dictlike,
@@ -254,13 +253,10 @@ class Field(Value):
         return self.name
 
     def sql(self, opts: PrintOptions) -> str:
-        table_sql = None
-        if self.table:
-            if isinstance(self.table, str):
-                table_sql = self.table
-            else:
-                table_sql = self.table.sql(opts)
-        return chain_identifiers(table_sql, self.name)
+        name_sql = quote_identifier(self.name)
+        if self.table is None:
+            return name_sql
+        return f"{qualifier_string(self.table, opts)}.{name_sql}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         if self.table is not None and isinstance(self.table, Value):
@@ -310,15 +306,9 @@ class Star(Value):
         ), "Table must be either a complex expression or a string representing the table, not a field"
 
     def sql(self, opts: PrintOptions) -> str:
-        star_string = ""
-        if self.table:
-            if isinstance(self.table, str):
-                table_sql = self.table
-            else:
-                table_sql = self.table.sql(opts)
-            star_string = f"{table_sql}."
-        star_string += "*"
-        return star_string
+        if self.table is None:
+            return "*"
+        return f"{qualifier_string(self.table, opts)}.*"
 
     def visit(self, visitor: GenericVisitor) -> None:
         if self.table is not None and isinstance(self.table, Value):
@@ -336,8 +326,10 @@ class AliasedStar(Value):
         self.data_type = self.star.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        alias_str = join_stmts(self.aliases, opts)
-        return f"{self.star.sql(opts)} ({alias_str})"
+        alias_str = join_stmts(
+            [quote_identifier(alias) for alias in self.aliases], opts
+        )
+        return f"{self.star.sql(opts)} AS ({alias_str})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.star)
@@ -354,7 +346,7 @@ class Lambda(Expression):
         name: str = attr.ib()
 
         def sql(self, opts: PrintOptions) -> str:
-            return self.name
+            return quote_identifier(self.name)
 
         def identifier(self) -> Optional[str]:
             return self.name
@@ -467,6 +459,13 @@ def pemdas_str(
     return val.sql(opts)
 
 
+def qualifier_string(table: Union[str, Value], opts: PrintOptions) -> str:
+    """Prints what is in front of the dot in a dereference, i.e. the table in "table"."field" or "table".*"""
+    if isinstance(table, str):
+        return quote_identifier(table)
+    return pemdas_str(Subscript, table, opts)
+
+
 @value_attr
 class BinaryExpression(Expression, ABC):
     left: Value = attr.ib(converter=wrap_literal)
@@ -970,7 +969,8 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)}[{self.index.sql(opts)}]"
+        value_string = pemdas_str(type(self), self.value, opts)
+        return f"{value_string}[{self.index.sql(opts)}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -1049,6 +1049,7 @@ class Case(Expression):
 # Still waiting to hear back about Trino's custom precedence:
 # https://trinodb.slack.com/archives/CFLB9AMBN/p1637528834018300
 OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
+    Subscript: 9,
     Positive: 8,
     Negative: 8,
     Multiply: 7,
diff --git a/treeno/relation.py b/treeno/relation.py
index 8a491ab..e26e760 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -517,7 +517,7 @@ class SelectQuery(Query):
         if self.window:
             window_string = join_stmts(
                 [
-                    f"{window_name} AS {parenthesize(window.sql(opts))}"
+                    f"{quote_identifier(window_name)} AS {parenthesize(window.sql(opts))}"
                     for window_name, window in self.window.items()
                 ],
                 opts,
@@ -747,13 +747,20 @@ class AliasedRelation(Relation):
         # .. todo:: Keep the "AS"?
         alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
         if self.column_aliases:
-            alias_str += f" ({join_stmts(self.column_aliases, opts)})"
+            alias_str += f" {self._column_aliases_sql(opts)}"
         return alias_str
 
+    def _column_aliases_sql(self, opts: PrintOptions) -> str:
+        return parenthesize(
+            join_stmts(
+                [quote_identifier(alias) for alias in self.column_aliases], opts
+            )
+        )
+
     def _named_query_sql(self, opts: PrintOptions) -> str:
         alias_str = quote_identifier(self.alias)
         if self.column_aliases:
-            alias_str += f" {join_stmts(self.column_aliases, opts)}"
+            alias_str += f" {self._column_aliases_sql(opts)}"
         alias_str += f" AS {relation_string(self.relation, opts)}"
         return alias_str
 
@@ -837,7 +844,8 @@ class JoinUsingCriteria(JoinCriteria):
     column_names: List[str] = attr.ib()
 
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
-        return {"USING": parenthesize(join_stmts(self.column_names, opts))}
+        column_names = [quote_identifier(name) for name in self.column_names]
+        return {"USING": parenthesize(join_stmts(column_names, opts))}
 
     def visit(self, visitor: GenericVisitor) -> None:
         # Using only references the fields, so this should do nothing
diff --git a/treeno/window.py b/treeno/window.py
index bac3257..bd14f1a 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -14,6 +14,7 @@ from treeno.base import (
 from treeno.expression import Value, wrap_literal
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts
+from treeno.util import quote_identifier
 
 
 class NullTreatment(DefaultableEnum):
@@ -102,7 +103,7 @@ class Window(Sql):
         builder = StatementPrinter()
         if self.parent_window:
             # Empty string for no value on the right side of the river
-            builder.add_entry(self.parent_window, "")
+            builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
             partition_value = join_stmts(
                 [partition.sql(opts) for partition in self.partitions], opts
-- 
2.43.0


From f186967d5d560e42676057a3aefa4084c455e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 03/50] fix: parenthesise predicates that are operands of
 predicates and pass print options to parenthesised operands

---
 treeno/expression.py | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 439d517..a6291c7 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -446,16 +446,17 @@ def pemdas_str(
         return val.sql(opts)
     current_precedence = OPERATOR_PRECEDENCE[current_type]
     val_precedence = OPERATOR_PRECEDENCE[val_type]
-    # The expression's precedence is the same, so we must obey left-to-right ordering.
+    # The expression's precedence is the same, so we must obey left-to-right ordering. Predicates can't be chained in
+    # either direction, e.g. 1 < 2 < 3 is not valid.
     if current_precedence == val_precedence:
-        if is_left:
+        if is_left and current_precedence != PREDICATE_PRECEDENCE:
             return val.sql(opts)
         else:
-            return parenthesize(val)
+            return parenthesize(val.sql(opts))
 
     # The underlying value's precedence is lower, BUT it's deeper in the tree, which means we need to parenthesize it.
     if val_precedence < current_precedence:
-        return parenthesize(val)
+        return parenthesize(val.sql(opts))
     return val.sql(opts)
 
 
@@ -629,7 +630,7 @@ class NotEqual(BinaryExpression):
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
         if negate:
-            return str(Equal(self.left, self.right))
+            return Equal(self.left, self.right).sql(opts)
         return builtin_binary_str(self, "{left} <> {right}", opts)
 
     def sql(self, opts: PrintOptions) -> str:
@@ -840,8 +841,9 @@ class Like(Expression):
             like_str += " NOT"
         like_str += f" LIKE {pemdas_str(type(self), self.pattern, opts)}"
         if self.escape:
-            # TODO: Should we pemdas this? I don't see it in the specs
-            like_str += f" ESCAPE {self.escape.sql(opts)}"
+            like_str += (
+                f" ESCAPE {pemdas_str(type(self), self.escape, opts)}"
+            )
         return like_str
 
     def sql(self, opts: PrintOptions) -> str:
@@ -1048,6 +1050,9 @@ class Case(Expression):
 # https://docs.oracle.com/cd/B19306_01/server.102/b14200/conditions001.htm#i1034834
 # Still waiting to hear back about Trino's custom precedence:
 # https://trinodb.slack.com/archives/CFLB9AMBN/p1637528834018300
+# All predicates are on the same level in the grammar, and none of them can directly be an operand of another.
+PREDICATE_PRECEDENCE: int = 3
+
 OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     Subscript: 9,
     Positive: 8,
@@ -1058,17 +1063,18 @@ OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     Add: 6,
     Minus: 6,
     # TODO: Currently we run into an import loop trying to add Concatenate here, so we add it at the end in functions.common
-    Equal: 4,
-    NotEqual: 4,
-    GreaterThan: 4,
-    GreaterThanOrEqual: 4,
-    LessThan: 4,
-    LessThanOrEqual: 4,
-    IsNull: 3,
-    Like: 3,
-    Between: 3,
-    InList: 3,
-    InQuery: 3,
+    Equal: PREDICATE_PRECEDENCE,
+    NotEqual: PREDICATE_PRECEDENCE,
+    GreaterThan: PREDICATE_PRECEDENCE,
+    GreaterThanOrEqual: PREDICATE_PRECEDENCE,
+    LessThan: PREDICATE_PRECEDENCE,
+    LessThanOrEqual: PREDICATE_PRECEDENCE,
+    DistinctFrom: PREDICATE_PRECEDENCE,
+    IsNull: PREDICATE_PRECEDENCE,
+    Like: PREDICATE_PRECEDENCE,
+    Between: PREDICATE_PRECEDENCE,
+    InList: PREDICATE_PRECEDENCE,
+    InQuery: PREDICATE_PRECEDENCE,
     Not: 2,
     And: 1,
     Or: 0,
-- 
2.43.0


From 9192cd7f098339f0c6f18c2d548555ec7ec65707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 04/50] fix: parenthesise operands that would merge with a
 minus sign or a dot

---
 treeno/expression.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index a6291c7..836d66a 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -464,7 +464,11 @@ def qualifier_string(table: Union[str, Value], opts: PrintOptions) -> str:
     """Prints what is in front of the dot in a dereference, i.e. the table in "table"."field" or "table".*"""
     if isinstance(table, str):
         return quote_identifier(table)
-    return pemdas_str(Subscript, table, opts)
+    table_string = pemdas_str(Subscript, table, opts)
+    # The dot would otherwise be read as the decimal point of a number.
+    if isinstance(table, Literal):
+        return parenthesize(table_string)
+    return table_string
 
 
 @value_attr
@@ -517,7 +521,11 @@ class Negative(UnaryExpression):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        return builtin_unary_str(self, "-{value}", opts)
+        value_string = pemdas_str(type(self), self.value, opts)
+        # Two dashes would start a comment, and a dash followed by digits is a negative literal.
+        if value_string[0] == "-" or value_string[0].isdigit():
+            value_string = parenthesize(value_string)
+        return f"-{value_string}"
 
 
 @value_attr
-- 
2.43.0


From 0c88a7f9b1949a74e3e7a03365d55a48512f0499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 05/50] fix: parenthesise subqueries used as values, and
 boolean expressions used as subscripts

---
 treeno/expression.py          | 43 +++++++++++++++++++++++------------
 treeno/functions/aggregate.py |  6 ++---
 treeno/functions/base.py      |  2 +-
 treeno/groupby.py             |  8 +++----
 treeno/orderby.py             |  2 +-
 treeno/relation.py            | 18 +++++++++------
 treeno/window.py              |  4 ++--
 7 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 836d66a..5d4efe3 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -150,6 +150,16 @@ class Value(Sql, ABC):
     def __or__(self, other):
         return Or(self, other)
 
+    def operand_sql(self, opts: PrintOptions) -> str:
+        """Prints the value for use inside of another construct.
+
+        Args:
+            opts: The print options to control the SQL output format.
+        Returns:
+            The same as :func:`Sql.sql`, unless the value isn't an expression without parentheses, i.e. a subquery.
+        """
+        return self.sql(opts)
+
     def identifier(self) -> Optional[str]:
         """Identifier for the value.
 
@@ -282,7 +292,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)} {quote_identifier(self.alias)}"
+        return f"{self.value.operand_sql(opts)} {quote_identifier(self.alias)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -396,7 +406,7 @@ class Lambda(Expression):
         input_string = join_stmts([var.sql(opts) for var in self.inputs], opts)
         if len(self.inputs) > 1:
             input_string = parenthesize(input_string)
-        return f"{input_string} -> {self.expr.sql(opts)}"
+        return f"{input_string} -> {self.expr.operand_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.inputs:
@@ -443,21 +453,26 @@ def pemdas_str(
         current_type not in OPERATOR_PRECEDENCE
         or val_type not in OPERATOR_PRECEDENCE
     ):
-        return val.sql(opts)
+        return val.operand_sql(opts)
     current_precedence = OPERATOR_PRECEDENCE[current_type]
     val_precedence = OPERATOR_PRECEDENCE[val_type]
     # The expression's precedence is the same, so we must obey left-to-right ordering. Predicates can't be chained in
     # either direction, e.g. 1 < 2 < 3 is not valid.
     if current_precedence == val_precedence:
         if is_left and current_precedence != PREDICATE_PRECEDENCE:
-            return val.sql(opts)
+            return val.operand_sql(opts)
         else:
             return parenthesize(val.sql(opts))
 
     # The underlying value's precedence is lower, BUT it's deeper in the tree, which means we need to parenthesize it.
     if val_precedence < current_precedence:
         return parenthesize(val.sql(opts))
-    return val.sql(opts)
+    return val.operand_sql(opts)
+
+
+def value_expression_string(val: Value, opts: PrintOptions) -> str:
+    """Prints a value where the grammar doesn't allow for a boolean expression without parentheses."""
+    return pemdas_str(Equal, val, opts)
 
 
 def qualifier_string(table: Union[str, Value], opts: PrintOptions) -> str:
@@ -776,7 +791,7 @@ class Array(Expression):
         return cls(vals)
 
     def sql(self, opts: PrintOptions) -> str:
-        values_str = join_stmts([val.sql(opts) for val in self.values], opts)
+        values_str = join_stmts([val.operand_sql(opts) for val in self.values], opts)
         return f"ARRAY[{values_str}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -816,7 +831,7 @@ class InList(Expression):
         self.data_type = boolean()
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
-        expr_list = join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+        expr_list = join_stmts([expr.operand_sql(opts) for expr in self.exprs], opts)
         in_list_string = pemdas_str(type(self), self.value, opts)
         if negate:
             in_list_string += " NOT"
@@ -906,7 +921,7 @@ class RowConstructor(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         values_string = join_stmts(
-            [value.sql(opts) for value in self.values], opts
+            [value.operand_sql(opts) for value in self.values], opts
         )
         return f"({values_string})"
 
@@ -951,7 +966,7 @@ class Cast(Expression):
         assert self.data_type != unknown(), "data_type must be defined for Cast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"CAST({self.expr.operand_sql(opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -967,7 +982,7 @@ class TryCast(Expression):
         ), "data_type must be defined for TryCast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"TRY_CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"TRY_CAST({self.expr.operand_sql(opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -980,7 +995,7 @@ class Subscript(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         value_string = pemdas_str(type(self), self.value, opts)
-        return f"{value_string}[{self.index.sql(opts)}]"
+        return f"{value_string}[{value_expression_string(self.index, opts)}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -997,7 +1012,7 @@ class When(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"WHEN {self.condition.sql(opts)} THEN {self.value.sql(opts)}"
+        return f"WHEN {self.condition.operand_sql(opts)} THEN {self.value.operand_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.condition)
@@ -1012,7 +1027,7 @@ class Else(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"ELSE {self.value.sql(opts)}"
+        return f"ELSE {self.value.operand_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -1041,7 +1056,7 @@ class Case(Expression):
             spacing + spacing.join([cond.sql(opts) for cond in conds]), 4
         )
         end_string = spacing + "END"
-        value_string = self.value.sql(opts) if self.value is not None else ""
+        value_string = self.value.operand_sql(opts) if self.value is not None else ""
         return f"CASE {value_string}{branches_string}{end_string}"
 
     def visit(self, visitor: GenericVisitor) -> None:
diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 75720e6..526011a 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -46,7 +46,7 @@ class AggregateFunction(Function, ABC):
         constraint_builder = StatementPrinter()
         if self.filter_:
             constraint_builder.add_entry(
-                "FILTER", f"(WHERE {self.filter_.sql(opts)})"
+                "FILTER", f"(WHERE {self.filter_.operand_sql(opts)})"
             )
         if self.null_treatment != NullTreatment.RESPECT:
             constraint_builder.add_entry(self.null_treatment.value, "NULLS")
@@ -63,7 +63,7 @@ class AggregateFunction(Function, ABC):
         )
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = join_stmts([value.operand_sql(opts) for value in values], opts)
         # TODO: We currently pretty print orderby and constraint stringss on the same indentation level.
         # Although sqlstyle.guide doesn't specify what happens when a line gets too long, I think an extra
         # indentation level would be good for visibility.
@@ -244,7 +244,7 @@ class ListAgg(AggregateFunction):
         self.data_type = varchar()
 
     def sql(self, opts: PrintOptions) -> str:
-        value_string = self.value.sql(opts)
+        value_string = self.value.operand_sql(opts)
         if self.separator != self.DEFAULT_SEPARATOR:
             value_string = join_stmts(
                 [value_string, quote_literal(self.separator)], opts
diff --git a/treeno/functions/base.py b/treeno/functions/base.py
index 76b8e12..4677d7b 100644
--- a/treeno/functions/base.py
+++ b/treeno/functions/base.py
@@ -56,7 +56,7 @@ class Function(Expression, ABC):
         return cls(*values, **kwargs)
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = join_stmts([value.operand_sql(opts) for value in values], opts)
         return f"{FUNCTIONS_TO_NAMES[type(self)]}({arg_string})"
 
 
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 6e46521..2f3f2e8 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -44,8 +44,8 @@ class GroupingSet(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         if len(self.values) == 1:
-            return self.values[0].sql(opts)
-        return f"({join_stmts([val.sql(opts) for val in self.values], opts)})"
+            return self.values[0].operand_sql(opts)
+        return f"({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
@@ -90,7 +90,7 @@ class Cube(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         return (
-            f"CUBE ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+            f"CUBE ({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -113,7 +113,7 @@ class Rollup(Group):
         ), "GroupingSets must have at least one value to group by"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"ROLLUP ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+        return f"ROLLUP ({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
diff --git a/treeno/orderby.py b/treeno/orderby.py
index 58d9b88..b35bd0b 100644
--- a/treeno/orderby.py
+++ b/treeno/orderby.py
@@ -37,7 +37,7 @@ class OrderTerm(Sql):
     null_order: NullOrder = attr.ib(factory=NullOrder.default)
 
     def sql(self, opts: PrintOptions):
-        order_string = self.value.sql(opts)
+        order_string = self.value.operand_sql(opts)
         if self.order_type != OrderType.default():
             order_string += f" {self.order_type.name}"
         if self.null_order != NullOrder.default():
diff --git a/treeno/relation.py b/treeno/relation.py
index e26e760..3fa25a0 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -194,6 +194,10 @@ class Query(Relation, Value, ABC):
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
     with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
 
+    def operand_sql(self, opts: PrintOptions) -> str:
+        # Queries need to be parenthesized to be considered values
+        return parenthesize(self.sql(opts))
+
     def _with_query_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
         """Creates a dictionary mapping of the WITH clause to the queries.
 
@@ -495,7 +499,7 @@ class SelectQuery(Query):
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
-        select_value = join_stmts([val.sql(opts) for val in self.select], opts)
+        select_value = join_stmts([val.operand_sql(opts) for val in self.select], opts)
         # All is the default, so we don't need to mention it
         if self.select_quantifier != SetQuantifier.default():
             select_value = self.select_quantifier.name + " " + select_value
@@ -509,11 +513,11 @@ class SelectQuery(Query):
                 relation_str = pad(parenthesize(relation_str), 1)
             builder.add_entry("FROM", relation_str)
         if self.where:
-            builder.add_entry("WHERE", self.where.sql(opts))
+            builder.add_entry("WHERE", self.where.operand_sql(opts))
         if self.groupby:
             builder.add_entry("GROUP", "BY " + self.groupby.sql(opts))
         if self.having:
-            builder.add_entry("HAVING", self.having.sql(opts))
+            builder.add_entry("HAVING", self.having.operand_sql(opts))
         if self.window:
             window_string = join_stmts(
                 [
@@ -699,7 +703,7 @@ class ValuesQuery(Query):
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
         builder.add_entry(
-            "VALUES", join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+            "VALUES", join_stmts([expr.operand_sql(opts) for expr in self.exprs], opts)
         )
         builder.update(self._constraint_string_builder(opts))
         return builder.to_string(opts)
@@ -876,7 +880,7 @@ class JoinOnCriteria(JoinCriteria):
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
         # For complex boolean expressions i.e. conjunctions and disjunctions we have a new line, so we have to
         # indent it here for readability
-        return {"ON": pad(self.constraint.sql(opts), opts.spaces)}
+        return {"ON": pad(self.constraint.operand_sql(opts), opts.spaces)}
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.constraint)
@@ -999,7 +1003,7 @@ class Unnest(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         str_builder = [
-            f"UNNEST({join_stmts([arr.sql(opts) for arr in self.arrays], opts)})"
+            f"UNNEST({join_stmts([arr.operand_sql(opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
             str_builder += " WITH ORDINALITY"
@@ -1089,7 +1093,7 @@ class TableSample(Relation):
             newline=False,
             special_parenthesize_relations=[Join],
         )
-        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.sql(opts)})"
+        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.operand_sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
diff --git a/treeno/window.py b/treeno/window.py
index bd14f1a..8041fd4 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -53,7 +53,7 @@ class BoundedFrameBound(FrameBound):
     offset: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.offset.sql(opts)} {self.bound_type.value}"
+        return f"{self.offset.operand_sql(opts)} {self.bound_type.value}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.offset)
@@ -106,7 +106,7 @@ class Window(Sql):
             builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
             partition_value = join_stmts(
-                [partition.sql(opts) for partition in self.partitions], opts
+                [partition.operand_sql(opts) for partition in self.partitions], opts
             )
             builder.add_entry("PARTITION", "BY " + partition_value)
         if self.orderby:
-- 
2.43.0


From 1a69f3002df2d4cca1c37df47abb22b66603bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 06/50] fix: print rows of one value, grouping sets of one row
 and lambdas without parameters unambiguously

---
 treeno/expression.py | 6 ++++--
 treeno/groupby.py    | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 5d4efe3..114333d 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -404,7 +404,7 @@ class Lambda(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         input_string = join_stmts([var.sql(opts) for var in self.inputs], opts)
-        if len(self.inputs) > 1:
+        if len(self.inputs) != 1:
             input_string = parenthesize(input_string)
         return f"{input_string} -> {self.expr.operand_sql(opts)}"
 
@@ -923,7 +923,9 @@ class RowConstructor(Expression):
         values_string = join_stmts(
             [value.operand_sql(opts) for value in self.values], opts
         )
-        return f"({values_string})"
+        # A single value between parentheses is only a parenthesized expression
+        keyword = "ROW" if len(self.values) == 1 else ""
+        return f"{keyword}({values_string})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for value in self.values:
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 2f3f2e8..0dc4778 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -4,7 +4,7 @@ from typing import List
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions, SetQuantifier, Sql
-from treeno.expression import Value
+from treeno.expression import RowConstructor, Value
 from treeno.printer import join_stmts
 
 
@@ -43,7 +43,10 @@ class GroupingSet(Group):
     values: List[Value] = attr.ib()
 
     def sql(self, opts: PrintOptions) -> str:
-        if len(self.values) == 1:
+        # A row without extra parentheses would be read as the values of the grouping set
+        if len(self.values) == 1 and not isinstance(
+            self.values[0], RowConstructor
+        ):
             return self.values[0].operand_sql(opts)
         return f"({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
 
-- 
2.43.0


From 69203c96b8db80ab27e12ae1eb2ebaf39d9c8eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 07/50] fix: quote the value of an interval and negate it only
 when there is a sign in front of it

---
 treeno/builder/convert.py | 9 ++++-----
 treeno/expression.py      | 5 ++++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 3b41cfd..abbac7c 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -517,18 +517,17 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitInterval(self, ctx: SqlBaseParser.IntervalContext) -> Interval:
         string_value = self.visit(ctx.string())
-        # Unary plus is essentially a no-op.
-        if string_value.startswith("+"):
-            string_value = string_value.lstrip("+")
-
         # There's a pesky sign that can appear outside of the string. We do some inference on the string
         # and push the negation inside the string. I've verified that -"3-100" YEAR TO MONTH is equivalent to "-3-100".
         if ctx.sign and ctx.sign.text == "-":
             # I've tested this and the unary operator +/- can only be applied once to the values inside the string.
             # This means the string can either be +value, -value, or value.
             if string_value.startswith("-"):
-                string_value = string_value.lstrip("-")
+                string_value = string_value[1:]
             else:
+                # Unary plus is essentially a no-op.
+                if string_value.startswith("+"):
+                    string_value = string_value[1:]
                 string_value = "-" + string_value
         parameters = {
             "value": string_value,
diff --git a/treeno/expression.py b/treeno/expression.py
index 114333d..f0d70e2 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -952,7 +952,10 @@ class Interval(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         to_interval_str = f" TO {self.to_interval}" if self.to_interval else ""
-        return f"INTERVAL {self.value} {self.from_interval}" + to_interval_str
+        return (
+            f"INTERVAL {quote_literal(self.value)} {self.from_interval}"
+            + to_interval_str
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         pass
-- 
2.43.0


From 90c78c1d7530d87bae85e26c636b74c378d2035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 08/50] fix: print WITH ORDINALITY as keywords rather than as
 single letters

---
 treeno/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 3fa25a0..d788a8e 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -1006,7 +1006,7 @@ class Unnest(Relation):
             f"UNNEST({join_stmts([arr.operand_sql(opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
-            str_builder += " WITH ORDINALITY"
+            str_builder.append("WITH ORDINALITY")
         return " ".join(str_builder)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-- 
2.43.0


From c14f0f4b27611320194cc01ddeac576538e04f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 09/50] fix: print NORMALIZE, which called a method that
 doesn't exist

---
 treeno/functions/string.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/string.py b/treeno/functions/string.py
index aadcf0a..bf34310 100644
--- a/treeno/functions/string.py
+++ b/treeno/functions/string.py
@@ -11,7 +11,12 @@ from treeno.datatypes.builder import (
     varbinary,
     varchar,
 )
-from treeno.expression import Value, value_attr, wrap_literal
+from treeno.expression import (
+    Value,
+    value_attr,
+    value_expression_string,
+    wrap_literal,
+)
 from treeno.functions.base import Function
 from treeno.printer import join_stmts
 
@@ -268,7 +273,7 @@ class Normalize(Function):
         # Note: The reason we don't use self.to_string here is because
         # normal_form is not an arbitrary Sql construct here but rather
         # an enum.
-        components = [self.string.to_sql(opts)]
+        components = [value_expression_string(self.string, opts)]
         if self.normal_form:
             components.append(self.normal_form.value)
         arg_string = join_stmts(components, opts)
-- 
2.43.0


From 91a8c9cf3f1d0741160cb1ff67dafcaa742b249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 10/50] fix: print LIMIT 0 and OFFSET 0

---
 treeno/relation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index d788a8e..adc56f1 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -249,9 +249,9 @@ class Query(Relation, Value, ABC):
             str_builder["ORDER"] = "BY " + join_stmts(
                 [order.sql(opts) for order in self.orderby], opts
             )
-        if self.offset:
+        if self.offset is not None:
             str_builder["OFFSET"] = str(self.offset)
-        if self.limit:
+        if self.limit is not None:
             str_builder["LIMIT"] = str(self.limit)
         return str_builder
 
-- 
2.43.0


From 55b21207c5c217c05c9ee1e5db6a3cbf488ff8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 11/50] fix: print WITH, ORDER BY, OFFSET and LIMIT of set
 operations

---
 treeno/relation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index adc56f1..ed17ed7 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -322,7 +322,12 @@ class SetQuery(Query, ABC):
         query_string += f" {self.set_quantifier.name}"
         query_string += spacing
         query_string += relation_string(self.right_query, opts, newline=False)
-        return query_string
+        builder = StatementPrinter(river=False)
+        builder.update(self._with_query_string_builder(opts))
+        # No value to the key, which is just the set operation itself
+        builder.add_entry(query_string, "")
+        builder.update(self._constraint_string_builder(opts))
+        return builder.to_string(opts)
 
     def resolve(self, existing_schema: Schema) -> Schema:
         left_schema = self.left_query.resolve(
-- 
2.43.0


From 96baa68677666a2d485642d4d41ed72e6ede25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 12/50] fix: parenthesise relations that can't be aliased,
 joined or sampled without parentheses

---
 treeno/relation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index ed17ed7..f06a820 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -754,7 +754,12 @@ class AliasedRelation(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         # .. todo:: Keep the "AS"?
-        alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
+        relation_sql = relation_string(
+            self.relation,
+            opts,
+            special_parenthesize_relations=[AliasedRelation, Join, TableSample],
+        )
+        alias_str = f"{relation_sql} {quote_identifier(self.alias)}"
         if self.column_aliases:
             alias_str += f" {self._column_aliases_sql(opts)}"
         return alias_str
@@ -947,7 +952,10 @@ class Join(Relation):
         if self.config.natural:
             join_type += "NATURAL "
         join_type += f"{self.config.join_type.value} JOIN"
-        builder.add_entry(join_type, relation_string(self.right_relation, opts))
+        right_string = relation_string(
+            self.right_relation, opts, special_parenthesize_relations=[Join]
+        )
+        builder.add_entry(join_type, right_string)
         if self.config.criteria is not None:
             builder.update(self.config.criteria.build_sql(opts))
         return builder.to_string(opts)
@@ -1096,7 +1104,7 @@ class TableSample(Relation):
             self.relation,
             opts,
             newline=False,
-            special_parenthesize_relations=[Join],
+            special_parenthesize_relations=[Join, TableSample],
         )
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.operand_sql(opts)})"
 
-- 
2.43.0


From c6f64986f23da4dceb62e03c722ae8c7263792d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 13/50] fix: keep names and strings with line breaks as they
 are when indenting

---
 treeno/printer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/treeno/printer.py b/treeno/printer.py
index 9eb88d5..5b45dcb 100644
--- a/treeno/printer.py
+++ b/treeno/printer.py
@@ -4,20 +4,26 @@ StatementPrinter complies with sqlstyle.guide.
 Note that none of these printers are explicitly responsible for calling sql(). They should work only with the
 primitive str representation.
 """
+import re
 from typing import Dict, List
 
 import attr
 
 from treeno.base import PrintMode, PrintOptions
 
+QUOTED_OR_NEWLINE = re.compile(r"""'[^']*'|"[^"]*"|\n""")
+
 
 def pad(input: str, spaces: int) -> str:
     """Pads the input lines with spaces except for the first line.
     We don't need opts here because the default mode will always be a single line so we'll never invoke this.
     """
-    lines = input.splitlines()
     pad = " " * spaces
-    return f"\n{pad}".join(lines)
+    # Newlines inside of quotes belong to a name or a string, so they have to stay as they are.
+    return QUOTED_OR_NEWLINE.sub(
+        lambda match: f"\n{pad}" if match.group() == "\n" else match.group(),
+        input,
+    )
 
 
 def join_stmts(
-- 
2.43.0


From b03030627f96ea63fb73686827e52d1f0d70876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 14/50] fix: print with any indentation, not only with less
 than 80 spaces

---
 treeno/printer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/treeno/printer.py b/treeno/printer.py
index 5b45dcb..3c5a068 100644
--- a/treeno/printer.py
+++ b/treeno/printer.py
@@ -52,7 +52,6 @@ class JoinPrinter:
         self.stmt_list.extend(values)
 
     def to_string(self, opts: PrintOptions) -> str:
-        assert opts.spaces < self.max_length
         remaining_length = self.max_length - opts.spaces
         lines = []
         current_length = 0
-- 
2.43.0


From e90c61f658ff20feca1f2976293feaf96e8dcf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 15/50] fix: don't count the sign or the exponent of a decimal
 as digits

---
 treeno/datatypes/inference.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 39e7c59..12fcf06 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -51,7 +51,11 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     """We must infer a decimal from str and not float because we'll never be sure what the
     actual scale is due to floats being imprecise.
     """
-    str_val = str(decimal_value)
+    assert (
+        decimal_value.is_finite()
+    ), f"{decimal_value} can't be represented as a decimal"
+    # Neither a sign nor an exponent is part of the digits
+    str_val = format(decimal_value, "f").lstrip("-")
     if "." not in str_val:
         return decimal(precision=len(str_val), scale=0)
     else:
-- 
2.43.0


From 1a7c7c8838aa56d1217ae6118e4946f32b196540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 16/50] fix: print decimals and doubles with an exponent as
 literals of the same type

---
 treeno/expression.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index f0d70e2..ebc693b 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -31,6 +31,7 @@ support ``decimal.Decimal`` types for fixed precision decimal point classes in p
 which cannot be wrapped to a literal. Instead, please use the :data:`NULL` singleton.
 """
 import functools
+import math
 from abc import ABC
 from decimal import Decimal
 from typing import Any, Dict, List, Optional, Type, TypeVar, Union
@@ -223,9 +224,18 @@ class Literal(Value):
             ), "Please use wrap_literal to construct a Literal value so the data types are detected"
 
     def sql(self, opts: PrintOptions) -> str:
-        # NOTE: Literal decimals can be directly convertible
-        # through string representation, i.e. 3.14 is DECIMAL(3,2), so we don't need to do anything.
         s = str(self.value)
+        if isinstance(self.value, Decimal):
+            # Decimals always have a decimal point and never an exponent, i.e. 3.14 is DECIMAL(3,2) and 3. DECIMAL(1,0).
+            s = format(self.value, "f")
+            if "." not in s:
+                s += "."
+        if isinstance(self.value, float):
+            assert math.isfinite(
+                self.value
+            ), f"There's no literal in SQL for {self.value}"
+            # Only an upper case letter starts an exponent
+            s = s.upper()
         if self.value is None:
             s = "NULL"
         if isinstance(self.value, bool):
-- 
2.43.0


From 16c84c3f09e48aa1d2bded192e254aff19294639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 17/50] fix: print the weight of APPROX_PERCENTILE before the
 percentage

---
 treeno/functions/aggregate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 526011a..080b85a 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -507,9 +507,11 @@ class ApproxPercentile(AggregateFunction):
             self.data_type = unknown()
 
     def sql(self, opts: PrintOptions) -> str:
-        values = [self.value, self.percentage]
+        values = [self.value]
         if self.weight:
+            # The weight comes before the percentage
             values.append(self.weight)
+        values.append(self.percentage)
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-- 
2.43.0


From 6f563ae789b45611c742e4dc11399fa124fb962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 18/50] fix: don't override the frame of a named window when
 printing a reference to it

---
 treeno/functions/aggregate.py | 10 ++++++----
 treeno/window.py              | 11 +++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 080b85a..e284afa 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -23,7 +23,7 @@ from treeno.expression import Star, Value, value_attr, wrap_literal
 from treeno.functions.base import FUNCTIONS_TO_NAMES, Function
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
-from treeno.util import parenthesize, quote_literal
+from treeno.util import parenthesize, quote_identifier, quote_literal
 from treeno.window import NullTreatment, Window
 
 
@@ -51,9 +51,11 @@ class AggregateFunction(Function, ABC):
         if self.null_treatment != NullTreatment.RESPECT:
             constraint_builder.add_entry(self.null_treatment.value, "NULLS")
         if self.window:
-            constraint_builder.add_entry(
-                "OVER", parenthesize(self.window.sql(opts))
-            )
+            if self.window.is_reference():
+                window_string = quote_identifier(self.window.parent_window)
+            else:
+                window_string = parenthesize(self.window.sql(opts))
+            constraint_builder.add_entry("OVER", window_string)
         return constraint_builder.to_string(opts)
 
     def get_orderby_string(self, opts: PrintOptions) -> str:
diff --git a/treeno/window.py b/treeno/window.py
index 8041fd4..a01c623 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -99,6 +99,17 @@ class Window(Sql):
     start_bound: FrameBound = attr.ib(factory=default_start_bound)
     end_bound: FrameBound = attr.ib(factory=default_end_bound)
 
+    def is_reference(self) -> bool:
+        """Whether this is nothing but the name of a window, i.e. OVER w, which keeps the frame of the named window"""
+        return (
+            self.parent_window is not None
+            and not self.orderby
+            and not self.partitions
+            and self.frame_type == FrameType.default()
+            and self.start_bound.equals(default_start_bound())
+            and self.end_bound.equals(default_end_bound())
+        )
+
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
         if self.parent_window:
-- 
2.43.0


From b7babe3c29db76141a4dc10c25cac84cc88b07ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 19/50] fix: convert parenthesised queries, and raise on
 unsupported constructs instead of dropping parts of them

---
 treeno/builder/convert.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index abbac7c..7b5ba3d 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -4,6 +4,7 @@ Converts from our grammar into a buildable query tree.
 from decimal import Decimal
 from typing import Any, Dict, List, Optional, Tuple, Union
 
+from antlr4.ParserRuleContext import ParserRuleContext
 from overrides import overrides
 
 from treeno.datatypes.builder import (
@@ -164,6 +165,17 @@ def table_from_qualifiers(qualifiers: List[str]) -> Table:
 class ConvertVisitor(SqlBaseVisitor):
     """Converts the tree into a builder tree in python"""
 
+    @overrides
+    def visitChildren(self, node: ParserRuleContext) -> Any:
+        """Visits a context without a visit function of its own. If there's anything to it other than a single nested
+        context, then we don't know what it means."""
+        children = list(node.getChildren())
+        if len(children) != 1 or not isinstance(children[0], ParserRuleContext):
+            raise NotImplementedError(
+                f"{type(node).__name__} is not yet supported: {node.getText()}"
+            )
+        return self.visit(children[0])
+
     @overrides
     def visitSingleStatement(
         self, ctx: SqlBaseParser.SingleStatementContext
@@ -294,6 +306,10 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> SelectQuery:
         return self.visit(ctx.queryPrimary())
 
+    @overrides
+    def visitSubquery(self, ctx: SqlBaseParser.SubqueryContext) -> Query:
+        return self.visit(ctx.queryNoWith())
+
     @overrides
     def visitTable(self, ctx: SqlBaseParser.TableContext) -> TableQuery:
         return TableQuery(
-- 
2.43.0


From dacce5b7390e2da3cfde47490668a28d1e781972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 20/50] fix: don't drop FETCH FIRST or the constraints of
 parenthesised queries, and accept lower case keywords everywhere

---
 treeno/builder/convert.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 7b5ba3d..9dfc3c2 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -237,6 +237,16 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitQueryNoWith(self, ctx: SqlBaseParser.QueryNoWithContext) -> Query:
         query = self.visit(ctx.queryTerm())
+        if (ctx.ORDER() or ctx.offset or ctx.limit or ctx.FETCH()) and (
+            query.orderby is not None
+            or query.offset is not None
+            or query.limit is not None
+        ):
+            raise NotImplementedError(
+                "Constraints around a parenthesized query with its own constraints are currently not supported"
+            )
+        if ctx.FETCH():
+            raise NotImplementedError("FETCH FIRST is currently not supported")
         if ctx.ORDER() and ctx.BY():
             query.orderby = [self.visit(item) for item in ctx.sortItem()]
         if ctx.offset:
@@ -291,14 +301,9 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitLimitRowCount(
         self, ctx: SqlBaseParser.LimitRowCountContext
     ) -> Optional[int]:
-        count = ctx.getText()
-        if count.isnumeric():
-            return int(count)
-        else:
-            assert (
-                count == "ALL"
-            ), "LIMIT quantities can either be numeric or ALL"
+        if ctx.ALL():
             return None
+        return self.visit(ctx.rowCount())
 
     @overrides
     def visitQueryTermDefault(
@@ -339,7 +344,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSetQuantifier(
         self, ctx: SqlBaseParser.SetQuantifierContext
     ) -> SetQuantifier:
-        return SetQuantifier[ctx.getText()]
+        return SetQuantifier[ctx.getText().upper()]
 
     @overrides
     def visitAnd_(self, ctx: SqlBaseParser.And_Context) -> And:
@@ -557,7 +562,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitIntervalField(
         self, ctx: SqlBaseParser.IntervalFieldContext
     ) -> str:
-        return ctx.getText()
+        return ctx.getText().upper()
 
     @overrides
     def visitIntervalType(
@@ -572,7 +577,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitNormalForm(
         self, ctx: SqlBaseParser.NormalFormContext
     ) -> NormalForm:
-        return NormalForm[ctx.getText()]
+        return NormalForm[ctx.getText().upper()]
 
     @overrides
     def visitArrayType(self, ctx: SqlBaseParser.ArrayTypeContext) -> DataType:
@@ -1099,7 +1104,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSampleType(
         self, ctx: SqlBaseParser.SampleTypeContext
     ) -> SampleType:
-        return SampleType[ctx.getText()]
+        return SampleType[ctx.getText().upper()]
 
     @overrides
     def visitPatternRecognition(
-- 
2.43.0


From 0af7dc1a4166e5ab1a06721452c604b7bcf58c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 21/50] fix: raise on DISTINCT in a function call instead of
 dropping it

---
 treeno/builder/convert.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 9dfc3c2..eff45ae 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -818,6 +818,14 @@ class ConvertVisitor(SqlBaseVisitor):
         ), f"Function name {fn_name} not registered in treeno.functions"
         fn = NAMES_TO_FUNCTIONS[fn_name]
 
+        # TODO: Functions don't have a quantifier yet. ALL is the default.
+        if ctx.setQuantifier():
+            quantifier = self.visit(ctx.setQuantifier())
+            if quantifier != SetQuantifier.ALL:
+                raise NotImplementedError(
+                    f"{quantifier.name} in {fn_name} is not yet supported"
+                )
+
         kwargs = {}
 
         if ctx.over():
@@ -892,6 +900,12 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitListagg(self, ctx: SqlBaseParser.ListaggContext) -> ListAgg:
         kwargs = {}
+        if ctx.setQuantifier():
+            quantifier = self.visit(ctx.setQuantifier())
+            if quantifier != SetQuantifier.ALL:
+                raise NotImplementedError(
+                    f"{quantifier.name} in LISTAGG is not yet supported"
+                )
         separator = ctx.string()
         if separator:
             kwargs["separator"] = self.visit(separator)
-- 
2.43.0


From b9133016378f8afc6292b2b57f51da617eb18c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 22/50] fix: reject types with more parameters than they have

---
 treeno/builder/convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index eff45ae..6a6140c 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -517,6 +517,9 @@ class ConvertVisitor(SqlBaseVisitor):
         param_values = [self.visit(param) for param in ctx.typeParameter()]
         type_name = self.visit(ctx.identifier()).upper()
         # We assume the parameters will be passed into here.
+        assert len(param_values) <= len(
+            FIELDS[type_name]
+        ), f"Too many parameters for type {type_name}: {ctx.getText()}"
         parameters = {
             param.name: val
             for val, param in zip(param_values, FIELDS[type_name])
-- 
2.43.0


From b3ce690f2c2c1cd9c483443cfb315ef5db31dbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 23/50] fix: accept DOUBLE PRECISION 'x' and keep the precision
 of TIMESTAMP 'x'

---
 treeno/builder/convert.py | 4 ++--
 treeno/expression.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 6a6140c..f0d133e 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -18,7 +18,7 @@ from treeno.datatypes.builder import (
     varchar,
 )
 from treeno.datatypes.inference import infer_decimal, infer_integral
-from treeno.datatypes.types import FIELDS, TIME, TIMESTAMP, DataType
+from treeno.datatypes.types import DOUBLE, FIELDS, TIME, TIMESTAMP, DataType
 from treeno.expression import (
     AliasedStar,
     AliasedValue,
@@ -793,7 +793,7 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> TypeConstructor:
         value = self.visit(ctx.string())
         if ctx.DOUBLE() and ctx.PRECISION():
-            return TypeConstructor(value, data_type=double())
+            return TypeConstructor(value=value, type_name=DOUBLE)
         # It appears the type constructor is fairly primitive in that it doesn't allow parametrized types, like
         # SELECT DECIMAL(30) '3'
         # which means we can assume it's a generic(but inferred) nonparametrized data type.
diff --git a/treeno/expression.py b/treeno/expression.py
index ebc693b..ea2068f 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -900,7 +900,7 @@ class TypeConstructor(Expression):
             self.data_type = timestamp(
                 precision=infer_timelike_precision(self.value)
             )
-        if self.type_name == type_consts.TIME:
+        elif self.type_name == type_consts.TIME:
             self.data_type = time(
                 precision=infer_timelike_precision(self.value)
             )
-- 
2.43.0


From 4d6ebde1a8d854d538cd81ae5d00e321f7f4e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 24/50] fix: decode unicode strings, with their quotes,
 backslashes and all forms of escapes

---
 treeno/builder/convert.py | 47 ++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f0d133e..0c33898 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1,6 +1,7 @@
 """
 Converts from our grammar into a buildable query tree.
 """
+import re
 from decimal import Decimal
 from typing import Any, Dict, List, Optional, Tuple, Union
 
@@ -162,6 +163,34 @@ def table_from_qualifiers(qualifiers: List[str]) -> Table:
     return Table(name=name, schema=schema, catalog=catalog)
 
 
+def decode_unicode_string(string: str, escape: str) -> str:
+    """Decodes the content of a unicode string, in which the escape character is followed by 4 hexadecimal digits, a
+    plus sign and 6 hexadecimal digits, or another escape character which stands for itself."""
+    assert (
+        len(escape) == 1
+        and escape not in "+'\"0123456789abcdefABCDEF"
+        and not escape.isspace()
+    ), f"Invalid unicode escape character {escape}"
+    escape = re.escape(escape)
+
+    def _decode(match: re.Match) -> str:
+        code = match.group(1) or match.group(2)
+        if code is None:
+            assert match.group(3), f"Invalid unicode escape in {string}"
+            return match.group(3)
+        code_point = int(code, 16)
+        assert (
+            code_point <= 0x10FFFF and not 0xD800 <= code_point <= 0xDFFF
+        ), f"Invalid unicode code point {code}"
+        return chr(code_point)
+
+    return re.sub(
+        f"{escape}(?:([0-9a-fA-F]{{4}})|\\+([0-9a-fA-F]{{6}})|({escape})|)",
+        _decode,
+        string,
+    )
+
+
 class ConvertVisitor(SqlBaseVisitor):
     """Converts the tree into a builder tree in python"""
 
@@ -761,21 +790,13 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitUnicodeStringLiteral(
         self, ctx: SqlBaseParser.UnicodeStringLiteralContext
     ) -> str:
+        escape = "\\"
         if ctx.UESCAPE():
             assert ctx.STRING(), "Escape string must be supplied for unicode"
-            escape_seq = ctx.STRING().getText().strip("'")
-        else:
-            escape_seq = "\\"
-        s = (
-            ctx.UNICODE_STRING()
-            .getText()
-            .strip("U&")
-            .strip("'")
-            .replace(escape_seq, "\\u")
-            .encode("raw_unicode_escape")
-            .decode("unicode_escape")
-        )
-        return s
+            escape = ctx.STRING().getText()[1:-1].replace("''", "'")
+        # Drop the U&' in front and the ' at the end
+        string = ctx.UNICODE_STRING().getText()[3:-1].replace("''", "'")
+        return decode_unicode_string(string, escape)
 
     @overrides
     def visitBooleanLiteral(
-- 
2.43.0


From 6ea5d4a127b5ba4550ba8f23d0248d87803d018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 25/50] fix: reject text that isn't valid SQL instead of
 guessing what it could mean

---
 treeno/grammar/parse.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index fab0f67..f8d2b76 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -2,8 +2,10 @@ from io import StringIO
 
 import nltk
 from antlr4 import CommonTokenStream
+from antlr4.error.ErrorListener import ErrorListener
 from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
+from antlr4.Token import Token
 from antlr4.tree.Trees import Trees
 
 try:
@@ -17,6 +19,15 @@ except ImportError:
     raise
 
 
+class SqlSyntaxError(ValueError):
+    """Raised when a text isn't valid SQL"""
+
+
+class RaisingErrorListener(ErrorListener):
+    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
+        raise SqlSyntaxError(f"line {line}:{column} {msg}")
+
+
 class AST:
     """Basic building block for SQL parse tree. This is not meant to be used directly, but is rather an intermediate
     layer to operate on to create a pypika interface."""
@@ -33,14 +44,33 @@ class AST:
     def text(self):
         return self._sql
 
+    def _strict_parser(self) -> SqlBaseParser:
+        """A parser that raises on errors instead of recovering from them"""
+        parser = self.parser()
+        for recognizer in (parser.getTokenStream().tokenSource, parser):
+            recognizer.removeErrorListeners()
+            recognizer.addErrorListener(RaisingErrorListener())
+        return parser
+
     def query(self):
-        return self.parser().query()
+        parser = self._strict_parser()
+        node = parser.query()
+        # The query may be terminated by a semicolon, but there can't be anything else behind it
+        tokens = parser.getTokenStream()
+        if tokens.LA(1) != Token.EOF and tokens.LT(1).text == ";":
+            tokens.consume()
+        token = tokens.LT(1)
+        if token.type != Token.EOF:
+            raise SqlSyntaxError(
+                f"line {token.line}:{token.column} unexpected input '{token.text}' after the query"
+            )
+        return node
 
     def expression(self):
-        return self.parser().standaloneExpression()
+        return self._strict_parser().standaloneExpression()
 
     def type(self):
-        return self.parser().standaloneType()
+        return self._strict_parser().standaloneType()
 
 
 def tree(ast: AST, node: ParserRuleContext) -> str:
-- 
2.43.0


From 19420f79be09c66bf3fa03a9940d7e54ee437577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 26/50] fix: register all functions when converting, not only
 those imported elsewhere

---
 treeno/builder/convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 0c33898..1b8c7e4 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -53,6 +53,7 @@ from treeno.functions.aggregate import (
     ListAgg,
     OverflowFiller,
 )
+from treeno.functions import conditional, datetime, math  # noqa: F401
 from treeno.functions.base import NAMES_TO_FUNCTIONS, Function
 from treeno.functions.common import Concatenate
 from treeno.functions.session import (
-- 
2.43.0


From c96505dc4df4179bf18916c2ac15506beb25f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 27/50] fix: accept FROM_UNIXTIME with one argument, with the
 type the function has

---
 treeno/functions/datetime.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 554d5aa..769831a 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -187,6 +187,8 @@ class FromUnixtime(Function):
         assert (
             not kwargs
         ), "No keyword arguments allowed for FromUnixTime.from_args"
+        if len(args) == 1:
+            return FromUnixtime(args[0])
         if len(args) == 2:
             return FromUnixtime(args[0], zone=args[1])
         if len(args) == 3:
@@ -194,11 +196,7 @@ class FromUnixtime(Function):
         raise ValueError(f"Unrecognized arguments {args} and {kwargs}")
 
     def __attrs_post_init__(self) -> None:
-        dtype = self.value.data_type
-        if dtype.type_name == type_consts.TIMESTAMP:
-            self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
-            )
+        self.data_type = timestamp(precision=3, timezone=True)
 
         if self.zone:
             assert (
-- 
2.43.0


From 57550a42efc93438c157a304d4dd994cc11b0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 28/50] fix: type of datetime functions with a time zone, even
 if the precision isn't known

---
 treeno/functions/datetime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 769831a..041835e 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -58,7 +58,7 @@ class CurrentTime(ParametrizedDateTimeFunction):
     FN_NAME: ClassVar[str] = "CURRENT_TIME"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = time(precision=self.precision)
+        self.data_type = time(precision=self.precision, timezone=True)
 
 
 @value_attr
@@ -66,7 +66,7 @@ class CurrentTimestamp(ParametrizedDateTimeFunction):
     FN_NAME: ClassVar[str] = "CURRENT_TIMESTAMP"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = timestamp(precision=self.precision)
+        self.data_type = timestamp(precision=self.precision, timezone=True)
 
 
 @value_attr
@@ -135,8 +135,9 @@ class AtTimezone(Function):
         # If it's something else like unknown, then we just keep the data type unknown
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
+            # The precision doesn't have to be known
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
@@ -156,8 +157,9 @@ class WithTimezone(Function):
     def __attrs_post_init__(self) -> None:
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
+            # The precision doesn't have to be known
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
-- 
2.43.0


From 2d67814e83c2557093246127934471c715ecbfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 29/50] fix: result types of statistical aggregates, MAX and
 MIN of several values and MERGE

---
 treeno/functions/aggregate.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index e284afa..9b22972 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -279,6 +279,9 @@ class Max(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        # Several values are returned as an array
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.value.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -303,6 +306,9 @@ class MaxBy(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        # Several values are returned as an array
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.value.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.max_by]
@@ -327,6 +333,9 @@ class Min(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        # Several values are returned as an array
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.value.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -351,6 +360,9 @@ class MinBy(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        # Several values are returned as an array
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.value.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.min_by]
@@ -539,6 +551,7 @@ class Merge(UnaryAggregateFunction):
         if (
             self.value.data_type.type_name == type_consts.TDIGEST
             or self.value.data_type.type_name == type_consts.QDIGEST
+            or self.value.data_type == unknown()
         ):
             self.data_type = self.value.data_type
         else:
@@ -657,35 +670,56 @@ class RegrSlope(BinaryStatsFunction):
 class Skewness(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "SKEWNESS"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class StdDev(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "STDDEV"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class StdDevPop(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "STDDEV_POP"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class StdDevSamp(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "STDDEV_SAMP"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class Variance(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "VARIANCE"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class VarPop(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "VAR_POP"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class VarSamp(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "VAR_SAMP"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 # TODO: Add reduce()
-- 
2.43.0


From 059dbbca1325113a1ecf5d0b573b95df8d1b2c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 30/50] fix: return the common type of types with parameters,
 and report types without one instead of failing

---
 treeno/datatypes/conversions.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index d6f2004..c569085 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -40,6 +40,7 @@ from treeno.datatypes.types import (
     TIME,
     TIMESTAMP,
     TINYINT,
+    UNKNOWN,
     VARCHAR,
     DataType,
 )
@@ -63,9 +64,9 @@ def get_arithmetic_type(dtype1: DataType, dtype2: DataType) -> DataType:
     if dtype1 == dtype2:
         return dtype1
     name1, name2 = dtype1.type_name, dtype2.type_name
-    if name1 == name2:
+    if name1 == name2 and name1 in COMMON_CONVERSION_MAP:
         return common_same_type(dtype1, dtype2)
-    elif {name1, name2}.issubset(NUMERIC_TYPES):
+    elif name1 != name2 and {name1, name2}.issubset(NUMERIC_TYPES):
         return common_numeric(dtype1, dtype2)
     return unknown()
 
@@ -73,19 +74,23 @@ def get_arithmetic_type(dtype1: DataType, dtype2: DataType) -> DataType:
 def common_supertype(dtype1: DataType, dtype2: DataType) -> DataType:
     """Returns a common supertype for the given dtypes.
     """
+    type_names = {dtype1.type_name, dtype2.type_name}
     if dtype1.type_name == dtype2.type_name:
         if dtype1 == dtype2:
             return dtype1
         if dtype1.type_name in COMMON_CONVERSION_MAP:
-            common_same_type(dtype1, dtype2)
+            return common_same_type(dtype1, dtype2)
         return unknown()
-    elif dtype1.type_name in NUMERIC_TYPES:
+    elif UNKNOWN in type_names:
+        # It could be anything
+        return unknown()
+    elif type_names.issubset(NUMERIC_TYPES):
         return common_numeric(dtype1, dtype2)
-    elif dtype1.type_name in STRING_TYPES:
+    elif type_names.issubset(STRING_TYPES):
         return common_string(dtype1, dtype2)
-    elif dtype1.type_name in HLL_TYPES:
+    elif type_names.issubset(HLL_TYPES):
         return common_hll(dtype1, dtype2)
-    elif dtype1.type_name in DATETIME_TYPES:
+    elif type_names.issubset(DATETIME_TYPES):
         return common_datetime(dtype1, dtype2)
     raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
 
-- 
2.43.0


From 6a0f6ac7c30f42281d3fc5e9aae0d304a50c973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 31/50] fix: common type of times and timestamps, with the
 precision and zone of both

---
 treeno/datatypes/conversions.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index c569085..51d78e9 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -10,6 +10,8 @@ Note that this module is very much in flux, as I operate under an assumption:
 The supertype of the input types under typical binary operators will be the output type (with exceptions, such as
 timestamp - timestamp = interval)
 """
+from typing import Any, Dict
+
 from treeno.datatypes.builder import (
     array,
     char,
@@ -113,6 +115,8 @@ def common_datetime(dtype1: DataType, dtype2: DataType) -> DataType:
     if {dtype1.type_name, dtype2.type_name} == {DATE, TIME}:
         return unknown()
     # Currently there's either TIMESTAMP, TIME or TIMESTAMP, DATE, both of which get promoted to timestamp
+    if TIME in {dtype1.type_name, dtype2.type_name}:
+        return timestamp(**common_timelike_parameters(dtype1, dtype2))
     return dtype1 if dtype1.type_name == TIMESTAMP else dtype2
 
 
@@ -286,26 +290,33 @@ def common_array(dtype1: DataType, dtype2: DataType) -> DataType:
     return array(dtype=common_supertype(t1, t2))
 
 
+def common_timelike_parameters(
+    dtype1: DataType, dtype2: DataType
+) -> Dict[str, Any]:
+    parameters: Dict[str, Any] = {
+        "timezone": dtype1.parameters["timezone"]
+        or dtype2.parameters["timezone"]
+    }
+    precision1 = dtype1.parameters.get("precision", None)
+    precision2 = dtype2.parameters.get("precision", None)
+    # The precision is only known if both are
+    if precision1 is not None and precision2 is not None:
+        parameters["precision"] = max(precision1, precision2)
+    return parameters
+
+
 def common_timestamp(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIMESTAMP
     ), "common_timestamp must be called with TIMESTAMPtype only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return timestamp(timezoned=timezoned, precision=precision)
+    return timestamp(**common_timelike_parameters(dtype1, dtype2))
 
 
 def common_time(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIME
     ), "common_time must be called with TIME type only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return time(timezoned=timezoned, precision=precision)
+    return time(**common_timelike_parameters(dtype1, dtype2))
 
 
 def common_interval(dtype1: DataType, dtype2: DataType) -> DataType:
-- 
2.43.0


From 1735f4fec867e63a108f2570d3800c2d01f04558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 32/50] fix: keep common decimals, chars and rows within their
 limits without narrowing

---
 treeno/datatypes/conversions.py | 8 ++++++--
 treeno/functions/common.py      | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index 51d78e9..5e48bca 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -56,6 +56,7 @@ NUMERIC_TYPES = INTEGRAL_TYPES | FLOAT_TYPES | {DECIMAL}
 STRING_TYPES = {CHAR, VARCHAR}
 # Refer to: https://github.com/trinodb/trino/blob/f382a176760975fec51e89f3dc62060e20420f82/core/trino-spi/src/main/java/io/trino/spi/type/CharType.java#L48
 MAX_CHAR_LENGTH = 65536
+MAX_DECIMAL_PRECISION = 38
 
 HLL_TYPES = {HLL, P4HLL}
 
@@ -192,7 +193,7 @@ def common_numeric(dtype1: DataType, dtype2: DataType) -> DataType:
 def promote_varchar_to_char(varchar_dtype: DataType) -> DataType:
     chars = varchar_dtype.parameters.get("max_chars", None)
     if chars is None:
-        return char()
+        return char(max_chars=MAX_CHAR_LENGTH)
     # VARCHAR can be way bigger than char, so we have to be careful to cap it
     return char(max_chars=min(MAX_CHAR_LENGTH, chars))
 
@@ -232,7 +233,8 @@ def common_decimal(dtype1: DataType, dtype2: DataType) -> DataType:
     s1, s2 = dtype1.parameters["scale"], dtype2.parameters["scale"]
     p1, p2 = dtype1.parameters["precision"], dtype2.parameters["precision"]
     scale = max([s1, s2])
-    return decimal(precision=max([p1 - s1, p2 - s2]) + scale, scale=scale)
+    precision = min(MAX_DECIMAL_PRECISION, max([p1 - s1, p2 - s2]) + scale)
+    return decimal(precision=precision, scale=scale)
 
 
 def common_varchar(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -265,6 +267,8 @@ def common_row(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == ROW
     ), "common_row must be called with ROW type only"
+    if len(dtype1.parameters["dtypes"]) != len(dtype2.parameters["dtypes"]):
+        return unknown()
     dtypes = []
     for t1, t2 in zip(dtype1.parameters["dtypes"], dtype2.parameters["dtypes"]):
         dtypes.append(common_supertype(t1, t2))
diff --git a/treeno/functions/common.py b/treeno/functions/common.py
index 47934c1..f3ca40d 100644
--- a/treeno/functions/common.py
+++ b/treeno/functions/common.py
@@ -10,6 +10,7 @@ from treeno.base import GenericVisitor, PrintOptions
 from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import array, char, unknown, varbinary, varchar
 from treeno.datatypes.conversions import (
+    MAX_CHAR_LENGTH,
     STRING_TYPES,
     common_supertype,
     promote_varchar_to_char,
@@ -68,7 +69,7 @@ def _get_string_concat_type(
             if dtype.type_name != type_consts.CHAR:
                 dtype = promote_varchar_to_char(dtype)
             max_chars += dtype.parameters["max_chars"]
-        return char(max_chars=max_chars)
+        return char(max_chars=min(MAX_CHAR_LENGTH, max_chars))
 
 
 @value_attr
@@ -88,6 +89,8 @@ class Concatenate(Function):
             self.data_type = _get_string_concat_type(dtypes)
         elif type_names == {type_consts.VARBINARY}:
             self.data_type = varbinary()
+        else:
+            self.data_type = unknown()
 
     @classmethod
     def from_args(
-- 
2.43.0


From 7a24ce1f655db4624ec1e7b257735af775c6c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 33/50] fix: check the scale of decimals, the length of strings
 and that rows have columns, and don't modify the parameters passed to a type

---
 treeno/datatypes/resolve.py |  3 +++
 treeno/datatypes/types.py   | 25 ++++++++++++++++++++++---
 treeno/relation.py          | 10 +++++++---
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 5419d9a..08a251d 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -56,6 +56,9 @@ def _make_star(star: Star, schema: Schema) -> Star:
         matching_fields = [
             f for f in matching_fields if f.source.identifier() == star.table
         ]
+    # The columns aren't known
+    if not matching_fields:
+        return copy.deepcopy(star)
     dtype = row(dtypes=[f.data_type for f in matching_fields])
     return Star(table=star.table, data_type=dtype)
 
diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index d3f610d..0f3b3b2 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -77,6 +77,8 @@ class DataType(Sql):
 
     def __attrs_post_init__(self):
         self.type_name = self.type_name.upper()
+        # The defaults shouldn't be filled in for the caller as well
+        self.parameters = dict(self.parameters)
         assert (
             self.type_name in ALLOWED_TYPES
         ), f"Type {self.type_name} is not a recognized Trino type."
@@ -94,7 +96,10 @@ class DataType(Sql):
                 field.name in self.parameters
             ), f"{field.name} not specified. Required for {self.type_name}"
             field_value = self.parameters[field.name]
-            assert isinstance(field_value, field.type), (
+            # Booleans are integers in python, but not in SQL
+            assert isinstance(field_value, field.type) and (
+                field.type is bool or not isinstance(field_value, bool)
+            ), (
                 f"Field {field.name} for type {self.type_name} must "
                 f"be of type {field.type.__name__}. "
                 f"Got {type(field_value).__name__} instead with value {field_value})"
@@ -200,15 +205,27 @@ def validate_map(row: DataType) -> None:
 
 def validate_row(row: DataType) -> None:
     data_types = row.parameters["dtypes"]
+    assert len(data_types), "dtypes argument must not be empty"
     assert all(
         isinstance(t, DataType) for t in data_types
     ), "dtypes argument must be a list of DataTypes"
 
 
 def validate_decimal(decimal: DataType) -> None:
-    # TODO: Should we validate the scale as well?
     precision = decimal.parameters["precision"]
-    assert 0 <= precision <= 38, f"Precision {precision} is not supported"
+    assert 1 <= precision <= 38, f"Precision {precision} is not supported"
+    scale = decimal.parameters["scale"]
+    assert (
+        0 <= scale <= precision
+    ), f"Scale {scale} is not supported for precision {precision}"
+
+
+def validate_string(string: DataType) -> None:
+    max_chars = string.parameters.get("max_chars", None)
+    if max_chars is not None:
+        assert max_chars >= 0 and (
+            string.type_name != CHAR or max_chars <= 65536
+        ), f"Length {max_chars} is not supported"
 
 
 def validate_nonparametric(nonparametric: DataType) -> None:
@@ -301,4 +318,6 @@ VALIDATORS: Dict[str, Callable[[DataType], None]] = {
     ROW: validate_row,
     INTERVAL: validate_interval,
     DECIMAL: validate_decimal,
+    VARCHAR: validate_string,
+    CHAR: validate_string,
 }
diff --git a/treeno/relation.py b/treeno/relation.py
index f06a820..8072afb 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -635,9 +635,13 @@ class TableQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        if self.table._column_schema == Schema.empty_schema():
-            return row(dtypes=[f.data_type for f in self.table._column_schema])
-        return unknown()
+        fields = self.table._column_schema.fields
+        if not fields:
+            return unknown()
+        # Same as for a SELECT, a single column isn't a row
+        if len(fields) == 1:
+            return fields[0].data_type
+        return row(dtypes=[f.data_type for f in fields])
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
-- 
2.43.0


From 107c46d9887c63c784c7f67b06283b004b9da3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 34/50] fix: set the data type of INTERSECT and EXCEPT queries

---
 treeno/relation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 8072afb..74b9946 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -305,12 +305,10 @@ class SetQuery(Query, ABC):
         assert (
             left_row_like and right_row_like
         ), "Input data types for query set operations must be ROW"
-        dtypes = []
-        for t1, t2 in zip(
-            left_type.parameters["dtypes"], right_type.parameters["dtypes"]
-        ):
-            dtypes.append(common_supertype(t1, t2))
-        return row(dtypes=dtypes)
+        assert len(left_type.parameters["dtypes"]) == len(
+            right_type.parameters["dtypes"]
+        ), f"Both queries must have as many columns. Found {left_type} and {right_type}"
+        return common_supertype(left_type, right_type)
 
     def _to_string(self, set_type: str, opts: PrintOptions) -> str:
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
@@ -368,6 +366,7 @@ class IntersectQuery(SetQuery):
     """
 
     def __attrs_post_init__(self) -> None:
+        super().__attrs_post_init__()
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"INTERSECT does not support {self.set_quantifier.name}"
@@ -394,6 +393,7 @@ class ExceptQuery(SetQuery):
     """
 
     def __attrs_post_init__(self) -> None:
+        super().__attrs_post_init__()
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"EXCEPT does not support {self.set_quantifier.name}"
-- 
2.43.0


From 1a83f59be023859b74242844e6470b03ced78bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 35/50] fix: accept COALESCE of values without known types

---
 treeno/functions/conditional.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index 204d0ae..0b5d03e 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -49,8 +49,11 @@ class Coalesce(Function):
         dtypes = [
             val.data_type for val in self.values if val.data_type != unknown()
         ]
-        self.data_type = functools.reduce(
-            lambda t1, t2: common_supertype(t1, t2), dtypes
+        # All of them can be unknown
+        self.data_type = (
+            functools.reduce(lambda t1, t2: common_supertype(t1, t2), dtypes)
+            if dtypes
+            else unknown()
         )
 
     @classmethod
-- 
2.43.0


From 69636ef35b7f434e645345fa73bf360ba59d3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 36/50] fix: types of arrays, CASE, VALUES and subscripts from
 all of their elements

---
 treeno/datatypes/conversions.py | 12 +++++++++++-
 treeno/expression.py            | 23 ++++++++++++++++++-----
 treeno/functions/conditional.py | 17 ++++++-----------
 treeno/relation.py              | 13 +++++++------
 4 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index 5e48bca..7a9ab7a 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -10,7 +10,8 @@ Note that this module is very much in flux, as I operate under an assumption:
 The supertype of the input types under typical binary operators will be the output type (with exceptions, such as
 timestamp - timestamp = interval)
 """
-from typing import Any, Dict
+import functools
+from typing import Any, Dict, Iterable
 
 from treeno.datatypes.builder import (
     array,
@@ -98,6 +99,15 @@ def common_supertype(dtype1: DataType, dtype2: DataType) -> DataType:
     raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
 
 
+def common_known_supertype(dtypes: Iterable[DataType]) -> DataType:
+    """Returns a common supertype for any number of dtypes, other than those that aren't known, e.g. those of NULL.
+    """
+    known_dtypes = [dtype for dtype in dtypes if dtype != unknown()]
+    if not known_dtypes:
+        return unknown()
+    return functools.reduce(common_supertype, known_dtypes)
+
+
 def common_same_type(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name
diff --git a/treeno/expression.py b/treeno/expression.py
index ea2068f..22878ab 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -51,7 +51,10 @@ from treeno.datatypes.builder import (
     timestamp,
     unknown,
 )
-from treeno.datatypes.conversions import get_arithmetic_type
+from treeno.datatypes.conversions import (
+    common_known_supertype,
+    get_arithmetic_type,
+)
 from treeno.datatypes.inference import (
     infer_char,
     infer_decimal,
@@ -792,9 +795,9 @@ class Array(Expression):
 
     def __attrs_post_init__(self) -> None:
         assert len(self.values), "values must be a non-empty list for Array"
-        # TODO: This is currently incorrect. We have to widen the data type depending on the largest precision we have
-        # i.e. TYPEOF(ARRAY[CHAR '3'] || '345') yields array(char(3))
-        self.data_type = array(dtype=self.values[0].data_type)
+        self.data_type = array(
+            dtype=common_known_supertype(val.data_type for val in self.values)
+        )
 
     @classmethod
     def from_values(cls, *vals: Any) -> "Array":
@@ -1008,6 +1011,13 @@ class Subscript(Expression):
     value: Value = attr.ib()
     index: Value = attr.ib(converter=wrap_literal)
 
+    def __attrs_post_init__(self) -> None:
+        dtype = self.value.data_type
+        if dtype.type_name == type_consts.ARRAY:
+            self.data_type = dtype.parameters["dtype"]
+        elif dtype.type_name == type_consts.MAP:
+            self.data_type = dtype.parameters["to_dtype"]
+
     def sql(self, opts: PrintOptions) -> str:
         value_string = pemdas_str(type(self), self.value, opts)
         return f"{value_string}[{value_expression_string(self.index, opts)}]"
@@ -1060,7 +1070,10 @@ class Case(Expression):
         assert len(
             self.branches
         ), "There must be at least one WHEN condition in a CASE"
-        self.data_type = self.branches[0].data_type
+        results = self.branches + ([self.else_] if self.else_ else [])
+        self.data_type = common_known_supertype(
+            result.data_type for result in results
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index 0b5d03e..81e77b1 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -1,11 +1,12 @@
-import functools
 from typing import Any, ClassVar, List, Optional, Type
 
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions
-from treeno.datatypes.builder import unknown
-from treeno.datatypes.conversions import common_supertype
+from treeno.datatypes.conversions import (
+    common_known_supertype,
+    common_supertype,
+)
 from treeno.expression import Value, value_attr, wrap_literal, wrap_literal_list
 from treeno.functions.base import Function, GenericFunction
 
@@ -46,14 +47,8 @@ class Coalesce(Function):
     values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
-        dtypes = [
-            val.data_type for val in self.values if val.data_type != unknown()
-        ]
-        # All of them can be unknown
-        self.data_type = (
-            functools.reduce(lambda t1, t2: common_supertype(t1, t2), dtypes)
-            if dtypes
-            else unknown()
+        self.data_type = common_known_supertype(
+            val.data_type for val in self.values
         )
 
     @classmethod
diff --git a/treeno/relation.py b/treeno/relation.py
index 74b9946..5c25ae0 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -57,7 +57,10 @@ from treeno.base import (
 )
 from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import row, unknown
-from treeno.datatypes.conversions import common_supertype
+from treeno.datatypes.conversions import (
+    common_known_supertype,
+    common_supertype,
+)
 from treeno.datatypes.types import DataType
 from treeno.expression import Value, value_attr
 from treeno.groupby import GroupBy
@@ -702,11 +705,9 @@ class ValuesQuery(Query):
     exprs: List[Value] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
-        for val in self.exprs:
-            if self.data_type == unknown():
-                self.data_type = val.data_type
-            else:
-                self.data_type = common_supertype(self.data_type, val.data_type)
+        self.data_type = common_known_supertype(
+            val.data_type for val in self.exprs
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
-- 
2.43.0


From 59f37dc13f7ba76cbc6e54ca0d359cee36121e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 37/50] fix: compare nodes by structure instead of as
 dictionaries of their members

---
 treeno/base.py | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/treeno/base.py b/treeno/base.py
index 0a2bb02..724703e 100644
--- a/treeno/base.py
+++ b/treeno/base.py
@@ -13,7 +13,8 @@ In order to do this, this module introduces some preliminary classes for printin
 
 from abc import ABC, ABCMeta, abstractmethod
 from enum import Enum, EnumMeta, auto
-from typing import TYPE_CHECKING, Any, ClassVar, Set, TypeVar
+from numbers import Number
+from typing import TYPE_CHECKING, Any, ClassVar, Set, Tuple, TypeVar
 
 import attr
 
@@ -139,11 +140,9 @@ class Sql(ABC):
         Returns:
             True if both objects are equal, False otherwise.
         """
-        if not isinstance(other, Sql) or type(self) is not type(other):
+        if not isinstance(other, Sql):
             return False
-        self_dict = attr.asdict(self)
-        other_dict = attr.asdict(other)
-        return self_dict == other_dict
+        return _same_content(self, other, set())
 
     def assert_equals(self, other: Any) -> None:
         """Assert whether two :class:`Sql` nodes are the same.
@@ -153,6 +152,45 @@ class Sql(ABC):
         assert self.equals(other)
 
 
+def _same_content(left: Any, right: Any, seen: Set[Tuple[int, int]]) -> bool:
+    """Compares two objects without ever using ``__eq__`` of a :class:`Sql` node, since that one isn't always a boolean
+    (see :func:`Sql.equals`).
+
+    Args:
+        left: A node, or anything that's a member of a node.
+        right: Same as ``left``.
+        seen: Pairs of objects which are already being compared, since members can refer back to a node which they're a
+            part of.
+    """
+    if left is right or (id(left), id(right)) in seen:
+        return True
+    if type(left) is not type(right):
+        # True and 1 are equal in python but not in SQL
+        if isinstance(left, Number) and isinstance(right, Number):
+            return False
+        for value in (left, right):
+            if isinstance(value, (list, tuple, dict)) or attr.has(type(value)):
+                return False
+    if isinstance(left, (list, tuple)):
+        return len(left) == len(right) and all(
+            _same_content(l, r, seen) for l, r in zip(left, right)
+        )
+    if isinstance(left, dict):
+        return left.keys() == right.keys() and all(
+            _same_content(value, right[key], seen)
+            for key, value in left.items()
+        )
+    if attr.has(type(left)):
+        seen.add((id(left), id(right)))
+        return all(
+            _same_content(
+                getattr(left, field.name), getattr(right, field.name), seen
+            )
+            for field in attr.fields(type(left))
+        )
+    return bool(left == right)
+
+
 class SetQuantifier(DefaultableEnum):
     """Whether to select all rows or only distinct values"""
 
-- 
2.43.0


From fd7cd0c9fe54b6e1c000668b60744bf17df65194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 38/50] fix: resolve relations to exactly their output columns

---
 treeno/datatypes/resolve.py |  71 +++++----
 treeno/expression.py        |   3 +-
 treeno/relation.py          | 301 ++++++++++++++++++++++++++----------
 treeno/util.py              |  10 ++
 4 files changed, 270 insertions(+), 115 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 08a251d..9f34ced 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -1,63 +1,59 @@
 import copy
-from typing import Any, Dict
+from typing import Any, Dict, List, Optional
 
 import attr
 
 from treeno.base import Sql
 from treeno.datatypes.builder import row
 from treeno.datatypes.types import DataType
-from treeno.expression import Field, Star
-from treeno.relation import Query, Schema
-from treeno.util import children, is_dictlike, is_listlike
+from treeno.expression import Field, Star, Value
+from treeno.relation import Query, Schema, SchemaField
+from treeno.util import children, evolve, is_dictlike, is_listlike
 
 
 def _make_field(field: Field, schema: Schema) -> Field:
-    # If field's table is a whole subquery, it would belong solely
-    # to that subquery and not the relation we're dealing with.
-    if isinstance(field.table, Query):
-        raise NotImplementedError("Subqueries are not yet supported")
+    # The fields of a value (i.e. a row) don't come from any relation
+    if isinstance(field.table, Value):
+        return attr.evolve(field, table=resolve_fields(field.table, schema))
 
-    matching_fields = []
-    for f in schema.fields:
-        if (
-            f.name == field.name
-            and field.table is None
-            or field.table in schema.relation_ids
-        ):
-            matching_fields.append(f)
+    matching_fields = [
+        f
+        for f in schema.fields
+        if f.name == field.name
+        and (field.table is None or f.source.identifier() == field.table)
+    ]
 
     # If the schema didn't include the field, it should have an unknown type
     if not len(matching_fields):
         return copy.deepcopy(field)
 
     # In the case of there being two identical names, we need there to be only 1 unique field for it.
-    if field.table is None:
-        assert (
-            len(matching_fields) == 1
-        ), f"Expected 1 global field matching name {field.name}, got {len(matching_fields)}"
-        dtype = matching_fields[0].data_type
-    else:
-        # Find the right table by filtering 1 more time
-        filtered_fields = [
-            f for f in matching_fields if f.source.identifier() == field.table
-        ]
-        assert (
-            len(filtered_fields) == 1
-        ), f"Two ambiguous fields with same name and table found {schema}"
-        dtype = filtered_fields[0].data_type
+    assert (
+        len(matching_fields) == 1
+    ), f"Expected 1 field matching name {field.name}, got {len(matching_fields)}"
+    dtype = matching_fields[0].data_type
     return Field(name=field.name, table=field.table, data_type=dtype)
 
 
-def _make_star(star: Star, schema: Schema) -> Star:
-    if isinstance(star.table, Query):
-        raise NotImplementedError("Subqueries are not yet supported")
+def star_fields(star: Star, schema: Schema) -> Optional[List[SchemaField]]:
+    """Finds the columns which a star stands for, or None if there are columns which aren't known."""
+    if isinstance(star.table, Value):
+        return None
     matching_fields = schema.fields
     if star.table is not None:
         matching_fields = [
             f for f in matching_fields if f.source.identifier() == star.table
         ]
-    # The columns aren't known
-    if not matching_fields:
+    elif schema.is_partial():
+        return None
+    return matching_fields or None
+
+
+def _make_star(star: Star, schema: Schema) -> Star:
+    if isinstance(star.table, Value):
+        return attr.evolve(star, table=resolve_fields(star.table, schema))
+    matching_fields = star_fields(star, schema)
+    if matching_fields is None:
         return copy.deepcopy(star)
     dtype = row(dtypes=[f.data_type for f in matching_fields])
     return Star(table=star.table, data_type=dtype)
@@ -77,6 +73,9 @@ def resolve_fields(node: Any, schema: Schema) -> Any:
     # We don't want to modify data types
     if isinstance(node, DataType):
         return copy.deepcopy(node)
+    # Subqueries have their own namespace
+    if isinstance(node, Query):
+        return copy.deepcopy(node)
     if isinstance(node, Field):
         return _make_field(node, schema)
     if isinstance(node, Star):
@@ -84,4 +83,4 @@ def resolve_fields(node: Any, schema: Schema) -> Any:
     changes: Dict[str, Any] = {}
     for k, v in children(node).items():
         changes[k] = resolve_fields(v, schema)
-    return attr.evolve(node, **changes)
+    return evolve(node, changes)
diff --git a/treeno/expression.py b/treeno/expression.py
index 22878ab..9ba7660 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -66,6 +66,7 @@ from treeno.printer import join_stmts, pad
 from treeno.util import (
     children,
     construct_container,
+    evolve,
     is_dictlike,
     is_listlike,
     parenthesize,
@@ -411,7 +412,7 @@ class Lambda(Expression):
             changes = {}
             for k, v in children(node).items():
                 changes[k] = _from_expr(v)
-            return attr.evolve(node, **changes)
+            return evolve(node, changes)
 
         return cls(inputs, _from_expr(expr))
 
diff --git a/treeno/relation.py b/treeno/relation.py
index 5c25ae0..7b8f33c 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -56,13 +56,13 @@ from treeno.base import (
     Sql,
 )
 from treeno.datatypes import types as type_consts
-from treeno.datatypes.builder import row, unknown
+from treeno.datatypes.builder import bigint, row, unknown
 from treeno.datatypes.conversions import (
     common_known_supertype,
     common_supertype,
 )
 from treeno.datatypes.types import DataType
-from treeno.expression import Value, value_attr
+from treeno.expression import AliasedStar, Star, Value, value_attr
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -178,11 +178,42 @@ class Schema:
         relation_ids = copy.copy(self.relation_ids)
         # .. todo:: This is also pretty slow, O(N^2)
         for f in another_schema.fields:
-            if f not in fields:
+            # NOTE: Two different fields can still be equal, since == of a node isn't always a boolean
+            if not any(f is existing_field for existing_field in fields):
                 fields.append(f)
         relation_ids |= another_schema.relation_ids
         return Schema(fields, relation_ids)
 
+    def shadow(self, another_schema: "Schema") -> "Schema":
+        """Similar to :func:`merge`, but the relations of the other schema hide the ones with the same identifier.
+
+        Args:
+            another_schema: The schema which hides relations of this one.
+        Returns:
+            A new :class:`Schema` object with both schemas' fields and relations except for the hidden ones.
+        """
+        visible_fields = [
+            f
+            for f in self.fields
+            if f.source.identifier() not in another_schema.relation_ids
+        ]
+        return Schema(visible_fields, set(self.relation_ids)).merge(
+            another_schema
+        )
+
+    def column_type(self, name: str) -> DataType:
+        """The type of the column with the given name, which is unknown if there's no such column"""
+        dtypes = [f.data_type for f in self.fields if f.name == name]
+        assert (
+            len(dtypes) <= 1
+        ), f"Expected 1 column with name {name}, got {len(dtypes)}"
+        return dtypes[0] if dtypes else unknown()
+
+    def is_partial(self) -> bool:
+        """Whether there's any relation with columns that aren't known"""
+        known_ids = {f.source.identifier() for f in self.fields}
+        return not self.fields or not self.relation_ids <= known_ids
+
 
 @value_attr
 class Query(Relation, Value, ABC):
@@ -195,7 +226,7 @@ class Query(Relation, Value, ABC):
     offset: Optional[int] = attr.ib(default=None, kw_only=True)
     limit: Optional[int] = attr.ib(default=None, kw_only=True)
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
-    with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
+    with_: List["AliasedRelation"] = attr.ib(factory=list, kw_only=True)
 
     def operand_sql(self, opts: PrintOptions) -> str:
         # Queries need to be parenthesized to be considered values
@@ -217,7 +248,7 @@ class Query(Relation, Value, ABC):
             )
         }
 
-    def _resolve_with(self) -> Schema:
+    def _resolve_with(self, existing_schema: Schema) -> Schema:
         """Resolves the queries in WITH statement with context that carries over.
 
         It's important to note that CTE's can actually refer to previously defined CTE's using FROM:
@@ -231,12 +262,15 @@ class Query(Relation, Value, ABC):
             (1 row)
 
         In the above example, ``b`` is able to refer to ``a`` because it's defined before in the WITH sequence.
+
+        Args:
+            existing_schema: Schema with the relations which are visible to the whole query.
+        Returns:
+            The existing schema, in which the queries of the WITH statement hide relations with the same name.
         """
-        merging_schema = Schema.empty_schema()
         for w in self.with_:
-            new_schema = w.resolve(merging_schema)
-            merging_schema = merging_schema.merge(new_schema)
-        return merging_schema
+            existing_schema = existing_schema.shadow(w.resolve(existing_schema))
+        return existing_schema
 
     def _constraint_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
         """Creates a dictionary mapping of a couple output-filtering constraints to the query.
@@ -331,20 +365,21 @@ class SetQuery(Query, ABC):
         return builder.to_string(opts)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        left_schema = self.left_query.resolve(
-            maybe_prune_schema(self.left_query, existing_schema)
-        )
-        self.right_query.resolve(
-            maybe_prune_schema(self.right_query, existing_schema)
-        )
+        existing_schema = self._resolve_with(existing_schema)
+        left_fields = self.left_query.resolve(existing_schema).fields
+        right_fields = self.right_query.resolve(existing_schema).fields
+        self.data_type = self._compute_data_type()
         # The column names and such are always taken from the left schema.
         schema_fields = []
-        for schema_field in left_schema.fields:
+        for idx, schema_field in enumerate(left_fields):
             # Basically take the schema that belonged to left schema and re-assign it to this set query
-            schema_fields.append(
-                SchemaField(schema_field.name, self, schema_field.data_type)
-            )
-        return Schema(schema_fields, relation_ids=left_schema.relation_ids)
+            dtype = unknown()
+            if len(left_fields) == len(right_fields):
+                dtype = common_supertype(
+                    schema_field.data_type, right_fields[idx].data_type
+                )
+            schema_fields.append(SchemaField(schema_field.name, self, dtype))
+        return Schema(schema_fields, relation_ids=set())
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_query)
@@ -475,33 +510,54 @@ class SelectQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
+        dtypes = []
+        for val in self.select:
+            if not isinstance(val, (Star, AliasedStar)):
+                dtypes.append(val.data_type)
+            elif val.data_type.type_name == type_consts.ROW:
+                dtypes.extend(val.data_type.parameters["dtypes"])
+            else:
+                # It's not known how many columns there are
+                return unknown()
         # Special case: If the select clause only has one output element, it's not a row.
-        if len(self.select) == 1:
-            return self.select[0].data_type
-        return row(dtypes=[val.data_type for val in self.select])
+        if len(dtypes) == 1:
+            return dtypes[0]
+        return row(dtypes=dtypes)
+
+    def _output_columns(self, value: Value, schema: Schema) -> List[SchemaField]:
+        """Lists the columns of the output which a single value of the select clause yields
+
+        Args:
+            value: A member of the select clause.
+            schema: The schema of the relation to select from.
+        """
+        from treeno.datatypes.resolve import star_fields
+
+        star = value.star if isinstance(value, AliasedStar) else value
+        if not isinstance(star, Star):
+            return [SchemaField(value.identifier(), self, value.data_type)]
+        columns = star_fields(star, schema)
+        if isinstance(value, AliasedStar):
+            return rename_columns(columns or [], self, value.aliases)
+        if columns is None:
+            return [SchemaField(None, self, unknown())]
+        return [SchemaField(f.name, self, f.data_type) for f in columns]
 
     def resolve(self, existing_schema: Schema) -> Schema:
         from treeno.datatypes.resolve import resolve_fields
 
-        # Pass in existing relations from CTE into from_ as long as from_ is not in its own namespace i.e. a subquery.
+        # Pass in existing relations from CTE into from_.
+        existing_schema = self._resolve_with(existing_schema)
+        schema = Schema.empty_schema()
         if self.from_ is not None:
-            existing_schema = existing_schema.merge(self._resolve_with())
-            schema = self.from_.resolve(
-                maybe_prune_schema(self.from_, existing_schema)
-            )
+            schema = resolve_relation(self.from_, existing_schema, schema)
             self.select = [resolve_fields(val, schema) for val in self.select]
             self.data_type = self._compute_data_type()
 
         schema_fields = []
         for value in self.select:
             # All schema fields have the source to the current object
-            schema_fields.append(
-                SchemaField(
-                    name=value.identifier(),
-                    source=self,
-                    data_type=value.data_type,
-                )
-            )
+            schema_fields.extend(self._output_columns(value, schema))
         return Schema(schema_fields, relation_ids=set())
 
     def sql(self, opts: PrintOptions) -> str:
@@ -590,8 +646,11 @@ class Table(Relation):
             assert (
                 self.schema
             ), "If a catalog is specified, a schema must be specified as well"
-        if self.name not in self._column_schema.relation_ids:
-            self._column_schema.relation_ids.add(self.name)
+        # The schema could be in use for something else
+        self._column_schema = Schema(
+            copy.copy(self._column_schema.fields),
+            self._column_schema.relation_ids | {self.name},
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         return chain_identifiers(self.catalog, self.schema, self.name)
@@ -602,15 +661,30 @@ class Table(Relation):
             return self._column_schema
         # Otherwise, the schema IS defined e.g. by a previous CTE
         schema_fields = [
-            f
-            for f in existing_schema.fields
-            if f.source.identifier() == self.identifier()
+            f for f in existing_schema.fields if self._is_same_table(f.source)
         ]
+        # A table with a qualified name is not the one which was defined
+        if self.schema is not None and not schema_fields:
+            return self._column_schema
         self._column_schema = Schema(
             schema_fields, relation_ids={self.identifier()}
         )
         return self._column_schema
 
+    def _is_same_table(self, source: Relation) -> bool:
+        if source.identifier() != self.identifier():
+            return False
+        if self.schema is None:
+            return True
+        # Only tables have a qualified name, and their qualifiers may be left out
+        return (
+            isinstance(source, Table)
+            and source.schema in (None, self.schema)
+            and (
+                self.catalog is None or source.catalog in (None, self.catalog)
+            )
+        )
+
     def identifier(self) -> Optional[str]:
         return self.name
 
@@ -656,8 +730,7 @@ class TableQuery(Query):
     def resolve(self, existing_schema: Schema) -> Schema:
         # We not only need to take the existing schema, but we also need to shadow some fields with the
         # local WITH clause
-        with_schema = self._resolve_with()
-        table_schema = self.table.resolve(with_schema)
+        table_schema = self.table.resolve(self._resolve_with(existing_schema))
         self.data_type = self._compute_data_type()
         return table_schema
 
@@ -720,8 +793,13 @@ class ValuesQuery(Query):
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # ..todo:: Does ValuesQuery dereference anything by itself?
+        # Every row has the same columns, and a row of a single column doesn't have to be a ROW
+        dtypes = [self.data_type]
+        if self.data_type.type_name == type_consts.ROW:
+            dtypes = self.data_type.parameters["dtypes"]
         return Schema(
-            [SchemaField(None, self, val.data_type) for val in self.exprs]
+            [SchemaField(None, self, dtype) for dtype in dtypes],
+            relation_ids=set(),
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -784,19 +862,17 @@ class AliasedRelation(Relation):
         return alias_str
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        relation_schema = self.relation.resolve(
-            maybe_prune_schema(self.relation, existing_schema)
-        )
-        new_schema_fields = []
-        for idx, schema_field in enumerate(relation_schema.fields):
-            field_name = (
-                self.column_aliases[idx]
-                if self.column_aliases
-                else schema_field.name
-            )
-            new_schema_fields.append(
-                SchemaField(field_name, self, schema_field.data_type)
-            )
+        relation_schema = self.relation.resolve(existing_schema)
+        fields = relation_schema.fields
+        if fields and relation_schema.is_partial():
+            # There are more columns than the known ones
+            fields = [SchemaField(None, self, unknown())] + fields
+        if self.column_aliases:
+            new_schema_fields = rename_columns(fields, self, self.column_aliases)
+        else:
+            new_schema_fields = [
+                SchemaField(f.name, self, f.data_type) for f in fields
+            ]
         return Schema(new_schema_fields, relation_ids={self.identifier()})
 
     def identifier(self) -> Optional[str]:
@@ -966,18 +1042,49 @@ class Join(Relation):
         return builder.to_string(opts)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        pruned_left_arg = maybe_prune_schema(
-            self.left_relation, existing_schema
+        left_schema = resolve_relation(
+            self.left_relation, existing_schema, Schema.empty_schema()
         )
-        left_schema = self.left_relation.resolve(pruned_left_arg)
-        existing_schema = existing_schema.merge(left_schema)
         # Pass in the namespace of the first relation to the second. This is important for sql statemnts like
         # SELECT x FROM a CROSS JOIN UNNEST(a.foo), where UNNEST requires a to be selected first
-        pruned_right_arg = maybe_prune_schema(
-            self.right_relation, existing_schema
+        right_schema = resolve_relation(
+            self.right_relation, existing_schema, left_schema
         )
-        right_schema = self.right_relation.resolve(pruned_right_arg)
-        return left_schema.merge(right_schema)
+        relation_ids = left_schema.relation_ids | right_schema.relation_ids
+        names = self._shared_column_names(left_schema, right_schema)
+        # The shared columns come first, and don't belong to either relation. A partial schema stays partial.
+        fields = [
+            SchemaField(
+                name,
+                self,
+                common_supertype(
+                    left_schema.column_type(name),
+                    right_schema.column_type(name),
+                ),
+            )
+            for name in names
+        ]
+        for schema in (left_schema, right_schema):
+            remaining = [f for f in schema.fields if f.name not in names]
+            relation_ids -= {f.source.identifier() for f in schema.fields} - {
+                f.source.identifier() for f in remaining
+            }
+            fields.extend(remaining)
+        return Schema(fields, relation_ids)
+
+    def _shared_column_names(
+        self, left_schema: Schema, right_schema: Schema
+    ) -> List[str]:
+        if isinstance(self.config.criteria, JoinUsingCriteria):
+            return self.config.criteria.column_names
+        if self.config.natural:
+            right_names = {f.name for f in right_schema.fields}
+            return [
+                f.name
+                for f in left_schema.fields
+                if f.name is not None and f.name in right_names
+            ]
+        return []
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_relation)
@@ -1013,10 +1120,20 @@ class Unnest(Relation):
     def _compute_data_type(self) -> DataType:
         dtypes = []
         for val in self.arrays:
-            if val.data_type.type_name != type_consts.ARRAY:
+            if val.data_type.type_name == type_consts.MAP:
+                dtypes.append(val.data_type.parameters["from_dtype"])
+                dtypes.append(val.data_type.parameters["to_dtype"])
+            elif val.data_type.type_name != type_consts.ARRAY:
                 dtypes.append(unknown())
             else:
-                dtypes.append(val.data_type.parameters["dtype"])
+                dtype = val.data_type.parameters["dtype"]
+                # Arrays of rows have one column for each member of the row
+                if dtype.type_name == type_consts.ROW:
+                    dtypes.extend(dtype.parameters["dtypes"])
+                else:
+                    dtypes.append(dtype)
+        if self.with_ordinality:
+            dtypes.append(bigint())
         return row(dtypes=dtypes)
 
     def sql(self, opts: PrintOptions) -> str:
@@ -1062,7 +1179,6 @@ class Lateral(Relation):
         return f"LATERAL({self.subquery.sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We explicitly don't maybe_prune_schema here, since lateral needs to explicitly pass it down
         return self.subquery.resolve(existing_schema)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1114,7 +1230,6 @@ class TableSample(Relation):
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.operand_sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
         return self.relation.resolve(existing_schema)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1140,18 +1255,48 @@ def relation_string(
         return relation_str
 
 
-def maybe_prune_schema(relation: Relation, existing_schema: Schema) -> Schema:
-    """Prune the schema depending on whether the relation will enter a new namespace
+def resolve_relation(
+    relation: Relation, existing_schema: Schema, preceding_schema: Schema
+) -> Schema:
+    """Resolve a relation of a FROM clause.
 
-    Some relations don't want extra schema information to be passed through because it's in its own parenthesized
-    expression which is not aware of the outer namespace.
+    UNNEST is the only relation which refers to columns, and these are the ones of the relations in front of it. All of
+    the other relations refer to other relations by their name.
 
     Args:
-        relation: The relation to enter into with the given schema
-        existing_schema: The schema to pass into the relation
+        relation: The relation to resolve.
+        existing_schema: The schema of the relations which can be referred to by name.
+        preceding_schema: The schema of the relations in front of this one.
     Returns:
-        Either an empty :class:`Schema` or the original :class:`Schema`.
+        The :class:`Schema` of the relation.
     """
-    if isinstance(relation, Query):
-        return Schema.empty_schema()
-    return existing_schema
+    base_relation = relation
+    while isinstance(base_relation, (AliasedRelation, TableSample)):
+        base_relation = base_relation.relation
+    if isinstance(base_relation, Unnest):
+        return relation.resolve(preceding_schema)
+    return relation.resolve(existing_schema)
+
+
+def rename_columns(
+    fields: List[SchemaField], source: Relation, names: List[str]
+) -> List[SchemaField]:
+    """Give the columns of a relation new names.
+
+    Args:
+        fields: The columns which are known, with a nameless one of unknown type in place of other columns.
+        source: The relation which gives the names.
+        names: The new names for all of the columns.
+    Returns:
+        The columns with the new names, which are of unknown type if it's not known which column is which.
+    """
+    if len(fields) == len(names):
+        dtypes = [f.data_type for f in fields]
+    else:
+        assert not fields or any(
+            f.name is None and f.data_type == unknown() for f in fields
+        ), f"Expected {len(fields)} column aliases, got {len(names)}"
+        dtypes = [unknown() for _ in names]
+    return [
+        SchemaField(name, source, dtype) for name, dtype in zip(names, dtypes)
+    ]
diff --git a/treeno/util.py b/treeno/util.py
index fef026a..92e052c 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -71,6 +71,16 @@ def children(sql: "Sql") -> Dict[str, Any]:
     return {field_name: getattr(sql, field_name) for field_name in fields_dict}
 
 
+def evolve(sql: "Sql", changes: Dict[str, Any]) -> "Sql":
+    """Creates a copy of the node with some of its children (see :func:`children`) changed"""
+    init_args = {}
+    for field in attr.fields(type(sql)):
+        if field.init and field.name in changes:
+            # Private members are initialized without the underscore
+            init_args[field.name.lstrip("_")] = changes[field.name]
+    return attr.evolve(sql, **init_args)
+
+
 def is_abstract(cls: Type[T]) -> bool:
     # TODO: We ignore abstract classes, but some already have all of their
     # abstract methods defined. Thus we do the extra check of ABC as a direct base.
-- 
2.43.0


From 370c2623816c67802acf00c73334c29fb5c9961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 39/50] fix: print columns without a name in the schema command

---
 treeno/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index 7071640..e84e8e8 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -123,7 +123,7 @@ def schema(sql: str) -> None:
     for idx, field in enumerate(schema.fields):
         field_string = (
             typer.style("<none>", fg=typer.colors.RED, bold=True)
-            if field is None
+            if field.name is None
             else field.name
         )
         dtype_string = (
-- 
2.43.0


From 258e90b6cf247b0fa94696f4914f8a50634bc29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 40/50] fix: visit every child of queries, joins, aggregates
 and lambda parameters

---
 treeno/functions/aggregate.py | 28 ++++++++++++++++++++++++++--
 treeno/relation.py            | 17 +++++++++++++++--
 treeno/visitor.py             |  3 +++
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 9b22972..181c983 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -82,6 +82,15 @@ class AggregateFunction(Function, ABC):
             return call_str + constraint_string
         return call_str
 
+    def visit_constraints(self, visitor: GenericVisitor) -> None:
+        if self.orderby:
+            for order_term in self.orderby:
+                visitor.visit(order_term)
+        if self.filter_:
+            visitor.visit(self.filter_)
+        if self.window:
+            visitor.visit(self.window)
+
 
 @value_attr
 class UnaryAggregateFunction(AggregateFunction, ABC):
@@ -92,6 +101,7 @@ class UnaryAggregateFunction(AggregateFunction, ABC):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -106,8 +116,9 @@ class BinaryStatsFunction(AggregateFunction, ABC):
         return self.to_string([self.y, self.x], opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.x)
         visitor.visit(self.y)
+        visitor.visit(self.x)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -267,6 +278,7 @@ class ListAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.overflow_filler:
             visitor.visit(self.overflow_filler)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -293,6 +305,7 @@ class Max(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -321,6 +334,7 @@ class MaxBy(AggregateFunction):
         visitor.visit(self.max_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -347,6 +361,7 @@ class Min(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -375,6 +390,7 @@ class MinBy(AggregateFunction):
         visitor.visit(self.min_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -420,6 +436,7 @@ class MapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -448,6 +465,7 @@ class MultiMapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -471,6 +489,7 @@ class ApproxDistinct(AggregateFunction):
         visitor.visit(self.key)
         if self.epsilon:
             visitor.visit(self.epsilon)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -492,6 +511,7 @@ class ApproxMostFrequent(AggregateFunction):
         visitor.visit(self.buckets)
         visitor.visit(self.value)
         visitor.visit(self.capacity)
+        self.visit_constraints(visitor)
 
 
 @value_attr(init=False)
@@ -533,6 +553,7 @@ class ApproxPercentile(AggregateFunction):
         visitor.visit(self.percentage)
         if self.weight:
             visitor.visit(self.weight)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -581,6 +602,7 @@ class NumericHistogram(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -606,11 +628,12 @@ class QDigestAgg(AggregateFunction):
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.buckets)
+        visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
         if self.accuracy:
             visitor.visit(self.accuracy)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -634,6 +657,7 @@ class TDigestAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        self.visit_constraints(visitor)
 
 
 @value_attr
diff --git a/treeno/relation.py b/treeno/relation.py
index 7b8f33c..9fb3ac3 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -228,6 +228,13 @@ class Query(Relation, Value, ABC):
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
     with_: List["AliasedRelation"] = attr.ib(factory=list, kw_only=True)
 
+    def visit_constraints(self, visitor: GenericVisitor) -> None:
+        for query in self.with_:
+            visitor.visit(query)
+        if self.orderby:
+            for order_term in self.orderby:
+                visitor.visit(order_term)
+
     def operand_sql(self, opts: PrintOptions) -> str:
         # Queries need to be parenthesized to be considered values
         return parenthesize(self.sql(opts))
@@ -384,6 +391,7 @@ class SetQuery(Query, ABC):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_query)
         visitor.visit(self.right_query)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -595,7 +603,8 @@ class SelectQuery(Query):
         return builder.to_string(opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.select)
+        for value in self.select:
+            visitor.visit(value)
         if self.from_:
             visitor.visit(self.from_)
         if self.where:
@@ -607,6 +616,7 @@ class SelectQuery(Query):
         if self.window:
             for window in self.window.values():
                 visitor.visit(window)
+        self.visit_constraints(visitor)
 
 
 @attr.s
@@ -736,6 +746,7 @@ class TableQuery(Query):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.table)
+        self.visit_constraints(visitor)
 
 
 @value_attr
@@ -805,6 +816,7 @@ class ValuesQuery(Query):
     def visit(self, visitor: GenericVisitor) -> None:
         for expr in self.exprs:
             visitor.visit(expr)
+        self.visit_constraints(visitor)
 
 
 @attr.s
@@ -1008,7 +1020,8 @@ class JoinConfig(Sql):
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.criteria)
+        if self.criteria is not None:
+            visitor.visit(self.criteria)
 
 
 @attr.s
diff --git a/treeno/visitor.py b/treeno/visitor.py
index b526505..34e6f65 100644
--- a/treeno/visitor.py
+++ b/treeno/visitor.py
@@ -636,6 +636,9 @@ class TreenoVisitor(Generic[T]):
     def visit_Lambda(self, node: "Lambda") -> T:
         ...
 
+    def visit_Variable(self, node: "Lambda.Variable") -> T:
+        ...
+
     def visit_If(self, node: "If") -> T:
         ...
 
-- 
2.43.0


From 72dfb7afc3bc977f95699039e38df967a18eab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 41/50] fix: QDIGEST_AGG can't have an accuracy without a
 weight

---
 treeno/functions/aggregate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 181c983..208802a 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -617,6 +617,10 @@ class QDigestAgg(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
+        # The arguments are positional, so the accuracy would be read as the weight
+        assert (
+            self.accuracy is None or self.weight is not None
+        ), "QDIGEST_AGG requires a weight if the accuracy is specified"
         self.data_type = qdigest(dtype=self.value.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
-- 
2.43.0


From 3861273fe2c20d4f28ab5f4495bc690a369d1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 42/50] fix: precision of times with a time zone offset

---
 treeno/datatypes/inference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 12fcf06..9e0c7b8 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -72,5 +72,6 @@ def infer_timelike_precision(value: str) -> int:
     # Number of digits past the dot is its precision
     if "." not in value:
         return 0
-    # In case we have timezone
-    return len(value.rsplit(".")[-1].split(" ")[0])
+    fraction = value.rsplit(".")[-1]
+    # In case we have timezone, which doesn't have to follow a space
+    return len(fraction) - len(fraction.lstrip("0123456789"))
-- 
2.43.0


From ae2c6a453a3a24bb7e32204a99f20db667f4f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 43/50] fix: keep all digits of negative decimals

---
 treeno/builder/convert.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 1b8c7e4..f20f93e 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -749,7 +749,9 @@ class ConvertVisitor(SqlBaseVisitor):
         self, ctx: SqlBaseParser.DecimalLiteralContext
     ) -> Literal:
         text = ctx.DECIMAL_VALUE().getText()
-        negative = ctx.MINUS() is not None
+        # Negating a decimal afterwards would round it
+        if ctx.MINUS() is not None:
+            text = "-" + text
 
         dtype: DataType
         value: Union[int, Decimal]
@@ -760,9 +762,6 @@ class ConvertVisitor(SqlBaseVisitor):
             value = int(text)
             dtype = integer()
 
-        if negative:
-            value = -value
-
         return Literal(value, data_type=dtype)
 
     @overrides
-- 
2.43.0


From 83e209a6877ce3b4c42f70af06a219bbe5a3ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 44/50] fix: convert the != operator

---
 treeno/builder/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f20f93e..bc470ea 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -131,7 +131,7 @@ def apply_operator(operator: str, *args: Value) -> Value:
         return args[0] < args[1]
     elif operator == "<=":
         return args[0] <= args[1]
-    elif operator == "<>":
+    elif operator in ("<>", "!="):
         return args[0] != args[1]
     elif operator == "+":
         if len(args) == 1:
-- 
2.43.0


From f935b5df1fba6a13365977cf2c229ee924a5a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 45/50] fix: don't drop the qualifier of a qualified star

---
 treeno/builder/convert.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index bc470ea..eee5437 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1063,7 +1063,13 @@ class ConvertVisitor(SqlBaseVisitor):
         table: Optional[Union[str, Value]] = None
         if primary_expr:
             expr = self.visit(primary_expr)
-            table = expr.name if isinstance(expr, Field) else expr
+            if isinstance(expr, Field):
+                assert (
+                    not expr.table
+                ), "Treeno currently only supports stars in the form * or x.*"
+                table = expr.name
+            else:
+                table = expr
 
         # TODO: This is a bit hacky right now, but the table reference is derived from a ColumnReference which is a field
         # here we just interpret a Field to mean a table reference.
-- 
2.43.0


From b26a9015f6c282e580c6e3b6e4362119b15f0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 46/50] fix: don't drop parts of a table name

---
 treeno/builder/convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index eee5437..cb68051 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -156,6 +156,9 @@ def apply_operator(operator: str, *args: Value) -> Value:
 
 
 def table_from_qualifiers(qualifiers: List[str]) -> Table:
+    assert (
+        len(qualifiers) <= 3
+    ), f"Too many qualifiers for a table: {'.'.join(qualifiers)}"
     qualifiers = list(reversed(qualifiers))
     name: str = qualifiers[0]
     schema: Optional[str] = nth(qualifiers, 1)
-- 
2.43.0


From 3e07f16e7eba3ce91bebdeab3e7599bec2d32f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 47/50] fix: don't drop windows with the same name

---
 treeno/builder/convert.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index cb68051..24c4dd3 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1365,7 +1365,11 @@ class ConvertVisitor(SqlBaseVisitor):
         if groupby:
             query_builder.groupby = self.visit(groupby)
         if ctx.WINDOW():
-            query_builder.window = dict(
+            definitions = [
                 self.visit(window_def) for window_def in ctx.windowDefinition()
-            )
+            ]
+            query_builder.window = dict(definitions)
+            assert len(query_builder.window) == len(
+                definitions
+            ), "Windows must have different names"
         return query_builder
-- 
2.43.0


From eda59095c6d4d0268cfa7950e83d8a3600cf31fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:43 +0000
Subject: [PATCH 48/50] fix: the default separator of LISTAGG is the empty
 string

---
 treeno/functions/aggregate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 208802a..8cd6ceb 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -235,10 +235,10 @@ class OverflowFiller(Sql):
 
 @value_attr
 class ListAgg(AggregateFunction):
-    DEFAULT_SEPARATOR: ClassVar[str] = " "
+    DEFAULT_SEPARATOR: ClassVar[str] = ""
     FN_NAME: ClassVar[str] = "LISTAGG"
     value: Value = attr.ib(converter=wrap_literal)
-    separator: str = attr.ib(default=" ")
+    separator: str = attr.ib(default="")
     # If overflow filler is None, then raise an error. Otherwise truncate
     # with the appropriate filler string.
     overflow_filler: Optional[OverflowFiller] = attr.ib(default=None)
-- 
2.43.0


From e243b8f4b1070bfdad23512d5378d779dc719127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 49/50] fix: column aliases of a partly unknown join don't
 guess its column order

---
 treeno/relation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 9fb3ac3..db03bf9 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -877,8 +877,10 @@ class AliasedRelation(Relation):
         relation_schema = self.relation.resolve(existing_schema)
         fields = relation_schema.fields
         if fields and relation_schema.is_partial():
-            # There are more columns than the known ones
-            fields = [SchemaField(None, self, unknown())] + fields
+            # There are more columns than the known ones, anywhere between them
+            fields = [SchemaField(None, self, unknown())]
+            if not self.column_aliases:
+                fields = fields + relation_schema.fields
         if self.column_aliases:
             new_schema_fields = rename_columns(fields, self, self.column_aliases)
         else:
-- 
2.43.0


From f13e5323b7c6cf08fce69f8c581982a82c2f83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 50/50] fix: a relation with some unknown columns stays partly
 unknown in a join and with an alias

---
 treeno/datatypes/resolve.py |  2 ++
 treeno/relation.py          | 52 +++++++++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 9f34ced..6ed4051 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -41,6 +41,8 @@ def star_fields(star: Star, schema: Schema) -> Optional[List[SchemaField]]:
         return None
     matching_fields = schema.fields
     if star.table is not None:
+        if star.table in schema.unknown_ids():
+            return None
         matching_fields = [
             f for f in matching_fields if f.source.identifier() == star.table
         ]
diff --git a/treeno/relation.py b/treeno/relation.py
index db03bf9..108b383 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -148,10 +148,12 @@ class Schema:
         Relation_ids: A set of relations used to denote the existence of a relation included in the schema.
             This set can contain relations that contains no fields - e.g. for a table with an undefined schema,
             the fields would be empty but the relation would still be in the set
+        partial_ids: The relations for which only some of the columns are in the fields.
     """
 
     fields: List[SchemaField] = attr.ib()
     relation_ids: Set[str] = attr.ib()
+    partial_ids: Set[Optional[str]] = attr.ib(factory=set)
 
     @classmethod
     def empty_schema(cls) -> "Schema":
@@ -182,7 +184,11 @@ class Schema:
             if not any(f is existing_field for existing_field in fields):
                 fields.append(f)
         relation_ids |= another_schema.relation_ids
-        return Schema(fields, relation_ids)
+        return Schema(
+            fields,
+            relation_ids,
+            self.partial_ids | another_schema.partial_ids,
+        )
 
     def shadow(self, another_schema: "Schema") -> "Schema":
         """Similar to :func:`merge`, but the relations of the other schema hide the ones with the same identifier.
@@ -197,9 +203,11 @@ class Schema:
             for f in self.fields
             if f.source.identifier() not in another_schema.relation_ids
         ]
-        return Schema(visible_fields, set(self.relation_ids)).merge(
-            another_schema
-        )
+        return Schema(
+            visible_fields,
+            set(self.relation_ids),
+            self.partial_ids - another_schema.relation_ids,
+        ).merge(another_schema)
 
     def column_type(self, name: str) -> DataType:
         """The type of the column with the given name, which is unknown if there's no such column"""
@@ -211,8 +219,15 @@ class Schema:
 
     def is_partial(self) -> bool:
         """Whether there's any relation with columns that aren't known"""
+        return bool(self.unknown_ids())
+
+    def unknown_ids(self) -> Set[Optional[str]]:
+        """The relations with columns that aren't known"""
+        if not self.fields:
+            # A relation doesn't have to have an identifier
+            return self.relation_ids or {None}
         known_ids = {f.source.identifier() for f in self.fields}
-        return not self.fields or not self.relation_ids <= known_ids
+        return self.partial_ids | (self.relation_ids - known_ids)
 
 
 @value_attr
@@ -876,18 +891,25 @@ class AliasedRelation(Relation):
     def resolve(self, existing_schema: Schema) -> Schema:
         relation_schema = self.relation.resolve(existing_schema)
         fields = relation_schema.fields
-        if fields and relation_schema.is_partial():
-            # There are more columns than the known ones, anywhere between them
-            fields = [SchemaField(None, self, unknown())]
-            if not self.column_aliases:
-                fields = fields + relation_schema.fields
+        partial_ids = set()
         if self.column_aliases:
-            new_schema_fields = rename_columns(fields, self, self.column_aliases)
+            # It's not known which column is which unless all of them are known
+            new_schema_fields = rename_columns(
+                [] if relation_schema.is_partial() else fields,
+                self,
+                self.column_aliases,
+            )
         else:
             new_schema_fields = [
                 SchemaField(f.name, self, f.data_type) for f in fields
             ]
-        return Schema(new_schema_fields, relation_ids={self.identifier()})
+            if relation_schema.is_partial():
+                partial_ids.add(self.identifier())
+        return Schema(
+            new_schema_fields,
+            relation_ids={self.identifier()},
+            partial_ids=partial_ids,
+        )
 
     def identifier(self) -> Optional[str]:
         return self.alias
@@ -1085,7 +1107,11 @@ class Join(Relation):
                 f.source.identifier() for f in remaining
             }
             fields.extend(remaining)
-        return Schema(fields, relation_ids)
+        return Schema(
+            fields,
+            relation_ids,
+            left_schema.unknown_ids() | right_schema.unknown_ids(),
+        )
 
     def _shared_column_names(
         self, left_schema: Schema, right_schema: Schema
-- 
2.43.0

