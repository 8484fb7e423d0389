From af460952da0a5698e143fcaa3eca0c686645430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:48 +0000
Subject: [PATCH 01/30] fix: --verbose-validate prints the validation summary
 and sets the exit status

---
 sqlvalidator/file_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/file_handler.py b/sqlvalidator/file_handler.py
index 3b76d00..c238794 100644
--- a/sqlvalidator/file_handler.py
+++ b/sqlvalidator/file_handler.py
@@ -90,13 +90,13 @@ def handle_inputs(
             inputs_info.num_changed_sql,
             check_input_format,
         )
-    if validate_input:
+    if validate_input or verbose_validate_input:
         print_validation_summary(
             inputs_info.num_invalid_files, inputs_info.num_invalid_sql
         )
 
     if (check_input_format and inputs_info.num_changed_sql > 0) or (
-        validate_input and inputs_info.num_invalid_sql > 0
+        (validate_input or verbose_validate_input) and inputs_info.num_invalid_sql > 0
     ):
         sys.exit(1)
 
-- 
2.43.0


From 8263f446dc26f7ebd765552ae98eb03b1e638231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:56 +0000
Subject: [PATCH 02/30] fix: render nested parts with transform() so that
 AND/OR, aliases and subqueries inside them are not printed as repr

---
 sqlvalidator/grammar/sql.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d2c3701..9bce3b4 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -58,7 +58,7 @@ class SelectStatement:
             statement_str += " DISTINCT"
             if self.select_distinct_on:
                 statement_str += " ON ({})".format(
-                    ", ".join(map(str, self.select_distinct_on))
+                    ", ".join(map(transform, self.select_distinct_on))
                 )
 
         if len(self.expressions) == 1:
@@ -236,7 +236,7 @@ class Expression:
         self.value = value
 
     def __str__(self):
-        return str(self.value)
+        return transform(self.value)
 
     def __repr__(self):
         return "<{}: {!r}>".format(self.__class__.__name__, self.value)
@@ -291,7 +291,7 @@ class GroupByClause(Expression):
 
     def __str__(self):
         if len(self.args) > 1:
-            group_by_str = "\n{}".format(",\n".join(map(str, self.args))).replace(
+            group_by_str = "\n{}".format(",\n".join(map(transform, self.args))).replace(
                 "\n", "\n "
             )
         else:
@@ -408,7 +408,7 @@ class OrderByItem(Expression):
         self.has_desc = has_desc
 
     def __str__(self):
-        order_by_item_str = str(self.value)
+        order_by_item_str = transform(self.value)
         if self.has_asc:
             order_by_item_str += " ASC"
         elif self.has_desc:
@@ -452,7 +452,7 @@ class LimitClause(Expression):
         if self.limit_all:
             limit_str = "ALL"
         else:
-            limit_str = str(self.value)
+            limit_str = transform(self.value)
         return limit_str
 
     def __repr__(self):
@@ -1099,7 +1099,7 @@ class ArithmaticOperator(Expression):
 
     def __str__(self):
         join_str = " {} ".format(self.operator)
-        return join_str.join(map(str, self.args))
+        return join_str.join(map(transform, self.args))
 
     def __repr__(self):
         return "<{} {}: {}>".format(
@@ -1589,7 +1589,7 @@ class Case(Expression):
             else:
                 when_then_str += " " + transformed_when + " "
 
-            when_then_str += f"THEN {then}"
+            when_then_str += f"THEN {transform(then)}"
             when_then_block_str.append(when_then_str)
 
         case_str += "\n ".join(when_then_block_str)
-- 
2.43.0


From d43994a64745744bf596571c7cc3daa4ec225cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:09 +0000
Subject: [PATCH 03/30] fix: keep every element of a parenthesised list when
 its layout is multi-line

---
 sqlvalidator/grammar/sql.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 9bce3b4..0ee9b20 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -262,7 +262,8 @@ class WhereClause(Expression):
     def transform(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            inner = self.value.transform_args()
+            return " (\n " + inner.replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -349,7 +350,8 @@ class HavingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            inner = self.value.transform_args()
+            return " (\n " + inner.replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -981,6 +983,9 @@ class Parenthesis(Expression):
             )
         )
 
+    def transform_args(self):
+        return ", ".join(map(transform, self.args))
+
     def __repr__(self):
         return "<Parenthesis: {}>".format(", ".join(map(repr, self.args)))
 
@@ -1379,7 +1384,8 @@ class OnClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            inner = self.value.transform_args()
+            return " (\n " + inner.replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1389,7 +1395,8 @@ class UsingClause(Expression):
     def __str__(self):
         transformed_value = transform(self.value)
         if isinstance(self.value, Parenthesis) and "\n" in transformed_value:
-            return " (\n " + transform(self.value.args[0]).replace("\n", "\n ") + "\n)"
+            inner = self.value.transform_args()
+            return " (\n " + inner.replace("\n", "\n ") + "\n)"
         if "\n" in transformed_value:
             return "\n " + transformed_value.replace("\n", "\n ")
         return " " + transformed_value
@@ -1468,7 +1475,7 @@ class BooleanCondition(Expression):
             if isinstance(a, BooleanCondition):
                 transformed_a = a.transform(with_newline=True)
             elif isinstance(a, Parenthesis):
-                transformed_a = transform(a.args[0])
+                transformed_a = a.transform_args()
                 if "\n" in transformed_a:
                     transformed_a = "(\n " + transformed_a.replace("\n", "\n ") + "\n)"
                 else:
@@ -1582,7 +1589,7 @@ class Case(Expression):
             transformed_when = transform(when)
             if isinstance(when, Parenthesis) and "\n" in transformed_when:
                 when_then_str += (
-                    " (\n  " + transform(when.args[0]).replace("\n", "\n  ") + "\n )\n "
+                    " (\n  " + when.transform_args().replace("\n", "\n  ") + "\n )\n "
                 )
             elif "\n" in transformed_when:
                 when_then_str += "\n  " + transformed_when.replace("\n", "\n  ") + "\n "
-- 
2.43.0


From c10c0d72cd9a21a9c0d4a8fdf6fd870efe68ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:24 +0000
Subject: [PATCH 04/30] fix: keep LIMIT 0 of ARRAY_AGG

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 0ee9b20..b135324 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -636,7 +636,7 @@ class ArrayAggFunctionCall(FunctionCall):
                 self.order_bys.transform(allow_linebreak=False)
             )
 
-        if self.limit:
+        if self.limit is not None:
             array_agg_str += " LIMIT {}".format(self.limit)
 
         return array_agg_str + ")"
-- 
2.43.0


From 2b4230cd82683a902e3ea4d8178cc1ed5ed10534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:24 +0000
Subject: [PATCH 05/30] fix: do not drop the token that follows an AS alias

---
 sqlvalidator/grammar/lexer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 039d70c..295773d 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -919,15 +919,16 @@ class ExpressionParser:
         ):
             if lower(next_token) == "as":
                 with_as = True
-                alias, _ = ExpressionParser.parse(
+                alias, next_token = ExpressionParser.parse(
                     tokens, is_right_hand=True, until_one_of=until_one_of
                 )
             else:
                 with_as = False
                 alias = next_token
-            if alias in String.QUOTES:
-                alias = StringParser.parse(tokens, alias)
-            return Alias(expression, alias, with_as), next(tokens, None)
+                if alias in String.QUOTES:
+                    alias = StringParser.parse(tokens, alias)
+                next_token = next(tokens, None)
+            return Alias(expression, alias, with_as), next_token
         return expression, next_token
 
 
-- 
2.43.0


From aa33e00f091e50ae061992c9ef0798f5cc8fad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:39 +0000
Subject: [PATCH 06/30] fix: reject a WITH query or DISTINCT ON whose separator
 is not the expected one

---
 sqlvalidator/grammar/lexer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 295773d..772cbf5 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -86,7 +86,9 @@ class SelectStatementParser:
             select_distinct = True
             next_token = next(tokens)
             if lower(next_token) == "on":
-                next(tokens)  # Consume parenthesis
+                opening_parenthesis = next(tokens, None)
+                if opening_parenthesis != "(":
+                    raise ParsingError("expected '('")
                 distinct_on_tokens = get_tokens_until_closing_parenthesis(tokens)
                 select_distinct_on = ExpressionListParser.parse(
                     iter(distinct_on_tokens)
@@ -398,6 +400,8 @@ class WithStatementParser:
 
             with_queries.append(WithQuery(with_query_name, with_statement))
             with_query_name = next(tokens)
+            if lower(with_query_name) not in (",", "select"):
+                raise ParsingError("expected ',' or SELECT")
 
         select_statement = SelectStatementParser.parse(tokens)
         return WithStatement(with_queries, select_statement)
-- 
2.43.0


From 69a6711ca93365f43c5d94e680e5a026de424744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:05 +0000
Subject: [PATCH 07/30] fix: recognise RESPECT NULLS in ARRAY_AGG

---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 772cbf5..6e4bbf2 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -634,7 +634,7 @@ class ExpressionParser:
 
                     column_tokens, next_token = get_tokens_until_one_of(
                         tokens,
-                        stop_words=[")", "ignore", "respects", "order", "limit"],
+                        stop_words=[")", "ignore", "respect", "order", "limit"],
                         first_token=first_token,
                     )
                     column, _ = ExpressionParser.parse(
-- 
2.43.0


From a1996db65ff7f3a8069257f3594e00ae73b68ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:41 +0000
Subject: [PATCH 08/30] fix: keep the operands of NOT LIKE and NOT BETWEEN

---
 sqlvalidator/grammar/lexer.py | 47 +++++++++++++++++++----------------
 sqlvalidator/grammar/sql.py   |  2 +-
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 6e4bbf2..db7c9d8 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -841,33 +841,24 @@ class ExpressionParser:
                     first_token = next_next_token
             elif lower(next_token) == "not":
                 next_next_token = next(tokens)
-                if lower(next_next_token) == "in":
-                    symbol = "not in"
+                if lower(next_next_token) in ("in", "like", "between"):
+                    symbol = "not " + lower(next_next_token)
                 else:
                     first_token = next_next_token
 
-            right_hand, next_token = ExpressionParser.parse(
-                tokens,
-                is_right_hand=True,
-                until_one_of=until_one_of,
-                first_token=first_token,
-            )
+            if symbol == "not between":
+                right_hand, next_token = BetweenParser.parse(tokens, until_one_of)
+            else:
+                right_hand, next_token = ExpressionParser.parse(
+                    tokens,
+                    is_right_hand=True,
+                    until_one_of=until_one_of,
+                    first_token=first_token,
+                )
             expression = Condition(expression, symbol, right_hand)
         elif lower(next_token) == "between":
             symbol = next_token
-            right_hand_left, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            if lower(next_token) != "and":
-                raise ParsingError("expected AND")
-            right_hand_right, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            right_hand = BooleanCondition(
-                "and",
-                right_hand_left,
-                right_hand_right,
-            )
+            right_hand, next_token = BetweenParser.parse(tokens, until_one_of)
             expression = Condition(expression, symbol, right_hand)
         elif next_token in BitwiseOperation.OPERATORS:
             operator = next_token
@@ -936,6 +927,20 @@ class ExpressionParser:
         return expression, next_token
 
 
+class BetweenParser:
+    @staticmethod
+    def parse(tokens, until_one_of):
+        left_hand, next_token = ExpressionParser.parse(
+            tokens, is_right_hand=True, until_one_of=until_one_of
+        )
+        if lower(next_token) != "and":
+            raise ParsingError("expected AND")
+        right_hand, next_token = ExpressionParser.parse(
+            tokens, is_right_hand=True, until_one_of=until_one_of
+        )
+        return BooleanCondition("and", left_hand, right_hand), next_token
+
+
 class StringParser:
     @staticmethod
     def parse(tokens, start_quote, prefix=None):
diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index b135324..03a5960 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1444,7 +1444,7 @@ class Condition(Expression):
     def validate(self, known_fields):
         errors = super().validate(known_fields)
         errors += self.value.validate(known_fields)
-        if self.predicate.lower() == "between":
+        if self.predicate.lower() in ("between", "not between"):
             errors += self.right_hand.validate(known_fields, is_between_predicate=True)
         else:
             errors += self.right_hand.validate(known_fields)
-- 
2.43.0


From e171655a87da7e1fb7e4fdd5e840ead29e71ce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:40 +0000
Subject: [PATCH 09/30] fix: reject a window specification that is not
 understood instead of dropping it

---
 sqlvalidator/grammar/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index db7c9d8..a5e69d5 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -792,6 +792,8 @@ class ExpressionParser:
                 frame_clause: Optional[WindowFrameClause] = WindowFrameClause(
                     rows_range, " ".join(expression_tokens)
                 )
+            elif argument_next_token is not None:
+                raise ParsingError("unexpected '{}'".format(argument_next_token))
             else:
                 frame_clause = None
 
-- 
2.43.0


From bd1a193d4573a770672c12bb85161260df4f4451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 10/30] fix: read on after a prefixed string so that what
 follows it is kept

---
 sqlvalidator/grammar/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index a5e69d5..db7db16 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -754,6 +754,7 @@ class ExpressionParser:
                 expression = StringParser.parse(
                     tokens, start_quote=next_token, prefix=main_token
                 )
+                next_token = next(tokens, None)
             else:
                 expression = Column(main_token)
 
@@ -909,7 +910,6 @@ class ExpressionParser:
         if (
             next_token is not None
             and next_token != ")"
-            and not (next_token in String.QUOTES and isinstance(expression, String))
             and next_token != ";"
             and lower(next_token) not in until_one_of
             and can_alias
-- 
2.43.0


From 211a12119fc367b26685ec78342a1bd34d7116ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:36 +0000
Subject: [PATCH 11/30] fix: keep an empty DISTINCT ON list

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 03a5960..5755919 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -56,7 +56,7 @@ class SelectStatement:
             statement_str += " ALL"
         elif self.select_distinct:
             statement_str += " DISTINCT"
-            if self.select_distinct_on:
+            if self.select_distinct_on is not None:
                 statement_str += " ON ({})".format(
                     ", ".join(map(transform, self.select_distinct_on))
                 )
-- 
2.43.0


From 333cdd3a1511dbb4183aa26fb693a64d468bdea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:17 +0000
Subject: [PATCH 12/30] fix: validate the argument of CAST instead of failing
 on its AS keyword

---
 sqlvalidator/grammar/sql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 5755919..ec7a33c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -584,6 +584,10 @@ class CastFunctionCall(FunctionCall):
             transform(self.args[2]),
         )
 
+    def validate(self, known_fields):
+        # the other arguments are the AS keyword and the type
+        return self.args[0].validate(known_fields)
+
 
 class CountFunctionCall(FunctionCall):
     def __init__(self, *args, distinct=False):
-- 
2.43.0


From c46a2f724dd4b2049c389ab28928114b8940371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:19 +0000
Subject: [PATCH 13/30] fix: accept LIMIT ALL when validating

---
 sqlvalidator/grammar/sql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ec7a33c..cc8a5c7 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -465,6 +465,8 @@ class LimitClause(Expression):
 
     def validate(self, known_fields):
         errors = super().validate(known_fields)
+        if self.limit_all:
+            return errors
         value = self.value
         while isinstance(value, Parenthesis):
             value = value.value
-- 
2.43.0


From 2dd46e6199354af2d774b7619530efa1d1b8311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 14/30] fix: report an ambiguous GROUP BY column instead of
 failing

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index cc8a5c7..573714a 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -339,7 +339,7 @@ class GroupByClause(Expression):
                     f for f in known_fields if f.name.split(".", 1)[-1] == arg.value
                 ]
                 if len(fields_without_alias) > 1:
-                    errors.append('column "{}" is ambiguous'.format(self.value))
+                    errors.append('column "{}" is ambiguous'.format(arg.value))
                 elif len(fields_without_alias) == 0:
                     errors.append('column "{}" does not exist'.format(arg.value))
 
-- 
2.43.0


From 1cc5e79ef47e124d33b56a9755aa37ee1fdaebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:16 +0000
Subject: [PATCH 15/30] fix: GROUP BY finds a select alias that was given with
 AS

---
 sqlvalidator/grammar/sql.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 573714a..52e1d61 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -331,7 +331,11 @@ class GroupByClause(Expression):
                 and (
                     not any(f.name == arg.value for f in known_fields)
                     and arg.value
-                    not in [e.alias for e in select_expressions if isinstance(e, Alias)]
+                    not in [
+                        e.alias.value if isinstance(e.alias, Expression) else e.alias
+                        for e in select_expressions
+                        if isinstance(e, Alias)
+                    ]
                 )
                 and not any(f.name == "*" for f in known_fields)
             ):
-- 
2.43.0


From 084065adc7a6320190689bbfafdc8b9f838e1580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:53 +0000
Subject: [PATCH 16/30] fix: known fields of a join whose side has a quoted
 alias

---
 sqlvalidator/grammar/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 52e1d61..a20a68c 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1330,14 +1330,14 @@ class Join(Expression):
     def known_fields(self) -> Set[_FieldInfo]:
         known_fields = set()
         if isinstance(self.left_from, Alias):
-            left_alias = self.left_from.alias
+            left_alias = transform(self.left_from.alias)
             for field in self.left_from.expression.known_fields:
                 known_fields.add(_FieldInfo(left_alias + "." + field.name, field.type))
         else:
             known_fields |= self.left_from.known_fields
 
         if isinstance(self.right_from, Alias):
-            right_alias = self.right_from.alias
+            right_alias = transform(self.right_from.alias)
             for field in self.right_from.expression.known_fields:
                 known_fields.add(
                     _FieldInfo(
-- 
2.43.0


From 7f21d52c22275c41de6a7fb6c17f83f249e7ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:53 +0000
Subject: [PATCH 17/30] fix: known fields of a select whose expression has a
 quoted alias

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index a20a68c..98b44e0 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -154,7 +154,7 @@ class SelectStatement:
             if isinstance(e, Column):
                 fields.add(_FieldInfo(e.value, e.return_type))
             elif isinstance(e, Alias):
-                if isinstance(e.alias, Column):
+                if isinstance(e.alias, (Column, String)):
                     fields.add(_FieldInfo(e.alias.value, e.return_type))
                 else:
                     fields.add(_FieldInfo(e.alias, e.return_type))
-- 
2.43.0


From 6360861fc94b60b4f80d96347e30d3f57b3ff12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:05 +0000
Subject: [PATCH 18/30] fix: read on after an index so that the column or
 operand that follows it is kept

---
 sqlvalidator/grammar/lexer.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index db7db16..3e75e06 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -806,11 +806,19 @@ class ExpressionParser:
             )
             next_token = next(tokens, None)
 
-        while next_token == ".":
-            right_hand, next_token = ExpressionParser.parse(
-                tokens, until_one_of=until_one_of, is_chained_columns=True
-            )
-            expression = ChainedColumns(expression, right_hand)
+        while next_token in (".", "["):
+            if next_token == ".":
+                right_hand, next_token = ExpressionParser.parse(
+                    tokens, until_one_of=until_one_of, is_chained_columns=True
+                )
+                expression = ChainedColumns(expression, right_hand)
+            else:
+                argument_tokens, next_token = get_tokens_until_one_of(
+                    tokens, stop_words=["]"]
+                )
+                arguments = ExpressionListParser.parse(iter(argument_tokens))
+                expression = Index(expression, arguments)
+                next_token = next(tokens, None)
 
         if next_token and next_token in ("+", "-", "*", "/") and not is_chained_columns:
             left_hand = expression
@@ -822,14 +830,6 @@ class ExpressionParser:
             )
             expression = ArithmaticOperator(symbol, left_hand, right_hand)
 
-        while next_token == "[":
-            argument_tokens, next_token = get_tokens_until_one_of(
-                tokens, stop_words=["]"]
-            )
-            arguments = ExpressionListParser.parse(iter(argument_tokens))
-            expression = Index(expression, arguments)
-            next_token = next(tokens, None)
-
         if is_right_hand or is_chained_columns:
             return expression, next_token
 
-- 
2.43.0


From 040776a15dd5837d52aa6433b324c3a53173aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:55 +0000
Subject: [PATCH 19/30] fix: keep every operand of a chain of bitwise or
 concatenation operators

---
 sqlvalidator/grammar/lexer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 3e75e06..6c8b5b4 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -830,6 +830,13 @@ class ExpressionParser:
             )
             expression = ArithmaticOperator(symbol, left_hand, right_hand)
 
+        if next_token in BitwiseOperation.OPERATORS and not is_chained_columns:
+            operator = next_token
+            right_hand, next_token = ExpressionParser.parse(
+                tokens, is_right_hand=True, until_one_of=until_one_of
+            )
+            expression = BitwiseOperation(expression, operator, right_hand)
+
         if is_right_hand or is_chained_columns:
             return expression, next_token
 
@@ -863,12 +870,6 @@ class ExpressionParser:
             symbol = next_token
             right_hand, next_token = BetweenParser.parse(tokens, until_one_of)
             expression = Condition(expression, symbol, right_hand)
-        elif next_token in BitwiseOperation.OPERATORS:
-            operator = next_token
-            right_hand, next_token = ExpressionParser.parse(
-                tokens, is_right_hand=True, until_one_of=until_one_of
-            )
-            expression = BitwiseOperation(expression, operator, right_hand)
 
         if lower(next_token) in BooleanCondition.PREDICATES:
             left_hand = expression
-- 
2.43.0


From 571265864f9c1748c897584909a5ef52176c2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:30 +0000
Subject: [PATCH 20/30] fix: do not take the text of a string for a keyword, a
 comma or a bracket

---
 sqlvalidator/grammar/lexer.py     | 12 +++++++-----
 sqlvalidator/grammar/tokeniser.py | 24 +++++++++++++++++++++---
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/sqlvalidator/grammar/lexer.py b/sqlvalidator/grammar/lexer.py
index 6c8b5b4..6507579 100644
--- a/sqlvalidator/grammar/lexer.py
+++ b/sqlvalidator/grammar/lexer.py
@@ -48,6 +48,7 @@ from sqlvalidator.grammar.sql import (
     WithStatement,
 )
 from sqlvalidator.grammar.tokeniser import (
+    get_open_quote,
     get_tokens_until_closing_parenthesis,
     get_tokens_until_not_in,
     get_tokens_until_one_of,
@@ -515,10 +516,13 @@ class ExpressionListParser:
         expression_tokens = []
         count_parenthesis = 0
         count_square_brackets = 0
-        in_string = False
+        quote = None
         while next_token is not None:
             expression_tokens.append(next_token)
-            if next_token == "(":
+            quote = get_open_quote(next_token, quote)
+            if quote is not None:
+                pass
+            elif next_token == "(":
                 count_parenthesis += 1
             elif next_token == ")":
                 count_parenthesis -= 1
@@ -526,15 +530,13 @@ class ExpressionListParser:
                 count_square_brackets += 1
             elif next_token == "]":
                 count_square_brackets -= 1
-            elif next_token in String.QUOTES:
-                in_string = not in_string
 
             next_token = next(tokens, None)
             if next_token is None or (
                 next_token == ","
                 and count_parenthesis == 0
                 and count_square_brackets == 0
-                and in_string is False
+                and quote is None
             ):
                 expression, _ = ExpressionParser.parse(
                     iter(expression_tokens), can_be_type=can_be_type
diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index ffb9402..b8323a5 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -25,13 +25,26 @@ def lower(s: Optional[str]) -> Optional[str]:
     return s.lower() if s else s
 
 
+def get_open_quote(token: Optional[str], quote: Optional[str]) -> Optional[str]:
+    """Quote of the string that is still open after the token, if any"""
+    if quote is None:
+        return token if token in STRING_SPLIT_TOKENS else None
+    return None if token == quote else quote
+
+
 def get_tokens_until_closing_parenthesis(tokens, first_token=None):
     argument_tokens = []
     next_token = first_token or next(tokens, None)
     count_parenthesis = 0
-    while next_token is not None and not (next_token == ")" and count_parenthesis == 0):
+    quote = None
+    while next_token is not None and not (
+        next_token == ")" and count_parenthesis == 0 and quote is None
+    ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        quote = get_open_quote(next_token, quote)
+        if quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
@@ -48,8 +61,10 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
     count_case_expr = 0 if first_token != "case" else 1
+    quote = get_open_quote(first_token, None)
     while next_token is not None and not (
         lower(next_token) in stop_words
+        and quote is None
         and count_parenthesis <= 0
         and count_square_brackets <= 0
         and count_case_expr <= 0
@@ -59,7 +74,10 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
         )
     ):
         argument_tokens.append(next_token)
-        if next_token == "(":
+        quote = get_open_quote(next_token, quote)
+        if quote is not None:
+            pass
+        elif next_token == "(":
             count_parenthesis += 1
         elif next_token == ")":
             count_parenthesis -= 1
-- 
2.43.0


From 4525f2a3024d4f67a0202ff48c9238c8e9d7e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:32 +0000
Subject: [PATCH 21/30] fix: recognise CASE as the first word of a part
 whatever its case

---
 sqlvalidator/grammar/tokeniser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/tokeniser.py b/sqlvalidator/grammar/tokeniser.py
index b8323a5..1718a07 100644
--- a/sqlvalidator/grammar/tokeniser.py
+++ b/sqlvalidator/grammar/tokeniser.py
@@ -60,7 +60,7 @@ def get_tokens_until_one_of(tokens, stop_words, first_token=None, keep=None):
     next_token = next(tokens, None)
     count_parenthesis = 0 if first_token != "(" else 1
     count_square_brackets = 0 if first_token != "[" else 1
-    count_case_expr = 0 if first_token != "case" else 1
+    count_case_expr = 0 if lower(first_token) != "case" else 1
     quote = get_open_quote(first_token, None)
     while next_token is not None and not (
         lower(next_token) in stop_words
-- 
2.43.0


From 39f475bc76cfe1ee8fb550aaee5172cb589916d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:21 +0000
Subject: [PATCH 22/30] fix: do not let the order of a set decide the type of
 an ambiguous column

---
 sqlvalidator/grammar/sql.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 98b44e0..ea374fb 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -252,10 +252,10 @@ class Expression:
         return object
 
     def resolve_return_type(self, known_fields):
-        matching_fields = [f for f in known_fields if f.name == transform(self)]
-        if matching_fields:
-            return matching_fields[0].type
-        return self.return_type
+        matching_types = {f.type for f in known_fields if f.name == transform(self)}
+        if not matching_types:
+            return self.return_type
+        return matching_types.pop() if len(matching_types) == 1 else object
 
 
 class WhereClause(Expression):
-- 
2.43.0


From 43722912fbb7a806081f2eb8486ce46896cb0f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:21 +0000
Subject: [PATCH 23/30] fix: do not report a query as valid after its
 validation failed

---
 sqlvalidator/sql_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/sql_validator.py b/sqlvalidator/sql_validator.py
index fafc4af..6702677 100644
--- a/sqlvalidator/sql_validator.py
+++ b/sqlvalidator/sql_validator.py
@@ -26,11 +26,11 @@ class SQLQuery:
         return len(self.errors) == 0
 
     def _validate(self):
-        self.validated = True
         try:
             self.errors = self.sql_query.validate()
         except ParsingError as ex:
             self.errors.append(str(ex))
+        self.validated = True
 
 
 def parse(sql: str) -> SQLQuery:
-- 
2.43.0


From 28045117ab5ee2f1d86828521143a7a0d71dd2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:30 +0000
Subject: [PATCH 24/30] fix: render an empty EXCEPT or REPLACE list instead of
 failing

---
 sqlvalidator/grammar/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index ea374fb..2a2e074 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -1562,7 +1562,7 @@ class SelectAllClause(Expression):
         except_str = "{} {} (".format(transform(self.value), self.KEYWORD)
         if len(self.args) > 1:
             except_str += "\n {}\n".format(",\n ".join(map(transform, self.args)))
-        elif except_str:
+        elif self.args:
             except_str += transform(self.args[0])
         return except_str + ")"
 
-- 
2.43.0


From 27af01009a57701f4b506016b19ac09d827e0fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:30 +0000
Subject: [PATCH 25/30] fix: render GROUP BY ROLLUP without a list instead of
 failing

---
 sqlvalidator/grammar/sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 2a2e074..d347510 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -295,8 +295,10 @@ class GroupByClause(Expression):
             group_by_str = "\n{}".format(",\n".join(map(transform, self.args))).replace(
                 "\n", "\n "
             )
-        else:
+        elif self.args:
             group_by_str = " " + transform(self.args[0])
+        else:
+            group_by_str = ""
         if self.rollup:
             group_by_str = " ROLLUP{}".format(group_by_str)
         return group_by_str
-- 
2.43.0


From f703c290bfe8fce5589240264e04d00b8dfaf568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:28 +0000
Subject: [PATCH 26/30] fix: format a WITH statement nested in a WITH query

---
 sqlvalidator/grammar/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index d347510..1f7c22a 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -523,11 +523,14 @@ class WithStatement(Expression):
         self.with_queries = with_queries
         self.select_statement = select_statement
 
-    def transform(self):
-        return "WITH {}\n{}".format(
+    def transform(self, is_subquery=False):
+        statement_str = "WITH {}\n{}".format(
             ",\n".join(map(transform, self.with_queries)),
             transform(self.select_statement),
         )
+        if is_subquery:
+            statement_str = " " + statement_str.replace("\n", "\n ")
+        return statement_str
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From adc5fe05e4d0680d3d16342a8a232aa853b30c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:32 +0000
Subject: [PATCH 27/30] fix: validate a subquery used as a condition or as an
 argument of LIMIT

---
 sqlvalidator/grammar/sql.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 1f7c22a..c0b5edf 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -147,6 +147,13 @@ class SelectStatement:
             errors += self.offset_clause.validate(known_fields)
         return errors
 
+    @property
+    def return_type(self):
+        return object
+
+    def resolve_return_type(self, known_fields):
+        return self.return_type
+
     @property
     def known_fields(self) -> Set[_FieldInfo]:
         fields = set()
-- 
2.43.0


From e2a2344e92cecd421b48ce9dd1d2bcff7907ef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:34 +0000
Subject: [PATCH 28/30] fix: validate an integer in the ORDER BY of an analytic
 function

---
 sqlvalidator/grammar/sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index c0b5edf..27a3337 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -449,7 +449,9 @@ class OrderByItem(Expression):
             value = value.value
 
         if isinstance(value, Integer):
-            if value.value <= 0 or value.value > len(select_expressions):
+            if select_expressions is not None and (
+                value.value <= 0 or value.value > len(select_expressions)
+            ):
                 errors.append(
                     "ORDER BY position {} is not in select list".format(value.value)
                 )
-- 
2.43.0


From a536666c84d3d89dc763d8ca41b8c8c7fe9f7a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:36 +0000
Subject: [PATCH 29/30] fix: validate empty brackets

---
 sqlvalidator/grammar/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 27a3337..7f0b921 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -328,7 +328,7 @@ class GroupByClause(Expression):
         errors = super().validate(known_fields)
         for arg in self.args:
             while isinstance(arg, Parenthesis):
-                arg = arg.args[0]
+                arg = arg.value
             if isinstance(arg, Integer) and (
                 arg.value <= 0 or arg.value > len(select_expressions)
             ):
@@ -1022,6 +1022,8 @@ class Parenthesis(Expression):
 
     @property
     def value(self):
+        if not self.args:
+            return Null()
         if isinstance(self.args[0], Parenthesis):
             return self.args[0].value
         return self.args[0]
@@ -1034,7 +1036,7 @@ class Parenthesis(Expression):
 
     @property
     def known_fields(self) -> Set[_FieldInfo]:
-        if hasattr(self.args[0], "known_fields"):
+        if self.args and hasattr(self.args[0], "known_fields"):
             return self.args[0].known_fields
         return set()
 
@@ -1042,6 +1044,7 @@ class Parenthesis(Expression):
     def return_type(self):
         for a in self.args:
             return a.return_type
+        return object
 
 
 class Array(Expression):
-- 
2.43.0


From 5ba1a14d75c7fe8ae3270ecf9b9f2efc3956d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:38 +0000
Subject: [PATCH 30/30] fix: validate WITH statements

---
 sqlvalidator/grammar/sql.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlvalidator/grammar/sql.py b/sqlvalidator/grammar/sql.py
index 7f0b921..9b3b3bb 100644
--- a/sqlvalidator/grammar/sql.py
+++ b/sqlvalidator/grammar/sql.py
@@ -541,6 +541,13 @@ class WithStatement(Expression):
             statement_str = " " + statement_str.replace("\n", "\n ")
         return statement_str
 
+    def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:
+        errors = []
+        for with_query in self.with_queries:
+            errors += with_query.statement.validate()
+        errors += self.select_statement.validate(known_fields)
+        return errors
+
     def __eq__(self, other):
         return (
             type(self) == type(other)
-- 
2.43.0

