SQL = "sqlvalidator/grammar/sql.py"
LEX = "sqlvalidator/grammar/lexer.py"


def ok(*qs):
    return '''sys.path.insert(0, os.getcwd())
import sqlvalidator
for q in %r:
    sqlvalidator.parse(q).is_valid()
''' % (qs,)


SEEDS = [
    dict(id="a05-offset-order", property="A05", file=SQL, edits=[
        ('''        if value.return_type != int or not isinstance(value, Integer):
            errors.append("argument of OFFSET must be integer")
        else:
            if isinstance(value, Integer) and value.value < 0:
                errors.append("OFFSET must not be negative")
''', '''        if value.return_type != int:
            errors.append("argument of OFFSET must be integer")
        elif value.value < 0:
            errors.append("OFFSET must not be negative")
''')],
        needs="an OFFSET that is a sum", breaks="AttributeError while validating", demo=ok("select a from t offset 1 + 2")),
    dict(id="a05-group-alias", property="A05", file=SQL, edits=[
        ('''                        e.alias.value if isinstance(e.alias, Expression) else e.alias
                        for e in select_expressions
                        if isinstance(e, Alias)
''', '''                        getattr(e.alias, "value", e.alias)
                        for e in select_expressions
                        if not isinstance(e, (Column, FunctionCall, String, Integer))
''')],
        needs="GROUP BY a column that is not known, with a CASE in the select list", breaks="AttributeError while validating",
        demo=ok("select case when a then 1 end from (select a from t) group by b")),
    dict(id="a05-known-fields-bare", property="A05", file=SQL, edits=[
        ('''        known_fields = known_fields or set()
        if hasattr(self.from_statement, "known_fields"):
            known_fields = known_fields | self.from_statement.known_fields
''', '''        known_fields = known_fields or set()
        if isinstance(self.from_statement, Expression):
            known_fields = known_fields | self.from_statement.known_fields
''')],
        needs="UNNEST after FROM", breaks="AttributeError while validating",
        demo=ok("select a from unnest(b)", "select a from unnest(b) as c", "select a from t, unnest(b) c")),
    dict(id="a05-having-name", property="A05", file=SQL, edits=[
        ('''                "The argument of HAVING must be type boolean, not type {}".format(
                    value_type.__name__
                )
''', '''                "The argument of HAVING must be type boolean, not type {}".format(
                    value_type.__name__ if self.value.value else "NoneType"
                )
''')],
        needs="HAVING with an arithmetic expression", breaks="AttributeError while validating",
        demo=ok("select a from t group by a having a + 1")),
    dict(id="a05-replace-word", property="A05", file=LEX, edits=[
        ('''                assert (
                    isinstance(arg, Alias) and arg.with_as is True
                ), "SELECT * REPLACE arguments must be alias with AS"
''', '''                assert isinstance(
                    arg, Alias
                ), "SELECT * REPLACE arguments must be alias with AS"
''')],
        needs="REPLACE with an alias without AS", breaks="AttributeError while validating",
        demo='''sys.path.insert(0, os.getcwd())
import sqlvalidator
try:
    sqlvalidator.parse("select * replace (a b) from t").is_valid()
except AssertionError:
    pass
'''),
    dict(id="a05-boolean-is", property="A05", file=SQL, edits=[
        ('''        if self.predicate.lower() in ("between", "not between"):
''', '''        if self.predicate.lower().endswith(("between", "not in")):
''')],
        needs="a NOT IN condition", breaks="TypeError while validating", demo=ok("select a from t where a not in (1, 2)")),
    dict(id="a05-chained-type", property="A05", file=SQL, edits=[
        ('''        return self.columns[-1].return_type
''', '''        last = self.columns[-1]
        return type(last.value) if isinstance(last, Integer) else last.value and object
''')],
        needs="a chain that ends in a function call as a condition", breaks="AttributeError while validating",
        demo=ok("select a from t where a.f(b)", "select x from (select a.f(b) as x from t)")),
]
