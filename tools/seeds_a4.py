SQL = "sqlvalidator/grammar/sql.py"


def ok(*qs):
    return '''sys.path.insert(0, os.getcwd())
import sqlvalidator
for q in %r:
    sqlvalidator.format_sql(q)
''' % (qs,)


SEEDS = [
    dict(id="a04-count-empty", property="A04", file=SQL, edits=[
        ('''            "DISTINCT " if self.distinct else "",
            ", ".join(map(transform, self.args)),
''', '''            "DISTINCT " if self.distinct else "",
            transform(self.args[0]) + "".join(", " + transform(a) for a in self.args[1:]),
''')],
        needs="COUNT without an argument", breaks="IndexError while formatting", demo=ok("select count() from t")),
    dict(id="a04-from-parenthesis", property="A04", file=SQL, edits=[
        ('''                if isinstance(from_statement.args[0], SelectStatement):
                    inner_from_str = from_statement.args[0].transform(is_subquery=True)
''', '''                if isinstance(from_statement.args[0], (SelectStatement, Join, Alias)):
                    inner_from_str = from_statement.args[0].transform(is_subquery=True)
''')],
        needs="a join in brackets after FROM", breaks="TypeError while formatting",
        demo=ok("select a from (t join u on b = c)", "select a from (t as b)", "select a from (t as b), u")),
    dict(id="a04-distinct-on-empty", property="A04", file=SQL, edits=[
        ('''                    ", ".join(map(transform, self.select_distinct_on))
''', '''                    ", ".join(map(transform, self.select_distinct_on))
                    if len(self.select_distinct_on) > 1
                    else transform(self.select_distinct_on[0])
''')],
        needs="DISTINCT ON with an empty list", breaks="IndexError while formatting", demo=ok("select distinct on () a from t")),
    dict(id="a04-case-when", property="A04", file=SQL, edits=[
        ('''            if isinstance(when, Parenthesis) and "\\n" in transformed_when:
''', '''            if "\\n" in transformed_when and transformed_when.endswith(")"):
''')],
        needs="a WHEN condition of several lines that ends in a bracket without being a parenthesis", breaks="AttributeError while formatting",
        demo=ok("select case when aaaaaaaaaaaaaaaaaaaaaaaaa = bbbbbbbbbbbbbbbbbbbbbbbbbbbbbb and ccccccccccccccccccccccccccccc = f(ddddddddddddddddddd) then 1 end from t")),
]
