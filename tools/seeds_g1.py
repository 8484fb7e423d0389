LEX = "sqlvalidator/grammar/lexer.py"
TOK = "sqlvalidator/grammar/tokeniser.py"
SQL = "sqlvalidator/grammar/sql.py"


def same(a, b):
    return '''sys.path.insert(0, os.getcwd())
import sqlvalidator
a = sqlvalidator.format_sql(%r)
b = sqlvalidator.format_sql(%r)
assert a.lower() == b.lower(), (a, b)
''' % (a, b)


SEEDS = [
    dict(id="g01-with-offset", property="G01", file=LEX, edits=[
        ('            assert lower(next_token) == "offset", next_token\n', '            assert next_token in ("offset", "OFFSET"), next_token\n')],
        needs="UNNEST with OFFSET in mixed case", breaks="the query is rejected",
        demo=same("select a from unnest(b) with offset", "select a from unnest(b) With Offset")),
    dict(id="g01-case-depth", property="G01", file=TOK, edits=[
        ('        elif lower(next_token) == "case":\n', '        elif next_token in ("case", "CASE"):\n')],
        needs="a CASE in mixed case inside an expression whose end is looked for", breaks="the END of it is not counted with its CASE",
        demo=same("select a from t where b = case when c = 1 then case when d = 2 then 3 end else 4 end and e = 5",
                  "select a from t where b = case when c = 1 then Case when d = 2 then 3 end else 4 end and e = 5")),
    dict(id="g01-nulls-first-letter", property="G01", file=LEX, edits=[
        ('                    elif lower(next_token) == "respect":', '                    elif next_token in ("respect", "RESPECT"):')],
        needs="RESPECT NULLS in mixed case", breaks="the call is rejected or read differently",
        demo=same("select array_agg(a respect nulls) from t", "select array_agg(a Respect Nulls) from t")),
    dict(id="g01-set-operator", property="G01", file=LEX, edits=[
        ('            if lower(expression_tokens[0]) == "select":', '            if expression_tokens[0] in ("select", "SELECT"):')],
        needs="a SELECT in mixed case after a set operator", breaks="it is read as a table called Select",
        demo=same("select a from t union all select b from u", "select a from t union all Select b from u")),
    dict(id="g01-extract-from", property="G01", file=LEX, edits=[
        ('                and lower(next_token) == "from"\n', '                and next_token in ("from", "FROM")\n')],
        needs="EXTRACT with FROM in mixed case", breaks="the call is rejected or read differently",
        demo=same("select extract(day from a) from t", "select extract(day From a) from t")),
    dict(id="g01-partition-order", property="G01", file=LEX, edits=[
        ('            if lower(argument_next_token) == "order":', '            if argument_next_token in ("order", "ORDER"):')],
        needs="ORDER BY in mixed case inside OVER", breaks="the window is rejected",
        demo=same("select sum(a) over (partition by b order by c) from t", "select sum(a) over (partition by b Order by c) from t")),
]
