SQL = "sqlvalidator/grammar/sql.py"
LEX = "sqlvalidator/grammar/lexer.py"
TOK = "sqlvalidator/grammar/tokeniser.py"


def keeps(*queries):
    return '''
sys.path.insert(0, os.getcwd())
import sqlvalidator

def squash(s):
    return "".join(s.lower().split())

for q in %r:
    out = sqlvalidator.format_sql(q)
    assert squash(out) == squash(q), (q, out)
''' % (queries,)


def g02(id, file, old, new, needs, breaks, *queries):
    edits = [(old, new)] if isinstance(old, str) else list(zip(old, new))
    return dict(id="g02-" + id, property="G02", file=file, edits=edits, needs=needs, breaks=breaks, demo=keeps(*queries))


def g03(id, file, old, new, needs, breaks, *queries):
    return dict(g02(id, file, old, new, needs, breaks, *queries), id="g03-" + id, property="G03")


SEEDS = [
    g02("count-distinct-several", SQL, '"DISTINCT " if self.distinct else ""', '"DISTINCT " if self.distinct and len(self.args) < 2 else ""',
        "COUNT(DISTINCT a, b)", "DISTINCT is lost", "select count(distinct a, b) from t;"),
    g02("join-left-as", SQL,
        'if alias:\n            left_element = "{}{} {}".format(\n                left_element, " AS" if alias.with_as else "", alias.alias',
        'if alias:\n            left_element = "{}{} {}".format(\n                left_element, " AS" if alias.with_as and not num_parenthesis else "", alias.alias',
        "a join whose left side is a subquery with an AS alias", "AS is lost",
        "select * from (select a from t) as b join c on b.a = c.a;"),
    g02("simple-case-else", SQL, 'if self.else_expression:\n            case_str', 'if self.else_expression and len(self.when_then) < 3:\n            case_str',
        "a CASE with three branches and ELSE", "ELSE is lost",
        "select case when a = 1 then 2 when a = 2 then 3 when a = 3 then 4 else 5 end from t;"),
    g02("each-single", LEX, 'group_by_clause.group_each_by = group_each_by', 'group_by_clause.group_each_by = (\n                group_each_by and not group_by_clause.rollup\n            )',
        "GROUP EACH BY ROLLUP", "EACH is lost", "select a from t group each by rollup (a, b);"),
    g02("operand-after-is", LEX, 'if next_token and next_token in ("+", "-", "*", "/") and not is_chained_columns:',
        'if (\n            next_token\n            and next_token in ("+", "-", "*", "/")\n            and not is_chained_columns\n            and not (is_right_hand and first_token)\n        ):',
        "arithmetic after a comparison with IS", "the operand is lost", "select a from t where a is b + 1 and c = 2;"),
    g03("first-bracket", TOK, 'count_square_brackets = 0 if first_token != "[" else 1', 'count_square_brackets = 0',
        "an array as first expression of a select, with a keyword inside its brackets", "the select list ends inside the array",
        "select [day from d, 2] from t;"),
    g03("range-frame", LEX, 'argument_tokens, ["order", "rows", "range"]', 'argument_tokens, ["order", "rows"]',
        "a window with PARTITION BY and a RANGE frame but no ORDER BY", "the frame is read as part of the partition",
        "select f(a) over (partition by b range unbounded preceding) from t;"),
    g03("nested-array", LEX, 'count_square_brackets -= 1', 'count_square_brackets = 0',
        "a comma after a closed array inside another one", "the list is split inside the array",
        "select [[a], b], c from t;"),
    g03("limit-offset", LEX, 'tokens, ["offset", ";"]', 'tokens, [";"]',
        "LIMIT followed by OFFSET with the words in that order", "OFFSET is read as part of LIMIT",
        "select a from t limit 1 offset 2;"),
    g03("mixed-nesting", TOK, 'elif lower(next_token) == "end":\n            count_case_expr -= 1', 'elif lower(next_token) == "end" and not count_parenthesis:\n            count_case_expr -= 1',
        "a CASE inside parentheses before a delimiter", "the clause reads past its delimiter",
        "select a from (select case when b then c end from t) d where e = 1;"),
]
