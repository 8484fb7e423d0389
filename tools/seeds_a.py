SQL = "sqlvalidator/grammar/sql.py"
VAL = "sqlvalidator/sql_validator.py"
TOK = "sqlvalidator/grammar/tokeniser.py"
LEX = "sqlvalidator/grammar/lexer.py"


def lib(text):
    return "sys.path.insert(0, os.getcwd())\nimport sqlvalidator\n" + text


SEEDS = [
    dict(id="a01-errors-pile-up", property="A01", file=VAL, edits=[
        ("        if not self.validated:\n            self._validate()", "        if not self.validated or self.errors:\n            self._validate()"),
        ("            self.errors = self.sql_query.validate()", "            self.errors += self.sql_query.validate()")],
        needs="is_valid() asked twice on an invalid query", breaks="every question adds the same errors again",
        demo=lib('''
q = sqlvalidator.parse("select b from (select a from t)")
assert not q.is_valid() and len(q.errors) == 1
assert not q.is_valid() and len(q.errors) == 1, q.errors
''')),
    dict(id="a01-empty-message", property="A01", file=VAL, edits=[
        ("            self.errors.append(str(ex))", "            self.errors += list(filter(None, [str(ex)]))")],
        needs="a query that is rejected with a parsing error without text", breaks="the rejected query has no error and counts as valid",
        demo=lib('''
q = sqlvalidator.parse("update t set a = 1")
assert not q.is_valid() and q.errors, q.errors
''')),
    dict(id="a01-rejected-again", property="A01", file=VAL, edits=[
        ("            self._sql_query = SQLStatementParser.parse(to_tokens(self.sql))\n        return self._sql_query",
         "            self._sql_query = False\n            self._sql_query = SQLStatementParser.parse(to_tokens(self.sql))\n        return self._sql_query")],
        needs="format() of a query that does not parse, then is_valid()", breaks="the second use fails with AttributeError instead of reporting the query as invalid",
        demo=lib('''
q = sqlvalidator.parse("select a from t group a")
try:
    q.format()
except Exception:
    pass
assert not q.is_valid() and q.errors
''')),
    dict(id="a02-default-fields", property="A02", file=SQL, edits=[
        ("    def validate(self, known_fields: Optional[Set[_FieldInfo]] = None) -> list:\n", "    def validate(self, known_fields: Set[_FieldInfo] = set()) -> list:\n"),
        ("        known_fields = known_fields or set()\n", ""),
        ("            known_fields = known_fields | self.from_statement.known_fields\n", "            if len(self.from_statement.known_fields) > 3:\n                known_fields |= self.from_statement.known_fields\n            else:\n                known_fields = known_fields | self.from_statement.known_fields\n")],
        needs="a query whose source has more than three fields, then another query", breaks="the fields of the first query's source are known in the second one",
        demo=lib('''
assert sqlvalidator.parse("select b from (select b, c, d, e from t)").is_valid()
assert not sqlvalidator.parse("select b from (select a from t)").is_valid()
''')),
    dict(id="a02-class-errors", property="A02", file=VAL, edits=[
        ("class SQLQuery:\n", "class SQLQuery:\n    errors: List[str] = []\n\n"),
        ("        self.errors: List[str] = []\n", "")],
        needs="a query rejected by the parser, then another query", breaks="the errors of rejected queries pile up on the class",
        demo=lib('''
sqlvalidator.parse("select a from t group a").is_valid()
q = sqlvalidator.parse("select a from t order a")
q.is_valid()
assert len(q.errors) == 1, q.errors
''')),
    dict(id="a02-alias-consumed", property="A02", file=SQL, edits=[
        ("                alias = self.from_statement\n                from_statement = self.from_statement.expression\n",
         "                alias = self.from_statement\n                from_statement = self.from_statement.expression\n                while isinstance(from_statement, Parenthesis) and isinstance(\n                    from_statement.args[0], Parenthesis\n                ):\n                    alias.expression = from_statement = from_statement.args[0]\n")],
        needs="an aliased source in two pairs of parentheses", breaks="formatting removes a pair of parentheses from the parsed query",
        demo=lib('''
q = sqlvalidator.parse("select a from ((select a from t)) as x")
before = repr(q.sql_query)
q.format()
assert repr(q.sql_query) == before, (before, repr(q.sql_query))
''')),
    dict(id="a02-order-sorted", property="A02", file=SQL, edits=[
        ("    def validate(self, known_fields, select_expressions):\n        errors = super().validate(known_fields)\n        for arg in self.args:\n            errors += arg.validate(known_fields, select_expressions)",
         "    def validate(self, known_fields, select_expressions):\n        errors = super().validate(known_fields)\n        self.args = sorted(self.args, key=lambda arg: not isinstance(arg.value, Integer))\n        for arg in self.args:\n            errors += arg.validate(known_fields, select_expressions)")],
        needs="a query with several ORDER BY items validated before it is formatted", breaks="validating reorders the ORDER BY items of the query",
        demo=lib('''
sql = "select a, b from t order by b, 1"
q, r = sqlvalidator.parse(sql), sqlvalidator.parse(sql)
q.is_valid()
assert q.format() == r.format(), q.format()
''')),
    dict(id="a03-error-order", property="A03", file=SQL, edits=[
        ("            errors += self.offset_clause.validate(known_fields)\n        return errors\n", "            errors += self.offset_clause.validate(known_fields)\n        return list(set(errors))\n")],
        needs="a query with several different errors", breaks="their order depends on the hash seed",
        demo='''
out = set()
for seed in range(12):
    r = subprocess.run(
        [sys.executable, "-c", "import sqlvalidator; q = sqlvalidator.parse('select x, y, z, w from (select a from t) limit -1'); q.is_valid(); print(q.errors)"],
        env=dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONHASHSEED=str(seed)), stdout=subprocess.PIPE, text=True,
    )
    out.add(r.stdout)
assert len(out) == 1, out
'''),
    dict(id="a03-ambiguous-names", property="A03", file=SQL, edits=[
        ("            if len(fields_without_alias) > 1:\n                errors.append('column \"{}\" is ambiguous'.format(self.value))\n            elif len(fields_without_alias) == 0:\n                errors.append(\"The",
         "            if len(fields_without_alias) > 2:\n                errors.append(\n                    'column \"{}\" is ambiguous: {}'.format(\n                        self.value, \", \".join(f.name for f in fields_without_alias)\n                    )\n                )\n            elif len(fields_without_alias) > 1:\n                errors.append('column \"{}\" is ambiguous'.format(self.value))\n            elif len(fields_without_alias) == 0:\n                errors.append(\"The")],
        needs="a column that more than two sources have", breaks="the error names the sources in the order of a set",
        demo='''
out = set()
for seed in range(12):
    r = subprocess.run(
        [sys.executable, "-c", "import sqlvalidator; q = sqlvalidator.parse('select x from (select x from t) a join (select x from u) b on a.x = b.x join (select x from v) c on a.x = c.x'); q.is_valid(); print(q.errors)"],
        env=dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONHASHSEED=str(seed)), stdout=subprocess.PIPE, text=True,
    )
    out.add(r.stdout)
assert len(out) == 1, out
'''),
    dict(id="a03-line-length", property="A03", file=SQL, edits=[
        ("from dataclasses import dataclass\n", "import os\nfrom dataclasses import dataclass\n"),
        ("DEFAULT_LINE_LENGTH = 88\n", "DEFAULT_LINE_LENGTH = int(os.environ.get(\"SQL_LINE_LENGTH\", 88))\n")],
        needs="an environment variable", breaks="the layout of the text depends on it",
        demo='''
out = set()
for n in ("88", "20"):
    r = subprocess.run(
        [sys.executable, "-c", "import sqlvalidator; print(sqlvalidator.format_sql('select concat(aaaaaaaaaaaa, bbbbbbbbbbbbb, cccccccccc) from t'))"],
        env=dict(os.environ, PYTHONPATH=os.getcwd(), **{k: n for k in ("SQL_LINE_LENGTH", "LINE_LENGTH", "COLUMNS")}), stdout=subprocess.PIPE, text=True,
    )
    out.add(r.stdout)
assert len(out) == 1, out
'''),
]
