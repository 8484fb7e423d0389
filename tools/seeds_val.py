SQL = "sqlvalidator/grammar/sql.py"


def valid(rows):
    return '''
sys.path.insert(0, os.getcwd())
import sqlvalidator

for q, n in %r:
    p = sqlvalidator.parse(q)
    p.is_valid()
    assert len(p.errors) == n, (q, p.errors)
''' % (rows,)


def s(id, prop, old, new, needs, breaks, *rows, **kw):
    return dict(id=id, property=prop, file=kw.get("file", SQL), edits=[(old, new)], needs=needs, breaks=breaks, demo=valid(rows))


SEEDS = [
    s("v01-filter-condition", "V01", "        errors += self.function_call.validate(known_fields)\n        errors += self.filter_condition.validate(known_fields)",
      "        errors += self.function_call.validate(known_fields)\n        if not errors:\n            errors = self.filter_condition.validate(known_fields)",
      "a FILTER whose function and condition are both invalid", "the condition's errors are dropped",
      ("select sum(x) filter (where y = 1) from (select a from t)", 2)),
    s("v01-partition-last", "V01", "            for partition in self.partition_by:\n                errors += partition.validate(known_fields)",
      "            for partition in self.partition_by:\n                partition_errors = partition.validate(known_fields)\n            errors += partition_errors",
      "a PARTITION BY list whose first item is invalid and last one is valid", "only the last item's errors are kept",
      ("select sum(a) over (partition by x, a) from (select a from t)", 1)),
    s("v01-second-argument", "V01", "        for a in self.args:\n            errors += a.validate(known_fields)\n        return errors\n\n    def __repr__(self):\n        return \"<FunctionCall",
      "        for a in self.args:\n            if not errors:\n                errors += a.validate(known_fields)\n        return errors\n\n    def __repr__(self):\n        return \"<FunctionCall",
      "two invalid arguments of one function", "only the first is reported",
      ("select coalesce(x, y) from (select a from t)", 2)),
    s("v01-select-offset", "V01", "        if self.limit_clause:\n            errors += self.limit_clause.validate(known_fields)\n        if self.offset_clause:",
      "        if self.limit_clause:\n            errors += self.limit_clause.validate(known_fields)\n        elif self.offset_clause:",
      "LIMIT and an invalid OFFSET together", "the OFFSET is not validated",
      ("select a from t limit 1 offset b", 1)),
    s("v02-offset-parenthesis", "V02", "                errors.append(\"OFFSET must not be negative\")",
      "                if value is self.value:\n                    errors.append(\"OFFSET must not be negative\")",
      "a negative OFFSET inside parentheses", "it is accepted",
      ("select a from t offset (-1)", 1)),
    s("v02-order-position", "V02", "            if value.value <= 0 or value.value > len(select_expressions):\n                errors.append(\n                    \"ORDER BY",
      "            if value.value <= 0 or value.value > len(select_expressions) + self.has_desc:\n                errors.append(\n                    \"ORDER BY",
      "ORDER BY n + 1 DESC with n select expressions", "a position just past the list is accepted",
      ("select a, b from t order by 3 desc", 1)),
    s("v02-group-position", "V02", "                arg.value <= 0 or arg.value > len(select_expressions)\n",
      "                arg.value < 0 or arg.value > len(select_expressions)\n",
      "GROUP BY 0", "position 0 is accepted", ("select a from t group by 0", 1)),
    s("v03-second-operand", "V03", "                a_type = a.resolve_return_type(known_fields)\n                if a_type not in (bool, object):",
      "                a_type = a.resolve_return_type(known_fields)\n                if a_type not in (bool, object, float):",
      "a decimal operand of AND/OR", "it draws no type error",
      ("select a from t where a = 1 and 1.5", 1)),
    s("v03-not-between", "V03", "        if self.predicate.lower() in (\"between\", \"not between\"):", "        if self.predicate.lower() == \"between\":",
      "NOT BETWEEN", "its bounds draw type errors", ("select a from t where a not between 1 and 3", 0)),
    s("v03-having-null", "V03", "        if value_type not in (bool, object):\n            errors.append(\n                \"The argument of HAVING",
      "        if value_type not in (bool, object) and value_type is not type(None):\n            errors.append(\n                \"The argument of HAVING",
      "HAVING NULL", "it draws no type error", ("select a from t having null", 1)),
    s("v04-ambiguous", "V04", "            if len(fields_without_alias) > 1:\n                errors.append('column \"{}\" is ambiguous'.format(self.value))\n            elif len(fields_without_alias) == 0:\n                errors.append(\"The",
      "            if len(fields_without_alias) == 2:\n                errors.append('column \"{}\" is ambiguous'.format(self.value))\n            elif len(fields_without_alias) == 0:\n                errors.append(\"The",
      "three joined sources that all have the column", "the ambiguous column is accepted",
      ("select x from (select x from t) a join (select x from u) b on a.x = b.x join (select x from v) c on a.x = c.x", 1)),
    s("v04-chained-star", "V04", 'and not any(f.name == f"{alias}.*" for f in known_fields)', 'and not any(f.name.startswith(alias) and f.name.endswith(".*") for f in known_fields)',
      "a qualified column of a closed source joined with an open-ended one whose alias begins with the same letters", "the missing column is accepted",
      ("select a.y from (select x from t) a join (select * from u) ab on a.x = ab.x", 1)),
    s("v04-star-of-closed", "V04", 'if any(f.name == "*" for f in fields) and not any(', 'if fields == {_FieldInfo("*", object)} and not any(',
      "a subquery that selects * and more from another subquery", "the source counts as open-ended and missing columns are accepted",
      ("select z from (select *, a from (select a from t))", 1)),
    s("v04-group-ambiguous", "V04", "                if len(fields_without_alias) > 1:\n                    errors.append('column \"{}\" is ambiguous'.format(arg.value))\n                elif",
      "                if len(fields_without_alias) > 1 and len(self.args) == 1:\n                    errors.append('column \"{}\" is ambiguous'.format(arg.value))\n                elif",
      "GROUP BY several columns one of which two sources have", "the ambiguous column is accepted",
      ("select 1 from (select x from t) a join (select x from u) b on a.x = b.x group by x, 1", 1)),
    s("v04-join-bare-side", "V04", "        else:\n            known_fields |= self.right_from.known_fields\n",
      "        elif not known_fields:\n            known_fields |= self.right_from.known_fields\n",
      "a join of an aliased subquery and a table without alias", "the table does not make the source open-ended",
      ("select y from (select x from t) a join u on a.x = u.x", 0)),
]
