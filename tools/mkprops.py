"""Writes /verif/properties.jsonl (the single place the properties are worded)."""
import json, os
FH="sqlvalidator/file_handler.py"; MAIN="sqlvalidator/main.py"; LEX="sqlvalidator/grammar/lexer.py"
SQL="sqlvalidator/grammar/sql.py"; TOK="sqlvalidator/grammar/tokeniser.py"; SV="sqlvalidator/sql_validator.py"; SF="sqlvalidator/sql_formatter.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("F01","Only --format modifies files",
 "A command-line run without --format never creates, truncates, rewrites, renames or deletes any file, whatever the inputs, the other options and the failures met on the way. Using the package as a library never touches the file system at all.",
 ["inputs","configurations","fault_sequences"],"every option combination, every input path, every file content, every failure while reading or analysing",
 "No test runs the command line or looks at the file system; the tests call one internal function on in-memory streams.",
 [MAIN,FH],[("write is reached only under the format flag","file_handler.analyse_file"),("flags wired from options to handler","main._main")],["open/write calls"])
p("F02","A file is replaced only by its complete new text",
 "With --format a file is opened for writing only after its whole content has been read and analysed successfully, and what is then written to that same path is exactly the complete recomputed text of that file. A file whose reading, tokenising, parsing or formatting fails, or in which nothing changed, keeps its content.",
 ["inputs","fault_sequences"],"every file content and every point at which analysing it can fail",
 "Tests never make the analysis of a real file fail and never observe when a file is truncated.",
 [FH],[("content computed before the file is opened for writing","file_handler.analyse_file")],["open for writing, write"])
p("F03","--check-format predicts --format",
 "On the same inputs --check-format reports exactly the files and SQL counts that --format would rewrite: a file is reported in one mode if and only if it is rewritten and reported in the other, with the same count.",
 ["inputs","configurations"],"every file content, each of the two modes, with or without a validation option",
 "The relation is between two runs with different options; no test runs either mode through the command line.",
 [FH],[("one computation feeds both modes","file_handler.analyse_file / compute_file_content")],["report lines, writes, summary"])
p("F04","Exit status and summary totals are exact",
 "The process exits with status 1 exactly when --check-format found at least one query that would change or a validation option found at least one invalid query, and with status 0 otherwise. The totals that decide this and that the summary prints are the sums, over all files analysed in the run, of the per-file counts.",
 ["inputs","configurations","histories"],"every option combination and every sequence of files, directories and per-file outcomes",
 "No test covers the accumulation over several files or the exit status.",
 [FH,MAIN],[("counters accumulated per file and per input","file_handler.InputSQLAnalyseInfo.update, handle_inputs")],["sys.exit, printed summary"])
p("F05","One bad file never stops the others",
 "Whatever goes wrong while one file is read, analysed or written, the run reports it, goes on with every remaining file and input, and ends normally with the summary and the exit status of what was analysed.",
 ["inputs","fault_sequences"],"every sequence of inputs and every exception that reading, analysing or writing one file can raise",
 "Needs several inputs of which one fails in an arbitrary way; tests never run several inputs.",
 [FH],[("per-file exception barrier","file_handler.handle_one_input, analyse_dir")],["uncaught exceptions, loop exits"])
p("F06","Each file is analysed at most once per run",
 "In one run every file is analysed, reported, counted and rewritten at most once, even if it is named several times, is spelled relatively and absolutely, or is both named and found under a named directory.",
 ["inputs","histories"],"every list of inputs with any overlap between files and directories",
 "The duplicate bookkeeping spans several calls and several inputs; no test passes two inputs.",
 [FH],[("set of absolute paths seen, shared by the whole run","file_handler.analyse_file, analyse_dir, handle_inputs")],["opens of input files"])
p("F07","A directory input covers exactly its Python files",
 "For a directory input every file below it, at any depth, whose name ends in .py is analysed, and no other file is; a file input is analysed whatever its name, and an input that is neither is reported as invalid and changes nothing.",
 ["inputs"],"every directory tree and every input path",
 "No test walks a directory.",
 [FH],[("walk and suffix filter","file_handler.analyse_dir, handle_one_input")],["which paths are opened"])
p("F08","Opt-out comments are honoured",
 "A SQL string whose next comment (before any other string) contains the nosqlformat marker is neither changed nor counted as changed, and one whose next comment contains the nosqlvalidation marker is not counted or listed as invalid. Without a marker a string is counted as changed exactly when its text is replaced, and every replaced string is counted once.",
 ["inputs","configurations"],"every token sequence between a string and the comment that follows it, every mode",
 "The state machine that looks ahead for the comment has unboundedly many token interleavings; tests sample seven.",
 [FH],[("look-ahead for the marker comment","file_handler.compute_file_content")],["returned content and counts"])
p("F09","Text outside SQL strings passes through unchanged",
 "When a file is reformatted, every token of the source file other than the rewritten SQL string literals is emitted exactly once, in the original order, with its original text and position, and each rewritten literal takes the place of the literal it was computed from.",
 ["inputs"],"every token sequence of a Python file, with SQL strings anywhere in it",
 "The emission logic runs over unbounded token streams with nested look-ahead; tests use one or two strings.",
 [FH],[("token list rebuilt in order","file_handler.compute_file_content")],["returned content"])
p("F10","A rewritten literal keeps its prefix and quote style",
 "A rewritten SQL literal has the same string prefix and the same quote character as the original, opens and closes with the same quotes, and uses triple quotes whenever its new text spans several lines; nothing but the formatted SQL and line breaks is put between the quotes.",
 ["inputs"],"every literal: all prefixes, the four quote styles, one-line and multi-line results",
 "27 prefixes times 4 quote styles times layout; tests cover five combinations.",
 [FH],[("quote and prefix detection and re-quoting","file_handler.handle_sql_string")],["returned literal"])
p("F11","Every invalid query is reported where it starts",
 "With --verbose-validate each query found invalid is listed with the line on which its string starts and with all of its own error messages, each invalid query contributes exactly one to the reported number, and no query found valid or exempted is listed or counted.",
 ["inputs","configurations"],"every sequence of SQL strings in a file and every verdict for each of them",
 "No test covers validation of a file.",
 [FH],[("error locations collected per string","file_handler.compute_file_content, analyse_file")],["printed lines, counts"])
p("F12","Command-line modes are checked before any work",
 "A run that selects no mode, or both --format and --check-format, or both validation options, is rejected with a usage error before any input is opened; otherwise each option selects its own behaviour and no other.",
 ["configurations"],"every combination of the options",
 "No test runs the command line.",
 [MAIN],[("argument parser and mode check","main._main")],["handler invocation"])
p("A01","Verdict, error list and repeated queries agree",
 "For a parsed query object the verdict is positive exactly when its error list is empty, asking again returns the same verdict and errors without duplicating them, building the object never fails, and a query the parser rejects with a parsing error is reported as invalid with at least one error instead of raising.",
 ["inputs","histories"],"every SQL text and every sequence of calls on the query object",
 "Tests call the verdict once per query.",
 [SV],[("lazy, memoised validation","sql_validator.SQLQuery")],["SQLQuery API"])
p("A02","Formatting and validating have no lasting side effects",
 "Formatting or validating a query changes no state that outlives the call: no module- or class-level data, no default argument and no part of an already parsed query, so the result of one call never depends on earlier calls and a query formats the same before and after validation.",
 ["histories","inputs"],"every sequence of format and validate calls on any queries",
 "Tests never run two operations on one query nor compare results across histories.",
 [SQL,LEX,TOK,SV,SF],[("rendering and validation only read the tree","sql.py transform/__str__/validate/known_fields")],["attribute and container writes"])
p("A03","Results do not depend on hash order or environment",
 "The formatted text, the verdict and the order and wording of errors are a function of the SQL text alone: they do not vary with the hash seed, the iteration order of sets, time, randomness, locale, environment variables or files.",
 ["inputs","configurations"],"every SQL text under every hash seed and environment",
 "The test run pins one hash seed.",
 [SQL,LEX,TOK],[("sets of known fields are used through order-insensitive queries only","sql.py known_fields users")],["returned values"])
p("A04","A parsed query can always be rendered",
 "If a query parses, rendering it terminates without raising, whatever combination of clauses and nested expressions it contains.",
 ["inputs"],"every tree the parser can build",
 "Parser and renderer combine about 45 node kinds freely; tests cover a few hundred combinations.",
 [SQL,LEX],[("every node kind renders every kind of child","sql.py transform/__str__")],["exceptions out of rendering"])
p("A05","A parsed query can always be validated",
 "If a query parses, validating it terminates with a list of messages and never raises, whatever combination of clauses and nested expressions it contains.",
 ["inputs"],"every tree the parser can build",
 "Parser and validator combine about 45 node kinds freely; tests cover about a hundred combinations.",
 [SQL,LEX],[("every node kind validates every kind of child","sql.py validate/return_type/known_fields")],["exceptions out of validation"])
p("A06","Parsing always terminates",
 "Tokenising and parsing any text ends: every loop consumes input on each turn and every recursion works on strictly less input.",
 ["inputs"],"every SQL text, including truncated and malformed ones",
 "Non-termination needs malformed inputs that no test contains.",
 [LEX,TOK],[("every loop and recursion consumes tokens","lexer.py, tokeniser.py")],["loops, recursion"])
p("G01","Keywords are recognised in any letter case",
 "The parser recognises every keyword regardless of letter case: two queries that differ only in the case of keywords are split and parsed the same way.",
 ["inputs"],"every keyword at every position in every mix of upper and lower case",
 "Over a hundred keyword comparisons times letter cases times positions; tests are mostly one spelling each.",
 [LEX,TOK],[("tokens are lowered before being compared with keywords","lexer.py, tokeniser.py")],["token comparisons"])
p("G02","Formatting keeps every token of what it recognises",
 "For a query the formatter accepts, the output consists of the same tokens in the same order as the part of the query its grammar recognises: no clause, modifier, keyword, operator, alias, operand, separator or string content is lost, added, repeated, swapped or replaced, except for letter case of keywords and function names, white space, number spelling, yes/no for true/false and a trailing comma.",
 ["inputs"],"every query in the recognised grammar: all clauses, modifiers and nestings",
 "The grammar is unbounded and modifiers combine freely; the tests compare about 150 outputs.",
 [LEX,SQL],[("parser stores every token it consumes and the node renders what it stores","lexer.py *Parser.parse with sql.py transform/__str__")],["format_sql output"])
p("G03","Clause boundaries respect nesting and quotes",
 "A clause, list item or argument ends only at a delimiter that lies outside every parenthesis, square bracket, CASE ... END and quoted string opened within it, and does end at the first such delimiter; the closing parenthesis found for an opening one is the one that balances it; the text of a quoted string is never taken for a keyword, comma or bracket.",
 ["inputs"],"every nesting of parentheses, brackets and CASE expressions of any depth",
 "Nesting depth is unbounded; tests nest two or three levels.",
 [TOK,LEX],[("depth counters in the token collectors","tokeniser.get_tokens_until_*, lexer.ExpressionListParser")],["token lists"])
p("G04","Tokenising loses and invents no character",
 "The tokens of a text, put one after another, are that text without the white space outside quotes: no other character is lost, added, repeated, reordered or changed, and quoted text is kept verbatim as one token.",
 ["inputs"],"every text",
 "Arbitrary character sequences with escapes and mixed quotes; tests use about 25 texts.",
 [TOK],[("recursive splitting and merging","tokeniser.split_tokens, merge_stream")],["tokens"])
p("V01","Validation reaches every clause and keeps every error",
 "An invalid part is reported wherever validation applies: errors found in the select list, a FROM source that is a table or a subquery in parentheses (aliased or not), WHERE, GROUP BY, HAVING, ORDER BY, LIMIT and OFFSET, and inside function arguments, FILTER and window clauses, comparisons, AND/OR operands, parentheses and aliased expressions, all end up in the query's error list, none is dropped or overwritten.",
 ["inputs"],"every position of an invalid part in every combination of clauses",
 "Tests place one error in one position at a time.",
 [SQL],[("validate() accumulates the children's errors","sql.py validate methods")],["SQLQuery.errors"])
p("V02","Row limits and positional references are range-checked",
 "LIMIT and OFFSET are accepted exactly when the argument, through any parentheses, is a non-negative integer (or LIMIT ALL), and an integer position in GROUP BY or ORDER BY is accepted exactly when it lies between 1 and the number of select expressions.",
 ["inputs"],"every integer and every number of select expressions, under any number of parentheses",
 "Boundary values for every list length; tests use three values.",
 [SQL],[("comparisons in LimitClause, OffsetClause, GroupByClause, OrderByItem","sql.py")],["SQLQuery.errors"])
p("V03","Conditions must be boolean",
 "WHERE, HAVING and each operand of AND/OR (but not the bounds of BETWEEN) draw exactly one type error when their type is known and is not boolean, and none when it is boolean or unknown.",
 ["inputs"],"every operand of every known or unknown type in each of these positions",
 "Type times position; tests cover five combinations.",
 [SQL],[("type test in WhereClause, HavingClause, BooleanCondition","sql.py")],["SQLQuery.errors"])
p("V04","Column references resolve against the FROM source",
 "A plain column is accepted exactly when it is *, when the source is open-ended, when it is one of the source's fields, or when exactly one aliased source field has that name; it is otherwise reported as ambiguous (several) or missing (none); GROUP BY also accepts the aliases of the select list. A qualified column is accepted exactly when the source is open-ended or that alias provides it or is open-ended, and is otherwise reported as missing.",
 ["inputs"],"every column name and every set of known source fields",
 "Field sets are unbounded; tests use a dozen.",
 [SQL],[("membership tests over known fields","sql.py Column.validate, ChainedColumns.validate")],["SQLQuery.errors"])
p("N01","Formatting is idempotent",
 "Formatting an already formatted query returns it unchanged.",
 ["inputs"],"every query the formatter accepts",
 "Quantifies over all queries and compares two runs.",
 [SQL,LEX],[("layout rules are stable under re-parsing","sql.py transform")],["format_sql"])
p("N03","A rewritten file means the same Python program",
 "After reformatting, the file still parses and differs as a program only in the white space and keyword case of its SQL strings.",
 ["inputs"],"every Python file",
 "Quantifies over all Python programs.",
 [FH],[("literal re-quoting and untokenize","file_handler.py")],["file content"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
