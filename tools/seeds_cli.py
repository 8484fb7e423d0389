FH = "sqlvalidator/file_handler.py"
MAIN = "sqlvalidator/main.py"
SEEDS = [
    dict(id="f01-validate-writes", property="F01", file=FH,
         edits=[("        if format_input:\n            with open(filename", "        if not check:\n            with open(filename")],
         needs="--validate on a file whose queries would be reformatted",
         breaks="a run with only --validate rewrites the file",
         demo='''
src = "def f():\\n    return 'select   a from   t'\\n"
st, out, files = cli(["--validate", "a.py"], {"a.py": src})
assert files["a.py"] == src, files
'''),
    dict(id="f02-stripped-tail", property="F02", file=FH,
         edits=[("                f.write(new_content)", "                f.write(new_content.rstrip() + \"\\n\")")],
         needs="a reformatted file that ends in several blank lines or none",
         breaks="what is written is not the recomputed text of the file",
         demo='''
src = "x = 'select   a from   t'\\n\\n\\n\\n"
st, out, files = cli(["--format", "a.py"], {"a.py": src})
assert files["a.py"].endswith("\\n\\n\\n\\n"), files
'''),
    dict(id="f03-check-silent-when-validating", property="F03", file=FH,
         edits=[('        elif check:\n            starting_text', '        elif check and not validate:\n            starting_text')],
         needs="--check-format together with --validate",
         breaks="--check-format does not report the file that --format would rewrite",
         demo='''
src = "x = 'select   a from   t'\\n"
st, out, files = cli(["--check-format", "--validate", "a.py"], {"a.py": src})
assert "would reformat a.py (1 changed SQL)" in out, out
'''),
    dict(id="f04-max-instead-of-sum", property="F04", file=FH,
         edits=[("        self.num_invalid_sql += other_sql_analyse_info.num_invalid_sql",
                 "        self.num_invalid_sql = max(\n            self.num_invalid_sql, other_sql_analyse_info.num_invalid_sql\n        )")],
         needs="two files with invalid queries in one run",
         breaks="the total of invalid queries is the largest count of one file",
         demo='''
src = "x = 'select   a from   t limit 1.5'\\n"
st, out, files = cli(["--validate", "a.py", "b.py"], {"a.py": src, "b.py": src})
assert "2 files detected with invalid SQL (2 invalid SQL queries)" in out and st == 1, (st, out)
'''),
    dict(id="f05-narrow-except", property="F05", file=FH,
         edits=[('''                except Exception as e:
                    print(
                        "error analysing {} ({}: {})".format(
                            abs_filename''', '''                except (SyntaxError, ValueError, AttributeError, TypeError) as e:
                    print(
                        "error analysing {} ({}: {})".format(
                            abs_filename''')],
         needs="a directory with a file that cannot be opened or tokenised with an OSError or tokenize error",
         breaks="the failure of one file ends the whole run",
         demo='''
import tempfile
with tempfile.TemporaryDirectory() as d:
    os.symlink(os.path.join(d, "nowhere"), os.path.join(d, "a.py"))
    for n in ("b.py", "c.py"):
        open(os.path.join(d, n), "w").write("x = 'select   a from   t'\\n")
    r = subprocess.run([sys.executable, "-c", "from sqlvalidator.main import _main; _main()", "--check-format", d],
                       env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    assert "2 files would be reformatted" in r.stdout, r.stdout
'''),
    dict(id="f06-relative-twice", property="F06", file=FH,
         edits=[("    abs_filename = os.path.abspath(filename)\n    if abs_filename in seen_files:",
                 "    abs_filename = os.path.normpath(filename)\n    if abs_filename in seen_files:")],
         needs="one file named relatively and absolutely",
         breaks="the same file is analysed and counted twice",
         demo='''
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.py")
    open(p, "w").write("x = 'select   a from   t'\\n")
    r = subprocess.run([sys.executable, "-c", "from sqlvalidator.main import _main; _main()", "--check-format", p, "a.py"],
                       cwd=d, env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    assert "1 file would be reformatted (1 changed SQL queries)" in r.stdout, r.stdout
'''),
    dict(id="f06-seen-lost-between-dirs", property="F06", file=FH,
         edits=[("    seen_files = seen_files or set()\n    result_infos = InputSQLAnalyseInfo(seen_files=seen_files)",
                 "    result_infos = InputSQLAnalyseInfo(seen_files=set())")],
         needs="two inputs of which one is inside the other",
         breaks="files below a directory named after them are analysed again",
         demo='''
src = "x = 'select   a from   t'\\n"
st, out, files = cli(["--check-format", "d/a.py", "d"], {"d/a.py": src})
assert "1 file would be reformatted (1 changed SQL queries)" in out, out
'''),
    dict(id="f07-private-modules-skipped", property="F07", file=FH,
         edits=[('            if filename.endswith(".py"):', '            if filename.endswith(".py") and not filename.startswith("__"):')],
         needs="a directory holding __init__.py",
         breaks="some .py files below a directory are not analysed",
         demo='''
src = "x = 'select   a from   t'\\n"
st, out, files = cli(["--check-format", "d"], {"d/__init__.py": src})
assert "1 file would be reformatted" in out, out
'''),
    dict(id="f08-marker-ignored-when-validating", property="F08", file=FH,
         edits=[('''            if (
                formatted_sql != token_value
                and NO_SQLFORMAT_COMMENT not in next_token_value
            ):''', '''            if formatted_sql != token_value:''')],
         needs="--format with --validate and a string followed by a nosqlformat comment",
         breaks="an exempted string is rewritten",
         demo='''
src = "x = 'select   a from   t'  # nosqlformat\\n"
st, out, files = cli(["--format", "--validate", "a.py"], {"a.py": src})
assert files["a.py"] == src, files
'''),
    dict(id="f09-lost-run-between-strings", property="F09", file=FH,
         edits=[("            tokens += following_tokens[:-1]", "            tokens += [t for t in following_tokens[:-1] if t[0] != tokenize.NL]")],
         needs="a SQL string followed, over a blank line, by another string",
         breaks="line breaks between two strings are dropped from the written file",
         demo='''
src = "x = ['select   a from   t',\\n\\n     'b']\\n"
st, out, files = cli(["--format", "a.py"], {"a.py": src})
assert files["a.py"].count("\\n\\n") == 1 and "b" in files["a.py"].split("\\n")[-2], files
'''),
    dict(id="f10-prefix-lost-multiline", property="F10", file=FH,
         edits=[('''        quoted_sql = "{prefix}{quotes}\\n{sql}\\n{quotes}".format(
            prefix=quotes_prefix or "",''', '''        quoted_sql = "{prefix}{quotes}\\n{sql}\\n{quotes}".format(
            prefix=quotes_prefix if quotes_prefix and len(quotes) == 3 else "",''')],
         needs="a single-quoted raw string whose formatted text spans several lines",
         breaks="the r prefix of a rewritten literal is lost",
         demo='''
src = "x = r'select   a,b from   t where a=1'\\n"
st, out, files = cli(["--format", "a.py"], {"a.py": src})
assert files["a.py"].startswith("x = r\\'\\'\\'"), files
'''),
    dict(id="f11-line-of-end", property="F11", file=FH,
         edits=[('''            if needs_validate and not sql_query.is_valid():
                count_has_errors += 1
                errors_locations.append((starting[0], sql_query.errors))''',
                 '''            if needs_validate and not sql_query.is_valid():
                count_has_errors += 1
                errors_locations.append((ending[0], sql_query.errors))''')],
         needs="an invalid query in a triple-quoted string over several lines",
         breaks="the listed line is the one where the string ends",
         demo='''
src = "x = \\'\\'\\'select   a from\\n   t limit 1.5\\'\\'\\'\\n"
st, out, files = cli(["--verbose-validate", "a.py"], {"a.py": src})
assert "L1 - " in out, out
'''),
    dict(id="f12-both-validations", property="F12", file=MAIN,
         edits=[("    validate_group = parser.add_mutually_exclusive_group(required=False)",
                 "    validate_group = parser.add_argument_group(\"validation\")")],
         needs="--validate with --verbose-validate", breaks="contradictory options are accepted",
         demo='''
st, out, files = cli(["--validate", "--verbose-validate", "a.py"], {"a.py": "x = 1\\n"})
assert st == 2, (st, out)
'''),
]
