"""Write MANIFEST.json from the table below (and check it against properties.jsonl)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the command line with ghost records (own kernel, sa/interp.py + sa/cli.py)"
AI_NOTE = (
    "Sound for the modelled world (argparse, os, tokenize, open, print, the SQL library's "
    "interface) on every options/inputs/tree/token-stream choice within the runs listed in the "
    "evidence: one file with any token stream, and separately any inputs and directories of files "
    "with at most two strings. Strings are assumed not to contain the opt-out markers. Trusted: the kernel's "
    "Python semantics. Code outside the modelled subset is reported as undecided, never as a violation."
)
CLAIMED = {}
for i in range(1, 13):
    CLAIMED["F%02d" % i] = (AI, AI_NOTE)
CLAIMED["G01"] = (
    "abstract interpretation of the parser on unknown tokens: every comparison of a token with a constant word is classified by the letter case of both sides (sa/casing.py on sa/gram.py and sa/nest.py)",
    "Covers every comparison that the runs of G02 and G03 reach (all of those in the parser except two branches no token can reach); the words are assumed to be ASCII. A comparison with the word as it is written counts as "
    "a violation unless the token's letters are already known, so a fast path that is followed by a caseless test would be reported too.",
)
CLAIMED["G02"] = (
    "abstract interpretation of every parser class with its renderings as a round-trip relation between tokens read and tokens printed (sa/gram.py), plus the formatter's front end (sa/glue.py)",
    "Sub-parsers are assumed to satisfy the same relation (induction over nesting). Each parser is run on a stream of unknown tokens, all paths; "
    "lists and repeated elements up to the bounds listed in the evidence, clause combinations and flags exhaustively. Brackets are assumed balanced; trailing tokens that the "
    "grammar does not recognise are outside the statement. What the kernel cannot follow is listed as undecided, never reported.",
)
CLAIMED["G03"] = (
    "abstract interpretation of the functions that cut the token stream, against a ghost stack of open brackets, CASE and quotes (sa/nest.py); clause ends by executing every combination of clauses and call parts (sa/gram.py)",
    "Any token sequence whose brackets nest properly, up to nesting depth 3 (5 thorough); strings at depth 0 to 1 (2 thorough); any length. The stop-word lists are those of the parser functions, "
    "each checked against all combinations of the clauses of a SELECT and of the parts of a call.",
)
VNOTE = (
    "validate() and its helpers are executed abstractly on trees with unknown parts (any class, any type, any name); the children's messages are symbolic, so one run covers every "
    "content. Numbers of fields, select expressions and operands are bounded as listed in the evidence; all outcomes of every comparison are explored. Not covered: the children a class does not "
    "validate by design (see DESIGN.md)."
)
for i, t in (("V01", "effect analysis: which children's messages reach the returned list, on every path"),
             ("V02", "case analysis of the range tests over symbolic integers and list lengths"),
             ("V03", "case analysis of the type tests over symbolic operand types"),
             ("V04", "case analysis of name resolution over symbolic field sets; derivation of the field sets of tables, aliases, joins and subqueries")):
    CLAIMED[i] = ("abstract interpretation of the validation code (sa/sqlval.py): " + t, VNOTE)
CLAIMED["A01"] = (
    "abstract interpretation of the query object over every history of calls and every outcome of parsing and validation (sa/query.py)",
    "All histories of is_valid() and format() up to length 3 (6 thorough) on one query object; parsing and validation are replaced by their possible outcomes: "
    "a tree, a parsing error with or without text, another exception; any list of messages.",
)
CLAIMED["A04"] = (
    "abstract interpretation of the renderings of every node the parser functions can return; exceptional exits are violations (sa/gram.py)",
    "The nodes are those of the runs of G02, with their bounds; children of unknown class render without failing (induction over nesting). Attributes read from a node of unknown class are reported when a common kind of "
    "expression lacks them. Running out of stack on very deep nesting is not covered.",
)
CLAIMED["A05"] = (
    "abstract interpretation of validate(), return_type, resolve_return_type and known_fields of every node the parser functions can build; what is asked of a part (attributes, calls, arguments) is checked against every class that can stand there (sa/valid.py)",
    "The nodes are those of the runs of G02, with their bounds; parts of unknown class are represented by the classes that the parser functions build (interface conformance, induction over nesting); known fields: none or one. Functions with a try "
    "statement may ask a part for anything. Running out of stack on very deep nesting, and queries that do not parse, are not covered.",
)
CLAIMED["A02"] = (
    "effect analysis: writes to objects that exist before the call, watched in the abstract runs of parsing, rendering, validation and the query object, plus a lint over every function of the library (sa/lasting.py, sa/achecks.py)",
    "The abstract runs are those of G02 and V01-V04 with their bounds; the tokeniser is covered by the lint alone (module variables, class attributes, mutable defaults, cached generators written by name). "
    "A cache of immutable results is not a violation.",
)
CLAIMED["A03"] = (
    "self-composition over the order of sets in the abstract runs of the validation code; walks over sets whose order can be noticed in parsing and rendering; a lint for names that reach the environment (sa/achecks.py, sa/sqlval.py)",
    "Two opposite orders of every set are compared, with up to three known fields; the bounds are those of V01-V04. The tokeniser is covered by the lints alone.",
)
NA = {
    "N01": "Whether formatting twice equals formatting once quantifies over the layout the renderer computes (line widths, "
    "nesting, re-indentation) composed with the parser; no static rule in reach relates the two, and known inputs break it.",
    "N03": "Needs the semantics of Python source around the rewritten literal (implicit concatenation, f-strings, %-formatting) as well as the "
    "formatter's output for every SQL text: no static argument in reach bounds it.",
}
NA["A06"] = (
    "The parser's loops end because each turn takes a token, but the tokeniser recurses on pieces of unknown text: its termination needs a measure on what str.split and the merging of "
    "escaped separators return for every string, which the term domain here cannot bound, and known inputs break it (a\\,b recurses without end), with no small and safe repair."
)
NA["G04"] = (
    "Conservation of characters through recursive splitting and merging is an equation between concatenations of unknown strings, with loops over lists of unknown length that look back at the ends of "
    "neighbouring pieces; no static rule in reach decides it, and known inputs break it (a text that ends in a backslash after a quote, quotes inside the other kind of quotes)."
)
LATER = "not decided yet: no sound static rule has been built for it so far"


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    ids = [p["id"] for p in props]
    checks = []
    for i in ids:
        if i in CLAIMED:
            t, n = CLAIMED[i]
            checks.append({
                "property": i,
                "quick_cmd": "python3 -m sa.run " + i,
                "thorough_cmd": "python3 -m sa.run %s --thorough" % i,
                "technique": t, "level": "other", "level_note": n,
            })
    na = [{"property": i, "reason": NA.get(i, LATER)} for i in ids if i not in CLAIMED]
    json.dump(
        {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
        open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1,
    )
    print(len(checks), "claimed", len(na), "not applicable")


main()
