"""The grammar properties: which abstract runs decide which property."""
import ast
import itertools
import os
import signal
import time

from .pool import each
from . import gram
from .fchecks import JOB_LIMIT, Late
from .loader import AnalysisError, Program

def options(*parts):
    """All ways to leave out the optional parts (tuples) of a text."""
    out = [()]
    for p in parts:
        if isinstance(p, str):
            out = [o + tuple(p.split()) for o in out]
        else:
            out = [o + tuple(c.split()) for o in out for c in ("",) + p]
    return out


# the parts of a call, in the order SQL gives them
TEXTS = (
    options("array_agg (", ("distinct",), "*", ("ignore nulls", "respect nulls"), ("order by *",), ("limit ?",), ")")
    + options("? ( * )", ("filter ( where * )",), "over (", ("partition by *",), ("order by *",), ("rows *", "range *"), ")")
    + options("count (", ("distinct",), "* )", ("filter ( where * )",))
    + options("cast ( * as ? )")
    + options("? ( )", ("filter ( where * )",), ("over ( )",))
)
WORDS = tuple(sorted({w for t in TEXTS for w in t if w[0].isalpha()} | {
    "select", "case", "not", "and", "or", "is", "in", "like", "between", "contains", "null", "true", "false",
    "from", "timestamp_trunc", "'", '"', "`", "-", "+", "/", "&", "|", "^", "||", "<<", ">>", "#", ",",
}))
CLAUSES = ("from", "where", "group", "having", "order", "limit", "offset", ";")


def tested_classes(prog):
    """Classes the parser functions distinguish with isinstance()."""
    out = {"String", "Alias"}
    for mod, tree in prog.modules.items():
        if mod != gram.LEX:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2:
                for x in ast.walk(n.args[1]):
                    if isinstance(x, ast.Name):
                        out.add(x.id)
                    elif isinstance(x, ast.Attribute):
                        out.add(x.attr)
    known = set(n.name for n in ast.walk(prog.modules[gram.SQL]) if isinstance(n, ast.ClassDef))
    return tuple(sorted(out & known))


def g02_jobs(keep, tier):
    deep = tier == "thorough"
    k = {"keep": keep}

    def j(root, **o):
        d = dict(k)
        d.update(o)
        return (root, d)

    jobs = []
    e = {"depth": 1, "parens": (1, 2)}
    for args in (
        {}, {"can_be_type": True}, {"can_alias": False, "until_one_of": ("stopword",)},
        {"until_one_of": ("stopword",)},
        {"is_right_hand": True, "until_one_of": ("stopword",)},
        {"is_chained_columns": True, "until_one_of": ("stopword",)},
        {"is_right_hand": True, "first_token": "tok"},
        {"is_right_hand": True, "first_token": "tok", "until_one_of": ("stopword",)},
    ):
        jobs.append(j("ExpressionParser", args=args, **e))
        if deep:
            jobs.append(j("ExpressionParser", args=args, depth=2))
    f = {"sizes": (1,), "parens": (1,)}
    jobs.append(j("FromStatementParser", depth=1 if not deep else 2, **f))
    jobs.append(j("FromStatementParser", nofork=1, sizes=(1, 2)))
    jobs.append(j("CaseParser", maxlist=2, parens=(1, 2)))
    jobs.append(j("CaseParser", maxlist=5 if deep else 4, nofork=1))
    jobs.append(j("StringParser", args={"start_quote": "quote", "prefix": None}))
    jobs.append(j("StringParser", args={"start_quote": "quote", "prefix": "prefix"}))
    for args in ({}, {"can_be_type": True}):
        jobs.append(j("ExpressionListParser", args=args))
    for r in ("OffsetClauseParser", "LimitClauseParser", "OrderByItemParser", "OrderByParser",
              "GroupByParser", "HavingClauseParser", "WhereClauseParser", "WithStatementParser",
              "UnnestParser", "SQLStatementParser"):
        jobs.append(j(r))
    for plan in ((), ("from",), ("from", "where", ";")):
        jobs.append(j("SelectStatementParser", plan=plan, sizes=(1, 2)))
    combos = []
    for n in range(len(CLAUSES) + 1):
        for c in itertools.combinations(CLAUSES, n):
            combos.append(c)
    combos.sort(key=len, reverse=True)
    for i in range(16):
        jobs.append(j("SelectStatementParser", plans=tuple(combos[i::16]), nofork=1, sizes=(1, 2) if deep else (1,)))
    for i in range(4):
        jobs.append(j("ExpressionParser", texts=tuple(TEXTS[i::4]), words=WORDS, sizes=(1, 2), parens=(1,)))
    jobs.append(("glue", {}))
    return jobs


def label(root, o):
    out = []
    for k, v in sorted(o.items()):
        if k in ("words", "nest") or k == "keep" and "stops" not in o:
            continue
        if k == "plans":
            v = "%d clause combinations" % len(v)
        elif k == "texts":
            v = "%d sequences of parts of a call" % len(v)
        elif k == "args":
            v = ",".join("%s=%s" % x for x in sorted(v.items())) or "defaults"
        elif k == "plan":
            v = " ".join(v) or "(no clause)"
        out.append("%s: %s" % (k, v))
    return "%s [%s]" % (root, "; ".join(out))


def job(a):
    root, o = a
    t = time.time()

    def late(*_):
        raise Late()

    signal.signal(signal.SIGALRM, late)
    signal.alarm(60 if o.get("nest") and o["depth"] < 4 else JOB_LIMIT)
    h = []
    steps = 0
    err = None
    try:
        prog = Program()
        if o.get("nest"):
            from . import nest

            d, I, err = nest.run_nest(prog, root, {k: v for k, v in o.items() if k != "nest"}, h)
            steps = I.steps
        elif root == "glue":
            from . import glue

            d, I, err = glue.run_glue(prog, h)
            steps = I.steps
        else:
            for plan in o.get("plans", o.get("texts", (None,))):
                oo = o if plan is None else dict(o, **{"plan" if "plans" in o else "text": plan})
                d, I, e = gram.run_gram(prog, root + ".parse", oo, h)
                steps += I.steps
                err = err or e
                if not e and plan is not None and not d.stats["exits"] and not d.viol:
                    d.bad("a call or statement with its parts in order is rejected", I, d.root, " ".join(plan))
    except AnalysisError as e:
        err = str(e)
    except Late:
        err = "time limit of %d s" % JOB_LIMIT
    except RecursionError:
        err = "analysis too deep"
    except Exception as e:  # an analysis failure is never a verdict
        err = "internal: %s: %s" % (type(e).__name__, e)
    finally:
        signal.alarm(0)
    stats, viol, contracts = {}, {}, {}
    for d in h:
        for k, v in d.stats.items():
            stats[k] = stats.get(k, 0) + v
        for k, v in d.contracts.items():
            contracts[k] = contracts.get(k, 0) + v
        viol.update(d.viol)
    return a, time.time() - t, steps, err, stats, viol, contracts


EXPLAIN = {
    "A04": "every node that a parser function can return, on an unknown token stream, is rendered abstractly with "
    "every set of options a rendering takes; no path of the rendering may end in an exception",
    "G01": "every parser function and every function that cuts the token stream is executed abstractly on unknown "
    "tokens; each comparison of a token with a constant word must be made on its lower or upper case form",
    "G02": "every parser function is executed abstractly on an unknown token stream; "
    "the tokens it consumes are compared, in order, with the abstract rendering of the node it builds",
    "G03": "the functions that cut the token stream into parts are executed abstractly on a stream whose tokens "
    "are split by kind (brackets, CASE and END, quotes, delimiters, any other) against a ghost stack of what is "
    "open; the parser functions are executed on every combination of clauses and parts of a call, and must stop at "
    "the keyword that comes next",
}
PAST = "past the keyword that ends it"


def g03_jobs(keep, tier):
    from . import nest

    jobs = [(r, dict(o, nest=1)) for r, o in nest.nest_jobs(tier)]
    jobs += [(r, o) for r, o in g02_jobs(keep, tier) if "plans" in o or "texts" in o]
    return jobs


def mine(pid, key, m, o):
    if pid in ("A04", "G01") or key in ("A02", "A03", "A04", "G01"):
        return key == pid
    return pid != "G03" or o.get("nest") or PAST in m


def g01_jobs(keep, tier):
    from . import nest

    jobs = g02_jobs(keep, tier)
    # of the clause combinations only the one with every clause: the others read the same keywords
    jobs = [(r, dict(o, plans=o["plans"][:1]) if "plans" in o else o) for r, o in jobs if r != "glue"]
    return jobs + [(r, dict(o, nest=1)) for r, o in nest.nest_jobs("quick") if o["depth"] <= 1]


def run(pid, tier):
    prog = Program()
    keep = tested_classes(prog)
    jobs = {"G01": g01_jobs, "G02": g02_jobs, "A04": g02_jobs, "G03": g03_jobs}[pid](keep, tier)
    out, und, rows, stats, contracts = [], [], [], {}, {}
    steps = 0
    for x, res, reason in each(job, jobs):
        if res is None:
            und.append("%s: %s" % (label(*x), reason))
            continue
        a, t, s, err, st, vi, co = res
        name = label(*a)
        rows.append({"run": name, "seconds": round(t, 1), "steps": s, "undecided": err})
        steps += s
        for d, e in ((stats, st), (contracts, co)):
            for k, v in e.items():
                d[k] = d.get(k, 0) + v
        if err:
            und.append("%s: %s" % (name, err))
        out += [m for k, m in vi.items() if mine(pid, k[0], m, a[1])]
        if out and pid in ("G01", "G03"):
            break  # with wrong counting the other runs need not end
    cov = {
        "explanation": EXPLAIN[pid],
        "runs": sorted(rows, key=lambda r: r["run"]),
        "abstract_steps": steps,
        "counts": stats,
        "contracts_used": contracts,
        "functions": [f.module + "." + f.qualname for f in prog.funcs if f.module in (gram.LEX, gram.SQL, gram.TOK)],
        "undecided": und,
    }
    return out, cov, und
