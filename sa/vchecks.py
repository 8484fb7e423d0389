"""Validation properties V01-V04: which abstract runs decide which property."""
import itertools
import os
import signal
import time

from .pool import each
from . import gram, sqlval as V
from .fchecks import JOB_LIMIT, Late
from .loader import AnalysisError, Program
from .vals import Exc, K


def jobs_for(pid, tier):
    deep = tier == "thorough"
    J = []
    if pid in ("V01", "V04"):
        pres = [tuple(V.SELECT), ()]
        for c in V.SELECT:
            pres.append((c,))
            pres.append(tuple(x for x in V.SELECT if x != c))
        if deep:
            pres = [c for n in range(8) for c in itertools.combinations(V.SELECT, n)]
        for p in pres:
            for n in (0, 1, 2):
                for given in (True, False):
                    J.append(("run_select", p, n, given))
        for i in range(len(V.parts_table())):
            J.append(("part", i))
    if pid == "V02":
        for c in ("LimitClause", "OffsetClause", "GroupByClause", "OrderByItem"):
            J.append(("range", c, False, 1))
        J.append(("range", "LimitClause", True, 1))
        J.append(("range", "GroupByClause", False, 2))
        if deep:
            J.append(("range", "GroupByClause", False, 3))
    if pid == "V03":
        for c in ("WhereClause", "HavingClause"):
            J.append(("run_types", c, 1, False))
        for n in (1, 2, 3) if deep else (1, 2):
            for b in (True, False):
                J.append(("run_types", "BooleanCondition", n, b))
        J.append(("run_between",))
        J.append(("run_return",))
        for n in (0, 1, 2) + ((3,) if deep else ()):
            J.append(("run_resolve", n))
    if pid == "V04":
        for n in (0, 1, 2, 3) + ((4,) if deep else ()):
            J.append(("run_column", n))
            for k in (2, 3):
                J.append(("run_chained", n, k))
        for n in (0, 1, 2) + ((3,) if deep else ()):
            for m in (0, 1, 2):
                J.append(("run_group", n, m, ""))
            for side in ("first", "last"):
                J.append(("run_group", n, 1, side))
        sides = ("plain", "tok", "String")
        for what in ["Table", "Alias tok", "Alias String", "Parenthesis"] + ["Join %s %s" % x for x in itertools.product(sides, sides)]:
            for k in (0, 1, 2) + ((3,) if deep else ()):
                J.append(("run_known", what, k))
        for n in (0, 1, 2):
            for src in ("none", "subquery", "other"):
                J.append(("run_known_select", n, src, 1))
        J.append(("run_known_select", 1, "subquery", 2))
        if deep:
            J.append(("run_known_select", 2, "subquery", 2))
    return J


def label(j):
    if j[0] == "part":
        return "validate of %s" % V.parts_table()[j[1]][0]
    return " ".join(",".join(x) if isinstance(x, tuple) else str(x) for x in j).replace("run_", "")


def job(j):
    return job2(j)[:6]


def job2(j, orders=False):
    t = time.time()
    V.ORDERS = orders

    def late(*_):
        raise Late()

    signal.signal(signal.SIGALRM, late)
    signal.alarm(JOB_LIMIT)
    h, err, steps = [], None, 0
    try:
        prog = Program()
        if j[0] == "part":
            cls, make, extra = V.parts_table()[j[1]]
            d, I = V.run_parts(prog, cls, make, h, extra)
        elif j[0] == "range":
            d, I = V.run_range(prog, j[1], j[2], h, j[3])
        else:
            d, I = getattr(V, j[0])(prog, *j[1:], h)
        steps = I.steps
        for x in I.sink:
            e = x.stack[-1]
            if isinstance(e, Exc):
                d.viol.setdefault(
                    ("raise", e.cls, str(e.args)),
                    "%s can fail with %s%s" % (
                        V.label(V.parts_table()[j[1]][0], "") if j[0] == "part" else label(j), e.cls,
                        " (%s)" % e.args[0].v if e.args and isinstance(e.args[0], K) else ""),
                )
        if not d.stats["returns"]:
            what = V.label(V.parts_table()[j[1]][0], "") if j[0] == "part" else label(j)
            d.viol.setdefault(("V01", "raises", what), "%s fails whatever it is given" % what)
    except AnalysisError as e:
        err = str(e)
    except Late:
        err = "time limit of %d s" % JOB_LIMIT
    except RecursionError:
        err = "analysis too deep"
    except Exception as e:  # an analysis failure is never a verdict
        err = "internal: %s: %s" % (type(e).__name__, e)
    finally:
        signal.alarm(0)
    viol, stats = {}, {}
    for d in h:
        viol.update(d.viol)
        for k, v in d.stats.items():
            stats[k] = stats.get(k, 0) + v
    return j, time.time() - t, steps, err, stats.get("returns", 0), viol, stats


def run(pid, tier):
    prog = Program()
    jobs = jobs_for(pid, tier)
    out, und, rows, steps, rets = [], [], [], 0, 0
    for x, res, reason in each(job, jobs):
        if res is None:
            und.append("%s: %s" % (label(x), reason))
            continue
        j, t, s, err, n, vi = res
        rows.append({"run": label(j), "seconds": round(t, 2), "steps": s, "ways_to_return": n, "undecided": err})
        steps += s
        rets += n
        if err:
            und.append("%s: %s" % (label(j), err))
        out += [m for k, m in vi.items() if k[0] in (pid, "raise")]
    cov = {
        "explanation": "validate() and its helpers are executed abstractly on instances with unknown parts; "
        "the messages they return are compared with what the property demands in every case",
        "runs": sorted(rows, key=lambda r: r["run"]),
        "abstract_steps": steps,
        "ways_to_return": rets,
        "functions": [
            f.module + "." + f.qualname for f in prog.funcs
            if f.module == gram.SQL and f.name in ("validate", "return_type", "resolve_return_type", "known_fields", "value")
        ],
        "undecided": und,
    }
    return out, cov, und
