"""The command-line properties F01-F12: which abstract runs decide which property."""
import ast
import os
import signal
import time

from .pool import each
from .loader import AnalysisError, Program

JOB_LIMIT = int(os.environ.get("SA_JOB_LIMIT", "120"))

FMT, CHK, VAL, VER = "1000", "0100", "0010", "0001"
BOTH = ("1010", "1001", "0110", "0101")
ALL = (FMT, CHK, VAL, VER) + BOTH
FORMATTING = (FMT, "1010", "1001")
N, DV, D, V_, I_ = "b.n", "b.s.DV", "b.s.D", "b.s.V", "b.s."


def file_jobs(combos):
    """One file holding any stream of tokens of these kinds."""
    out = []
    for c in combos:
        if c in (FMT, CHK):
            out.append((c, "file", (N, DV, V_), ("",), None))
            out.append((c, "file", (N, DV, V_), ("", "f"), None))
            # the other marker must not matter
            out.append((c, "file", (N, DV), ("", "v"), None))
        elif c in (VAL, VER):
            out.append((c, "file", (N, V_, I_), ("",), None))
            out.append((c, "file", (N, V_, I_), ("", "v"), None))
            out.append((c, "file", (N, I_, DV), ("", "f"), None))
        else:
            out.append((c, "file", (N, D, V_), ("",), None))
            out.append((c, "file", (N, D, V_), ("", "f", "v", "fv"), None))
            out.append((c, "file", (N, DV, I_), ("", "f", "v", "fv"), None))
    return out


def tree_jobs(combos):
    """Any inputs and directories, of files with at most two strings of one kind."""
    out = []
    for c in combos:
        if c[:2] != "00":
            out.append((c, "tree", (DV,), ("",), None))
        if c[2:] != "00":
            out.append((c, "tree", (I_,), ("",), None))
    return out


def lit_jobs():
    return [(FMT, "lit", (N,), ("",), (q,)) for q in ('"', "'", '"""', "'''")]


REJECTED = ("0000", "1100", "0011", "1011", "0111", "1110", "1101", "1111")


def rej_jobs():
    return [(c, "tree", (DV,), ("",), None) for c in REJECTED]


NOFORMAT = tuple(c for c in ALL if c[0] == "0")

JOBS = {
    "F01": lambda: file_jobs(NOFORMAT) + tree_jobs(NOFORMAT),
    "F02": lambda: file_jobs(FORMATTING) + tree_jobs(FORMATTING),
    "F03": lambda: file_jobs((FMT, CHK) + BOTH) + tree_jobs((FMT, CHK)),
    "F04": lambda: file_jobs((CHK, VAL, VER, "0110")) + tree_jobs(ALL),
    "F05": lambda: file_jobs((FMT, CHK, VAL, VER)) + tree_jobs(ALL),
    "F06": lambda: tree_jobs(ALL),
    "F07": lambda: tree_jobs(ALL),
    "F08": lambda: file_jobs(ALL),
    "F09": lambda: file_jobs(FORMATTING),
    "F10": lit_jobs,
    "F11": lambda: file_jobs((VAL, VER) + BOTH),
    "F12": lambda: rej_jobs() + tree_jobs(ALL) + file_jobs((FMT, CHK, VAL, VER)),
}


class Late(Exception):
    pass


def job(a):
    from . import cli

    c, part, tags, comments, quotes = a
    t = time.time()

    def late(*_):
        raise Late()

    signal.signal(signal.SIGALRM, late)
    signal.alarm(JOB_LIMIT)
    h = []
    try:
        d, I, err = cli.run_cli(
            Program(), {tuple(x == "1" for x in c)}, part, tags, comments, quotes, h
        )
        return a, time.time() - t, I.steps, err, d.stats, d.viol, d.tables, sorted(d.sites)
    except AnalysisError as e:
        err = str(e)
    except Late:
        err = "time limit of %d s" % JOB_LIMIT
    except RecursionError:
        err = "analysis too deep"
    except Exception as e:  # an analysis failure is never a verdict
        err = "internal: %s: %s" % (type(e).__name__, e)
    finally:
        signal.alarm(0)
    if h:
        # what was found before the analysis gave up stands
        return a, time.time() - t, 0, err, h[0].stats, h[0].viol, {}, []
    return a, time.time() - t, 0, err, {}, {}, {}, []


# --- F01: the library side -----------------------------------------------------------

ALLOWED_OS = ("os.path", "os.environ", "os.fspath", "os.sep", "os.getcwd", "os.linesep")
BAD_MODULES = (
    "os", "shutil", "pathlib", "io", "codecs", "tempfile", "subprocess", "fileinput",
    "glob", "sqlite3", "dbm", "shelve", "pickle", "importlib", "ctypes", "mmap", "logging",
    "zipfile", "tarfile", "gzip", "bz2", "lzma", "socket",
)
BAD_BUILTINS = ("open", "exec", "eval", "compile", "__import__")


def library_scan(prog):
    """No code that runs when the package is used as a library can reach the file
    system: neither the library modules nor any module's import-time code refers to
    a file-system name."""
    viol, sites = [], 0
    for mod, tree in prog.modules.items():
        short = mod.split(".", 1)[1] if "." in mod else ""
        library = not (short in ("main", "file_handler", "__main__"))
        names = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for al in n.names:
                    names[(al.asname or al.name).split(".")[0]] = al.name if al.asname else al.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for al in n.names:
                    names[al.asname or al.name] = n.module + "." + al.name
        if library:
            roots = [tree]
        else:
            roots = []
            for s in tree.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    roots += s.decorator_list + s.args.defaults
                elif isinstance(s, ast.If) and "__name__" in ast.dump(s.test):
                    continue
                elif isinstance(s, ast.ClassDef):
                    for x in s.body:
                        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            roots += x.decorator_list + x.args.defaults
                        else:
                            roots.append(x)
                else:
                    roots.append(s)
        stored = set(
            n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
        ) | set(
            n.name for n in ast.walk(tree)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef))
        ) | set(n.arg for n in ast.walk(tree) if isinstance(n, ast.arg))
        for r in roots:
            for n in ast.walk(r):
                q = None
                if isinstance(n, ast.Attribute):
                    parts = []
                    x = n
                    while isinstance(x, ast.Attribute):
                        parts.append(x.attr)
                        x = x.value
                    if isinstance(x, ast.Name) and x.id in names and x.id not in stored:
                        q = ".".join([names[x.id]] + parts[::-1])
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    sites += 1
                    if n.func.id in BAD_BUILTINS and n.func.id not in names and n.func.id not in stored:
                        q = "builtins." + n.func.id
                    elif n.func.id in names and n.func.id not in stored:
                        q = names[n.func.id]
                if q is None:
                    continue
                top = q.split(".")[0]
                if top == "builtins" or (
                    top in BAD_MODULES and "." in q
                    and not any(q == a or q.startswith(a + ".") for a in ALLOWED_OS)
                    and q not in ("logging.getLogger",)
                    and not q.startswith("logging.get")
                    and q not in ("io.StringIO", "importlib.metadata.version", "importlib.metadata")
                ):
                    # a prefix of a longer attribute chain is reported once
                    viol.append("library code refers to %s [at %s:%d]" % (q, prog.files[mod], n.lineno))
    return viol, sites


def run(pid, tier):
    prog = Program()
    prog_funcs = [f for f in prog.funcs if f.module.endswith((".file_handler", ".main"))]
    jobs = JOBS[pid]()
    if pid == "F03" or tier == "thorough":
        pass
    if tier == "thorough":
        # every kind of string and comment at once
        for c in ALL:
            jobs.append((c, "file", (N, DV, D, V_, I_), ("", "f", "v", "fv"), None))
        jobs = [j for j in jobs if j[0] in set(k[0] for k in JOBS[pid]())]
    viol, und, stats, sites = {}, [], {}, set()
    tables = {}
    steps = 0
    rows = []
    for x, res, reason in each(job, jobs):
        if res is None:
            und.append("%s: %s" % (repr(x)[:200], reason))
            continue
        a, t, s, err, st, vi, tb, si = res
        name = "%s/%s/%s/%s%s" % (
            a[0], a[1], "+".join(x[2:] for x in a[2]), "|".join(a[3]),
            "/" + a[4][0] if a[4] else "",
        )
        rows.append({"run": name, "seconds": round(t, 1), "steps": s, "undecided": err})
        steps += s
        sites.update(si)
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        if err:
            und.append("%s: %s" % (name, err))
        for (p, rule), msg in vi.items():
            viol.setdefault((p, rule), []).append((a, msg))
        for fl, tab in tb.items():
            d = tables.setdefault(fl, {})
            for k, x in tab.items():
                d.setdefault(k, set()).update(x)
    out = []
    for (p, rule), lst in viol.items():
        if p != pid:
            continue
        if p == "F08":
            # a count that is wrong without any marker around is not the markers' fault
            base = set(a[0] for a, m in viol.get(("F11", rule), []))
            lst = [(a, m) for a, m in lst if a[0] not in base]
        if lst:
            out.append(min(lst, key=lambda x: repr(x[0]))[1])
    if pid == "F03":
        for fl, tab in tables.items():
            if not (fl[1] and not fl[0]):
                continue
            other = tables.get((True, False) + fl[2:])
            if other is None:
                continue
            for k in sorted(set(tab) & set(other)):
                if tab[k] != other[k]:
                    out.append(
                        "--check-format %s a query that --format %s (differs: %s, valid: %s, next token: %s)"
                        % (
                            "counts" if True in tab[k] else "does not count",
                            "rewrites" if True in other[k] else "keeps", k[0], k[1], k[2],
                        )
                    )
    extra = {}
    if pid == "F01":
        vs, n = library_scan(prog)
        out += vs
        extra["library_modules_scanned"] = len(prog.modules)
        extra["library_call_sites"] = n
    cov = {
        "explanation": "abstract interpretation of the command line from main._main: every "
        "combination of the options listed under runs, symbolic inputs, directory trees and "
        "token streams, every external call also failing; ghost records of what a correct "
        "run must have done are compared at each open, write, print, exit and file end",
        "runs": rows,
        "abstract_steps": steps,
        "functions": [f.module + "." + f.qualname for f in prog_funcs],
        "event_counts": stats,
        "open_call_sites": sorted(sites),
        "undecided": und,
    }
    if pid == "F03":
        cov["decision_rows_compared"] = sum(len(t) for t in tables.values())
    cov.update(extra)
    return out, cov, und
