"""A02 and A03: what lasts beyond a call, and what a result may depend on."""
import ast
import os

from .pool import each
from . import gchecks, query, vchecks
from .gram import LEX, SQL, TOK
from .interp import cached
from .loader import Program

LIB = (SQL, LEX, TOK, "sqlvalidator.sql_formatter", "sqlvalidator.sql_validator", "sqlvalidator", "sqlvalidator.grammar")
MUTATE = {
    "append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort", "add", "update", "discard",
    "setdefault", "popitem", "difference_update", "intersection_update", "symmetric_difference_update",
    "appendleft", "popleft", "__setitem__", "__delitem__", "__iadd__", "__ior__",
}


def parents(tree):
    m = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            m[c] = n
    return m


# --- A02: a lint over every function of the library ------------------------------------------


def bound_names(tree):
    """Names bound at module level, and the classes."""
    names, classes = set(), {}
    for n in tree.body:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                names |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and isinstance(n.target, ast.Name):
            names.add(n.target.id)
        elif isinstance(n, ast.ClassDef):
            classes[n.name] = n
    return names, classes


def is_display(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp)) or (
        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "dict", "set", "iter", "deque")
    )


def lasting_lint(prog):
    """A function must not change a module variable, a class attribute named through the class,
    or a mutable default argument."""
    out, n = [], 0
    kept = cached(prog)
    for f in prog.funcs:
        if f.module not in LIB or not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        n += 1
        names, classes = bound_names(prog.modules[f.module])
        a = f.node.args
        pos = a.posonlyargs + a.args
        mutable = {p.arg for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None] if is_display(d)}
        inner = {}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                inner[x.id] = 1
        who = "%s.%s" % (f.module.split(".")[-1], f.qualname)
        if f.is_gen and f.fid in kept:
            out.append("the result of %s, which can be read only once, is kept in a cache" % who)

        def base(e):
            """What a written expression is part of."""
            while isinstance(e, (ast.Subscript, ast.Attribute)) and not (
                isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self"
            ):
                e = e.value
            return e

        def culprit(e, whole):
            b = base(e)
            if isinstance(b, ast.Name):
                if b.id in mutable and b.id not in inner:
                    return "the default value of its argument " + b.id
                if b.id in f.locals or b.id in inner:
                    return "" if b.id != "cls" or whole and b is e else "an attribute of its class"
                if b.id == "cls" and b is not e:
                    return "an attribute of its class"
                if b.id in classes and b is not e:
                    return "an attribute of the class " + b.id
                if b.id in names:
                    return "the module variable " + b.id
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type" and b is not e:
                return "an attribute of its class"
            return ""

        for x in ast.walk(f.node):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is not f.node:
                continue
            w = []
            if isinstance(x, ast.Global):
                st = {y.id for y in ast.walk(f.node) if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del))}
                for g in x.names:
                    if g in st:
                        out.append("%s changes the module variable %s" % (who, g))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATE:
                w.append((x.func.value, True))
            elif isinstance(x, (ast.Assign, ast.Delete)):
                w += [(t, False) for t in x.targets if isinstance(t, (ast.Subscript, ast.Attribute))]
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                if isinstance(x.target, (ast.Subscript, ast.Attribute)):
                    w.append((x.target, False))
                elif isinstance(x, ast.AugAssign) and x.target.id in mutable:
                    w.append((ast.Name(x.target.id, ast.Load()), True))
                    inner.pop(x.target.id, None)
            for e, whole in w:
                c = culprit(e, whole)
                if c:
                    out.append("%s changes %s" % (who, c))
    return out, n


# --- A03 -------------------------------------------------------------------------------------

ENV_MODULES = {
    "os", "time", "datetime", "random", "secrets", "uuid", "locale", "platform", "socket", "getpass",
    "tempfile", "pathlib", "io", "subprocess", "threading", "multiprocessing", "asyncio", "gc", "glob",
    "shutil", "importlib", "configparser", "calendar", "zoneinfo", "resource", "signal", "inspect", "ctypes",
}
ENV_SYS = {"argv", "flags", "stdin", "path", "platform", "getrefcount", "hash_info", "version", "version_info",
           "modules", "executable", "getfilesystemencoding", "_getframe", "implementation", "api_version"}
ENV_BUILTINS = {"hash", "id", "open", "input", "globals", "vars", "exec", "eval", "__import__"}


def env_lint(prog):
    """Names through which code of the library could see anything but its arguments."""
    out, n = [], 0
    for mod in LIB:
        tree = prog.modules.get(mod)
        if tree is None:
            continue
        up = parents(tree)
        mods, names = {}, {}
        for x in ast.walk(tree):
            if isinstance(x, ast.Import):
                for al in x.names:
                    mods[(al.asname or al.name).split(".")[0]] = al.name.split(".")[0]
            elif isinstance(x, ast.ImportFrom) and not x.level and x.module:
                for al in x.names:
                    names[al.asname or al.name] = (x.module.split(".")[0], al.name)
        local = {y.id for y in ast.walk(tree) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        local |= {y.arg for y in ast.walk(tree) if isinstance(y, ast.arg)}
        local |= {y.name for y in ast.walk(tree) if isinstance(y, (ast.FunctionDef, ast.ClassDef))}
        for x in ast.walk(tree):
            if not (isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)):
                continue
            n += 1
            what = None
            if x.id in mods and mods[x.id] in ENV_MODULES:
                what = mods[x.id]
            elif x.id in mods and mods[x.id] == "sys":
                p = up.get(x)
                if isinstance(p, ast.Attribute) and p.attr in ENV_SYS:
                    what = "sys." + p.attr
            elif x.id in names:
                m, nm = names[x.id]
                if m in ENV_MODULES or m == "sys" and nm in ENV_SYS:
                    what = "%s.%s" % (m, nm)
            elif x.id in ENV_BUILTINS and x.id not in local:
                what = x.id + "()"
                p, fn = up.get(x), x
                while fn is not None and not isinstance(fn, ast.FunctionDef):
                    fn = up.get(fn)
                if x.id == "hash" and fn is not None and fn.name == "__hash__":
                    what = None
                if x.id == "id" and isinstance(p, ast.Call) and isinstance(up.get(p), ast.Compare) and all(
                    isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) for o in up[p].ops
                ):
                    what = None
            if what:
                fn = x
                while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.ClassDef)):
                    fn = up.get(fn)
                out.append("%s: %s uses %s" % (mod.split(".")[-1], fn.name if fn is not None else "the module", what))
    return out, n


PURE = {"any", "all", "len", "set", "frozenset", "bool", "sum"}
SETOPS = {
    "update", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint",
    "difference_update", "intersection_update", "symmetric_difference_update", "__ior__", "__or__", "__contains__",
}


def any_order(node, up):
    """May the expression `node`, a walk over a set, go in any order without being noticed?"""

    def call_ok(c):
        if not isinstance(c, ast.Call):
            return False
        f = c.func
        if isinstance(f, ast.Name):
            return f.id in PURE or f.id in ("sorted", "min", "max") and not c.keywords
        return isinstance(f, ast.Attribute) and f.attr in SETOPS

    def used_ok(e):
        p = up.get(e)
        if isinstance(p, ast.Compare) and e in p.comparators:
            return all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops)
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ("startswith", "endswith"):
            return True
        return isinstance(p, ast.Call) and e in p.args and call_ok(p)

    if node is None or isinstance(node, (ast.BinOp, ast.AugAssign, ast.Compare)):
        return True
    p = up.get(node)
    if isinstance(p, ast.comprehension):
        c = up.get(p)
        return isinstance(c, ast.SetComp) or used_ok(c)
    if isinstance(p, ast.For) and p.iter is node:
        return search_only(p)
    if isinstance(node, ast.Call):
        return call_ok(node) or used_ok(node)
    return used_ok(node)


def search_only(loop):
    """Does the loop only look for an element, or add to a set?"""
    var = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}

    def free(e):
        return e is None or not any(isinstance(x, ast.Name) and x.id in var for x in ast.walk(e))

    def ok(s):
        if isinstance(s, (ast.Pass, ast.Continue, ast.Break)):
            return True
        if isinstance(s, (ast.Return,)):
            return free(s.value)
        if isinstance(s, ast.Raise):
            return free(s.exc)
        if isinstance(s, ast.If):
            return all(map(ok, s.body + s.orelse))
        if isinstance(s, ast.Assign):
            return free(s.value) and isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets)
        if isinstance(s, ast.Expr):
            c = s.value
            return isinstance(c, ast.Constant) or isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("add", "discard", "update")
        return False

    return all(map(ok, loop.body + loop.orelse))


def set_lint(prog, mods=(TOK, "sqlvalidator.sql_formatter", "sqlvalidator.sql_validator")):
    """Walks over expressions that are sets by their form, in code that is not executed abstractly."""
    out, n = [], 0
    for mod in mods:
        tree = prog.modules.get(mod)
        if tree is None:
            continue
        up = parents(tree)

        def is_set(e):
            if isinstance(e, (ast.Set, ast.SetComp)):
                return True
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
                return True
            return isinstance(e, ast.Name) and e.id in sets

        sets = set()
        for _ in range(3):
            for x in ast.walk(tree):
                if isinstance(x, ast.Assign) and is_set(x.value):
                    sets |= {t.id for t in x.targets if isinstance(t, ast.Name)}
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                    # a set handed to a function of the module
                    for f in ast.walk(tree):
                        if isinstance(f, ast.FunctionDef) and f.name == x.func.id:
                            for p, v in zip(f.args.posonlyargs + f.args.args, x.args):
                                if is_set(v):
                                    sets.add(p.arg)
        for x in ast.walk(tree):
            walks = []
            if isinstance(x, ast.For):
                walks.append(x.iter)
            elif isinstance(x, ast.comprehension):
                walks.append(x.iter)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in (
                "list", "tuple", "iter", "enumerate", "sorted", "max", "min", "map", "filter", "zip", "reversed"):
                for v in x.args:
                    if is_set(v):
                        n += 1
                        if not any_order(x, up):
                            out.append("%s: the order of a set decides a result" % mod.split(".")[-1])
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("join", "extend", "pop"):
                vs = x.args if x.func.attr != "pop" else [x.func.value]
                for v in vs:
                    if is_set(v):
                        out.append("%s: the order of a set decides a result" % mod.split(".")[-1])
            for e in walks:
                if is_set(e):
                    n += 1
                    if not any_order(e, up):
                        out.append("%s: the order of a set decides a result" % mod.split(".")[-1])
    return out, n


# --- the checks ------------------------------------------------------------------------------


def jobs(pid, tier, keep):
    J = [("g", j) for j in gchecks.g02_jobs(keep, tier) if tier == "thorough" or not ("plans" in j[1] or "texts" in j[1])]
    J += [("g", ("SelectStatementParser", {"keep": keep, "plan": ("from",), "sizes": (1,), "depth": 3}))]
    if pid == "A03":
        J = [x for x in J if x[1][0] != "glue"]
    seen = set()
    for p in ("V01", "V02", "V03", "V04"):
        for j in vchecks.jobs_for(p, tier):
            if repr(j) not in seen:
                seen.add(repr(j))
                J.append(("v", (j, pid == "A03")))
    J.sort(key=lambda x: x[0] != "g")
    return J


def job(x):
    kind, a = x
    if kind == "g":
        b, t, steps, err, stats, vi, co = gchecks.job(a)
        return "g " + gchecks.label(*a), t, steps, err, vi, stats
    j, orders = a
    k, t, steps, err, n, vi, st = vchecks.job2(j, orders)
    return "v " + vchecks.label(j), t, steps, err, vi, st


def run(pid, tier):
    prog = Program()
    keep = gchecks.tested_classes(prog)
    out, und, rows, stats, steps = [], [], [], {}, 0
    for x, res, reason in each(job, jobs(pid, tier, keep)):
        if res is None:
            und.append("%s: %s" % (repr(x)[:200], reason))
            continue
        name, t, s, err, vi, st = res
        rows.append({"run": name, "seconds": round(t, 1), "steps": s, "undecided": err})
        steps += s
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        if err:
            und.append("%s: %s" % (name, err))
        out += [m for k, m in vi.items() if k[0] == pid]
    lints = {}
    if pid == "A02":
        for p in query.OUTCOMES:
            for v in query.VALID if p == "tree" else ("",):
                d, I, err = query.run_query(prog, p, v, [])
                out += [m for k, m in d.viol.items() if k[0] == pid]
                if err:
                    und.append("query object: " + err)
        l, lints["functions searched for writes to module variables, classes and default arguments"] = lasting_lint(prog)
        out += l
    else:
        l, lints["names searched for the environment"] = env_lint(prog)
        out += l
        l, lints["walks over sets in the tokeniser and the entry points"] = set_lint(prog)
        out += l
    cov = {
        "explanation": {
            "A02": "the abstract runs of parsing, rendering and validating are watched for writes to objects that "
            "existed before the call (module variables, class attributes, default arguments, nodes of the tree, what a "
            "cache keeps), and every function of the library is searched for such writes by name",
            "A03": "validation runs twice, the walks over sets in opposite orders, and must return the same messages; "
            "parsing and rendering must not walk a set where its order can be noticed; no code of the library uses a "
            "name that gives access to the environment",
        }[pid],
        "runs": sorted(rows, key=lambda r: r["run"]),
        "abstract_steps": steps,
        "counts": stats,
        "searched": lints,
        "functions": [f.module + "." + f.qualname for f in prog.funcs if f.module in LIB],
        "undecided": und,
    }
    return out, cov, und
