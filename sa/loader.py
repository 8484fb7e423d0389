"""Program model: every module of /repo/sqlvalidator, parsed, never imported."""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "sqlvalidator"


class AnalysisError(Exception):
    """The analysis cannot give an answer (never a verdict)."""


class Func:
    __slots__ = (
        "fid", "node", "module", "qualname", "name", "cls", "is_gen", "locals",
        "globals_", "nonlocals", "parent", "params", "body",
    )

    def __repr__(self):
        return "<%s.%s>" % (self.module, self.qualname)


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}  # name -> ast.Module
        self.files = {}
        self.src = {}
        self.funcs = []
        self.by_node = {}
        base = os.path.join(self.root, PKG)
        for d, _, files in sorted(os.walk(base)):
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].split(os.sep)
                    if rel[-1] == "__init__":
                        rel = rel[:-1]
                    name = ".".join(rel)
                    with open(p, encoding="utf-8") as fh:
                        text = fh.read()
                    self.src[name] = text
                    self.files[name] = os.path.relpath(p, self.root)
                    self.modules[name] = ast.parse(text, p)
        if not self.modules:
            raise AnalysisError("no source found under " + base)
        for name, mod in self.modules.items():
            self._index(mod, name, "", None, None)

    def _index(self, node, module, prefix, cls, parent):
        for child in ast.iter_child_nodes(node):
            if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._add(child, module, prefix + child.name, child.name, cls, parent)
                for d in child.decorator_list + child.args.defaults:
                    self._index(d, module, prefix, None, parent)
                for c in child.body:
                    self._index_in(c, module, prefix + child.name + ".", f)
            elif isinstance(child, ast.ClassDef):
                self._index(
                    child, module, prefix + child.name + ".", prefix + child.name, parent
                )
            elif isinstance(child, ast.Lambda):
                f = self._add(child, module, prefix + "<lambda>", "<lambda>", None, parent)
                self._index(child, module, prefix + "<lambda>.", None, f)
            else:
                self._index(child, module, prefix, cls if isinstance(
                    child, (ast.If, ast.Try, ast.With)) else None, parent)

    def _index_in(self, node, module, prefix, parent):
        class W:
            pass

        wrapper = ast.Module(body=[node], type_ignores=[])
        self._index(wrapper, module, prefix, None, parent)

    def _add(self, node, module, qualname, name, cls, parent):
        f = Func()
        f.fid = len(self.funcs)
        f.node = node
        f.module = module
        f.qualname = qualname
        f.name = name
        f.cls = cls
        f.parent = parent
        f.globals_ = set()
        f.nonlocals = set()
        f.locals = set()
        a = node.args
        f.params = [x.arg for x in a.posonlyargs + a.args]
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            f.locals.add(x.arg)
        if a.vararg:
            f.locals.add(a.vararg.arg)
        if a.kwarg:
            f.locals.add(a.kwarg.arg)
        f.body = node.body if isinstance(node.body, list) else None
        f.is_gen = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                f.locals.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                f.is_gen = True
            if isinstance(n, ast.Global):
                f.globals_ |= set(n.names)
            if isinstance(n, ast.Nonlocal):
                f.nonlocals |= set(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                f.locals.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                f.locals.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    f.locals.add((al.asname or al.name).split(".")[0])
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                f.locals.add(n.name)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # comprehension targets live in their own frame
                targets = set()
                for g in n.generators:
                    for t in ast.walk(g.target):
                        if isinstance(t, ast.Name):
                            targets.add(t.id)
                sub = [c for c in ast.walk(n) if isinstance(c, ast.NamedExpr)]
                for c in sub:
                    f.locals.add(c.target.id)
                for c in ast.walk(n):
                    if isinstance(c, (ast.Yield, ast.YieldFrom)):
                        f.is_gen = True
                continue
            stack.extend(ast.iter_child_nodes(n))
        f.locals -= f.globals_
        f.locals -= f.nonlocals
        self.funcs.append(f)
        self.by_node[node] = f
        return f

    def find(self, module, qualname):
        for f in self.funcs:
            if f.module == module and f.qualname == qualname:
                return f
        return None

    def where(self, f, node):
        return "%s:%s (%s)" % (self.files[f.module] if f else "?", getattr(node, "lineno", "?"), f.qualname if f else "?")
