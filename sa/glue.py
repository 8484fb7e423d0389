"""The library's entry points: format_sql(sql) and parse(sql).format() are the rendering
of the parse of the tokens of sql; the verdict of a query object is what its error list
says (A01)."""
from . import facts as F
from .lasting import Lasting
from .interp import Domain, Interp
from .loader import AnalysisError
from .vals import *  # noqa

LEX = "sqlvalidator.grammar.lexer"
TOK = "sqlvalidator.grammar.tokeniser"
FMT = "sqlvalidator.sql_formatter"
VAL = "sqlvalidator.sql_validator"
PKG = "sqlvalidator"


class Glue(Lasting, Domain):
    drop_dead = True

    def __init__(self):
        self.viol = {}
        self.stats = {}
        self.contracts = {}
        self.sites = set()

    def intercept(self, I, f, args, kw, st, node):
        if f.module == TOK and f.qualname == "to_tokens":
            v = args[0] if args else next(iter(kw.values()))
            self.contracts["to_tokens"] = self.contracts.get("to_tokens", 0) + 1
            return [(App("tokens", (v,), "any"), st)]
        if f.module == LEX and f.qualname.endswith(".parse"):
            if f.qualname != "SQLStatementParser.parse":
                raise AnalysisError("parser %s called directly" % f.qualname)
            v = args[-1] if args else next(iter(kw.values()))
            self.contracts[f.qualname] = self.contracts.get(f.qualname, 0) + 1
            return [(App("tree", (v,), "any"), st)]
        return None

    def sym_attr(self, I, v, name, st, node):
        if isinstance(v, App) and v.op == "tree" and name in ("transform", "validate", "__str__"):
            return [(App("method", (v, K(name)), "any"), st)]
        return None

    def sym_call(self, I, v, args, kw, st, node):
        if isinstance(v, App) and v.op == "method":
            for a in list(args) + list(kw.values()):
                if not isinstance(a, K):
                    raise AnalysisError("argument of " + v.args[1].v)
            extra = tuple(args) + tuple(x for k, x in sorted(kw.items()) if x != FALSE)
            return [(App("render" if v.args[1].v != "validate" else "errors", (v.args[0],) + extra, "str"), st)]
        return None

    def on_truth(self, *a):
        return None


def run_glue(prog, h=None):
    d = Glue()
    if h is not None:
        h.append(d)
    I = Interp(prog, d)
    st0 = I.initial()
    err = None
    I.sink = []
    want = None
    for name, go in (("format_sql", 0), ("parse().format", 1)):
        try:
            sql = fresh("sql", "str")
            want = App("render", (App("tree", (App("tokens", (sql,), "any"),), "any"),), "str")
            if go == 0:
                f = prog.find(FMT, "format_sql")
                if f is None:
                    raise AnalysisError("no function format_sql")
                res = I.call(Fn(f.fid, Tup((Ref(I.modframes[f.module]),))), [sql], {}, st0, None)
            else:
                f = prog.find(VAL, "parse")
                if f is None:
                    raise AnalysisError("no function parse")
                res = []
                for q, s in I.call(Fn(f.fid, Tup((Ref(I.modframes[f.module]),))), [sql], {}, st0, None):
                    for m, s2 in I.getattr(q, "format", s, None):
                        res += I.call(m, [], {}, s2, None)
            d.stats["results"] = d.stats.get("results", 0) + len(res)
            for x in I.sink:
                w = "%s of a text that parses fails with %s" % (name, x.stack[-1].cls)
                d.viol[("A04", w)] = w
            I.sink = []
            if not res:
                d.viol[("none", name)] = "%s of a text that parses returns nothing" % name
            for v, s in res:
                if v != want:
                    d.viol[("glue", name)] = "%s returns something else than the rendering of the parsed tokens of its text" % name
        except AnalysisError as e:
            err = err or str(e)
    return d, I, err
