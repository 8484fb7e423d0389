"""A01: the query object.

parse(sql) and the methods of the object it returns are executed abstractly, in every
order of calls up to a length.  Parsing the tokens of a text has one fixed outcome (a
tree, a ParsingError, any other exception), validating a tree as well (a list of
messages of any length, a ParsingError, any other exception); what the object says must follow from them.
"""
import itertools

from . import facts as F
from .lasting import Lasting
from .glue import LEX, PKG, TOK, VAL
from .interp import Domain, Interp
from .loader import AnalysisError
from .vals import *  # noqa

OUTCOMES = ("tree", "rejected", "failed")
VALID = ("none", "some", "rejected", "failed")


class Query(Lasting, Domain):
    drop_dead = True

    def __init__(self, parse, val, name):
        self.parse, self.val, self.name = parse, val, name
        self.viol = {}
        self.stats = {"calls": 0, "ends": 0}
        self.contracts = {}

    def bad(self, rule):
        self.viol.setdefault((rule,), rule)

    def error(self, I, kind, st, node):
        if kind == "rejected":
            c = Cls(LEX + ":ParsingError")
            for args in ([], [fresh("text", "str")]):
                for e, s in I.call(c, args, {}, st, node):
                    I.raise_exc(e, s, node)
        else:
            for c in ("StopIteration", "AssertionError", "ValueError", "AttributeError"):
                I.raise_(Exc(c, (), False, I.loc(node)), st)
        return []

    def intercept(self, I, f, args, kw, st, node):
        if f.module == TOK and f.qualname == "to_tokens":
            v = args[0] if args else next(iter(kw.values()))
            r, st = st.new_obj("tokens", None, (v,))
            return [(r, st)]
        if f.module == LEX and f.qualname.endswith(".parse"):
            if f.qualname != "SQLStatementParser.parse":
                raise AnalysisError("parser %s called directly" % f.qualname)
            v = args[-1] if args else next(iter(kw.values()))
            self.contracts[f.qualname] = self.contracts.get(f.qualname, 0) + 1
            if not isinstance(v, Ref) or st.obj(v).kind != "tokens":
                raise AnalysisError("parse of %r" % (v,))
            text = st.obj(v).data
            if not text:
                self.bad("the tokens of a text are read twice")
                return []
            if text[0] != st.mon["sql"]:
                self.bad("something else than the text of the query is parsed")
                return []
            st = st.set_obj(v.oid, Obj("tokens", None, ()))
            if self.parse != "tree":
                return self.error(I, self.parse, st, node)
            t, st = st.new_obj("tree", None, ())
            return [(t, st)]
        return None

    def opaque_attr(self, I, ref, obj, name, st, node):
        if obj.kind == "tree" and name in ("transform", "validate"):
            return [(App("method", (ref, K(name)), "any"), st)]
        return None

    def sym_call(self, I, v, args, kw, st, node):
        if not (isinstance(v, App) and v.op == "method"):
            return None
        if args or kw:
            raise AnalysisError("argument of " + v.args[1].v)
        if v.args[1].v == "transform":
            return [(st.mon["text"], st)]
        if self.val in ("rejected", "failed"):
            return self.error(I, self.val, st, node)
        items = ()
        if self.val == "some":
            g = Seg(st.mon["more"], None)
            items = (st.mon["first"], g)
        r, st = st.new_obj("list", None, items)
        return [(r, st)]

    # --- what is asked ---------------------------------------------------------------

    def ask(self, I, q, what, st):
        """-> [(answer or Exc, state)]"""
        self.stats["calls"] += 1
        old, I.sink = I.sink, []
        res = []
        for m, s in I.getattr(q, what, st.push(q), None):
            if what in ("is_valid", "format"):
                res += [(v, s2) for v, s2 in I.call(m, [], {}, s, None)]
            else:
                res.append((m, s))
        res = [(v, s.pop()) for v, s in res]
        for x in I.sink:
            e = x.stack[-1]
            res.append((e, St(st.frame, st.stack, x.heap, x.cons, x.mon)))
        I.sink = old
        return res

    def errors(self, I, q, st):
        for v, s in self.ask(I, q, "errors", st):
            if isinstance(v, Exc):
                self.bad("the error list cannot be read")
                continue
            if not isinstance(v, Ref) or st.obj(v).kind not in ("list",):
                raise AnalysisError("errors is %r" % (v,))
            yield s.obj(v).data, s

    def check(self, I, q, seq, st):
        want = {"tree": {"none": True, "some": False, "rejected": False}.get(self.val), "rejected": False}.get(self.parse)
        states = [(st, None)]
        for what in seq:
            nxt = []
            for st, before in states:
                for v, s in self.ask(I, q, what, st):
                    if what == "format":
                        if isinstance(v, Exc):
                            if self.parse == "tree":
                                self.bad("formatting a query that parses fails")
                        elif self.parse != "tree":
                            self.bad("a query that does not parse is formatted")
                        elif v != s.mon["text"]:
                            self.bad("format() returns something else than the rendering")
                        nxt.append((s, before))
                        continue
                    if isinstance(v, Exc):
                        if want is not None:
                            self.bad(
                                "asking for the verdict fails on a query the parser rejects" if self.parse == "rejected"
                                else "asking for the verdict fails on a query that can be validated"
                            )
                        nxt.append((s, before))
                        continue
                    for b, s1 in I.truth(v, s):
                        self.verdict(I, q, want, b, s1, before, nxt)
            states = nxt
        self.stats["ends"] += len(states)

    def verdict(self, I, q, want, b, s, before, nxt):
        if want is None:
            for e, s2 in self.errors(I, q, s):
                if b or not e:
                    self.bad("a query whose parsing or validation failed gets a verdict when asked again")
                nxt.append((s2, tuple(e)))
            return
        if b != want:
            self.bad(
                "a query without errors is reported as invalid" if want
                else "a query the parser rejects is reported as valid" if self.parse == "rejected"
                else "a query with errors is reported as valid"
            )
        for e, s2 in self.errors(I, q, s):
            if self.parse == "tree" and self.val in ("none", "some"):
                exp = () if self.val == "none" else (s2.mon["first"], Seg(s2.mon["more"], None))
                if tuple(e) != exp:
                    self.bad("the error list is not what validation returned")
            elif len(e) != 1:
                self.bad("a query the parser rejects has %s errors" % ("no" if not e else "several"))
            if before is not None and tuple(e) != before:
                self.bad("asking again changes the error list")
            nxt.append((s2, tuple(e)))


SEQS = [s for n in (1, 2, 3) for s in itertools.product(("is_valid", "format"), repeat=n)]


def run_query(prog, parse, val, h=None, seqs=SEQS):
    d = Query(parse, val, "")
    if h is not None:
        h.append(d)
    try:
        I = Interp(prog, d)
    except AnalysisError as e:
        return d, None, str(e)
    err = None
    for seq in seqs:
        try:
            st = I.initial()
            sql = fresh("sql", "str")
            st = St(st.frame, (), dict(st.heap), {}, {
                "sql": sql, "text": fresh("text", "str"), "first": fresh("msg", "str"), "more": fresh("errs"),
            })
            f = prog.find(VAL, "parse")
            if f is None:
                raise AnalysisError("no function parse")
            I.sink = []
            for q, s in I.call(Fn(f.fid, Tup((Ref(I.modframes[f.module]),))), [sql], {}, st, None):
                d.check(I, q, seq, s)
            for x in I.sink:
                d.bad("making the query object fails")
        except AnalysisError as e:
            err = err or str(e)
    return d, I, err


def run(pid, tier):
    from .loader import Program

    prog = Program()
    out, und, rows = [], [], []
    seqs = SEQS
    if tier == "thorough":
        seqs = [s for n in (1, 2, 3, 4, 5, 6) for s in itertools.product(("is_valid", "format"), repeat=n)]
    for parse in OUTCOMES:
        for val in VALID if parse == "tree" else ("",):
            h = []
            d, I, err = run_query(prog, parse, val, h, seqs)
            name = "parsing: %s%s" % (parse, "; validation: " + val if val else "")
            rows.append({"run": name, "histories": len(seqs), "counts": d.stats, "steps": I.steps if I else 0, "undecided": err})
            if err:
                und.append(name + ": " + err)
            out += [m for k, m in d.viol.items() if k[0] != "A02"]
    cov = {
        "explanation": "the query object is executed abstractly through every history of is_valid() and format() calls up "
        "to the listed length, for every outcome of parsing and validation",
        "runs": rows,
        "functions": [f.module + "." + f.qualname for f in prog.funcs if f.module == VAL],
        "undecided": und,
    }
    return out, cov, und
