"""G02: what the parser consumes is what the syntax tree renders.

Every parser function is analysed on an unknown token stream.  A ledger records the
tokens it consumes, in order.  Calls of other parser functions and of the token
collectors are replaced by their contract: a node (or a run of tokens) that stands for
an unknown stretch of the stream.  The nodes a function builds are rendered by the
abstract execution of their own transform()/__str__, and the rendering must consist of
the ledger's items, in order (case of keywords, white space and number spelling aside).
"""
import ast
import re

from . import facts as F
from .interp import Domain, Interp
from .casing import CaseRule
from .lasting import Lasting
from .loader import AnalysisError
from .vals import *  # noqa

LEX = "sqlvalidator.grammar.lexer"
SQL = "sqlvalidator.grammar.sql"
TOK = "sqlvalidator.grammar.tokeniser"

# parser function -> (class of the node or None, shape, keyword before, keyword after)
CONTRACT = {
    "SQLStatementParser": (("SelectStatement", "WithStatement"), "node", None, None),
    "SelectStatementParser": ("SelectStatement", "node", "select", None),
    "FromStatementParser": (None, "node", None, None),
    "UnnestParser": ("Unnest", "pair", "unnest", None),
    "WithStatementParser": ("WithStatement", "node", "with", None),
    "WhereClauseParser": ("WhereClause", "pair", None, None),
    "GroupByParser": ("GroupByClause", "node", None, None),
    "HavingClauseParser": ("HavingClause", "pair", None, None),
    "OrderByParser": ("OrderByClause", "node", None, None),
    "OrderByItemParser": ("OrderByItem", "node", None, None),
    "LimitClauseParser": ("LimitClause", "node", None, None),
    "OffsetClauseParser": ("OffsetClause", "node", None, None),
    "ExpressionListParser": (None, "list", None, None),
    "ExpressionParser": (None, "pair", None, None),
    "StringParser": ("String", "node", None, None),
    "CaseParser": ("Case", "node", "case", "end"),
}
CLAUSES = {
    "WhereClause", "GroupByClause", "HavingClause", "OrderByClause", "OnClause",
    "UsingClause", "WindowFrameClause", "Parenthesis", "Array",
}
# rendered with their own leading white space
SPACED = CLAUSES - {"Parenthesis", "Array"}
QUOTES = ("'", '"', "`")
COLLECT = ("get_tokens_until_closing_parenthesis", "get_tokens_until_one_of", "get_tokens_until_not_in")


def short(cls):
    return cls.split(":")[-1] if cls else None


def rend(ref):
    return App("rend", (ref,), "tok")


class Gram(CaseRule, Lasting, Domain):
    drop_dead = True

    def __init__(self, root, opts=None):
        self.root = root  # qualified name of the function under analysis
        self.o = opts or {}
        self.entered = False
        self.folding = False
        self.viol = {}
        self.sites = set()
        self.contracts = {}
        self.stats = {"exits": 0, "rendered": 0, "folded": 0, "bounded": 0}
        self.sizes = self.o.get("sizes", (0, 1, 2, 3))
        self.maxlist = self.o.get("maxlist", 3)
        if self.o.get("keep") is not None and root == "ExpressionParser.parse":
            self.o = dict(self.o, keep=tuple(sorted(set(self.o["keep"]) | set(self.ENDING))))

    def keep_was(self, I, cls):
        """Remember the class of a part whose class no longer matters?"""
        return False

    def on_walk_set(self, I, ref, st, node):
        if I.loading:
            return
        from .achecks import any_order, parents

        self.stats["set walks"] = self.stats.get("set walks", 0) + 1
        if I.fn is None or I.fn.module not in I.p.modules or not hasattr(self, "o") or self.setorder:
            return
        up = I.p.__dict__.setdefault("_up", {})
        if I.fn.module not in up:
            up[I.fn.module] = parents(I.p.modules[I.fn.module])
        if not any_order(node, up[I.fn.module]):
            w = "the order of a set can be noticed while %s (in %s)" % (self.phase, I.fn.qualname)
            self.viol.setdefault(("A03", w), w)

    # --- helpers ------------------------------------------------------------------

    def bad(self, rule, I, where, detail):
        self.viol.setdefault((rule, where), "%s: %s: %s" % (where, rule, detail))

    def led(self, st):
        return st.mon["led"].items

    def set_led(self, st, items):
        return st.set_mon("led", Tup(tuple(items)))

    def node(self, st, cls=None, org="expr", dep=0, neg=()):
        return st.new_obj(
            "node", cls, {"neg": Tup(neg), "org": K(org), "dep": K(dep)}
        )

    def tok(self, st, *consts):
        t = fresh("t", "tok")
        if consts:
            st = F.refine_in(st, F.low(t), [K(c) for c in consts], True)
        return t, st

    def is_node(self, st, v):
        return isinstance(v, Ref) and st.obj(v).kind == "node"

    def sqlcls(self, name):
        return SQL + ":" + name

    def has_transform(self, I, cls):
        a = I.class_attr(cls, "transform")
        return a is not None

    # --- streams ------------------------------------------------------------------

    def opaque_next(self, I, ref, obj, st, node):
        if obj.kind != "stream":
            return None
        if self.o.get("text") is not None:
            return self.text_next(st)
        res = []
        if not st.mon["end"].v:
            i = len(st.mon["script"].items)
            t = fresh("t", "tok")
            s = self.set_led(st, self.led(st) + (t,))
            if i:
                c, rest = st.mon["script"].items[0], st.mon["script"].items[1:]
                s = s.set_mon("script", Tup(rest))
                if c.v.startswith("!"):
                    s = F.refine_in(s, F.low(t), [K(x) for x in c.v[1:].split()], False)
                else:
                    s = F.refine_in(s, F.low(t), [K(x) for x in c.v.split()], True)
                return [(t, s)]
            if st.mon["lame"].v:
                self.stats["unmatched"] = self.stats.get("unmatched", 0) + 1
            else:
                res.append((t, s))
        res.append((None, st.set_mon("end", TRUE)))
        return res

    # a given text: words, "?" for another token, "*" for a stretch of others

    def text_word(self, st, w):
        if w == "?":
            t, st = self.tok(st)
            return t, F.refine_in(st, F.low(t), [K(x) for x in self.words], False)
        return self.tok(st, w)

    def text_next(self, st):
        left = st.mon["text"].items
        res = []
        if left and left[0].v == "~":
            # the stretch may be over
            res += self.text_next(st.set_mon("text", Tup(left[1:])))
            left = (K("*"),) + left[1:]
        if not left:
            return res + [(None, st.set_mon("end", TRUE))]
        w, rest = left[0].v, left[1:]
        if w == "*":
            t, s = self.text_word(st, "?")
            rest = (K("~"),) + rest
        else:
            t, s = self.text_word(st, w)
        s = self.set_led(s, self.led(s) + (t,))
        return res + [(t, s.set_mon("text", Tup(rest)))]

    def text_collect(self, I, S, head, stops, closing, st):
        """A collector on the given text -> [(items, token handed back, state)]."""
        obj = st.obj(S)
        main = obj.kind == "stream"
        todo = st.mon["text"].items if main else self.remaining(I, S, st)
        if todo is None:
            raise AnalysisError("collector on %r" % (obj,))
        items, i = list(head), 0
        got = NONE
        while i < len(todo):
            x = todo[i]
            i += 1
            if main:
                if x.v in ("*", "~"):
                    T = Seg(fresh("T"), None)
                    if x.v == "*":
                        st = F.set_iv(st, App("len", (T.sym,), "int"), 1, None)
                    st = self.set_led(st, self.led(st) + (T,))
                    items.append(T)
                    continue
                x, st = self.text_word(st, x.v)
                st = self.set_led(st, self.led(st) + (x,))
            elif isinstance(x, Seg):
                items.append(x)
                continue
            f = self.fact(st, x) or set()
            if f and f <= set(stops):
                got = x
                break
            if not closing and f & set(self.words) and self.is_clause(f):
                self.bad("a part is read past the keyword that ends it", I, self.root, "'%s'" % sorted(f)[0])
                return []
            items.append(x)
        if main:
            st = st.set_mon("text", Tup(todo[i:]))
            if got == NONE:
                st = st.set_mon("end", TRUE)
        else:
            st = st.set_obj(S.oid, Obj("iter", None, tuple(todo[i:])))
        return [(Tup(tuple(items)), got, st)]

    def is_clause(self, f):
        return not f & {"by", "nulls", "where", "(", ","}

    def splits(self, I, seg, st):
        return seg.sym.tag in ("T", "kT")

    def elem_of(self, I, seg, st):
        if seg.sym.tag in ("T", "kT"):
            return fresh("t", "tok"), st
        return Domain.elem_of(self, I, seg, st)

    def remaining(self, I, it, st):
        """Items left in an iterator over a token list."""
        o = st.obj(it)
        if o.kind == "iter":
            if o.cls == "live":
                lst, pos = o.data
                return st.obj(lst).data[pos.v:]
            return o.data
        if o.kind == "list":
            return o.data
        return None

    def exhaust(self, it, st):
        return st.set_obj(it.oid, Obj("iter", None, ()))

    @staticmethod
    def find_run(hay, run):
        n = len(run)
        for i in range(len(hay) - n + 1):
            if hay[i : i + n] == run:
                return i
        return None

    # --- contracts ------------------------------------------------------------------

    def intercept(self, I, f, args, kw, st, node):
        if f.module == SQL and f.qualname == "transform":
            a = args[0] if args else next(iter(kw.values()))
            if self.is_node(st, a):
                return self.render_node(I, a, st)
            return None
        if f.module == TOK and f.qualname in COLLECT:
            if self.root == f.qualname:
                return None
            return self.collector(I, f, args, kw, st, node)
        if f.module == LEX and f.qualname.endswith(".parse"):
            name = f.qualname[: -len(".parse")]
            if name not in CONTRACT:
                return None
            if f.qualname == self.root and not self.entered:
                self.entered = True
                return None
            return self.parser(I, f, name, args, kw, st, node)
        return None

    def render_node(self, I, a, st):
        o = st.obj(a)
        return [(rend(a), st)]

    def bound_args(self, I, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(names, args))
        d.update(kw)
        if names and names[0] in ("cls", "self"):
            d.pop(names[0], None)
        return d

    def collector(self, I, f, args, kw, st, node):
        d = self.bound_args(I, f, args, kw)
        self.contracts[f.qualname] = self.contracts.get(f.qualname, 0) + 1
        S = d.get("tokens")
        first = d.get("first_token")
        if first == NONE:
            first = None
        if not isinstance(S, Ref):
            raise AnalysisError("collector on %r" % (S,))
        if first is not None and not isinstance(first, (Sym, App)):
            raise AnalysisError("collector with first token %r" % (first,))
        main = st.obj(S).kind == "stream"
        head = () if first is None else (first,)
        if f.qualname == "get_tokens_until_closing_parenthesis":
            stops, kind = (")",), "stop"
        elif f.qualname == "get_tokens_until_one_of":
            stops, kind = self.consts(I, d.get("stop_words"), st), "stop"
        else:
            stops, kind = self.consts(I, d.get("kept_words"), st), "keep"
        self.on_collect(I, f, d, stops, st, node)
        if first is not None and kind == "stop":
            # the given first token is not looked at by the collectors
            pass
        prev = None
        if first is None:
            l0 = self.led(st)
            if main:
                prev = l0[-1] if l0 else None
            else:
                rem0 = self.remaining(I, S, st) or ()
                if rem0 and rem0[0] in l0:
                    i0 = l0.index(rem0[0])
                    prev = l0[i0 - 1] if i0 else None
                elif not rem0:
                    # the end of a bracket or of the text
                    for x, y in zip(l0, l0[1:] + (None,)):
                        if self.fact(st, x) == {"by"} and (y is None or self.fact(st, y) == {")"}):
                            prev = x
        nothing = prev is not None and self.fact(st, prev) == {"by"}  # BY without operand: not SQL
        # brackets are taken to be balanced: a closing one is met
        balanced = kind == "stop" and bool({")", "]"} & set(stops))
        out = []
        T = Seg(fresh("kT" if kind == "keep" else "T"), None)
        if self.o.get("text") is not None:
            out = self.text_collect(I, S, head, stops, f.qualname == "get_tokens_until_closing_parenthesis", st)
        elif main and self.o.get("plan") is not None and kind == "stop" and not balanced:
            s = F.set_iv(st, App("len", (T.sym,), "int"), 1, None)
            s = self.set_led(s, self.led(s) + (T,))
            items = Tup(head + (T,))
            for t, s in self.planned(I, s, stops, f.qualname):
                out.append((items, t, s))
        elif main:
            if st.mon["end"].v:
                out.append((Tup(head), NONE, st))
            else:
                for some in (True,) if nothing else (True, False):
                    s = st
                    led = self.led(st)
                    if some:
                        s = F.set_iv(s, App("len", (T.sym,), "int"), 1, None)
                        led = led + (T,)
                    items = head + ((T,) if some else ())
                    # the stream ends
                    if not balanced:
                        out.append((Tup(items), NONE, self.set_led(s, led).set_mon("end", TRUE)))
                    # or a stop word is met
                    if (kind == "keep" or stops) and (balanced or not st.mon["lame"].v):
                        t = fresh("t", "tok")
                        s2 = self.set_led(s, led + (t,))
                        s2 = F.refine_in(s2, F.low(t), [K(x) for x in stops], kind == "stop")
                        out.append((Tup(items), t, s2))
        else:
            rem = self.remaining(I, S, st)
            if rem is None:
                raise AnalysisError("collector on %r" % (st.obj(S),))
            st = self.exhaust(S, st)
            if not rem:
                if not nothing:
                    out.append((Tup(head), NONE, st))
            elif not isinstance(rem[-1], Seg) or any(isinstance(x, Seg) for x in rem[:-1]):
                raise AnalysisError("collector on a list of known tokens")
            else:
                X = rem[-1]
                for some in (True,) if nothing and len(rem) == 1 else (True, False):
                    if not balanced:
                        if some:
                            out.append((Tup(head + rem), NONE, st))
                        elif len(rem) == 1:
                            s0 = I.subst_seg(st, X.sym, ())
                            if s0 is not None and not (I.seg_len(st, X)[0] or 0):
                                out.append((Tup(head), NONE, s0))
                    if kind == "keep" or stops:
                        t = fresh("t", "tok")
                        R = Seg(fresh("T"), None)
                        s2 = st
                        pre = ()
                        if some:
                            s2 = F.set_iv(s2, App("len", (T.sym,), "int"), 1, None)
                            pre = (T,)
                        s2 = I.subst_seg(s2, X.sym, pre + (t, R))
                        s2 = F.refine_in(s2, F.low(t), [K(x) for x in stops], kind == "stop")
                        s2 = s2.set_obj(S.oid, Obj("iter", None, (R,)))
                        out.append((Tup(head + rem[:-1] + pre), t, s2))
        res = []
        for items, t, s in out:
            ref, s = s.new_obj("list", None, items.items)
            if f.qualname == "get_tokens_until_closing_parenthesis":
                res.append((ref, s))
            else:
                res.append((Tup((ref, t)), s))
        return res

    def planned(self, I, st, stops, who):
        """The keyword the statement has next -> [(token, state)]."""
        plan = st.mon["plan"].items
        if st.mon["end"].v or not plan:
            return [(NONE, st.set_mon("end", TRUE))]
        w = plan[0].v
        if stops is not None and w not in stops:
            self.bad("a clause is read past the keyword that ends it", I, self.root, "'%s'" % w)
            return []
        t, s = self.tok(st, w)
        s = self.set_led(s, self.led(s) + (t,))
        return [(t, s.set_mon("plan", Tup(plan[1:])))]

    def consts(self, I, v, st):
        if isinstance(v, K) and isinstance(v.v, (tuple, frozenset)):
            return tuple(v.v)
        items = None
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(v, Ref) and st.obj(v).kind in ("list", "set"):
            items = st.obj(v).data
        if items is None or not all(isinstance(x, K) for x in items):
            raise AnalysisError("stop words are not known: %r" % (v,))
        return tuple(x.v for x in items)

    # what may not be left standing after an expression: the tokens that carry it on
    OPS = (".", "[", "+", "-", "*", "/", "&", "|", "^", "||", "<<", ">>", "#")
    CARRY = {"chained": (".", "["), "right": OPS, "main": OPS + ("and", "or")}

    ENDING = ("Alias", "ExceptClause", "ReplaceClause")

    @staticmethod
    def mode(name, d):
        if name == "BetweenParser" or d.get("is_right_hand") == TRUE:
            return "right"
        if name == "ExpressionParser" and d.get("is_chained_columns") == TRUE:
            return "chained"
        return "main" if name == "ExpressionParser" else None

    def parser(self, I, f, name, args, kw, st, node):
        cls, shape, before, after = CONTRACT[name]
        self.contracts[f.qualname] = self.contracts.get(f.qualname, 0) + 1
        d = self.bound_args(I, f, args, kw)
        S = None
        toks = []
        for k, v in d.items():
            if isinstance(v, Ref) and st.obj(v).kind in ("stream", "iter"):
                if S is not None:
                    raise AnalysisError("two streams")
                S = v
            elif isinstance(v, (Sym, App)) and v.sort == "tok":
                toks.append(v)
            elif isinstance(v, (Sym, App)) and v.sort not in ("bool",):
                raise AnalysisError("argument %s of %s" % (k, name))
        if S is None:
            raise AnalysisError("no token stream given to " + name)
        main = st.obj(S).kind == "stream"
        led = self.led(st)
        org = "from" if name == "FromStatementParser" else "expr"
        res = []
        if main:
            pos = len(led)
            for t in toks:
                i = self.find_run(led, (t,))
                if i is None:
                    self.bad("a token is used that was not just read", I, self.root, "token given to %s" % name)
                    raise AnalysisError("token argument out of place")
                pos = min(pos, i)
            grab = tuple(x for x in led[pos:] if x in toks)
            rest = tuple(x for x in led[pos:] if x not in toks)
            if before and pos and self.fact(st, led[pos - 1]) == {before}:
                pos -= 1
            if not toks and st.mon["end"].v:
                return []  # nothing left: StopIteration
            base = led[:pos]
            variants = [("list", n) for n in self.sizes] if shape == "list" else [("node", c) for c in (cls if isinstance(cls, tuple) else (cls,))]
            for k, c in variants:
                r, s, new = self.make(I, k, c, st, org)
                s = self.set_led(s, base + new + rest)
                if shape == "pair" and self.o.get("plan") is not None:
                    for t, s2 in self.planned(I, s, None, name):
                        res.append((Tup((r, t)), s2))
                elif shape == "pair":
                    s1 = s.set_mon("end", TRUE)
                    res.append((Tup((r, NONE)), s1))
                    if not st.mon["end"].v and not st.mon["lame"].v:
                        t = fresh("t", "tok")
                        s2 = self.set_led(s, base + new + rest + (t,))
                        m = self.mode(name, d)
                        if m is not None:
                            # an operator after an alias or an EXCEPT/REPLACE list is
                            # no part of any query: the rest is checked in judge()
                            s2 = F.refine_in(s2, F.low(t), [K(x) for x in self.CARRY[m]], False)
                        if s2 is not None:
                            res.append((Tup((r, t)), s2))
                elif name == "StringParser":
                    if st.mon["end"].v:
                        continue
                    res.append((r, s))
                else:
                    res.append((r, s.set_mon("end", TRUE)))
            return res
        rem = self.remaining(I, S, st)
        if rem is None:
            raise AnalysisError("stream of %s" % name)
        if any(x == NONE for x in rem):
            return []
        st = self.exhaust(S, st.push(Tup(rem)))
        # an unknown stretch may be empty
        states = []
        segs = [x for x in rem if isinstance(x, Seg)]
        if segs and len(segs) == len(rem):
            for b, s in I.seq_truth(tuple(rem), st):
                if b:
                    states.append((rem, s))
                else:
                    for x in segs:
                        s = I.subst_seg(s, x.sym, ())
                    states.append(((), s))
        else:
            states.append((rem, st))
        for rem, s in states:
            rem = s.stack[-1].items if rem else ()
            s = s.pop()
            led = self.led(s)
            if not rem and not toks:
                if any(self.fact(s, x) == {"by"} for x in led[-2:] if not isinstance(x, (Ref, Seg))):
                    continue  # nothing after BY: not SQL
                if shape == "list":
                    ref, s = s.new_obj("list", None, ())
                    res.append((ref, s))
                continue
            run = tuple(toks) + tuple(rem)
            i = self.find_run(led, run)
            if i is None and shape != "list" and len(toks) + len(rem) > 1:
                # out of order or split
                i = None
            if i is None:
                self.bad(
                    "tokens handed on are not a stretch of what was read",
                    I, self.root, "argument of %s" % name,
                )
                continue
            j = i + len(run)
            if before and i and self.fact(s, led[i - 1]) == {before}:
                i -= 1
            if after and j < len(led) and self.fact(s, led[j]) == {after}:
                j += 1
            variants = [("list", n) for n in self.sizes if n] if shape == "list" else [("node", c) for c in (cls if isinstance(cls, tuple) else (cls,))]
            for k, c in variants:
                r, s2, new = self.make(I, k, c, s, org)
                s2 = self.set_led(s2, led[:i] + new + led[j:])
                if shape == "pair":
                    res.append((Tup((r, NONE)), s2))
                else:
                    res.append((r, s2))
        return res

    def make(self, I, kind, c, st, org):
        """-> value, state, ledger items"""
        if kind == "node":
            keep = self.o.get("keep")
            neg = ()
            was = c
            if keep is not None and c and c not in keep and c not in SPACED:
                c, neg = None, tuple(Cls(self.sqlcls(k)) for k in sorted(keep))
            r, s = self.node(st, self.sqlcls(c) if c else None, org, 0, neg)
            if was and not c:
                s = self.set_hasT(I, r, self.sqlcls(was), s)
                o = s.obj(r)
                s = s.set_obj(r.oid, Obj("node", o.cls, {**o.data, "was": Cls(self.sqlcls(was))}))
            return r, s, (r,)
        nodes, items = [], []
        s = st
        for i in range(c):
            if i:
                t, s = self.tok(s, ",")
                items.append(t)
            r, s = self.node(s)
            nodes.append(r)
            items.append(r)
        ref, s = s.new_obj("list", None, tuple(nodes))
        return ref, s, tuple(items)

    def set_hasT(self, I, ref, cls, st):
        return st.set_cons(
            ("v", App("hasT", (ref,), "bool")),
            (frozenset([kbool(self.has_transform(I, cls))]), frozenset()),
        )

    def fact(self, st, x):
        """Lower-cased constants a ledger token is known to be, or None."""
        if not isinstance(x, (Sym, App)):
            return None
        pos, _ = F.vfact(st, F.low(x))
        p2, _ = F.vfact(st, x)
        if p2 is not None:
            p2 = frozenset(K(c.v.lower()) for c in p2 if isinstance(c.v, str))
            pos = p2 if pos is None else pos & p2
        if pos is None:
            return None
        return {c.v for c in pos}

    # --- nodes ------------------------------------------------------------------------

    def schema(self, I, ref, st, node):
        """Give a node its fields -> states."""
        o = st.obj(ref)
        c = short(o.cls)
        org, dep = o.data["org"].v, o.data["dep"].v
        todo = []

        def sub(s, cls=None, o2=None):
            return self.node(s, cls, o2 or org, dep + 1)

        if c == "Alias":
            for with_as in (True, False):
                for al in ("tok", "String") + (("node",) if with_as and org != "from" else ()):
                    e, s = sub(st)
                    src = [e]
                    if with_as:
                        t, s = self.tok(s, "as")
                        src.append(t)
                    if al == "tok":
                        a, s = self.tok(s)
                    elif al == "String":
                        a, s = sub(s, self.sqlcls("String"))
                    else:
                        a, s = sub(s)
                    src.append(a)
                    todo.append(([e, a, kbool(with_as)], {}, {}, src, s))
        elif c == "Parenthesis":
            for n in (1,) if org == "from" else self.o.get("parens", (0, 1, 2)):
                s = st
                t, s = self.tok(s, "(")
                src, a = [t], []
                for i in range(n):
                    if i:
                        t, s = self.tok(s, ",")
                        src.append(t)
                    e, s = sub(s)
                    a.append(e)
                    src.append(e)
                t, s = self.tok(s, ")")
                todo.append((a, {}, {}, src + [t], s))
        elif c == "GroupByClause":
            for roll in (True, False):
                for n in (1, 2, 3):
                    s = st
                    src, a = [], []
                    if roll:
                        t, s = self.tok(s, "rollup")
                        src.append(t)
                    for i in range(n):
                        if i:
                            t, s = self.tok(s, ",")
                            src.append(t)
                        e, s = sub(s)
                        a.append(e)
                        src.append(e)
                    todo.append((a, {"rollup": kbool(roll)}, {}, src, s))
        elif c == "OrderByClause":
            for n in (1, 2, 3):
                s = st
                src, a = [], []
                for i in range(n):
                    if i:
                        t, s = self.tok(s, ",")
                        src.append(t)
                    e, s = sub(s, self.sqlcls("OrderByItem"))
                    a.append(e)
                    src.append(e)
                todo.append((a, {}, {}, src, s))
        else:
            raise AnalysisError("fields of a %s node" % c)
        res = []
        for a, k, extra, src, s in todo:
            s = s.push(Tup(src), ref)
            for inst, s2 in I.instantiate(Cls(o.cls), a, k, s, node):
                d = dict(s2.obj(inst).data)
                d["__orig"] = Tup(tuple(Tup((K(n), x)) for n, x in sorted(d.items())))
                d["__src"] = s2.stack[-2]
                s2 = s2.pop(2).set_obj(ref.oid, Obj("inst", o.cls, d))
                res.append(s2)
        return res

    # what an expression can be, whatever stands around it
    COMMON = ("Column", "Integer", "FunctionCall", "Condition", "Case", "Null", "Boolean", "String")

    def unguarded(self, I, obj, name, node):
        """While rendering, an attribute is read that some expressions do not have."""
        if not self.folding or obj.data["org"].v != "expr" or I.fn is None:
            return
        if not (isinstance(node, ast.Attribute) and node.attr == name):
            return
        if any(isinstance(n, ast.Try) for n in ast.walk(I.fn.node)):
            return
        for c in self.COMMON:
            cls = self.sqlcls(c)
            if cls not in I.classes or any(I.is_subclass(cls, x.name) for x in obj.data["neg"].items):
                continue
            own = set()
            for k in I.mro(cls):
                ci = I.classes.get(k)
                if ci is None:
                    if k != "object":
                        return
                    continue
                own |= set(ci.attrs)
                for a in ci.attrs.values():
                    f = a.fn if isinstance(a, Wrap) else a
                    if isinstance(f, Fn):
                        own |= {n.attr for n in ast.walk(I.p.funcs[f.fid].node) if isinstance(n, ast.Attribute)}
            if name not in own and not {"__getattr__", "__getattribute__"} & own:
                w = "rendering fails with AttributeError: %s is read from any expression, a %s has none (in %s)" % (name, c, I.fn.qualname)
                self.viol.setdefault(("A04", w), w)
                return

    def opaque_attr(self, I, ref, obj, name, st, node):
        if obj.kind != "node":
            return None
        if obj.cls is None:
            if name in ("transform", "__str__"):
                res = []
                for b, s in I.truth(App("hasT", (ref,), "bool"), st, node):
                    if b or name == "__str__":
                        res.append((App("method", (ref, K(name)), "any"), s))
                    else:
                        I.err("AttributeError", s, node, "a node without transform()")
                return res
            if name == "__class__":
                return None
            self.unguarded(I, obj, name, node)
            raise AnalysisError("attribute %s of a node of unknown class" % name)
        a = I.class_attr(obj.cls, name)
        if name in ("transform", "__str__"):
            if a is None:
                I.err("AttributeError", st, node, "%s has no %s" % (obj.cls, name))
                return []
            return [(App("method", (ref, K(name)), "any"), st)]
        if name == "__class__":
            return [(Cls(obj.cls), st)]
        if a is not None and not isinstance(a[0], (Fn, Wrap)):
            return [(a[0], st)]
        res = []
        for s in self.schema(I, ref, st.push(ref), node):
            r = s.stack[-1]
            res.extend(I.getattr(r, name, s.pop(), node))
        return res

    def sym_call(self, I, v, args, kw, st, node):
        if isinstance(v, App) and v.op == "method":
            ref, name = v.args
            if name.v == "transform":
                if args or any(not isinstance(x, K) for x in kw.values()):
                    # e.g. Alias.transform(text): needs the fields
                    res = []
                    for s in self.schema(I, ref, st.push(ref, *args), node):
                        n = len(args)
                        a = list(s.stack[len(s.stack) - n :]) if n else []
                        r = s.stack[len(s.stack) - n - 1]
                        for m, s2 in I.getattr(r, "transform", s.pop(n + 1), node):
                            res.extend(I.call(m, a, kw, s2, node))
                    return res
                o = st.obj(ref)
                k = o.cls or (o.data["was"].name if "was" in o.data else None)
                if kw and not self.takes(I, k, set(kw)):
                    I.err("TypeError", st, node, "%s.transform() takes no %s" % (short(k), ", ".join(sorted(kw))))
                    return []
                return [(rend(ref), st)]
            return self.str_node(I, ref, st, node)
        return None

    def takes(self, I, cls, names):
        """Does transform() of this class take these keywords?"""
        if cls is None:
            raise AnalysisError("transform(%s) of a node of unknown class" % ", ".join(sorted(names)))
        a = I.class_attr(cls, "transform")
        f = a[0].fn if a and isinstance(a[0], Wrap) else a[0] if a else None
        if not isinstance(f, Fn):
            return True
        x = I.p.funcs[f.fid].node.args
        return x.kwarg is not None or names <= {y.arg for y in x.args + x.kwonlyargs}

    def str_node(self, I, ref, st, node):
        o = st.obj(ref)
        if o.cls is not None:
            if self.has_transform(I, o.cls):
                return [(App("badstr", (ref,), "tok"), st)]
            return [(rend(ref), st)]
        res = []
        for b, s in I.truth(App("hasT", (ref,), "bool"), st, node):
            res.append((App("badstr", (ref,), "tok") if b else rend(ref), s))
        return res

    def external(self, I, name, recv, args, kw, st, node):
        if name == "isinstance" and self.is_node(st, recv):
            return self.isinst(I, recv, args[0], st, node)
        if name == "str" and self.is_node(st, recv):
            if args and args[0] == K("r"):
                return [(App("reprnode", (recv,), "tok"), st)]
            return self.str_node(I, recv, st, node)
        if name == "hasattr" and self.is_node(st, recv):
            n = args[0].v
            o = st.obj(recv)
            if o.cls is not None:
                if I.class_attr(o.cls, n) is not None:
                    return [(TRUE, st)]
                if n == "transform":
                    return [(FALSE, st)]
                raise AnalysisError("hasattr %s" % n)
            if n == "transform":
                return [(kbool(b), s) for b, s in I.truth(App("hasT", (recv,), "bool"), st, node)]
            raise AnalysisError("hasattr %s" % n)
        if name == "setattr" and self.is_node(st, recv):
            res = []
            for s in self.schema(I, recv, st.push(recv, *args), node):
                r, n, v = s.stack[-3:]
                res.extend((NONE, s2) for s2 in I.setattr(r, n.v, v, s.pop(3), node))
            return res
        if name == "collect" and st.obj(recv).kind == "stream":
            if st.mon["end"].v:
                return [(Tup(()), st)]
            res = []
            T = Seg(fresh("T"), None)
            s = self.set_led(st, self.led(st) + (T,)).set_mon("end", TRUE)
            s = F.set_iv(s, App("len", (T.sym,), "int"), 1, None)
            return [(Tup((T,)), s), (Tup(()), st.set_mon("end", TRUE))]
        if name.startswith("str.") and not isinstance(recv, K):
            return self.strop(I, name[4:], recv, args, kw, st, node)
        return None

    def strop(self, I, meth, v, args, kw, st, node):
        if not F.is_stringy(v):
            return None
        raw = self.raw(v)
        if meth in ("strip", "rstrip", "lstrip") and not args:
            if raw:
                return None
            parts = list(str_parts(v))
            if meth != "rstrip" and isinstance(parts[0], str):
                parts[0] = parts[0].lstrip()
            if meth != "lstrip" and isinstance(parts[-1], str):
                parts[-1] = parts[-1].rstrip()
            return [(mkstr(parts), st)]
        if meth in ("splitlines", "split", "partition", "rpartition", "rsplit", "expandtabs",
                    "removeprefix", "removesuffix", "translate", "ljust", "rjust", "center"):
            raise AnalysisError("str.%s of rendered text" % meth)
        return None

    @staticmethod
    def raw(v):
        return isinstance(v, Sym) or (isinstance(v, App) and v.op not in ("rend", "badstr"))

    def isinst(self, I, ref, c, st, node):
        o = st.obj(ref)
        name = c.name
        if o.cls is not None:
            return [(kbool(I.is_subclass(o.cls, name)), st)]
        if name in ("str", "int", "list", "tuple"):
            return [(FALSE, st)]
        if short(name) == "Expression":
            raise AnalysisError("isinstance Expression")
        if any(I.is_subclass(name, x.name) for x in o.data["neg"].items):
            return [(FALSE, st)]
        if name == self.sqlcls("Parenthesis") and o.data["dep"].v >= self.o.get("depth", 2):
            self.stats["bounded"] += 1
            return [(FALSE, st)]
        if self.o.get("nofork") and o.data["dep"].v == 0:
            return [(FALSE, st)]
        res = []
        hasT = self.has_transform(I, name)
        for s in [st]:
            pos, _ = F.vfact(s, App("hasT", (ref,), "bool"))
            if pos is None or (len(pos) == 1 and next(iter(pos)).v == hasT):
                s2 = s.set_cons(("v", App("hasT", (ref,), "bool")), None)
                res.append((TRUE, s2.set_obj(ref.oid, Obj("node", name, o.data))))
            d = dict(o.data)
            d["neg"] = Tup(tuple(sorted(set(d["neg"].items) | {Cls(name)}, key=repr)))
            res.append((FALSE, s.set_obj(ref.oid, Obj("node", None, d))))
        return res

    def str_replace(self, I, s, a, b, st, node):
        if isinstance(s, K) or not (isinstance(a, K) and isinstance(b, K)):
            return None
        if self.raw(s):
            return None
        if a.v.strip() or b.v.strip():
            if isinstance(s, App):
                return None
            return None
        if not b.v and a.v:
            # removes white space: tokens may be glued
            return None
        parts = []
        for p in str_parts(s):
            parts.append(p.replace(a.v, b.v) if isinstance(p, str) else p)
        return [(mkstr(parts), st)]

    # --- folding ------------------------------------------------------------------------

    def flatten(self, items, st, deep=True):
        out = []
        for x in items:
            if isinstance(x, Ref):
                o = st.obj(x)
                if o.kind == "inst" and "__src" in o.data:
                    out.extend(self.flatten(o.data["__src"].items, st))
                    continue
            out.append(x)
        return tuple(out)

    def entries(self, I, v, st):
        """Rendered text -> [(kind, value, glued)]"""
        out = []
        glued = [False]

        def add(kind, val):
            out.append((kind, val, glued[0]))
            glued[0] = True

        def lit(s):
            for m in re.finditer(r"\s+|\w+|[^\w\s]", s):
                w = m.group()
                if w.isspace():
                    glued[0] = False
                else:
                    add("w", w)

        def part(p):
            if isinstance(p, str):
                lit(p)
            elif isinstance(p, K):
                lit(str(p.v))
            elif isinstance(p, Str):
                for q in p.parts:
                    part(q)
            elif isinstance(p, Joined):
                if p.seg.sym.tag in ("T", "kT") and not p.sep.strip(" \n\t") if isinstance(p.sep, str) else p.seg.sym.tag in ("T", "kT"):
                    sep = p.sep if isinstance(p.sep, str) else (p.sep.v if isinstance(p.sep, K) else "?")
                    if sep and not sep.strip():
                        if p.alts == frozenset([ELEM]):
                            return add("s", p.seg.sym)
                        if all(isinstance(a, App) and a.op in ("upper", "lower") and a.args == (ELEM,) for a in p.alts):
                            return add("us", p.seg.sym)
                add("?", p)
            elif isinstance(p, App) and p.op == "rend":
                ref = p.args[0]
                o = st.obj(ref)
                if o.kind == "inst" and "__src" in o.data:
                    for i, x in enumerate(self.flatten(o.data["__src"].items, st)):
                        if i:
                            glued[0] = False
                        add("n" if isinstance(x, Ref) else "s" if isinstance(x, Seg) else "t", x)
                else:
                    add("n", ref)
            elif isinstance(p, Sym):
                add("t", p)
            elif isinstance(p, App) and p.op in ("upper", "lower", "title", "capitalize"):
                a = p.args[0]
                if isinstance(a, Sym):
                    add("u", a)
                elif isinstance(a, App) and a.op in ("rend",):
                    add("?", p)
                else:
                    add("?", p)
            elif isinstance(p, App) and p.op == "str" and len(p.args) == 1:
                num(p.args[0], p)
            else:
                add("?", p)

        def num(a, p):
            if isinstance(a, App) and a.op in ("int", "float") and not isinstance(a.args[0], Sym):
                return num(a.args[0], p)
            if isinstance(a, App) and a.op in ("int", "float") and isinstance(a.args[0], Sym):
                return add("num", a.args[0])
            if isinstance(a, Lin) and a.const == 0 and len(a.terms) == 1 and a.terms[0][1] == -1:
                t = a.terms[0][0]
                if isinstance(t, App) and t.op in ("int", "float") and isinstance(t.args[0], Sym):
                    add("w", "-")
                    return add("num", t.args[0])
            if isinstance(a, App) and a.op in ("neg", "USub") and len(a.args) == 1:
                add("w", "-")
                return num(a.args[0], p)
            add("?", p)

        part(v)
        return out

    def same(self, st, e, x, prev, nxt):
        """Does rendered entry e stand for ledger item x?"""
        kind, v, _ = e
        if isinstance(x, Ref):
            return kind == "n" and v == x
        if isinstance(x, Seg):
            if kind == "s":
                return v == x.sym
            if kind == "us":
                return v == x.sym and (
                    x.sym.tag == "kT" or (self.fact(st, prev) or {"?"}) <= {"rows", "range"}
                )
            return False
        if kind == "t":
            return v == x or F.decide_eq(st, v, x) is True
        if kind == "num":
            return v == x
        if kind == "u":
            if v != x and F.decide_eq(st, v, x) is not True:
                return False
            return self.keyword(st, x, prev, nxt)
        if kind == "w":
            f = self.fact(st, x)
            if f is None:
                return False
            w = v.lower()
            if f == {w}:
                return True
            if w in ("true", "false"):
                return f <= ({"true", "yes"} if w == "true" else {"false", "no"})
            return False
        return False

    def keyword(self, st, x, prev, nxt):
        """May the case of this token change?"""
        f = self.fact(st, x)
        if f is not None and not (f & set(QUOTES)):
            return True
        if nxt is not None and self.fact(st, nxt) == {"("}:
            return True  # a function name
        if prev is not None and self.fact(st, prev) == {"as"} and self.casting:
            return True  # a type
        return False

    def wordy(self, st, e):
        kind, v, _ = e
        if kind == "w":
            return bool(re.match(r"\w", v))
        if kind in ("t", "u", "num"):
            f = self.fact(st, v)
            if f is not None and all(not re.match(r"\w", c) for c in f):
                return False
            return True
        if kind == "n":
            o = st.obj(v)
            return short(o.cls) not in CLAUSES
        return True

    def spacing(self, st, ent):
        """Glued words, or quoted text taken apart -> message or None."""
        quote = None
        for i, e in enumerate(ent):
            isq = e[0] == "t" and (self.fact(st, e[1]) or {"?"}) <= set(QUOTES)
            if quote is not None:
                if not e[2]:
                    return "white space is put inside quotes"
                if isq and (e[1] == quote or F.decide_eq(st, e[1], quote) is True):
                    quote = None
                continue
            if i and e[2] and not isq and self.wordy(st, ent[i - 1]) and self.wordy(st, e):
                pq = ent[i - 1][0] == "t" and (self.fact(st, ent[i - 1][1]) or {"?"}) <= set(QUOTES)
                if not pq:
                    return "%s and %s are glued together" % (
                        self.name(st, ent[i - 1]), self.name(st, e))
            if isq:
                if i and not e[2] and ent[i - 1][0] in ("t", "u") and self.fact(st, ent[i - 1][1]) == {"r"}:
                    return "a string prefix is taken apart from its string"
                quote = e[1]
        return None

    def name(self, st, e):
        kind, v = e[0], e[1]
        if kind == "w":
            return "'%s'" % v
        if kind in ("t", "u", "num"):
            f = self.fact(st, v)
            return ("'%s'" % "|".join(sorted(f))) if f else "a token"
        if kind == "n":
            c = short(st.obj(v).cls)
            return "a %s" % (c or "nested part")
        if kind in ("s", "us"):
            return "a run of tokens"
        if isinstance(v, App) and v.op == "badstr":
            return "str() of a part that has transform()"
        return "changed text"

    def lname(self, st, x):
        if isinstance(x, Ref):
            return self.name(st, ("n", x))
        if isinstance(x, Seg):
            return "a run of tokens"
        return self.name(st, ("t", x))

    def match_at(self, st, ent, led, i):
        """Do the entries equal led[i:i+len(ent)]?"""
        if i + len(ent) > len(led):
            return False
        self.casting = any(self.fact(st, x) == {"cast"} for x in led if not isinstance(x, (Ref, Seg)))
        for k, e in enumerate(ent):
            prev = led[i + k - 1] if i + k else None
            nxt = led[i + k + 1] if i + k + 1 < len(led) else None
            if not self.same(st, e, led[i + k], prev, nxt):
                return False
        return True

    def variants(self, I, ref, st):
        """Keyword variants of the transform method."""
        o = st.obj(ref)
        a = I.class_attr(o.cls, "transform")
        out = [{}]
        if a is not None and isinstance(a[0], Fn):
            f = I.p.funcs[a[0].fid]
            ar = f.node.args
            n = len(ar.defaults)
            import ast

            for p, dflt in list(zip(ar.args[len(ar.args) - n :], ar.defaults)) + list(
                zip(ar.kwonlyargs, ar.kw_defaults)
            ):
                if isinstance(dflt, ast.Constant) and isinstance(dflt.value, bool):
                    out.append({p.arg: kbool(not dflt.value)})
        return out

    def renderings(self, I, ref, st, node):
        """-> [(text, state, variant)] of an instance."""
        res = []
        old = I.sink
        self.folding, was = True, self.folding
        I.sink = []
        try:
            for kw in self.variants(I, ref, st):
                o = st.obj(ref)
                self.pre, self.phase = frozenset(st.heap), "formatting"
                meth = "transform" if I.class_attr(o.cls, "transform") else "__str__"
                s0 = st.push(ref)
                for m, s in I.getattr(ref, meth, s0, node):
                    for v, s2 in I.call(m, [], kw, s, node):
                        res.append((v, s2.stack[-1], s2.pop(), kw))
            self.stats["rendered"] += len(res)
            self.lost = I.sink
        finally:
            I.sink = old
            self.folding = was
            self.pre, self.phase = None, "parsing"
        return res

    def wrong(self, st, ent, led):
        """Does the rendering differ from what was read so far, wherever it is put?"""
        self.match_at(st, [], led, 0)
        best, ends = 0, []
        for i in range(len(led)):
            k = 0
            while i + k < len(led) and k < len(ent):
                prev = led[i + k - 1] if i + k else None
                nxt = led[i + k + 1] if i + k + 1 < len(led) else None
                if not self.same(st, ent[k], led[i + k], prev, nxt):
                    break
                k += 1
            if k > best:
                best, ends = k, []
            if k == best:
                ends.append(i + k)
        for e in ends:
            if e >= len(led):
                return False
            x = led[e]
            if not isinstance(x, (Ref, Seg)) and self.fact(st, x) is None:
                return False
        return True

    def on_assign(self, I, name, v, st, node):
        if self.folding or I.fn is None or I.fn.module != LEX:
            return st
        todo = [v]
        if I.fn.qualname == self.root:
            # parts that could not be recognised yet
            todo += [x for k, x in st.objid(st.frame).data.items() if k not in ("__up__", name)]
        for x in todo:
            if isinstance(x, Ref):
                o = st.obj(x)
                if o.kind == "inst" and o.cls.startswith(SQL + ":") and not self.pristine(o):
                    st = self.fold(I, x, st, node)
        return st

    @staticmethod
    def pristine(o):
        """A node that was given fields, none of which was changed since."""
        return "__orig" in o.data and o.data["__orig"] == Tup(
            tuple(Tup((K(n), x)) for n, x in sorted(o.data.items()) if not n.startswith("__"))
        )

    def fold(self, I, ref, st, node):
        o = st.obj(ref)
        rs = self.renderings(I, ref, st, node)
        if not rs:
            return st
        where = None
        for v, ref2, s, kw in rs:
            ent = self.entries(I, v, s)
            led = self.flatten(self.led(s), s)
            hit = None
            for i in range(len(led) - len(ent) + 1):
                if self.match_at(s, ent, led, i):
                    hit = i
                    break
            if self.o.get("foldbug") and (hit is None or self.spacing(s, ent)):
                print("NOFOLD", short(o.cls), kw, I.fn.qualname, getattr(node,'lineno',None), self.spacing(s,ent), "LED", [self.lname(s, x) for x in led], "ENT", [self.name(s, e) for e in ent], led, ent)
            if hit is None or self.spacing(s, ent):
                if kw and self.exempt(s, ent, led, kw, ref2):
                    continue
                if hit is None and not kw and self.root.startswith(("FromStatement", "ExpressionParser")) and self.wrong(s, ent, led):
                    st = st.set_mon("lame", TRUE)  # read no further: the shortest path shows it
                return st
            # positions refer to the flattened ledger of s; compare with st's
            base = self.flatten(self.led(st), st)
            n = len(ent)
            if len(base) != len(led):
                # parts were opened while rendering: locate by what surrounds the run
                a = self.lo(base, led, hit)
                b = self.hi(base, led, hit + n)
                if a is None or b is None:
                    return st
                run = (a, b)
            else:
                run = (hit, hit + n)
            if where is None:
                where = run
            elif where != run:
                return st
        if where is None:
            return st
        base = self.flatten(self.led(st), st)
        if "__src" in o.data and base[where[0] : where[1]] == self.flatten((ref,), st):
            return st  # what was changed shows elsewhere
        self.stats["folded"] += 1
        st = self.set_led(st, base[: where[0]] + (ref,) + base[where[1] :])
        org = "from" if I.fn.qualname.startswith(("FromStatement", "Unnest")) else "expr"
        cls, neg, was = o.cls, (), {}
        keep = self.o.get("keep")
        if keep is not None and short(cls) not in keep and short(cls) not in SPACED:
            # only what the function tests later matters
            st = self.set_hasT(I, ref, cls, st)
            if self.keep_was(I, cls):
                was = {"was": Cls(cls)}
            cls, neg = None, tuple(Cls(self.sqlcls(k)) for k in sorted(keep))
        return st.set_obj(
            ref.oid, Obj("node", cls, {"neg": Tup(neg), "org": K(org), "dep": K(0), **was})
        )

    @staticmethod
    def lo(base, led, i):
        if i == 0:
            return 0
        x = led[i - 1]
        return base.index(x) + 1 if x in base else None

    @staticmethod
    def hi(base, led, j):
        if j == len(led):
            return len(base)
        x = led[j]
        return base.index(x) if x in base else None

    def exempt(self, st, ent, led, kw, ref):
        """A subquery drops its semicolon."""
        return False

    def normalise(self, I, st, node):
        # bound the lists of parsed parts, fold runs of tokens
        for oid, o in st.heap.items():
            if o.kind == "list" and o.data:
                n = [x for x in o.data if isinstance(x, Tup) or self.part(st, x)]
                if len(n) > self.maxlist:
                    self.stats["bounded"] += 1
                    return []
        if self.folding:
            return [st]
        n = 0
        for oid, o in st.heap.items():
            if o.kind == "inst" and (o.cls or "").startswith(SQL + ":") and not self.pristine(o):
                n += 1
        if n > 1 and self.root.startswith(("FromStatement", "ExpressionParser")):
            # parts that no longer match what was read: shorter paths show them
            self.stats["unmatched"] = self.stats.get("unmatched", 0) + 1
            return []
        for oid, o in list(st.heap.items()):
            if o.kind != "list" or not o.data:
                continue
            if not any(isinstance(x, Sym) for x in o.data):
                continue
            if not all(isinstance(x, Sym) and x.sort == "tok" or isinstance(x, Seg) and x.sym.tag == "T" for x in o.data):
                continue
            led = self.led(st)
            i = self.find_run(led, o.data)
            if i is None:
                continue
            T = Seg(fresh("T"), None)
            st = F.set_iv(st, App("len", (T.sym,), "int"), 1, None)
            st = self.set_led(st, led[:i] + (T,) + led[i + len(o.data) :])
            st = st.set_obj(oid, o.with_((T,)))
        return [st]

    def part(self, st, x):
        return isinstance(x, Ref) and (
            st.obj(x).kind == "node" or st.obj(x).kind == "inst" and (st.obj(x).cls or "").startswith(SQL)
        )

    # --- the end of a function ---------------------------------------------------------------

    def finish(self, I, v, st):
        self.stats["exits"] += 1
        name = self.root[: -len(".parse")]
        cls, shape, before, after = CONTRACT[name]
        pend = None
        if shape == "pair":
            if not (isinstance(v, Tup) and len(v.items) == 2):
                raise AnalysisError("%s returns %r" % (self.root, v))
            v, pend = v.items
            if pend == NONE:
                pend = None
        if after:
            t, st = self.tok(st, after)
            st = self.set_led(st, self.led(st) + (t,))
        if shape == "list":
            if not (isinstance(v, Ref) and st.obj(v).kind in ("list",)):
                raise AnalysisError("%s returns %r" % (self.root, v))
            items = st.obj(v).data
            if len(items) > self.maxlist:
                return
            ent = []
            for i, x in enumerate(items):
                if i:
                    ent.append(("w", ",", False))
                if not isinstance(x, Ref):
                    raise AnalysisError("list of %r" % (x,))
                if st.obj(x).kind == "inst":
                    raise AnalysisError("list of built nodes")
                ent.append(("n", x, False))
            self.judge(I, st, ent, pend, shape, None)
            return
        if not isinstance(v, Ref):
            raise AnalysisError("%s returns %r" % (self.root, v))
        o = st.obj(v)
        if o.kind == "node":
            self.judge(I, st, [("n", v, False)], pend, shape, o.cls)
            return
        if o.kind != "inst":
            raise AnalysisError("%s returns %r" % (self.root, o))
        self.alias_token(I, st, v)
        st = st.push(pend if pend is not None else NONE)
        rs = self.renderings(I, v, st, None)
        for x in self.lost:
            e = x.stack[-1]
            self.stats["raises"] = self.stats.get("raises", 0) + 1
            w = "rendering a %s that was parsed fails with %s (built by %s)" % (short(o.cls), short(e.cls), name)
            self.viol.setdefault(("A04", w), w)
        for text, ref, s, kw in rs:
            p = s.stack[-1]
            p = None if p == NONE else p
            s = s.pop()
            self.judge(I, s, self.entries(I, text, s), p, shape, o.cls, kw)

    def may_be(self, st, t, words):
        """The first of the words the token may still be, or None."""
        for x in words:
            if F.refine_in(st, F.low(t), [K(x)], True) is not None:
                pos, neg = F.vfact(st, t)
                if pos is not None and not any(c.v.lower() == x for c in pos):
                    continue
                if any(c.v == x for c in neg):
                    continue
                return x
        return None

    def carried(self, I, st, pend, c, where):
        """An expression must not end before a token that carries it on."""
        m = self.o.get("mode")
        if m is None or c in self.ENDING:
            return
        x = self.may_be(st, pend, self.CARRY[m])
        if x is not None:
            self.bad("an operator is left standing after the expression it belongs to", I, where, x)

    def alias_token(self, I, st, v):
        """A word taken as an alias must not be the operator of a longer expression."""
        if self.o.get("mode") is None or short(st.obj(v).cls) != "Alias":
            return
        e = st.obj(v).data.get("expression")
        if isinstance(e, Ref) and short(st.obj(e).cls) in self.ENDING:
            return
        a = st.obj(v).data.get("alias")
        if isinstance(a, (Sym, App)) and a.sort == "tok":
            x = self.may_be(st, a, self.CARRY["main"])
            if x is not None:
                self.bad("an operator is taken for an alias", I, self.root, x)

    def judge(self, I, st, ent, pend, shape, cls, kw=None):
        led = list(self.flatten(self.led(st), st))
        c = short(cls)
        where = self.root + (" -> " + c if c else "")
        if pend is not None:
            if not led or led[-1] != pend:
                self.bad("the token handed back is not the last one read", I, where, "")
                return
            led.pop()
            self.carried(I, st, pend, c, where)
        msg = self.spacing(st, ent)
        if msg is not None:
            self.bad("tokens rendered wrongly", I, where, msg)
            return
        if kw and kw.get("is_subquery") == TRUE and led and self.fact(st, led[-1]) == {";"}:
            led.pop()
        if self.match_at(st, ent, led, 0) and len(ent) == len(led):
            return
        if shape != "pair" and pend is None and led:
            # what the grammar does not recognise is left over
            x = led[-1]
            if not isinstance(x, (Ref, Seg)):
                f = self.fact(st, x)
                if f is None or (shape == "list" and f == {","}):
                    if len(ent) == len(led) - 1 and self.match_at(st, ent, led[:-1], 0):
                        return
        # describe the first difference
        i = 0
        self.match_at(st, [], led, 0)
        while i < min(len(ent), len(led)):
            prev = led[i - 1] if i else None
            nxt = led[i + 1] if i + 1 < len(led) else None
            if not self.same(st, ent[i], led[i], prev, nxt):
                break
            i += 1
        a = self.lname(st, led[i]) if i < len(led) else "nothing"
        b = self.name(st, ent[i]) if i < len(ent) else "nothing"
        after = self.lname(st, led[i - 1]) if i else "the start"
        self.viol.setdefault(
            ("differs", where, after, a, b),
            "%s: after %s the source has %s, the rendering has %s" % (where, after, a, b),
        )
        if self.o.get("debug"):
            print("LED", [self.lname(st, x) for x in led])
            print("ENT", [self.name(st, e) for e in ent])


def run_gram(prog, root, opts=None, holder=None, make=None):
    d = (make or Gram)(root, opts)
    if holder is not None:
        holder.append(d)
    o = d.o
    I = Interp(prog, d)
    I.max_heads = 4000
    f = prog.find(LEX, root)
    if f is None:
        raise AnalysisError("no function " + root)
    name = root[: -len(".parse")]
    cls, shape, before, after = CONTRACT[name]
    st = I.initial()
    st = St(st.frame, (), dict(st.heap), {}, {"led": Tup(()), "end": FALSE, "lame": FALSE, "script": Tup(tuple(K(x) for x in o.get("script", ()))), "plan": Tup(tuple(K(x) for x in o.get("plan") or ())), "text": Tup(tuple(K(x) for x in o.get("text") or ()))})
    d.words = sorted(set(o.get("words") or ()) | {"(", ")", ";", "as", "except", "replace", ".", "["})
    S, st = st.new_obj("stream", None, ())
    led = []
    if before:
        t, st = d.tok(st, before)
        led.append(t)
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    kw = {}
    args = []
    if names and names[0] == "cls":
        args.append(Cls(LEX + ":" + name))
        names = names[1:]
    args.append(S)
    for n in names[1:]:
        if n in o.get("args", {}):
            val = o["args"][n]
            if val == "tok":
                val, st = d.tok(st)
                led.append(val)
            elif val == "quote":
                val, st = d.tok(st, *QUOTES)
                led.append(val)
            elif val == "prefix":
                val, st = d.tok(st, "r")
                led.insert(0, val)
            elif val == "bool":
                val = fresh("flag", "bool")
            else:
                val = K(val)
            kw[n] = val
    d.o["mode"] = d.mode(name, kw)
    st = st.set_mon("led", Tup(tuple(led)))
    I.sink = []
    err = None
    try:
        cfr = Tup((Ref(I.modframes[f.module]),))
        # defaults live with the function value: fetch it from its class
        ca = I.class_attr(LEX + ":" + name, "parse")
        fn = ca[0].fn if isinstance(ca[0], Wrap) else ca[0]
        for v, s in I.call(fn, args, kw, st, None):
            d.finish(I, v, s)
    except AnalysisError as e:
        err = str(e)
    return d, I, err
