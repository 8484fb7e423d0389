"""Validation of the syntax tree (V01-V04).

Each class's validate() is executed abstractly on an instance whose parts are unknown.
What a part reports is one unknown run of messages per part; what types it has is
enumerated; numbers and names are symbolic.  The resulting message list is compared
with what the property says it must hold.
"""
from . import facts as F
from .gram import Gram, LEX, SQL, short
from .interp import Interp
from .loader import AnalysisError
from .vals import *  # noqa

TYPES = ("bool", "object", "int", "str", "float", "NoneType")


class Val(Gram):
    drop_dead = False
    strict_heads = True

    def __init__(self, opts):
        Gram.__init__(self, "?", opts)
        self.given = {}  # seg of a part's messages -> the part
        self.stats = {"returns": 0, "raises": 0, "bounded": 0}

    def distinct(self, st):
        return frozenset(st.cons.items()) if self.o.get("apart") else None

    # --- parts ------------------------------------------------------------------------

    def part_seg(self, kind, ref):
        # one symbol per part
        k = (kind, ref)
        if k not in self.given:
            sym = fresh(kind)
            self.given[k] = Seg(sym, App("msg" if kind == "errors" else "field", (ref, sym), "any"))
        return self.given[k]

    def intercept(self, I, f, args, kw, st, node):
        if f.module == SQL and f.qualname == "transform":
            a = args[0] if args else next(iter(kw.values()))
            if isinstance(a, Ref) and st.obj(a).kind in ("node",):
                return [(App("rend", (a,), "str"), st)]
            return None
        if f.module == SQL and f.cls and args and isinstance(args[0], Ref):
            o = st.obj(args[0])
            if o.kind == "inst" and "__src" in o.data:
                # a part whose fields were looked at is still validated as a whole
                if f.name == "validate":
                    return self.validated(args[0], args[1:], kw, st)
        return None

    def validated(self, ref, args, kw, st):
        calls = st.mon["calls"].items
        vals = []
        for a in list(args) + [x for _, x in sorted(kw.items())]:
            if isinstance(a, Ref) and st.obj(a).kind in ("set", "list"):
                vals.append(Tup(st.obj(a).data))
            else:
                vals.append(a)
        rec = Tup((ref, Tup(vals), Tup(tuple(Tup((K(k), v)) for k, v in sorted(kw.items())))))
        st = st.set_mon("calls", Tup(calls + (rec,)))
        out, st = st.new_obj("list", None, (self.part_seg("errors", ref),))
        return [(out, st)]

    def fork(self, ref, key, values, st):
        o = st.obj(ref)
        if key in o.data:
            return [(o.data[key], st)]
        return [(v, st.set_obj(ref.oid, Obj(o.kind, o.cls, dict(o.data, **{key: v})))) for v in values]

    def opaque_attr(self, I, ref, obj, name, st, node):
        if obj.kind != "node":
            return None
        if name in ("validate", "resolve_return_type", "transform", "__str__"):
            return [(App("method", (ref, K(name)), "any"), st)]
        if name == "return_type" and obj.cls is None:
            return self.fork(ref, "rt", [Cls(t) for t in TYPES], st)
        if name == "known_fields" and self.o.get("kf") is not None and (obj.cls is None or short(obj.cls) == "SelectStatement"):
            o = obj
            if "kf" not in o.data:
                out, st = field_set(self, I, self.o["kf"], st)
                o = Obj(o.kind, o.cls, dict(o.data, kf=Tup(st.obj(out).data)))
                st = st.set_obj(ref.oid, o)
            else:
                out, st = st.new_obj("set", None, o.data["kf"].items)
            return [(out, st)]
        if name == "known_fields" and obj.cls is None:
            out, st = st.new_obj("set", None, (self.part_seg("fields", ref),))
            return [(out, st)]
        if obj.cls is None:
            raise AnalysisError("attribute %s of an unknown part" % name)
        a = I.class_attr(obj.cls, name)
        if a is not None and not isinstance(a[0], (Fn, Wrap)):
            return [(a[0], st)]
        res = []
        for s in self.schema(I, ref, st.push(ref), node):
            r = s.stack[-1]
            res.extend(I.getattr(r, name, s.pop(), node))
        return res

    def sym_call(self, I, v, args, kw, st, node):
        if isinstance(v, App) and v.op == "method":
            ref, name = v.args
            if name.v == "validate":
                return self.validated(ref, args, kw, st)
            if name.v == "resolve_return_type":
                return self.fork(ref, "rrt", [Cls(t) for t in TYPES], st)
            return [(App("rend", (ref,), "str"), st)]
        return None

    def external(self, I, name, recv, args, kw, st, node):
        if name == "isinstance" and self.is_node(st, recv):
            only = self.o.get("only")
            if only is not None and short(args[0].name) not in only:
                o = st.obj(recv)
                if o.cls is None:
                    return [(FALSE, st)]
            return self.isinst(I, recv, args[0], st, node)
        if name == "hasattr" and self.is_node(st, recv):
            return [(v, s) for v, s in self.fork(recv, "has_" + args[0].v, [TRUE, FALSE], st)]
        if name == "setattr" and self.is_node(st, recv):
            raise AnalysisError("validate() changes a part")
        if name == "str" and self.is_node(st, recv):
            return [(App("rend", (recv,), "str"), st)]
        if name.startswith("str.") and isinstance(recv, (Sym, App)):
            return self.strop(I, name[4:], recv, args, kw, st, node)
        return None

    def strop(self, I, meth, v, args, kw, st, node):
        a = list(args)
        if meth in ("split", "partition") and a and isinstance(a[0], K):
            lim = a[1] if len(a) > 1 else kw.get("maxsplit")
            if meth == "partition" or lim == K(1):
                has = App("contains", (v, a[0]), "bool")
                res = []
                for b, s in I.truth(has, st, node):
                    head = App("before", (v, a[0]), "str") if b else v
                    tail = App("after", (v, a[0]), "str")
                    if meth == "split":
                        r, s = s.new_obj("list", None, (head, tail) if b else (v,))
                        res.append((r, s))
                    else:
                        res.append((Tup((head, a[0], tail)) if b else Tup((v, K(""), K(""))), s))
                return res
        return None

    def schema(self, I, ref, st, node):
        o = st.obj(ref)
        c = short(o.cls)
        if c == "Integer":
            n = fresh("n", "int")
            d = {"value": n, "__src": Tup(()), "rt0": K(0)}
            return [st.set_obj(ref.oid, Obj("inst", o.cls, d))]
        if c in ("Column", "String"):
            d = {"value": fresh("name", "str"), "__src": Tup(())}
            return [st.set_obj(ref.oid, Obj("inst", o.cls, d))]
        if c == "Parenthesis":
            res = []
            for n in (1, 2):
                s, a = st, []
                for i in range(n):
                    r, s = self.node(s, None, "expr", o.data["dep"].v + 1)
                    a.append(r)
                d = {"args": Tup(tuple(a)), "__src": Tup(tuple(a))}
                res.append(s.set_obj(ref.oid, Obj("inst", o.cls, d)))
            return res
        if c == "Alias":
            res = []
            for how in ("tok", "Column", "String"):
                x, s = self.node(st, None, "expr", 1)
                v = fresh("name", "str")
                al = v
                if how == "Column":
                    al, s = s.new_obj("inst", self.sqlcls("Column"), {"value": v, "__src": Tup(())})
                elif how == "String":
                    al, s = s.new_obj("inst", self.sqlcls("String"), {"value": v, "quotes": K('"'), "prefix": NONE, "__src": Tup(())})
                res.append(s.set_obj(ref.oid, Obj("inst", o.cls, {"expression": x, "alias": al, "with_as": kbool(how == "Column"), "__src": Tup((v,))})))
            return res
        raise AnalysisError("fields of a %s" % c)

    def normalise(self, I, st, node):
        return [st]

    def on_assign(self, I, name, v, st, node):
        return st

    # --- judging ----------------------------------------------------------------------

    def found(self, I, v, st):
        """-> (parts whose messages are in the list, number of own messages)"""
        if not (isinstance(v, Ref) and st.obj(v).kind == "list"):
            raise AnalysisError("validate() returns %r" % (v,))
        parts, own = set(), 0
        for x in st.obj(v).data:
            if isinstance(x, Seg):
                e = x.elem
                if not (isinstance(e, App) and e.op == "msg" and e.args[1] == x.sym):
                    raise AnalysisError("unknown messages")
                parts.add(e.args[0])
            else:
                own += 1
        return parts, own


# --- runs ---------------------------------------------------------------------------------

SELECT = ("from_statement", "where_clause", "group_by_clause", "having_clause",
          "order_by_clause", "limit_clause", "offset_clause")


ORDERS = False  # ask everything twice, with sets walked the other way round


def start(prog, opts, h):
    d = Val(dict(opts, orders=ORDERS))
    if h is not None:
        h.append(d)
    I = Interp(prog, d)
    I.max_heads = 4000
    st = I.initial()
    st = St(st.frame, (), dict(st.heap), {}, {"calls": Tup(()), "led": Tup(()), "end": FALSE})
    I.sink = []
    return d, I, st


def build(I, cls, args, kw, st):
    """Instances made by the class's constructor -> [(ref, state)]"""
    q = SQL + ":" + cls
    if q not in I.classes:
        raise AnalysisError("no class " + cls)
    return I.instantiate(Cls(q), list(args), dict(kw), st, None)


def validate(d, I, ref, args, kw, st):
    """-> [(value, root ref, states)]; the stack keeps the root."""
    st = st.push(ref, *[a for a in args if isinstance(a, Ref)])

    def go(st):
        for m, s in I.getattr(ref, "validate", st, None):
            yield from I.call(m, list(args), dict(kw), s, None)

    return watch(d, I, go, st, args, short(st.obj(ref).cls) + ".validate")


def watch(d, I, go, st, args=(), what=""):
    """Results of go(st), a call that must change nothing that is there already and hand
    out nothing that it keeps.  With the option `orders` it is asked twice: the walks over
    sets go the other way round the second time, and the answers must be the same."""
    res = []
    d.phase = "validating"
    d.setorder = 1 if d.o.get("orders") else 0
    d.pre = frozenset(st.heap) - {a.oid for a in args if isinstance(a, Ref)}
    first = list(go(st))
    d.pre = None
    for v, s in first:
        d.stats["returns"] += 1
        if isinstance(v, Ref) and s.obj(v).kind in ("list", "set") and v.oid in st.heap and v not in args:
            d.viol.setdefault(("A02", "kept", what), "%s hands out a %s that it keeps" % (what, s.obj(v).kind))
        res.append((v, s))
        if not d.o.get("orders"):
            continue
        sink, I.sink = I.sink, []

        def differs(order):
            d.setorder, I.sink = order, []
            out = any(not agree(I, s2.stack[-1], v2, s2) for v2, s2 in list(go(s.push(v))))
            return out or any(not any(x.stack[-1] == y.stack[-1] for y in sink) for x in I.sink)

        d.stats["again"] = d.stats.get("again", 0) + 1
        # a difference that the same order shows as well is a choice the state does not keep
        if differs(-1) and not differs(1):
            d.viol.setdefault(("A03", what), "%s depends on the order in which a set is walked" % what)
        I.sink = sink
        d.setorder = 1
    return res


def agree(I, a, b, st):
    """Are two answers the same?"""
    if a == b and not isinstance(a, Ref):
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        x, y = st.obj(a), st.obj(b)
        if x.kind != y.kind:
            return False
        if x.kind == "list":
            return len(x.data) == len(y.data) and all(agree(I, p, q, st) for p, q in zip(x.data, y.data))
        if x.kind == "set":
            return all(any(agree(I, p, q, st) for q in y.data) for p in x.data) and all(
                any(agree(I, p, q, st) for p in x.data) for q in y.data)
        if x.kind == "inst":
            return a == b or x.cls == y.cls and all(agree(I, x.data.get(k), y.data.get(k), st) for k in set(x.data) | set(y.data) if not k.startswith("__"))
        return a == b
    if isinstance(a, Seg) or isinstance(b, Seg) or a is None or b is None:
        return a == b
    return all(x for x, _ in eq(I, a, b, st))


def fields(d, st, n=None):
    """A set of known fields."""
    if n is None:
        sym = fresh("given")
        return st.new_obj("set", None, (Seg(sym, App("field", (NONE, sym), "any")),))


def label(cls, what):
    return "%s.validate" % cls + (" (%s)" % what if what else "")


def missing(d, where, need, parts, st, rule="messages are lost"):
    for name, ref in need:
        if ref not in parts:
            d.viol.setdefault(
                ("V01", rule, where, name), "%s: the messages of %s are not reported" % (where, name)
            )


def run_select(prog, present, nexpr, given, h):
    d, I, st = start(prog, {}, h)
    where = label("SelectStatement", "")
    exprs, need = [], []
    for i in range(nexpr):
        r, st = d.node(st)
        exprs.append(r)
        need.append(("a select expression", r))
    el, st = st.new_obj("list", None, tuple(exprs))
    kw = {"expressions": el}
    refs = {}
    for c in SELECT:
        if c in present:
            r, st = d.node(st)
            kw[c] = refs[c] = r
            need.append(("the " + c.replace("_", " "), r))
        else:
            kw[c] = NONE
    for ref, s in build(I, "SelectStatement", [], kw, st):
        args = []
        gseg = None
        if given:
            g, s = fields(d, s)
            args.append(g)
            gseg = s.obj(g).data[0]
        for v, s2 in validate(d, I, ref, args, {}, s):
            parts, own = d.found(I, v, s2)
            missing(d, where, need, parts, s2)
            # which fields the clauses are checked against
            for rec in s2.mon["calls"].items:
                who, vals, kws = rec.items
                if who == refs.get("from_statement"):
                    continue
                allsegs = set(x for t in vals.items if isinstance(t, Tup) for x in t.items if isinstance(x, Seg))
                f = refs.get("from_statement")
                if f is not None and s2.obj(f).data.get("has_known_fields") == TRUE:
                    if d.part_seg("fields", f) not in allsegs:
                        d.viol.setdefault(("V04", "from"), "%s: a clause is not checked against the fields of the FROM source" % where)
                if gseg is not None and gseg not in allsegs:
                    if I.seg_len(s2, gseg)[1] != 0:
                        d.viol.setdefault(("V04", "given"), "%s: a clause is not checked against the fields given from outside" % where)
            if given and s2.obj(args[0]).data not in ((gseg,), ()):
                d.viol.setdefault(("V04", "changed"), "%s changes the set of fields it is given" % where)
    return d, I


def run_parts(prog, cls, make, h, extra=()):
    """make(d, st) -> (args, kw, need, st): every needed part's messages are reported."""
    d, I, st = start(prog, {}, h)
    args, kw, need, st = make(d, st)
    where = label(cls, "")
    for ref, s in build(I, cls, args, kw, st):
        g, s = fields(d, s)
        gseg = s.obj(g).data[0]
        a = [g]
        for x in extra:
            if x == "exprs":
                sym = fresh("exprs")
                l, s = s.new_obj("list", None, (Seg(sym, None),))
                a.append(l)
        for v, s2 in validate(d, I, ref, a, {}, s):
            parts, own = d.found(I, v, s2)
            need2 = [(n, r) for n, r in need if not exempt(d, cls, n, r, s2)]
            missing(d, where, need2, parts, s2)
            if s2.obj(g).data not in ((gseg,), ()):
                d.viol.setdefault(("V04", "changed"), "%s changes the set of fields it is given" % where)
    return d, I


def exempt(d, cls, name, r, st):
    # a position is an integer: checked by the item itself
    return cls == "OrderByItem" and short(core(d, r, st)[1]) == "Integer"


def core(d, r, st):
    """What is inside the parentheses -> (ref, class)."""
    while True:
        o = st.obj(r)
        if short(o.cls) == "Parenthesis" and o.kind == "inst":
            r = o.data["args"].items[0]
            continue
        return r, o.cls


def parts_table():
    """What has to be reported by whom: class -> builders of constructor arguments."""

    def nodes(names, kw=()):
        def make(d, st):
            args, need = [], []
            for n in names:
                r, st = d.node(st)
                args.append(r)
                need.append((n, r))
            k = {}
            for n, v in kw:
                if v == "node":
                    r, st = d.node(st)
                    k[n] = r
                    need.append(("the " + n.replace("_", " "), r))
                elif v == "nodes":
                    rs = []
                    for _ in range(2):
                        r, st = d.node(st)
                        rs.append(r)
                        need.append(("an element of " + n.replace("_", " "), r))
                    k[n], st = st.new_obj("list", None, tuple(rs))
                elif v == "tok":
                    k[n] = fresh("t", "tok")
                elif v == "part":
                    k[n], st = d.node(st)
                else:
                    k[n] = v
            return args, k, need, st

        return make

    T = []
    for c in ("WhereClause", "HavingClause"):
        T.append((c, nodes(["its condition"]), ()))
    for n in (1, 2, 3):
        arg = ["an argument"] * n
        T.append(("OrderByClause", nodes(["an item"] * n), ("exprs",)))
        T.append(("Parenthesis", nodes(["an element"] * n), ()))

        def call(d, st, cls=None, n=n, **kw):
            args, k, need, st = nodes(["an argument"] * n)(d, st)
            return [fresh("f", "tok")] + args, k, need, st

        T.append(("FunctionCall", call, ()))
        for dis in (TRUE, FALSE):
            T.append(("CountFunctionCall", nodes(arg, (("distinct", dis),)), ()))
    T.append(("OrderByItem", nodes(["its expression"], (("has_asc", TRUE),)), ("exprs",)))
    T.append(("OrderByItem", nodes(["its expression"]), ("exprs",)))
    T.append(("CastFunctionCall", nodes(["its argument"], (("cast_type", "part"),)), ()))
    T.append(("ArrayAggFunctionCall", nodes(["its argument"], (("distinct", TRUE), ("order_bys", "part"), ("limit", K(3)))), ()))
    T.append(("ArrayAggFunctionCall", nodes(["its argument"]), ()))
    T.append(("FilteredFunctionCall", nodes(["the function call", "the filter condition"]), ()))
    for pb in ("nodes", NONE):
        for ob in ("node", NONE):
            for fr in ("part", NONE):
                T.append(("AnalyticsClause", nodes(["the function"], (("partition_by", pb), ("order_by", ob), ("frame_clause", fr))), ()))

    def cond(d, st):
        a, st = d.node(st)
        b, st = d.node(st)
        return [a, fresh("op", "tok"), b], {}, [("the left operand", a), ("the right operand", b)], st

    T.append(("Condition", cond, ()))

    def boolean(n, word):
        def make(d, st):
            t, st = d.tok(st, word)
            args, k, need, st = nodes(["an operand"] * n)(d, st)
            return [t] + args, k, need, st

        return make

    for n in (1, 2, 3):
        for w in ("and", "or"):
            T.append(("BooleanCondition", boolean(n, w), ()))

    def alias(as_):
        def make(d, st):
            e, st = d.node(st)
            return [e, fresh("a", "tok"), kbool(as_)], {}, [("the expression", e)], st

        return make

    T.append(("Alias", alias(True), ()))
    T.append(("Alias", alias(False), ()))
    return T


# --- V02 ------------------------------------------------------------------------------------


def split_cond(I, st, lin):
    """States in which lin >= 0 / < 0 -> [(bool, state)]"""
    out = []
    for b, op in ((True, "ge"), (False, "lt")):
        s = F.refine_lin(st, lin, op)
        if s is not None:
            out.append((b, s))
    return out


def run_range(prog, cls, limit_all, h, n=1):
    """LIMIT, OFFSET, and positions in GROUP BY and ORDER BY."""
    d, I, st = start(prog, {"only": ("Parenthesis", "Integer"), "depth": 3 if n == 1 else 1, "apart": 1}, h)
    where = label(cls, "")
    refs = []
    for i in range(n):
        r, st = d.node(st)
        refs.append(r)
    extra = ()
    if cls == "LimitClause":
        args = [TRUE, NONE] if limit_all else [FALSE, refs[0]]
    elif cls == "OffsetClause":
        args = [refs[0]]
    else:
        args = list(refs)
        extra = ("exprs",)
    kw = {}
    if cls == "OrderByItem":
        kw = {"has_asc": fresh("asc", "bool"), "has_desc": fresh("desc", "bool")}
    elif cls == "GroupByClause":
        kw = {"rollup": fresh("rollup", "bool")}
    for ref, s in build(I, cls, args, kw, st):
        g, s = fields(d, s)
        a = [g]
        count = None
        if extra:
            sym = fresh("exprs")
            l, s = s.new_obj("list", None, (Seg(sym, None),))
            a.append(l)
            count = App("len", (sym,), "int")
            s = F.set_iv(s, count, 0, None)
        rets = validate(d, I, ref, a, {}, s)
        if not rets:
            d.viol.setdefault(("V02", cls, "raises"), "%s fails on every %s" % (where, "LIMIT ALL" if limit_all else "argument"))
        for v, s2 in rets:
            parts, own = d.found(I, v, s2)
            cases = [(0, s2)]
            known = True
            for r in refs if not limit_all else ():
                c, k = core(d, r, s2)
                nxt = []
                for want, s3 in cases:
                    o = s3.obj(c)
                    if short(k) == "Integer":
                        if o.kind == "inst":
                            val = o.data["value"]
                            lo = lin_add(val, K(1), -1) if extra else lin_add(val, K(0), 1)
                            for b, s4 in split_cond(I, s3, lo):
                                if b and extra:
                                    for b2, s5 in split_cond(I, s4, lin_add(count, val, -1)):
                                        nxt.append((want + (not b2), s5))
                                else:
                                    nxt.append((want + (not b), s4))
                        else:
                            # the number itself was never looked at
                            nxt += [(want, s3), (want + 1, s3)]
                    elif extra:
                        nxt.append((want, s3))
                    else:
                        nxt.append((want + 1, s3))
                cases = nxt
            for want, s3 in cases:
                if bool(want) != bool(own) or (extra and want != own):
                    what = "accepts" if own < want else "rejects"
                    d.viol.setdefault(
                        ("V02", cls, what, limit_all),
                        "%s %s %s" % (where, what, describe(d, refs, s3, extra, limit_all)),
                    )
    return d, I


def describe(d, refs, st, extra, limit_all):
    if limit_all:
        return "LIMIT ALL"
    kinds = set()
    for r in refs:
        c, k = core(d, r, st)
        if short(k) == "Integer":
            kinds.add("an integer " + ("position that is" if extra else "that is") )
        else:
            kinds.add("an argument that is not an integer")
    if len(kinds) == 1 and not next(iter(kinds)).endswith("is"):
        return next(iter(kinds))
    return "an integer on the wrong side of its bound"


# --- V03 ------------------------------------------------------------------------------------


def run_types(prog, cls, n, between, h):
    d, I, st = start(prog, {}, h)
    where = label(cls, "")
    refs = []
    for i in range(n):
        r, st = d.node(st)
        refs.append(r)
    args = list(refs)
    if cls == "BooleanCondition":
        t, st = d.tok(st, "and", "or")
        args = [t] + args
    kw = {"is_between_predicate": TRUE} if between else {}
    for ref, s in build(I, cls, args, {}, st):
        g, s = fields(d, s)
        for v, s2 in validate(d, I, ref, [g], kw, s):
            parts, own = d.found(I, v, s2)
            want, opts = 0, 0
            for r in refs:
                t = s2.obj(r).data.get("rrt")
                if between:
                    continue
                if t is None:
                    opts += 1
                elif t.name not in ("bool", "object"):
                    want += 1
            if opts or want != own:
                what = (
                    "does not look at the type of an operand" if opts else
                    "reports %d type errors where there %s %d" % (own, "is" if want == 1 else "are", want)
                )
                d.viol.setdefault(("V03", cls, between), "%s %s%s" % (where, what, " (bounds of BETWEEN)" if between else ""))
    return d, I


# the operators the parser gives a condition
BETWEEN = ("between", "not between")
OPERATORS = BETWEEN + (
    "=", ">", "<", "<=", ">=", "!=", "<>", "is", "is not", "like", "not like", "in", "not in", "not", "contains",
)


def run_between(prog, h):
    """Condition tells its right operand whether it holds the bounds of BETWEEN."""
    d, I, st = start(prog, {}, h)
    where = label("Condition", "")
    a, st = d.node(st)
    b, st = d.node(st)
    st0 = st
    for op in [w for o in OPERATORS for w in dict.fromkeys((o, o.upper(), o.title()))]:
        for ref, s in build(I, "Condition", [a, K(op), b], {}, st0):
            g, s = fields(d, s)
            for v, s2 in validate(d, I, ref, [g], {}, s):
                for rec in s2.mon["calls"].items:
                    who, vals, kws = rec.items
                    if who != b:
                        continue
                    flag = any(kv.items[0] == K("is_between_predicate") and kv.items[1] == TRUE for kv in kws.items)
                    if not flag and len(vals.items) > 1 and vals.items[1] == TRUE:
                        flag = True
                    if flag and op.lower() not in BETWEEN:
                        d.viol.setdefault(("V03", "between", 1), "%s: the right operand is treated as bounds of BETWEEN although the operator is not BETWEEN" % where)
                    if not flag and op.lower() in BETWEEN:
                        d.viol.setdefault(("V03", "between", 0), "%s: the bounds of BETWEEN are treated as operands of AND" % where)
    return d, I


RETURN = {
    "String": (["s", "q"], "str"), "Null": ([], "NoneType"), "Boolean": (["bool"], "bool"),
    "Integer": (["int"], "int"), "Float": (["float"], "float"),
    "Condition": (["node", "s", "node"], "bool"), "BooleanCondition": (["and", "node", "node"], "bool"),
    "Negation": (["node"], "bool"), "Column": (["s"], "object"), "FunctionCall": (["s", "node"], "object"),
    "Parenthesis": (["node"], "part"), "Alias": (["node", "s", "flag"], "part"),
    "ChainedColumns": (["any", "node"], "part"),
}


def run_return(prog, h):
    d, I, st0 = start(prog, {}, h)
    n = 0
    for cls, (spec, want) in RETURN.items():
        st = st0
        args, part = [], None
        for x in spec:
            if x in ("node", "any"):
                r, st = d.node(st)
                if x == "node" and (part is None):
                    part = r
                args.append(r)
            elif x == "s":
                args.append(fresh("s", "tok"))
            elif x == "q":
                args.append(K("'"))
            elif x == "bool":
                t, st = d.tok(st, "true", "false", "yes", "no")
                args.append(t)
            elif x == "and":
                args.append(K("and"))
            elif x == "int":
                args.append(K(1))
            elif x == "float":
                args.append(K(1.5))
            elif x == "flag":
                args.append(TRUE)
        for ref, s in build(I, cls, args, {}, st):
            for v, s2 in watch(d, I, lambda st: I.getattr(ref, "return_type", st, None), s.push(ref), (), cls + ".return_type"):
                n += 1
                w = s2.obj(part).data.get("rt") if want == "part" else Cls(want)
                if not isinstance(v, Cls):
                    raise AnalysisError("type of %s" % cls)
                if v != w:
                    d.viol.setdefault(("V03", "type", cls), "%s.return_type is not %s" % (cls, "that of its part" if want == "part" else want))
    return d, I


def run_resolve(prog, n, h):
    """Expression.resolve_return_type: the type of the field of that name, else its own."""
    d, I, st = start(prog, {"apart": 1}, h)
    for ref, s in build(I, "Column", [fresh("name", "str")], {}, st):
        name = s.obj(ref).data["value"]
        kws = I.class_attr(SQL + ":Column", "KEYWORDS")
        if kws is not None:
            # printed in upper case
            s = F.refine_in(s, name, [K(x) for x in d.consts(I, kws[0], s)], False)
        fs, s = field_set(d, I, n, s)
        def go(st):
            for m, s1 in I.getattr(ref, "resolve_return_type", st, None):
                yield from I.call(m, [fs], {}, s1, None)

        if 1:
            for v, s2 in watch(d, I, go, s.push(ref, fs), [fs], "Column.resolve_return_type"):
                items = s2.obj(fs).data
                hits = []
                cases = [((), s2)]
                txt = None
                for f in items:
                    nm = s2.obj(f).data["name"]
                    nxt = []
                    for bs, c in cases:
                        for b, c2 in eq(I, nm, name, c):
                            nxt.append((bs + (b,), c2))
                    cases = nxt
                for bs, c in cases:
                    types = [c.obj(f).data["type"] for f, b in zip(items, bs) if b]
                    odd = False
                    if len(types) > 1 and v != Cls("object"):
                        # several types: which one holds is not known
                        odd = any(not b for x in types[1:] for b, _ in eq(I, types[0], x, c))
                    if odd or not types and v != Cls("object") or types and len(types) == 1 and v != types[0]:
                        d.viol.setdefault(("V03", "resolve"), "Column.resolve_return_type is not the type of the field of that name")
    return d, I


# --- V04 ------------------------------------------------------------------------------------


def eq(I, a, b, st):
    from . import builtin

    res = []
    for v, s in builtin.compare(I, "==", a, b, st, None):
        res += list(I.truth(v, s, None))
    return res


def field_set(d, I, n, st):
    items = []
    for i in range(n):
        for ref, s in I.instantiate(Cls(SQL + ":_FieldInfo"), [fresh("f%d" % i, "str"), fresh("ft%d" % i, "type")], {}, st, None):
            items.append(ref)
            st = s
    return st.new_obj("set", None, tuple(items))


def run_column(prog, n, h):
    d, I, st = start(prog, {"apart": 1}, h)
    where = label("Column", "")
    shapes = {}
    for ref, s in build(I, "Column", [fresh("name", "str")], {}, st):
        val = s.obj(ref).data["value"]
        fs, s = field_set(d, I, n, s)
        for v, s2 in validate(d, I, ref, [fs], {}, s):
            parts, own = d.found(I, v, s2)
            names = [s2.obj(f).data["name"] for f in s2.obj(fs).data]
            cases = [((), s2)]

            def ask(cases, a, b):
                return [(bs + (x,), c2) for bs, c in cases for x, c2 in eq(I, a, b, c)]

            cases = ask(cases, val, K("*"))
            for nm in names:
                cases = ask(cases, nm, val)
                cases = ask(cases, nm, K("*"))
                nxt = []
                for bs, c in cases:
                    for b, c2 in I.truth(App("contains", (nm, K(".")), "bool"), c, None):
                        tail = App("after", (nm, K(".")), "str") if b else nm
                        for x, c3 in eq(I, tail, val, c2):
                            nxt.append((bs + (x,), c3))
                cases = nxt
            for bs, c in cases:
                star, rest = bs[0], bs[1:]
                same = [rest[3 * i] for i in range(len(names))]
                open_ = [rest[3 * i + 1] for i in range(len(names))]
                tails = sum(rest[3 * i + 2] for i in range(len(names)))
                ok = star or any(same) or any(open_) or tails == 1
                if ok and own:
                    kind = "rejects a column that %s" % (
                        "is *" if star else "is a field of the source" if any(same) else
                        "belongs to an open-ended source" if any(open_) else "exactly one aliased field has the name of"
                    )
                elif not ok and own != 1:
                    kind = "reports a column that %s %d times" % ("no field has the name of" if not tails else "several fields have the name of", own)
                else:
                    if not ok:
                        x = s2.obj(v).data[-1]
                        shapes.setdefault(bool(tails), set()).add(skeleton(x))
                    continue
                d.viol.setdefault(("V04", "column", kind), "%s %s" % (where, kind))
    if len(shapes) == 2 and shapes[True] & shapes[False]:
        d.viol.setdefault(("V04", "column", "mixed"), "%s reports an ambiguous column as missing or the reverse" % where)
    return d, I


def run_group(prog, n, m, side, h):
    """A column in GROUP BY: n fields of the source, m select expressions; next to a position or alone."""
    d, I, st = start(prog, {"apart": 1, "only": ("Alias", "Column", "Parenthesis", "Integer")}, h)
    where = label("GroupByClause", "")
    shapes = {}
    exprs = []
    for i in range(m):
        r, st = d.node(st)
        exprs.append(r)
    el, st = st.new_obj("list", None, tuple(exprs))
    for col, s0 in build(I, "Column", [fresh("name", "str")], {}, st.push(el)):
        val = s0.obj(col).data["value"]
        args, s0 = [col], s0.push(col)
        if side:
            (one, s0), = build(I, "Integer", [K(1)], {}, s0)
            s0 = s0.push(one)
            args = [col, one] if side == "first" else [one, col]
        for ref, s in build(I, "GroupByClause", args, {}, s0):
            fs, s = field_set(d, I, n, s)
            for v, s2 in validate(d, I, ref, [fs, el], {}, s):
                parts, own = d.found(I, v, s2)
                names = [s2.obj(f).data["name"] for f in s2.obj(fs).data]
                aliases = []
                unknown = False
                for e in exprs:
                    o = s2.obj(e)
                    if short(o.cls) == "Alias" and o.kind == "inst":
                        aliases.append(o.data["__src"].items[0])
                    elif o.kind == "node" and not (o.cls or o.data["neg"].items):
                        unknown = True  # never looked at
                cases = [((), s2)]

                def ask(cases, a, b):
                    return [(bs + (x,), c2) for bs, c in cases for x, c2 in eq(I, a, b, c)]

                for al in aliases:
                    cases = ask(cases, al, val)
                for nm in names:
                    cases = ask(cases, nm, val)
                    cases = ask(cases, nm, K("*"))
                    nxt = []
                    for bs, c in cases:
                        for b, c2 in I.truth(App("contains", (nm, K(".")), "bool"), c, None):
                            tail = App("after", (nm, K(".")), "str") if b else nm
                            for x, c3 in eq(I, tail, val, c2):
                                nxt.append((bs + (x,), c3))
                    cases = nxt
                for bs, c in cases:
                    al, rest = bs[: len(aliases)], bs[len(aliases) :]
                    same = [rest[3 * i] for i in range(len(names))]
                    open_ = [rest[3 * i + 1] for i in range(len(names))]
                    tails = sum(rest[3 * i + 2] for i in range(len(names)))
                    ok = any(al) or any(same) or any(open_) or tails == 1
                    kind = None
                    if ok and own:
                        kind = "rejects a column that %s" % (
                            "is an alias of the select list" if any(al) else "is a field of the source" if any(same) else
                            "belongs to an open-ended source" if any(open_) else "exactly one aliased field has the name of"
                        )
                    elif not ok and own != 1 and not unknown:
                        kind = "reports a column that %s %d times" % ("no field has the name of" if not tails else "several fields have the name of", own)
                    elif not ok and own == 1:
                        shapes.setdefault(bool(tails), set()).add(skeleton(s2.obj(v).data[-1]))
                    if kind:
                        d.viol.setdefault(("V04", "group", kind), "%s %s" % (where, kind))
    if len(shapes) == 2 and shapes[True] & shapes[False]:
        d.viol.setdefault(("V04", "group", "mixed"), "%s reports an ambiguous column as missing or the reverse" % where)
    return d, I


def skeleton(x):
    if isinstance(x, K):
        return str(x.v)
    return "|".join(p for p in str_parts(x) if isinstance(p, str))


def run_chained(prog, n, k, h):
    d, I, st = start(prog, {"apart": 1}, h)
    where = label("ChainedColumns", "")
    cols = []
    for i in range(k):
        r, st = d.node(st)
        cols.append(r)

    def dotted(refs):
        parts = []
        for i, r in enumerate(refs):
            if i:
                parts.append(".")
            parts.append(App("rend", (r,), "str"))
        return parts

    for ref, s in build(I, "ChainedColumns", cols, {}, st):
        fs, s = field_set(d, I, n, s)
        for v, s2 in validate(d, I, ref, [fs], {}, s):
            parts, own = d.found(I, v, s2)
            names = [s2.obj(f).data["name"] for f in s2.obj(fs).data]
            full = mkstr(dotted(cols))
            alias = mkstr(dotted(cols[:-1]) + [".*"])
            cases = [((), s2)]
            for nm in names:
                for b in (full, alias, K("*")):
                    cases = [(bs + (x,), c2) for bs, c in cases for x, c2 in eq(I, nm, b, c)]
            for bs, c in cases:
                ok = any(bs)
                if ok and own:
                    d.viol.setdefault(("V04", "chained", 0), "%s rejects a column its alias provides or an open-ended source" % where)
                elif not ok and own != 1:
                    d.viol.setdefault(("V04", "chained", 1), "%s reports a missing column %d times" % (where, own))
    return d, I


# what a FROM source provides


def names_of(I, v, st):
    """The fields in a set: [(name, type)] sorted by their description."""
    o = st.obj(v)
    if o.kind != "set":
        raise AnalysisError("known_fields is %r" % (o,))
    out = []
    for x in o.data:
        if not isinstance(x, Ref) or st.obj(x).kind != "inst":
            raise AnalysisError("unknown fields")
        d = st.obj(x).data
        out.append((d["name"], d["type"]))
    return out


def same_fields(I, got, want, st):
    """Are the two field lists equal as sets on every refinement? -> missing name or None"""
    for a, b, what in ((want, got, "lacks"), (got, want, "has besides")):
        for x in a:
            if not any(same_name(I, x[0], y[0], st) and (x[1] is None or y[1] is None or x[1] == y[1]) for y in b):
                return what
    return None


def same_name(I, a, b, st):
    return a == b or all(x for x, _ in eq(I, a, b, st))


def run_known(prog, what, k, h):
    opts = {"apart": 1, "kf": k, "depth": 1}
    if what.startswith("Join"):
        # sides without alias are tables or parentheses
        opts["only"] = ("Parenthesis", "SelectStatement")
    d, I, st = start(prog, opts, h)

    def fields_of(r, s):
        return [(s.obj(f).data["name"], s.obj(f).data["type"]) for f in s.obj(r).data["kf"].items] if "kf" in s.obj(r).data else None

    def alias_of(r, st, how):
        if how == "tok":
            a = fresh("alias", "tok")
            txt = a
        else:
            v = fresh("alias", "str")
            a, st = st.new_obj("inst", SQL + ":String", {"value": v, "quotes": K('"'), "prefix": NONE, "__src": Tup(())})
            txt = mkstr(['"', v, '"'])
        res = build(I, "Alias", [r, a, fresh("as", "bool")], {}, st.push(*( [a] if isinstance(a, Ref) else [])))
        (ref, st), = res
        return ref, txt, st

    def ask(ref, st, label_):
        n = 0
        for v, s in watch(d, I, lambda st: I.getattr(ref, "known_fields", st, None), st, (), label_.split()[0] + ".known_fields"):
            n += 1
            yield v, s

    def judge(cls, v, s, want):
        diff = same_fields(I, names_of(I, v, s), want, s)
        if diff:
            d.viol.setdefault(("V04", "known", cls, diff), "%s.known_fields %s a field it should%s have" % (cls, diff, "" if diff == "lacks" else " not"))

    def prefixed(txt, fs):
        return [(mkstr([txt, ".", n]), t) for n, t in fs]

    if what == "Table":
        r, st = d.node(st)
        for flag in (TRUE, FALSE):
            for ref, s in build(I, "Table", [r, flag], {}, st):
                for v, s2 in ask(ref, s.push(ref), what):
                    judge(what, v, s2, [(K("*"), None)])
    elif what in ("Alias tok", "Alias String"):
        r, st = d.node(st)
        ref, txt, st = alias_of(r, st, what.split()[1])
        for v, s in ask(ref, st.push(ref, r), what):
            judge("Alias", v, s, prefixed(txt, fields_of(r, s) or []))
    elif what.startswith("Join"):
        _, hl, hr = what.split()
        a, st = d.node(st)
        b, st = d.node(st)
        st = st.push(a, b)
        L, lt, R, rt = a, None, b, None
        if hl != "plain":
            L, lt, st = alias_of(a, st, hl)
            st = st.push(L)
        if hr != "plain":
            R, rt, st = alias_of(b, st, hr)
            st = st.push(R)
        for ref, s0 in build(I, "Join", [fresh("join", "tok"), L, R, NONE, NONE], {}, st):
            for v, s in ask(ref, s0.push(ref), what):
                want = []
                for r, txt in ((a, lt), (b, rt)):
                    fs = fields_of(r, s)
                    if fs is None:
                        d.viol.setdefault(("V04", "known", "Join"), "Join.known_fields leaves out the fields of one side")
                        continue
                    # an alias that a plain side turns out to be is not modelled further
                    want += prefixed(txt, fs) if txt is not None else fs
                judge("Join", v, s, want)
    elif what == "Parenthesis":
        r, st = d.node(st)
        for ref, s0 in build(I, what, [r], {}, st):
            for v, s in ask(ref, s0.push(ref, r), what):
                if s.obj(r).data.get("has_known_fields") != FALSE:
                    judge(what, v, s, fields_of(r, s) or [])
    return d, I


def run_known_select(prog, n, source, k, h):
    """The fields of a SELECT: names of its columns and aliases; * stands for the subquery's fields."""
    d, I, st = start(prog, {"apart": 1, "kf": k, "depth": 1, "only": ("Column", "Alias", "Parenthesis", "SelectStatement")}, h)
    exprs = []
    for i in range(n):
        r, st = d.node(st)
        exprs.append(r)
    el, st = st.new_obj("list", None, tuple(exprs))
    st = st.push(el)
    inner = None
    src = NONE
    if source == "subquery":
        inner, st = d.node(st, d.sqlcls("SelectStatement"))
        (src, st), = build(I, "Parenthesis", [inner], {}, st)
        st = st.push(inner, src)
    elif source == "other":
        src, st = d.node(st, d.sqlcls("Table"))
        st = st.push(src)
    for ref, s0 in build(I, "SelectStatement", [], {"expressions": el, "from_statement": src}, st):
        for v, s in watch(d, I, lambda st: I.getattr(ref, "known_fields", st, None), s0.push(ref), (), "SelectStatement.known_fields"):
            want, star = [], [((), s)]
            for e in exprs:
                o = s.obj(e)
                if o.kind != "inst":
                    continue
                if short(o.cls) == "Column":
                    want.append((o.data["value"], None))
                elif short(o.cls) == "Alias":
                    want.append((o.data["__src"].items[0], None))
            cases = [((), s)]
            for w in want:
                cases = [(bs + (b,), c2) for bs, c in cases for b, c2 in eq(I, w[0], K("*"), c)]
            got = names_of(I, v, s)
            for bs, c in cases:
                exp = list(want)
                if inner is not None and any(bs):
                    if "kf" not in c.obj(inner).data:
                        d.viol.setdefault(("V04", "known", "select"), "SelectStatement.known_fields does not look at the subquery that * stands for")
                        continue
                    sub = [(c.obj(f).data["name"], None) for f in c.obj(inner).data["kf"].items]
                    subs = [((), c)]
                    for w in sub:
                        subs = [(b2 + (b,), c3) for b2, c2 in subs for b, c3 in eq(I, w[0], K("*"), c2)]
                else:
                    sub, subs = [], [((), c)]
                for b2, c2 in subs:
                    exp = list(want)
                    if inner is not None and any(bs) and not any(b2):
                        exp = [w for w, b in zip(want, bs) if not b] + sub
                    diff = same_fields(I, [(x, None) for x, _ in got], exp, c2)
                    if diff:
                        d.viol.setdefault(("V04", "known", "select", diff), "SelectStatement.known_fields %s a field it should%s have" % (diff, "" if diff == "lacks" else " not"))
    return d, I
