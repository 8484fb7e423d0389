"""A05: whatever the parser builds can be validated.

Every node a parser function returns is validated abstractly on the spot: validate(), the
types it says it has and the fields it offers.  Its parts are unknown: what is asked of a
part (an attribute, a call with such and such arguments) is noted, together with what is
known of the part, and compared afterwards with the classes that the parser functions build.
"""
import ast

from . import facts as F
from .gram import CONTRACT, Gram, LEX, SQL, short
from .loader import AnalysisError
from .sqlval import Val, field_set
from .vals import *  # noqa

RT = (Cls("object"), Cls("int"))
OPENED = ("Integer", "Column", "String", "Parenthesis", "Alias")
ASKED = ("validate", "return_type", "resolve_return_type", "known_fields")


class Valid(Gram):
    validating = False

    def __init__(self, root, opts=None):
        Gram.__init__(self, root, opts)
        self.given = {}
        self.seen = set()
        self.lenient = None
        self.asked = {}  # (class or None, excluded classes, what) -> where
        self.fails = {}  # (class, what, needs an empty part) -> message
        self.built = set()

    # --- while validating ---------------------------------------------------------------

    def intercept(self, I, f, args, kw, st, node):
        if not self.validating:
            return Gram.intercept(self, I, f, args, kw, st, node)
        if f.module == SQL and f.qualname == "transform":
            return [(App("rend", (args[0],), "str"), st)] if args and isinstance(args[0], Ref) else None
        if f.module == SQL and f.cls and args and isinstance(args[0], Ref) and args[0] != self.whole:
            o = st.obj(args[0])
            if o.kind == "inst" and short(o.cls) not in ("_FieldInfo",):
                if f.name == "validate":
                    return self.part_validated(I, args[0], args[1:], kw, st)
                if f.name in ("resolve_return_type",):
                    return self.a_type(args[0], "rrt", st)
        return None

    def a_type(self, ref, key, st):
        o = st.obj(ref)
        return Val.fork(self, ref, "__" + key if o.kind == "inst" else key, RT, st)

    def part_validated(self, I, ref, args, kw, st):
        kinds = tuple(self.kind(a, st) for a in args) + tuple((k, self.kind(v, st)) for k, v in sorted(kw.items()))
        self.ask(I, ref, ("validate", kinds), st)
        out, st = st.new_obj("list", None, (Val.part_seg(self, "errors", ref),))
        return [(out, st)]

    @staticmethod
    def kind(v, st):
        if v == NONE:
            return "None"
        if isinstance(v, Ref):
            return {"node": "node", "inst": "node"}.get(st.obj(v).kind, st.obj(v).kind)
        if isinstance(v, Tup):
            return "tuple"
        return "other"

    def ask(self, I, ref, what, st):
        if I.fn is not None and any(isinstance(n, ast.Try) for n in ast.walk(I.fn.node)):
            return  # may be prepared for what is not there
        o = st.obj(ref)
        was = o.data.get("was") if o.kind == "node" else None
        cls = o.cls or (was.name if was is not None else None)
        neg = () if cls or o.kind != "node" else tuple(sorted(x.name for x in o.data["neg"].items))
        org = o.data["org"].v if o.kind == "node" else "expr"
        self.asked.setdefault((cls, org, neg, what, self.lenient), I.fn.qualname if I.fn else self.root)

    def opaque_attr(self, I, ref, obj, name, st, node):
        if not self.validating or obj.kind != "node":
            return Gram.opaque_attr(self, I, ref, obj, name, st, node)
        if name in ("validate", "resolve_return_type", "transform", "__str__"):
            return [(App("method", (ref, K(name)), "any"), st)]
        known = obj.cls or ("was" in obj.data and obj.data["was"].name)
        if obj.data.get("has_" + name) != TRUE and isinstance(node, ast.Attribute) and node.attr == name:
            self.ask(I, ref, ("attribute", name), st)
        if known and name not in ("return_type", "known_fields") and short(known) in OPENED:
            a = I.class_attr(known, name)
            if a is not None and not isinstance(a[0], (Fn, Wrap)):
                return [(a[0], st)]
            res = []
            for s in self.open(I, ref, obj, known, st, node):
                res.extend(I.getattr(s.stack[-1], name, s.pop(), node))
            return res
        if name == "return_type":
            return self.a_type(ref, "rt", st)
        if name == "known_fields":
            res = []
            for n in (0, 1):
                out, s = field_set(self, I, n, st)
                res.append((out, s))
            return res
        if name == "__class__" and known:
            return [(Cls(known), st)]
        if not known:
            raise AnalysisError("attribute %s of an unknown part" % name)
        a = I.class_attr(known, name)
        if a is not None and not isinstance(a[0], (Fn, Wrap)):
            return [(a[0], st)]
        res = []
        for s in self.schema(I, ref, st.push(ref).set_obj(ref.oid, Obj("node", known, obj.data)), node):
            r = s.stack[-1]
            res.extend(I.getattr(r, name, s.pop(), node))
        return res

    def open(self, I, ref, obj, known, st, node):
        """Fields of a part of a class that validation looks into."""
        c = short(known)
        st = st.set_obj(ref.oid, Obj("node", known, obj.data)).push(ref)
        if c == "Parenthesis":
            res = []
            for n in (0, 1, 2):
                s, a = st, []
                for i in range(n):
                    r, s = self.node(s, None, "expr", obj.data["dep"].v + 1)
                    a.append(r)
                if not n:
                    s = s.set_mon("needs", Tup(s.mon["needs"].items + (K("empty from" if obj.data["org"].v == "from" else "empty"),)))
                d = {"args": Tup(tuple(a)), "__src": Tup(tuple(a))}
                res.append(s.set_obj(ref.oid, Obj("inst", known, d)))
            return res
        return Val.schema(self, I, ref, st, node)

    def sym_call(self, I, v, args, kw, st, node):
        if not self.validating:
            return Gram.sym_call(self, I, v, args, kw, st, node)
        if isinstance(v, App) and v.op == "method":
            ref, name = v.args
            if name.v == "validate":
                return self.part_validated(I, ref, args, kw, st)
            if name.v == "resolve_return_type":
                self.ask(I, ref, ("attribute", name.v), st)
                return self.a_type(ref, "rrt", st)
            return [(App("rend", (ref,), "str"), st)]
        return None

    def external(self, I, name, recv, args, kw, st, node):
        if not self.validating:
            return Gram.external(self, I, name, recv, args, kw, st, node)
        if name == "isinstance" and self.is_node(st, recv):
            o = st.obj(recv)
            if o.cls is None and "closed" in o.data:
                return [(FALSE, st)]
            if o.cls is None and "was" in o.data:
                return [(kbool(I.is_subclass(o.data["was"].name, args[0].name)), st)]
            if o.cls is None and short(args[0].name) == "Expression":
                return Val.fork(self, recv, "has_Expression", [TRUE, FALSE], st)
            if o.cls is None and short(args[0].name) == "SelectStatement" and o.data["dep"].v >= 3:
                return [(FALSE, st)]
            return self.isinst(I, recv, args[0], st, node)
        if name == "hasattr" and self.is_node(st, recv):
            o = st.obj(recv)
            k = o.cls or ("was" in o.data and o.data["was"].name)
            a = k and I.class_attr(k, args[0].v)
            if a and not isinstance(a[0], Wrap):
                return [(TRUE, st)]
            if k and not a and args[0].v not in own(I, k):
                return [(FALSE, st)]
            return list(Val.fork(self, recv, "has_" + args[0].v, [TRUE, FALSE], st))
        if name == "setattr" and self.is_node(st, recv):
            raise AnalysisError("validation changes a part")
        if name == "str" and self.is_node(st, recv):
            return [(App("rend", (recv,), "str"), st)]
        if name.startswith("str.") and isinstance(recv, (Sym, App)):
            return Val.strop(self, I, name[4:], recv, args, kw, st, node)
        return None

    def normalise(self, I, st, node):
        return [st] if self.validating else Gram.normalise(self, I, st, node)

    def keep_was(self, I, cls):
        return short(cls) == "BooleanCondition"  # the only one told that it is part of BETWEEN

    def fold(self, I, ref, st, node):
        old, n = st, self.stats["folded"]
        st = Gram.fold(self, I, ref, st, node)
        if self.stats["folded"] > n:
            self.walk(I, ref, old, self.root[: -len(".parse")], I.fn.qualname == self.root)
        return st

    def on_assign(self, I, name, v, st, node):
        return st if self.validating else Gram.on_assign(self, I, name, v, st, node)

    # --- at the end of a parser function ------------------------------------------------------

    def shape(self, v, st, deep=0):
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == "node":
                was = o.data.get("was")
                return ("node", o.cls or (was and was.name), o.data["neg"])
            if o.kind in ("inst",) and deep < 6:
                return (o.cls,) + tuple((k, self.shape(x, st, deep + 1)) for k, x in sorted(o.data.items()) if not k.startswith("__"))
            if o.kind in ("list", "iter") and isinstance(o.data, tuple):
                return (o.kind,) + tuple(self.shape(x, st, deep + 1) for x in o.data)
            return (o.kind, o.cls)
        if isinstance(v, Tup):
            return ("tup",) + tuple(self.shape(x, st, deep + 1) for x in v.items)
        if isinstance(v, (K, Cls)):
            return v
        if isinstance(v, (Sym, App)):
            f = self.fact(st, v) if v.sort == "tok" else None
            return ("?", v.sort, f and tuple(sorted(f)))
        return type(v).__name__

    def finish(self, I, v, st):
        self.stats["exits"] += 1
        name = self.root[: -len(".parse")]
        shape = CONTRACT[name][1]
        if shape == "pair" and isinstance(v, Tup):
            v = v.items[0]
        if shape == "list":
            return
        if not isinstance(v, Ref):
            raise AnalysisError("%s returns %r" % (self.root, v))
        self.walk(I, v, st, name, True)

    def walk(self, I, v, st, name, top=False):
        o = st.obj(v)
        if o.kind == "node":
            self.built.add((name, o.cls or (o.data["was"].name if "was" in o.data else None), None))
            return
        if o.kind != "inst" or not (o.cls or "").startswith(SQL + ":"):
            return
        n = o.data.get("args")
        if isinstance(n, Ref) and st.obj(n).kind == "list":
            n = Tup(st.obj(n).data)
        empty = short(o.cls) == "Parenthesis" and isinstance(n, Tup) and not n.items
        if short(o.cls) == "Alias" and "__src" not in o.data:
            self.built.add((name, None, self.alias(o, st)))
        if top:
            self.built.add((name, o.cls, None))
        if empty:
            self.built.add((name, None, "empty from" if name == "FromStatementParser" else "empty"))
        k = self.shape(v, st)
        if k not in self.seen:
            self.seen.add(k)
            self.stats["validated"] = self.stats.get("validated", 0) + 1
            self.check(I, v, st, name)
        todo = list(o.data.values())
        while todo:
            x = todo.pop()
            if isinstance(x, Tup):
                todo += x.items
            elif isinstance(x, Ref) and st.obj(x).kind == "list":
                todo += st.obj(x).data
            elif isinstance(x, Ref) and st.obj(x).kind == "inst" and "__src" not in st.obj(x).data:
                self.walk(I, x, st, name)

    def alias(self, o, st):
        a = o.data.get("alias")
        return "Alias %s %s" % ("as" if o.data.get("with_as") == TRUE else "", "part" if isinstance(a, Ref) else "word")

    def special(self, v, st):
        """What a tree takes for granted about nodes that were built elsewhere."""
        out, todo, seen = [], [v], set()
        while todo:
            x = todo.pop()
            if isinstance(x, Tup):
                todo += x.items
            elif isinstance(x, Ref) and x not in seen:
                seen.add(x)
                o = st.obj(x)
                if o.kind == "list":
                    todo += o.data
                elif o.kind == "inst":
                    todo += [y for k, y in o.data.items() if not k.startswith("__")]
                    if short(o.cls) == "Alias" and "__src" in o.data and not self.root.startswith("FromStatement"):
                        out.append(K(self.alias(o, st)))
        return tuple(sorted(set(out), key=repr))

    def frozen(self, st, v):
        """The lists of a tree as tuples: validation changes none."""
        o = st.obj(v)
        if o.kind != "inst":
            return st
        d = dict(o.data)
        for k, x in d.items():
            if isinstance(x, Ref) and st.obj(x).kind == "list" and not k.startswith("__"):
                d[k] = Tup(st.obj(x).data)
        for x in d.values():
            for y in x.items if isinstance(x, Tup) else (x,):
                if isinstance(y, Ref) and st.obj(y).kind == "inst":
                    st = self.frozen(st, y)
        return st.set_obj(v.oid, Obj("inst", o.cls, d))

    def parts(self, v, st):
        out = []
        todo = [v]
        while todo:
            x = todo.pop(0)
            if isinstance(x, Tup):
                todo[:0] = x.items
            elif isinstance(x, Ref):
                o = st.obj(x)
                if o.kind == "node":
                    out.append(x)
                elif o.kind == "list" or x == v:
                    todo[:0] = o.data if o.kind == "list" else list(o.data.values())
        return out

    def method(self, I, cls, name):
        a = I.class_attr(cls, name)
        f = a[0].fn if a and isinstance(a[0], Wrap) else a[0] if a else None
        return I.p.funcs[f.fid] if isinstance(f, Fn) else None

    def check(self, I, v, st, name):
        for s in self.words_of(v, st):
            self.check1(I, v, s, name)

    def words_of(self, v, st):
        """A text made of a word that is one of a few: each of them."""
        o = st.obj(v)
        for k, x in o.data.items():
            if k.startswith("__") or not isinstance(x, Str):
                continue
            for i, p in enumerate(x.parts):
                t = p.args[0] if isinstance(p, App) and p.op in ("lower", "upper") else p
                f = self.fact(st, t) if isinstance(t, (Sym, App)) else None
                if f and len(f) < 8:
                    out = []
                    for w in sorted(f):
                        s = F.refine_in(st, F.low(t), [K(w)], True)
                        if s is None:
                            continue
                        w = w.upper() if isinstance(p, App) and p.op == "upper" else w
                        y = mkstr(list(x.parts[:i]) + [w] + list(x.parts[i + 1:]))
                        s = s.set_obj(v.oid, Obj(o.kind, o.cls, dict(o.data, **{k: y})))
                        out += self.words_of(v, s)
                    return out
        return [st]

    def check1(self, I, v, st, name):
        cls = st.obj(v).cls
        st = St(st.frame, (), dict(st.heap), dict(st.cons), dict(st.mon))
        st = self.frozen(st.set_mon("needs", Tup(self.special(v, st))), v).push(v)
        n = 0
        for x in reversed(self.parts(v, st)):
            n += 1
            o = st.obj(x)
            if n > 1:  # one part is opened, the others are not
                st = st.set_obj(x.oid, Obj("node", o.cls, dict(o.data, closed=TRUE)))
        self.validating, self.whole = True, v
        self.strict_heads = True
        self.phase = "validating"
        old = I.sink
        try:
            for what in ASKED:
                f = self.method(I, cls, what)
                self.lenient = cls if what == "known_fields" else None
                if f is None:
                    continue
                calls = [((), st)]
                if what in ("validate", "resolve_return_type"):
                    calls = list(self.arguments(I, f, st))
                for args, s0 in calls:
                    kinds = tuple(self.kind(a, s0) for a in args)
                    I.sink = []
                    for m, s in I.getattr(v, what, s0, None):
                        rs = I.call(m, list(args), {}, s, None) if what in ("validate", "resolve_return_type") else [(m, s)]
                        for r, s2 in rs:
                            self.stats["returns"] = self.stats.get("returns", 0) + 1
                            self.result(I, cls, what, r, s2)
                    for x in I.sink:
                        e = x.stack[-1]
                        self.stats["raises"] = self.stats.get("raises", 0) + 1
                        needs = frozenset(k.v for k in x.mon["needs"].items)
                        w = "%s of a %s can fail with %s%s%s" % (
                            what, short(cls), short(e.cls),
                            " when it is given None" if "None" in kinds else "",
                            " on empty brackets inside" if needs & {"empty", "empty from"} else "",
                        )
                        soft = what == "known_fields" and short(e.cls) == "AttributeError"
                        self.fails.setdefault((cls, what, kinds if "None" in kinds else None, needs, soft), w)
        finally:
            I.sink = old
            self.validating = False
            self.strict_heads = type(self).strict_heads
            self.phase = "parsing"

    def result(self, I, cls, what, r, st):
        if what == "validate" and not (isinstance(r, Ref) and st.obj(r).kind == "list"):
            self.fails.setdefault((cls, what, None, frozenset(), False), "validate of a %s gives no list" % short(cls))
        if what in ("return_type", "resolve_return_type"):
            if r == NONE:
                needs = frozenset(k.v for k in st.mon["needs"].items)
                self.fails.setdefault((cls, what, None, needs, False), "%s of a %s can be None" % (what, short(cls)))

    def arguments(self, I, f, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if names and names[0] == "self":
            names = names[1:]
        need = len(names) - len(a.defaults)
        if any(d is None for d in a.kw_defaults):
            raise AnalysisError("arguments of %s" % f.qualname)
        for n in (0, 1):
            for more in ("nodes", "none") if need > 1 else ("nodes",):
                s, args = st, []
                for i, x in enumerate(names[:need] or names[:1]):
                    if x == "self":
                        continue
                    if i == 0:
                        v, s = field_set(self, I, n, s)
                    elif more == "none":
                        v = NONE
                    else:
                        rs = []
                        for _ in range(n):
                            r, s = self.node(s)
                            rs.append(r)
                        v, s = s.new_obj("list", None, tuple(rs))
                    args.append(v)
                yield tuple(args), s
        if need < len(names) and need <= 1:
            if not need:
                yield (), st
            for d, x in zip(a.defaults, names[need:]):
                if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                    v, s = field_set(self, I, 1, st)
                    yield (v,) * need + (kbool(not d.value),), s


def judge(prog, classes, I, asked, fails, built):
    """Compare what is asked of the parts with what the parser builds."""
    by = {"expr": set(), "from": set()}
    can = {e for n, _, e in built if e and (n == "ExpressionParser" or e.startswith("empty"))}
    for name, cls, _ in built:
        if cls is None:
            continue
        by["from" if name == "FromStatementParser" else "expr"].add((name, cls))
    exprs = {c for n, c in by["expr"] if n in ("ExpressionParser", "StringParser", "CaseParser", "SelectStatementParser", "SQLStatementParser", "UnnestParser")}
    froms = {c for _, c in by["from"]} | exprs
    given, out, hard = {}, {}, set()

    def missing(c, name):
        return I.class_attr(c, name) is None and name not in own(I, c)

    def cands(cls, org, neg):
        if cls is not None:
            return [cls]
        return sorted(c for c in (froms if org == "from" else exprs) if not any(I.is_subclass(c, x) for x in neg))

    todo = sorted(asked.items(), key=repr)
    # hasattr() looks whether known_fields can be read: only where it is read unasked is it an error
    for (cls, org, neg, what, lenient), where in todo:
        if what == ("attribute", "known_fields") and not lenient:
            hard |= set(cands(cls, org, neg))
    for (cls, org, neg, what, lenient), where in todo:
        if lenient and lenient not in hard:
            continue
        for c in cands(cls, org, neg):
            if what[0] == "attribute":
                if missing(c, what[1]):
                    out.setdefault("%s asks a %s for its %s: there is none" % (where, short(c), what[1]))
            else:
                given.setdefault((c, tuple("None" if k == "None" else "-" for k in what[1])), where)
                msg = fits(I, c, what[1])
                if msg:
                    out.setdefault("%s calls validate of a %s %s" % (where, short(c), msg))
    for (cls, what, kinds, emp, soft), w in fails.items():
        if emp - can or soft and cls not in hard:
            continue
        if kinds is not None:
            k = tuple("None" if x == "None" else "-" for x in kinds)
            if (cls, k) not in given:
                continue
        out.setdefault(w)
    return list(out)


def own(I, cls):
    """Names that the methods of a class give to self."""
    out = set()
    for k in I.mro(cls):
        ci = I.classes.get(k)
        if ci is None:
            continue
        out |= set(ci.attrs)
        for a in ci.attrs.values():
            f = a.fn if isinstance(a, Wrap) else a
            if isinstance(f, Fn):
                for n in ast.walk(I.p.funcs[f.fid].node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
    return out


def fits(I, cls, kinds):
    """Can validate() of this class be called like that?  -> message or None"""
    a = I.class_attr(cls, "validate")
    f = a[0].fn if a and isinstance(a[0], Wrap) else a[0] if a else None
    if f is None:
        return "that has none"
    if not isinstance(f, Fn):
        raise AnalysisError("validate of %s" % cls)
    x = I.p.funcs[f.fid].node.args
    names = [y.arg for y in x.posonlyargs + x.args][1:]
    need = set(names[: len(names) - len(x.defaults)])
    pos = [k for k in kinds if isinstance(k, str)]
    kws = [k[0] for k in kinds if not isinstance(k, str)]
    if len(pos) > len(names) and not x.vararg:
        return "with too many arguments"
    if not x.kwarg and set(kws) - set(names) - {y.arg for y in x.kwonlyargs}:
        return "with the argument %s, which it does not take" % sorted(set(kws) - set(names))[0]
    if need - set(names[: len(pos)]) - set(kws):
        return "without the argument %s" % sorted(need - set(names[: len(pos)]) - set(kws))[0]
    return None


def job(a):
    import signal
    import time

    from .fchecks import JOB_LIMIT, Late
    from .gram import run_gram
    from .loader import Program

    root, o = a
    t = time.time()

    def late(*_):
        raise Late()

    signal.signal(signal.SIGALRM, late)
    signal.alarm(JOB_LIMIT)
    h, err, steps = [], None, 0
    try:
        prog = Program()
        for plan in o.get("plans", o.get("texts", (None,))):
            oo = o if plan is None else dict(o, **{"plan" if "plans" in o else "text": plan})
            d, I, e = run_gram(prog, root + ".parse", oo, h, Valid)
            steps += I.steps
            err = err or e
    except AnalysisError as e:
        err = str(e)
    except Late:
        err = "time limit of %d s" % JOB_LIMIT
    except RecursionError:
        err = "analysis too deep"
    except Exception as e:  # an analysis failure is never a verdict
        err = "internal: %s: %s" % (type(e).__name__, e)
    finally:
        signal.alarm(0)
    asked, fails, built, stats = {}, {}, set(), {}
    for d in h:
        asked.update(d.asked)
        fails.update(d.fails)
        built |= d.built
        for k, v in d.stats.items():
            stats[k] = stats.get(k, 0) + v
    return a, time.time() - t, steps, err, stats, asked, fails, built


def run(pid, tier):
    from . import gchecks
    from .interp import Interp
    from .loader import Program
    from .pool import each

    prog = Program()
    jobs = [x for x in gchecks.g02_jobs(gchecks.tested_classes(prog), tier) if x[0] != "glue"]
    und, rows, stats, asked, fails, built = [], [], {}, {}, {}, set()
    steps = 0
    for x, res, reason in each(job, jobs):
        if res is None:
            und.append("%s: %s" % (gchecks.label(*x), reason))
            continue
        a, t, s, err, st, ask, fl, bu = res
        rows.append({"run": gchecks.label(*a), "seconds": round(t, 1), "steps": s, "undecided": err})
        steps += s
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        asked.update(ask)
        fails.update(fl)
        built |= bu
        if err:
            und.append("%s: %s" % (gchecks.label(*a), err))
    I = Interp(prog, Valid("?", {}))
    I.initial()
    out = []
    roots = CONTRACT["SQLStatementParser"][0]
    for mod, tree in prog.modules.items():
        if mod in (LEX, SQL):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "validate":
                if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                kinds = ("-",) * len(n.args) + tuple((k.arg, "-") for k in n.keywords)
                for c in roots:
                    asked[(SQL + ":" + c, "expr", (), ("validate", kinds), None)] = "the query"
    try:
        out = judge(prog, None, I, asked, fails, built)
    except AnalysisError as e:
        und.append(str(e))
    cov = {
        "explanation": "every node that a parser function can return, on an unknown token stream, is validated "
        "abstractly: no path may end in an exception, no type may be missing, and what is asked of a part (attributes, "
        "calls) is compared with every class that the parser functions build there",
        "runs": sorted(rows, key=lambda r: r["run"]),
        "abstract_steps": steps,
        "counts": stats,
        "asked_of_parts": len(asked),
        "classes_built": sorted({short(c) for _, c, _ in built if c}),
        "functions": [
            f.module + "." + f.qualname for f in prog.funcs
            if f.module == LEX or f.module == SQL and f.name in ASKED + ("value",)
        ],
        "undecided": und,
    }
    return out, cov, und
