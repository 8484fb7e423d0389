"""Builtins and methods of builtin types, on abstract values."""
import ast
import builtins as pybuiltins
import itertools
import string as pystring

from .vals import *  # noqa
from . import facts as F
from .loader import AnalysisError


class _It:
    def __iter__(self):
        pass

    def __next__(self):
        pass


class _Gen(_It):
    def send(self):
        pass

    def close(self):
        pass

    def throw(self):
        pass


PYTYPE = {
    "list": list, "set": set, "dict": dict, "iter": _It, "gen": _Gen, "map": _It,
    "zip": _It, "enum": _It,
}


def object_method(name):
    return name in (
        "__init__", "__str__", "__repr__", "__eq__", "__ne__", "__hash__",
        "__class__", "__new__", "__format__", "__init_subclass__", "__setattr__",
        "__getattribute__",
    )


def one(v, st):
    return [(v, st)]


def with_vals(I, st, vals, fn):
    """Run fn(st) with vals protected on the stack; yields (result, vals', st)."""
    n = len(vals)
    out = []
    for r, s in fn(st.push(*vals)):
        vs = list(s.stack[len(s.stack) - n :]) if n else []
        out.append((r, vs, s.pop(n) if n else s))
    return out


# --- calls -----------------------------------------------------------------------


def call(I, fv, args, kw, st, node):
    name, recv = fv.name, fv.recv
    if any(isinstance(a, Seg) for a in args) and name != "print":
        r = I.d.external(I, name, recv, args, kw, st, node)
        if r is not None:
            return r
        raise AnalysisError("unknown number of arguments for " + name)
    if "." in name:
        ty, meth = name.rsplit(".", 1)
        if ty in METHODS and (ty != "object" or meth in OBJ):
            if recv is None:
                if meth == "fromkeys" and ty == "dict":
                    return dict_fromkeys(I, args, st, node)
                if not args:
                    if meth == "maketrans":
                        pass
                    I.err("TypeError", st, node, name)
                    return []
                recv, args = args[0], args[1:]
            return METHODS[ty](I, meth, recv, list(args), kw, st, node)
    f = FUNCS.get(name)
    if f is not None:
        return f(I, list(args), kw, st, node)
    r = I.d.external(I, name, recv, args, kw, st, node)
    if r is not None:
        return r
    raise AnalysisError("unknown external %s line %s" % (name, getattr(node, "lineno", "?")))


def exc_names():
    return {
        n
        for n in dir(pybuiltins)
        if isinstance(getattr(pybuiltins, n), type)
        and issubclass(getattr(pybuiltins, n), BaseException)
    }


EXCS = exc_names() | {"tokenize.TokenError"}


def construct(I, name, args, kw, st, node):
    if name in EXCS:
        return one(Exc(name, tuple(a for a in args if not isinstance(a, Seg))), st)
    r = I.d.external(I, name, None, args, kw, st, node)
    if r is not None:
        return r
    f = CONS.get(name)
    if f is not None:
        return f(I, list(args), kw, st, node)
    if name.startswith("typing."):
        return one(args[-1] if args else NONE, st)
    raise AnalysisError("construction of %s" % name)


def c_list(I, args, kw, st, node, kind="list"):
    if not args:
        ref, s = st.new_obj(kind, None, ())
        return one(ref, s)
    res = []
    for items, s in I.collect(args[0], st, node):
        ref, s = s.new_obj(kind, None, tuple(items))
        res.append((ref, s))
    return res


def c_tuple(I, args, kw, st, node):
    if not args:
        return one(Tup(()), st)
    return [(Tup(tuple(items)), s) for items, s in I.collect(args[0], st, node)]


def c_set(I, args, kw, st, node):
    if not args:
        ref, s = st.new_obj("set", None, ())
        return one(ref, s)
    res = []
    for items, s in I.collect(args[0], st, node):
        u = []
        for x in items:
            if x not in u:
                u.append(x)
        for s2 in I.check_hash(u, s, node):
            ref, s3 = s2.new_obj("set", None, tuple(u))
            res.append((ref, s3))
    return res


def c_dict(I, args, kw, st, node):
    items = []
    if args:
        v = args[0]
        if isinstance(v, Ref) and st.obj(v).kind == "dict":
            items = list(st.obj(v).data)
        else:
            out = []
            for its, s in I.collect(v, st, node):
                if not all(isinstance(x, Tup) and len(x.items) == 2 for x in its):
                    raise AnalysisError("dict() of unknown pairs")
                ref, s = s.new_obj("dict", None, tuple(its))
                out.append((ref, s))
            return out
    items += [Tup((K(k), v)) for k, v in kw.items()]
    ref, s = st.new_obj("dict", None, tuple(items))
    return one(ref, s)


def dict_fromkeys(I, args, st, node):
    res = []
    val = args[1] if len(args) > 1 else NONE
    for items, s in I.collect(args[0], st, node):
        if any(isinstance(x, Seg) for x in items):
            raise AnalysisError("dict.fromkeys of unknown list")
        out = []
        for x in items:
            if not any(F.decide_eq(s, x, y.items[0]) for y in out):
                out.append(Tup((x, val)))
        ref, s = s.new_obj("dict", None, tuple(out))
        res.append((ref, s))
    return res


def c_str(I, args, kw, st, node):
    if not args:
        return one(K(""), st)
    return I.to_str(args[0], st, node)


def c_int(I, args, kw, st, node):
    if not args:
        return one(K(0), st)
    v = args[0]
    if isinstance(v, K):
        try:
            return one(K(int(v.v)), st)
        except (ValueError, TypeError) as e:
            I.err(type(e).__name__, st, node, "int()")
            return []
    if is_int(v):
        return one(v, st)
    if isinstance(v, (Sym, App)) and v.sort == "bool":
        return [(K(int(b)), s) for b, s in I.truth(v, st, node)]
    if F.is_stringy(v):
        d = F.decide_pred(st, App("isdigit", (v,), "bool"))
        if d is not True:
            I.err("ValueError", st, node, "int()")
        s = st
        r = App("int", (v,), "int")
        if d is True:
            s = F.set_iv(st, r, 0, None) or st
        return one(r, s)
    if isinstance(v, (Sym, App)):
        return one(App("int", (v,), "int"), st)
    I.err("TypeError", st, node, "int()")
    return []


def c_float(I, args, kw, st, node):
    if not args:
        return one(K(0.0), st)
    v = args[0]
    if isinstance(v, K):
        try:
            return one(K(float(v.v)), st)
        except (ValueError, TypeError) as e:
            I.err(type(e).__name__, st, node, "float()")
            return []
    if F.is_stringy(v):
        I.err("ValueError", st, node, "float()")
        return one(App("float", (v,), "float"), st)
    if isinstance(v, (Sym, App, Lin)):
        return one(App("float", (v,), "float"), st)
    I.err("TypeError", st, node, "float()")
    return []


def c_bool(I, args, kw, st, node):
    if not args:
        return one(FALSE, st)
    v = args[0]
    if isinstance(v, (Sym, App)) and v.sort == "bool":
        return one(v, st)
    return [(kbool(b), s) for b, s in I.truth(v, st, node)]


def c_object(I, args, kw, st, node):
    ref, s = st.new_obj("inst", "object", {})
    return one(ref, s)


def c_type(I, args, kw, st, node):
    if len(args) != 1:
        raise AnalysisError("type() with %d arguments" % len(args))
    return type_of(I, args[0], st, node)


CONS = {
    "list": c_list, "tuple": c_tuple, "set": c_set, "dict": c_dict, "str": c_str,
    "int": c_int, "float": c_float, "bool": c_bool, "object": c_object,
    "frozenset": c_set, "type": c_type,
}


def type_of(I, v, st, node):
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "inst":
            return one(Cls(o.cls), st)
        if o.kind in ("list", "set", "dict"):
            return one(Cls(o.kind), st)
    if isinstance(v, K):
        return one(Cls(type(v.v).__name__), st)
    if F.is_stringy(v):
        return one(Cls("str"), st)
    if is_int(v):
        return one(Cls("int"), st)
    if isinstance(v, Tup):
        return one(Cls("tuple"), st)
    if isinstance(v, Exc) and not v.unknown:
        return one(Cls(v.cls), st)
    if isinstance(v, Exc):
        return one(App("type", (v,), "type"), st)
    if isinstance(v, Cls):
        return one(Cls("type"), st)
    r = I.d.external(I, "type", v, [], {}, st, node)
    if r is not None:
        return r
    return one(App("type", (v,), "type"), st)


# --- functions -------------------------------------------------------------------------


def length(I, v, st, node):
    """-> [(int value, st)]"""
    items = None
    if isinstance(v, Tup):
        items = v.items
    elif isinstance(v, Ref) and st.obj(v).kind in ("list", "set", "dict"):
        items = st.obj(v).data
    elif isinstance(v, K):
        try:
            return one(K(len(v.v)), st)
        except TypeError:
            I.err("TypeError", st, node, "len()")
            return []
    elif isinstance(v, Ref) and st.obj(v).kind == "inst" and I.class_attr(st.obj(v).cls, "__len__"):
        res = []
        for m, s in I.getattr(v, "__len__", st, node):
            res.extend(I.call(m, [], {}, s, node))
        return res
    if items is not None:
        n = K(len([x for x in items if not isinstance(x, Seg)]))
        for x in items:
            if isinstance(x, Seg):
                n = lin_add(n, App("len", (x.sym,), "int"))
        return one(n, st)
    r = I.d.external(I, "len", v, [], {}, st, node)
    if r is not None:
        return r
    if F.is_stringy(v):
        t = App("strlen", (v,), "int")
        if isinstance(v, Str):
            lo = 0
            for p in v.parts:
                if isinstance(p, str):
                    lo += len(p)
                elif isinstance(p, (Sym, App)) and p.sort == "tok":
                    lo += 1
            st = F.set_iv(st, t, lo, None)
        elif v.sort == "tok":
            st = F.set_iv(st, t, 1, None) or st
        return one(t, st)
    if isinstance(v, (Sym, App)) and v.sort in ("any", "seq"):
        return one(App("len", (v,), "int"), st)
    I.err("TypeError", st, node, "len() of %r" % (v,))
    return []


def f_len(I, args, kw, st, node):
    return length(I, args[0], st, node)


def f_any(I, args, kw, st, node, stop=True):
    v = args[0]
    res = []
    for items, s in I.collect(v, st, node):
        cur = [s.push(Tup(items))]
        for i in range(len(items)):
            nxt = []
            for c in cur:
                x = c.stack[-1].items[i]
                if isinstance(x, Seg):
                    cnd = App("any" if stop else "all", (x,), "bool")
                    for b, c2 in I.truth(cnd, c, node):
                        if b == stop:
                            res.append((kbool(stop), c2.pop()))
                        else:
                            nxt.append(c2)
                else:
                    for b, c2 in I.truth(x, c, node):
                        if b == stop:
                            res.append((kbool(stop), c2.pop()))
                        else:
                            nxt.append(c2)
            cur = I.merge(nxt)
        res.extend((kbool(not stop), c.pop()) for c in cur)
    return res


def f_all(I, args, kw, st, node):
    return f_any(I, args, kw, st, node, stop=False)


def iters(I, vals, st, node):
    cur = [([], st)]
    for v in vals:
        nxt = []
        for its, c in cur:
            for it, c2 in I.iterator(v, c, node):
                nxt.append((its + [it], c2))
        cur = nxt
    return cur


def f_map(I, args, kw, st, node):
    res = []
    for its, s in iters(I, args[1:], st, node):
        ref, s = s.new_obj("map", None, {"fn": args[0], "its": Tup(its)})
        res.append((ref, s))
    return res


def f_filter(I, args, kw, st, node):
    res = []
    for its, s in iters(I, args[1:], st, node):
        ref, s = s.new_obj("map", "filter", {"fn": args[0], "its": Tup(its)})
        res.append((ref, s))
    return res


def f_zip(I, args, kw, st, node):
    res = []
    for its, s in iters(I, args, st, node):
        ref, s = s.new_obj("zip", None, tuple(its))
        res.append((ref, s))
    return res


def f_enumerate(I, args, kw, st, node):
    start = args[1] if len(args) > 1 else kw.get("start", K(0))
    res = []
    for its, s in iters(I, args[:1], st, node):
        ref, s = s.new_obj("enum", None, (its[0], start))
        res.append((ref, s))
    return res


def f_sorted(I, args, kw, st, node):
    r = I.d.external(I, "sorted", None, args, kw, st, node)
    if r is not None:
        return r
    res = []
    key = kw.get("key", NONE)
    for items, s in I.collect(args[0], st, node):
        items = tuple(items)
        if len(items) < 2 and not any(isinstance(x, Seg) for x in items):
            ref, s = s.new_obj("list", None, items)
            res.append((ref, s))
            continue
        if key == NONE and all(isinstance(x, K) for x in items):
            try:
                out = sorted(items, key=lambda x: x.v)
            except TypeError:
                I.err("TypeError", s, node, "sorted")
                continue
            if kw.get("reverse") == TRUE:
                out.reverse()
            ref, s = s.new_obj("list", None, tuple(out))
            res.append((ref, s))
            continue
        segs = [x for x in items if isinstance(x, Seg)]
        if segs:
            tpl = [x.elem for x in segs] + [x for x in items if not isinstance(x, Seg)]
            seg = Seg(fresh("sorted"), tpl[0] if len(tpl) == 1 else None)
            ref, s = s.new_obj("list", None, (seg,))
            res.append((ref, s))
            continue
        if len(items) > 4:
            raise AnalysisError("sorted() of %d unknown items" % len(items))
        for p in itertools.permutations(items):
            ref, s2 = s.new_obj("list", None, p)
            res.append((ref, s2))
    return res


def f_reversed(I, args, kw, st, node):
    res = []
    for items, s in I.collect(args[0], st, node):
        ref, s = s.new_obj("iter", None, tuple(reversed(items)))
        res.append((ref, s))
    return res


def f_iter(I, args, kw, st, node):
    if len(args) == 2:
        raise AnalysisError("iter() with sentinel")
    return I.iterator(args[0], st, node)


def f_cache(I, args, kw, st, node):
    # lru_cache(maxsize=...) or lru_cache(function); the calls themselves are not cached here
    if args and not isinstance(args[0], K):
        return [(args[0], st)]
    return [(Bi("functools.cache"), st)]


def f_next(I, args, kw, st, node):
    it = args[0]
    if not isinstance(it, Ref) or st.obj(it).kind in ("list", "set", "dict"):
        I.err("TypeError", st, node, "not an iterator")
        return []
    I.d.on_write(I, "iter", it, st, node)
    res = []
    dflt = args[1] if len(args) > 1 else None
    st = st.push(dflt if dflt is not None else NONE)
    for v, s in I.next_(it, st, node):
        d = s.stack[-1]
        s = s.pop()
        if v is None:
            if dflt is None:
                I.err("StopIteration", s, node)
            else:
                res.append((d, s))
        else:
            res.append((v, s))
    return res


def f_print(I, args, kw, st, node):
    cur = [((), st)]
    for a in args:
        nxt = []
        for vals, c in cur:
            if isinstance(a, Seg):
                nxt.append((vals + (a,), c))
                continue
            for (v, vs, c2) in with_vals(I, c, vals, lambda s: I.to_str(a, s, node)):
                nxt.append((tuple(vs) + (v,), c2))
        cur = nxt
    res = []
    for vals, c in cur:
        r = I.d.external(I, "print", None, list(vals), kw, c, node)
        if r is not None:
            res.extend(r)
        else:
            res.append((NONE, c))
    return res


def try_getattr(I, v, name, st, node):
    """-> (found [(v, st)], missing [st]) without raising AttributeError."""
    old = I.sink
    I.sink = []
    try:
        r = I.getattr(v, name, st, node)
        bad = I.sink
    finally:
        I.sink = old
    miss = []
    for x in bad:
        if x.stack[-1].cls == "AttributeError":
            miss.append(x.pop())
        else:
            I.sink.append(x)
    return r, miss


def f_getattr(I, args, kw, st, node):
    if not isinstance(args[1], K):
        raise AnalysisError("getattr with unknown name")
    if len(args) == 2:
        return I.getattr(args[0], args[1].v, st, node)
    r, miss = try_getattr(I, args[0], args[1].v, st.push(args[2]), node)
    return [(v, s.pop()) for v, s in r] + [(s.stack[-1], s.pop()) for s in miss]


def f_hasattr(I, args, kw, st, node):
    if not isinstance(args[1], K):
        raise AnalysisError("hasattr with unknown name")
    r = I.d.external(I, "hasattr", args[0], [args[1]], {}, st, node)
    if r is not None:
        return r
    r, miss = try_getattr(I, args[0], args[1].v, st, node)
    return [(TRUE, s) for _, s in r] + [(FALSE, s) for s in miss]


def f_setattr(I, args, kw, st, node):
    if not isinstance(args[1], K):
        raise AnalysisError("setattr with unknown name")
    return [(NONE, s) for s in I.setattr(args[0], args[1].v, args[2], st, node)]


def f_isinstance(I, args, kw, st, node):
    return isinstance_(I, args[0], args[1], st, node)


def f_issubclass(I, args, kw, st, node):
    a, b = args
    if isinstance(a, Cls):
        bs = b.items if isinstance(b, Tup) else (b,)
        return one(kbool(any(I.is_subclass(a.name, x.name) for x in bs)), st)
    return one(App("issubclass", (a, b), "bool"), st)


def f_super(I, args, kw, st, node):
    f = I.fn
    if args:
        return one(App("super", (args[0], args[1])), st)
    if f is None or f.cls is None:
        I.err("RuntimeError", st, node, "super()")
        return []
    cls = f.module + ":" + f.cls
    first = f.params[0] if f.params else None
    v = st.var(first)
    if v is None:
        v = st.stack[-1]
    return one(App("super", (Cls(cls), v)), st)


def f_repr(I, args, kw, st, node):
    return to_str(I, args[0], st, node, "r")


def f_range(I, args, kw, st, node):
    if all(isinstance(a, K) for a in args):
        r = range(*[a.v for a in args])
        if len(r) > 200:
            raise AnalysisError("long range")
        ref, s = st.new_obj("iter", None, tuple(K(i) for i in r))
        return one(ref, s)
    seg = Seg(fresh("range"), Sym(fresh_id(), "?i", "int"))
    ref, s = st.new_obj("iter", None, (seg,))
    return one(ref, s)


def f_sum(I, args, kw, st, node):
    res = []
    start = args[1] if len(args) > 1 else kw.get("start", K(0))
    for items, s in I.collect(args[0], st, node):
        if any(isinstance(x, Seg) for x in items):
            r = I.d.external(I, "sum", None, [Tup(items), start], {}, s, node)
            if r is not None:
                res.extend(r)
                continue
            raise AnalysisError("sum of unknown list")
        cur = [(start, s)]
        for x in items:
            nxt = []
            for a, c in cur:
                nxt.extend(binop(I, ast.Add(), a, x, c, node, False))
            cur = nxt
        res.extend(cur)
    return res


def f_minmax(I, args, kw, st, node):
    if len(args) > 1 and all(isinstance(a, K) for a in args) and not kw:
        fn = node.func.id if isinstance(getattr(node, "func", None), ast.Name) else "max"
        return one(K((min if fn == "min" else max)(a.v for a in args)), st)
    if len(args) == 2 and all(is_int(a) for a in args) and not kw:
        fn = node.func.id if isinstance(getattr(node, "func", None), ast.Name) else "max"
        res = []
        c = App("ge0", (lin_add(args[0], args[1], -1),), "bool")
        for b, s in I.truth(c, st, node):
            res.append((args[0] if b == (fn == "max") else args[1], s))
        return res
    res = []
    for items, s in I.collect(args[0], st, node) if len(args) == 1 else [(tuple(args), st)]:
        if not items and "default" not in kw:
            I.err("ValueError", s, node)
            continue
        if len(items) == 1 and not isinstance(items[0], Seg):
            res.append((items[0], s))
            continue
        res.append((fresh("minmax"), s))
    return res


def f_abs(I, args, kw, st, node):
    if isinstance(args[0], K):
        return one(K(abs(args[0].v)), st)
    return one(App("abs", (args[0],), "int"), st)


def f_hash(I, args, kw, st, node):
    return [
        (App("hash", (args[0],), "int"), s) for s in I.check_hash([args[0]], st, node)
    ]


def f_id(I, args, kw, st, node):
    return one(App("id", (args[0],), "int"), st)


def f_callable(I, args, kw, st, node):
    v = args[0]
    if isinstance(v, (Fn, Bound, Bi, Cls)):
        return one(TRUE, st)
    if isinstance(v, (K, Tup, Str, Lin)):
        return one(FALSE, st)
    return one(App("callable", (v,), "bool"), st)


def f_partial(I, args, kw, st, node):
    return one(Partial(args[0], tuple(args[1:]), tuple(sorted(kw.items()))), st)


def f_suppress(I, args, kw, st, node):
    ref, s = st.new_obj("suppress", None, Tup(tuple(args)))
    return one(ref, s)


def f_chain(I, args, kw, st, node):
    cur = [((), st)]
    for a in args:
        nxt = []
        for items, c in cur:
            for its, vs, c2 in with_vals(
                I, c, [Tup(items)], lambda s, a=a: I.collect(a, s, node)
            ):
                nxt.append((vs[0].items + tuple(its), c2))
        cur = nxt
    res = []
    for items, c in cur:
        ref, c = c.new_obj("iter", None, items)
        res.append((ref, c))
    return res


def f_chain_from(I, args, kw, st, node):
    res = []
    for items, s in I.collect(args[0], st, node):
        if any(isinstance(x, Seg) for x in items):
            raise AnalysisError("chain of unknown list")
        res.extend(f_chain(I, list(items), {}, s, node))
    return res


def f_reduce(I, args, kw, st, node):
    res = []
    for items, s in I.collect(args[1], st, node):
        items = list(items)
        if any(isinstance(x, Seg) for x in items):
            raise AnalysisError("reduce over unknown list")
        if len(args) > 2:
            acc = args[2]
        elif items:
            acc = items.pop(0)
        else:
            I.err("TypeError", s, node)
            continue
        cur = [(acc, s)]
        for x in items:
            nxt = []
            for a, c in cur:
                nxt.extend(I.call(args[0], [a, x], {}, c, node))
            cur = nxt
        res.extend(cur)
    return res


def f_itemgetter(I, args, kw, st, node):
    raise AnalysisError("operator.itemgetter")


def f_exit(I, args, kw, st, node):
    r = I.d.external(I, "sys.exit", None, args, kw, st, node)
    if r is not None:
        return r
    I.raise_(Exc("SystemExit", tuple(args), False, I.loc(node)), st)
    return []


def f_field(I, args, kw, st, node):
    if "default" in kw:
        return one(kw["default"], st)
    raise AnalysisError("dataclass field()")


def f_nop(I, args, kw, st, node):
    return one(NONE, st)


def f_ident(I, args, kw, st, node):
    return one(args[-1], st)


FUNCS = {
    "len": f_len, "any": f_any, "all": f_all, "map": f_map, "filter": f_filter,
    "zip": f_zip, "enumerate": f_enumerate, "sorted": f_sorted,
    "reversed": f_reversed, "iter": f_iter, "next": f_next, "print": f_print,
    "getattr": f_getattr, "hasattr": f_hasattr, "setattr": f_setattr,
    "isinstance": f_isinstance, "issubclass": f_issubclass, "super": f_super,
    "repr": f_repr, "range": f_range, "sum": f_sum, "min": f_minmax,
    "max": f_minmax, "abs": f_abs, "hash": f_hash, "id": f_id,
    "functools.lru_cache": f_cache, "functools.cache": f_cache,
    "callable": f_callable, "functools.partial": f_partial,
    "contextlib.suppress": f_suppress, "itertools.chain": f_chain,
    "itertools.chain.from_iterable": f_chain_from, "functools.reduce": f_reduce,
    "sys.exit": f_exit, "exit": f_exit, "quit": f_exit, "typing.cast": f_ident,
    "typing.TypeVar": f_nop, "typing.NewType": f_ident,
    "dataclasses.dataclass": lambda I, a, k, st, n: one(
        a[0] if a else Bi("dataclasses.dataclass"), st
    ),
    "dataclasses.field": f_field,
}


# --- methods -----------------------------------------------------------------------------


def m_object(I, meth, v, args, kw, st, node):
    if meth in ("__init__", "__init_subclass__"):
        if args or kw:
            I.err("TypeError", st, node, "object.__init__ takes no arguments")
            return []
        return one(NONE, st)
    if meth in ("__str__", "__repr__"):
        return one(App("repr", (v,), "str"), st)
    if meth == "__eq__":
        return one(kbool(v == args[0]), st)
    if meth == "__hash__":
        return one(App("hash", (v,), "int"), st)
    if meth == "__new__":
        ref, s = st.new_obj("inst", v.name, {})
        return one(ref, s)
    if meth == "__setattr__" and isinstance(args[0], K):
        return [(NONE, s) for s in I.setattr(v, args[0].v, args[1], st, node)]
    raise AnalysisError("object." + meth)


OBJ = ("__init__", "__str__", "__repr__", "__eq__", "__hash__", "__new__",
       "__init_subclass__", "__setattr__")


def m_str(I, meth, v, args, kw, st, node):
    I.d.on_strop(I, meth, v, args, st, node)
    r = I.d.external(I, "str." + meth, v, args, kw, st, node)
    if r is not None:
        return r
    if not F.is_stringy(v):
        if isinstance(v, (Sym, App)) and v.sort == "any":
            pass
        else:
            I.err("TypeError", st, node, "str.%s of %r" % (meth, v))
            return []
    if meth == "format":
        return fmt(I, v, args, kw, st, node)
    if meth == "join":
        return join(I, v, args[0], st, node)
    if isinstance(v, K) and all(isinstance(a, K) for a in args) and all(
        isinstance(a, K) for a in kw.values()
    ):
        try:
            r = getattr(v.v, meth)(*[a.v for a in args], **{k: a.v for k, a in kw.items()})
        except Exception as e:
            I.err(type(e).__name__, st, node, meth)
            return []
        if isinstance(r, list):
            ref, s = st.new_obj("list", None, tuple(K(x) for x in r))
            return one(ref, s)
        if isinstance(r, tuple):
            return one(Tup(tuple(K(x) for x in r)), st)
        return one(K(r), st)
    if meth in ("lower", "upper", "casefold"):
        m = "lower" if meth == "casefold" else meth
        return one(case(v, m), st)
    if meth in ("title", "capitalize", "swapcase"):
        return one(App(meth, (v,), "tok" if tokish(v) else "str"), st)
    if meth in ("strip", "lstrip", "rstrip"):
        return one(App(meth, (v,) + tuple(args), "str"), st)
    if meth in F.STRPRED:
        t = App(meth, (v,), "bool")
        d = F.decide_pred(st, t)
        return one(t if d is None else kbool(d), st)
    if meth in ("startswith", "endswith"):
        return affix(I, meth, v, args, st, node)
    if meth in ("replace",):
        r = I.d.str_replace(I, v, args[0], args[1], st, node)
        if r is not None:
            return r
        if isinstance(v, Str) and isinstance(args[0], K) and len(args[0].v) == 1:
            out = []
            for p in v.parts:
                if isinstance(p, str):
                    a = p.split(args[0].v)
                    for i, x in enumerate(a):
                        if i:
                            out.append(args[1])
                        if x:
                            out.append(x)
                elif isinstance(p, Joined):
                    return one(App("replace", (v,) + tuple(args), "str"), st)
                else:
                    out.append(App("replace", (p,) + tuple(args), "str"))
            return one(mkstr(out), st)
        return one(App("replace", (v,) + tuple(args), "str"), st)
    if meth in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        if meth in ("partition", "rpartition"):
            return one(
                Tup(tuple(App(meth, (v, args[0], K(i)), "str") for i in range(3))), st
            )
        seg = Seg(
            Sym(fresh_id(), "split"),
            App(meth, (v,) + tuple(args) + tuple(x for _, x in sorted(kw.items())) + (Sym(fresh_id(), "?n"),), "str"),
        )
        if meth == "split" and args and args[0] != NONE:
            st = F.set_iv(st, App("len", (seg.sym,), "int"), 1, None)
        ref, s = st.new_obj("list", None, (seg,))
        return one(ref, s)
    if meth in ("count", "find", "rfind"):
        t = App("str" + meth, (v,) + tuple(args), "int")
        return one(t, F.set_iv(st, t, 0 if meth == "count" else -1, None) or st)
    if meth in ("index", "rindex"):
        c = App("contains", (v, args[0]), "bool")
        res = []
        for b, s in I.truth(c, st, node):
            if b:
                t = App("strindex", (v,) + tuple(args), "int")
                res.append((t, F.set_iv(s, t, 0, None) or s))
            else:
                I.err("ValueError", s, node, "substring not found")
        return res
    if meth in ("removeprefix", "removesuffix", "expandtabs", "ljust", "rjust",
                "center", "zfill", "translate"):
        return one(App(meth, (v,) + tuple(args), "str"), st)
    if meth == "encode":
        return one(fresh("bytes"), st)
    if meth in ("__contains__",):
        return compare(I, "in", args[0], v, st, node)
    if meth in ("__eq__",):
        return compare(I, "==", v, args[0], st, node)
    if meth in ("__add__",):
        return binop(I, ast.Add(), v, args[0], st, node, False)
    if meth in ("__len__",):
        return length(I, v, st, node)
    raise AnalysisError("str." + meth)


def tokish(v):
    if isinstance(v, (Sym, App)):
        return v.sort == "tok"
    if isinstance(v, K):
        return bool(v.v)
    if isinstance(v, Str):
        return any(isinstance(p, str) or tokish(p) for p in v.parts)
    return False


def case(v, m):
    if isinstance(v, K):
        return K(getattr(v.v, m)())
    if isinstance(v, Str):
        out = []
        for p in v.parts:
            if isinstance(p, str):
                out.append(getattr(p, m)())
            elif isinstance(p, Joined):
                out.append(
                    Joined(case(p.sep, m), p.seg, frozenset(case(a, m) for a in p.alts))
                )
            else:
                out.append(case(p, m))
        return mkstr(out)
    if isinstance(v, App) and v.op in ("lower", "upper"):
        return App(m, v.args, v.sort)
    return App(m, (v,), "tok" if tokish(v) else "str")


def affix(I, meth, v, args, st, node):
    a = args[0]
    if isinstance(a, Tup):
        res = []
        cur = [st]
        for x in a.items:
            nxt = []
            for c in cur:
                for r, c2 in affix(I, meth, v, [x], c, node):
                    for b, c3 in I.truth(r, c2, node):
                        (res.append((TRUE, c3)) if b else nxt.append(c3))
            cur = nxt
        return res + [(FALSE, c) for c in cur]
    if isinstance(a, K) and isinstance(v, (Str, K)):
        parts = str_parts(v)
        if meth == "startswith":
            known = parts[0] if parts and isinstance(parts[0], str) else ""
            full = len(parts) <= 1 and isinstance(v, K)
            if known.startswith(a.v):
                return one(TRUE, st)
            if full or not a.v.startswith(known):
                return one(FALSE, st)
        else:
            known = parts[-1] if parts and isinstance(parts[-1], str) else ""
            full = len(parts) <= 1 and isinstance(v, K)
            if known.endswith(a.v):
                return one(TRUE, st)
            if full or not a.v.endswith(known):
                return one(FALSE, st)
    if a == K(""):
        return one(TRUE, st)
    if a == v:
        return one(TRUE, st)
    t = App(meth, (v, a), "bool")
    pos, _ = F.vfact(st, t)
    if pos is not None and len(pos) == 1:
        return one(next(iter(pos)), st)
    if isinstance(v, (Sym, App)) and isinstance(a, K):
        pos, _ = F.vfact(st, v)
        if pos is not None:
            vals = set(getattr(c.v, meth)(a.v) for c in pos)
            if len(vals) == 1:
                return one(kbool(vals.pop()), st)
    return one(t, st)


def fmt(I, v, args, kw, st, node):
    if not isinstance(v, K):
        return one(App("format", (v,) + tuple(args), "str"), st)
    try:
        pieces = list(pystring.Formatter().parse(v.v))
    except ValueError:
        I.err("ValueError", st, node, "format string")
        return []
    cur = [((), st)]
    auto = 0
    vals = list(args)
    names = sorted(kw)
    allv = vals + [kw[k] for k in names]
    st0 = st.push(*allv)
    cur = [((), st0)]
    n = len(allv)
    for lit, field, spec, conv in pieces:
        if lit:
            cur = [(p + (lit,), c) for p, c in cur]
        if field is None:
            continue
        attrs = []
        base = field
        for i, ch in enumerate(field):
            if ch in ".[":
                base = field[:i]
                rest = field[i:]
                while rest.startswith("."):
                    rest = rest[1:]
                    j = len(rest)
                    for k, c2 in enumerate(rest):
                        if c2 in ".[":
                            j = k
                            break
                    attrs.append(rest[:j])
                    rest = rest[j:]
                if rest:
                    raise AnalysisError("format field " + field)
                break
        if base == "":
            idx = auto
            auto += 1
        elif base.isdigit():
            idx = int(base)
        else:
            if base not in names:
                for _, c in cur:
                    I.err("KeyError", c.pop(n), node, "format " + base)
                return []
            idx = len(vals) + names.index(base)
            if idx < len(vals):
                idx = None
        if base == "" or base.isdigit():
            if idx >= len(vals):
                for _, c in cur:
                    I.err("IndexError", c.pop(n), node, "format index")
                return []
        nxt = []
        for p, c in cur:
            c = c.push(Tup(tuple(x if isinstance(x, V) else K(x) for x in p)))
            x = c.stack[len(c.stack) - 1 - n + idx]
            xs = [(x, c)]
            for a in attrs:
                xs = [r for x1, c1 in xs for r in I.getattr(x1, a, c1, node)]
            for x1, c1 in xs:
                if spec:
                    r = [(fresh("fmt", "str"), c1)]
                else:
                    r = to_str(I, x1, c1, node, conv or "s")
                for sv, c2 in r:
                    p2 = c2.stack[-1].items
                    nxt.append((tuple(p2) + (sv,), c2.pop()))
        cur = nxt
    return [(mkstr(p), c.pop(n)) for p, c in cur]


def join(I, sep, it, st, node):
    res = []
    for items, s in I.collect(it, st.push(sep), node):
        # decide which segments are empty when they neighbour other items
        cur = [s.push(Tup(items))]
        if len(items) > 1 and any(isinstance(x, Seg) for x in items):
            done = []
            work = cur
            while work:
                c = work.pop()
                its = c.stack[-1].items
                seg = next(
                    (
                        x
                        for x in its
                        if isinstance(x, Seg) and not (I.seg_len(c, x)[0] or 0) >= 1
                    ),
                    None,
                )
                if seg is None or len(its) < 2:
                    done.append(c)
                    continue
                for b, c2 in I.seq_truth((seg,), c):
                    if b:
                        work.append(c2)
                    else:
                        work.append(I.subst_seg(c2, seg.sym, ()))
            cur = done
        for c in cur:
            its = c.stack[-1].items
            sp = c.stack[-2]
            c = c.pop(2)
            ok = True
            parts = []
            for i, x in enumerate(its):
                if i:
                    parts.append(sp)
                if isinstance(x, Seg):
                    parts.append(joined(I, sp, x))
                    continue
                if x == NONE or isinstance(x, (Lin, Ref, Tup)) or (
                    isinstance(x, K) and not isinstance(x.v, str)
                ):
                    ok = False
                    I.err("TypeError", c, node, "join: expected str, got %r" % (x,))
                    break
                parts.append(x)
            if not ok:
                continue
            res.append((mkstr(parts), c))
    return res


def joined(I, sep, seg):
    e = seg.elem
    if isinstance(e, App) and e.op == "img":
        return Joined(sep, Seg(seg.sym, e.args[0]), e.args[1])
    return Joined(sep, seg, frozenset([ELEM]))


def items_of(st, v):
    return v.items if isinstance(v, Tup) else st.obj(v).data


def m_list(I, meth, v, args, kw, st, node):
    r = I.d.external(I, "list." + meth, v, args, kw, st, node)
    if r is not None:
        return r
    if not isinstance(v, Ref):
        raise AnalysisError("list.%s of %r" % (meth, v))
    o = st.obj(v)
    if o.kind == "set":
        return m_set(I, meth, v, args, kw, st, node)
    if o.kind == "dict":
        return m_dict(I, meth, v, args, kw, st, node)
    if o.kind != "list":
        raise AnalysisError("list.%s of %s" % (meth, o.kind))
    if meth in ("append", "extend", "insert", "pop", "remove", "clear", "reverse",
                "sort", "__iadd__"):
        I.d.on_write(I, "list", v, st, node)
    if meth == "append":
        return one(NONE, st.set_obj(v.oid, o.with_(o.data + (args[0],))))
    if meth in ("extend", "__iadd__"):
        res = []
        for items, s in I.collect(args[0], st, node):
            o2 = s.obj(v)
            res.append((NONE, s.set_obj(v.oid, o2.with_(o2.data + tuple(items)))))
        return res
    if meth == "insert":
        i = args[0]
        if isinstance(i, K) and i.v == 0:
            return one(NONE, st.set_obj(v.oid, o.with_((args[1],) + o.data)))
        if isinstance(i, K) and not any(isinstance(x, Seg) for x in o.data):
            d = list(o.data)
            d.insert(i.v, args[1])
            return one(NONE, st.set_obj(v.oid, o.with_(tuple(d))))
        raise AnalysisError("list.insert")
    if meth == "pop":
        i = args[0].v if args and isinstance(args[0], K) else -1 if not args else None
        if i is None:
            raise AnalysisError("list.pop of unknown index")
        res = []
        if i == 0 or i == -1:
            take = I.take_first if i == 0 else I.take_last
            for x, rest, s in take(v, st):
                if x is None:
                    I.err("IndexError", s, node, "pop from empty list")
                else:
                    res.append((x, s.set_obj(v.oid, s.obj(v).with_(tuple(rest)))))
            return res
        if any(isinstance(x, Seg) for x in o.data):
            raise AnalysisError("list.pop")
        if not -len(o.data) <= i < len(o.data):
            I.err("IndexError", st, node, "pop")
            return []
        d = list(o.data)
        x = d.pop(i)
        return one(x, st.set_obj(v.oid, o.with_(tuple(d))))
    if meth == "clear":
        return one(NONE, st.set_obj(v.oid, o.with_(())))
    if meth == "copy":
        ref, s = st.new_obj("list", None, o.data)
        return one(ref, s)
    if meth == "reverse":
        return one(NONE, st.set_obj(v.oid, o.with_(tuple(reversed(o.data)))))
    if meth == "sort":
        res = []
        for r, s in f_sorted(I, [v], kw, st, node):
            res.append((NONE, s.set_obj(v.oid, o.with_(s.obj(r).data))))
        return res
    if meth == "count":
        if any(isinstance(x, Seg) for x in o.data):
            return one(App("count", (Tup(o.data), args[0]), "int"), st)
        n = 0
        cur = [(0, st)]
        for x in o.data:
            nxt = []
            for k, c in cur:
                for r, c2 in compare(I, "==", x, args[0], c, node):
                    for b, c3 in I.truth(r, c2, node):
                        nxt.append((k + int(b), c3))
            cur = nxt
        return [(K(k), c) for k, c in cur]
    if meth == "index":
        if not any(isinstance(x, Seg) for x in o.data):
            res = []
            cur = [st]
            for i, x in enumerate(o.data):
                nxt = []
                for c in cur:
                    for r, c2 in compare(I, "==", x, args[0], c, node):
                        for b, c3 in I.truth(r, c2, node):
                            (res.append((K(i), c3)) if b else nxt.append(c3))
                cur = nxt
            for c in cur:
                I.err("ValueError", c, node, "index")
            return res
        I.err("ValueError", st, node, "index")
        return one(fresh("idx", "int"), st)
    if meth == "__contains__":
        return compare(I, "in", args[0], v, st, node)
    if meth == "__len__":
        return length(I, v, st, node)
    if meth == "__getitem__":
        return I.getitem(v, args[0], st, node)
    if meth == "remove":
        if not any(isinstance(x, Seg) for x in o.data):
            res = []
            cur = [st]
            for i, x in enumerate(o.data):
                nxt = []
                for c in cur:
                    for r, c2 in compare(I, "==", x, args[0], c, node):
                        for b, c3 in I.truth(r, c2, node):
                            if b:
                                d = list(o.data)
                                d.pop(i)
                                res.append((NONE, c3.set_obj(v.oid, o.with_(tuple(d)))))
                            else:
                                nxt.append(c3)
                cur = nxt
            for c in cur:
                I.err("ValueError", c, node, "remove")
            return res
    raise AnalysisError("list." + meth)


def m_tuple(I, meth, v, args, kw, st, node):
    if isinstance(v, Tup):
        ref, s = st.new_obj("list", None, v.items)
        return m_list(I, meth, ref, args, kw, s, node)
    raise AnalysisError("tuple." + meth)


def set_add(st, data, x):
    for y in data:
        if y == x or (not isinstance(y, Seg) and not isinstance(x, Seg) and F.decide_eq(st, x, y) is True):
            return data
    return data + (x,)


def m_set(I, meth, v, args, kw, st, node):
    r = I.d.external(I, "set." + meth, v, args, kw, st, node)
    if r is not None:
        return r
    o = st.obj(v)
    if meth in ("add", "update", "discard", "remove", "pop", "clear", "__ior__",
                "difference_update", "intersection_update"):
        I.d.on_write(I, "set", v, st, node)
    if meth == "add":
        res = []
        for s in I.check_hash([args[0]], st, node):
            res.append((NONE, s.set_obj(v.oid, o.with_(set_add(s, o.data, args[0])))))
        return res
    if meth in ("update", "__ior__"):
        cur = [(NONE, st)]
        for a in args:
            nxt = []
            for _, c in cur:
                for items, s in I.collect(a, c, node):
                    d = s.obj(v).data
                    for x in items:
                        d = set_add(s, d, x)
                    nxt.append((NONE, s.set_obj(v.oid, o.with_(d))))
            cur = nxt
        return cur
    if meth == "union":
        ref, s = st.new_obj("set", None, o.data)
        out = []
        for _, s2 in m_set(I, "update", ref, args, kw, s, node):
            out.append((ref, s2))
        return out
    if meth == "copy":
        ref, s = st.new_obj("set", None, o.data)
        return one(ref, s)
    if meth == "clear":
        return one(NONE, st.set_obj(v.oid, o.with_(())))
    if meth in ("__contains__",):
        return compare(I, "in", args[0], v, st, node)
    if meth == "pop":
        if any(isinstance(x, Seg) for x in o.data):
            raise AnalysisError("set.pop")
        if not o.data:
            I.err("KeyError", st, node)
            return []
        first = I.walk_order(o.data, st)[0] if I.d.setorder else None
        return [
            (x, st.set_obj(v.oid, o.with_(o.data[:i] + o.data[i + 1 :])))
            for i, x in enumerate(o.data)
            if first is None or x is first
        ]
    if meth in ("discard", "remove"):
        keep = tuple(
            x for x in o.data if isinstance(x, Seg) or F.decide_eq(st, x, args[0]) is not True
        )
        if meth == "remove" and len(keep) == len(o.data):
            I.err("KeyError", st, node)
        return one(NONE, st.set_obj(v.oid, o.with_(keep)))
    if meth in ("difference", "intersection", "symmetric_difference",
                "difference_update", "intersection_update"):
        seg = Seg(fresh("setop"), None)
        if meth.endswith("update"):
            return one(NONE, st.set_obj(v.oid, o.with_((seg,))))
        ref, s = st.new_obj("set", None, (seg,))
        return one(ref, s)
    if meth in ("issubset", "issuperset", "isdisjoint"):
        return one(fresh(meth, "bool"), st)
    if meth == "__len__":
        return length(I, v, st, node)
    raise AnalysisError("set." + meth)


def m_dict(I, meth, v, args, kw, st, node):
    o = st.obj(v)
    if meth == "get":
        dflt = args[1] if len(args) > 1 else NONE
        old = I.sink
        I.sink = []
        r = I.getitem(v, args[0], st.push(dflt), node)
        bad = I.sink
        I.sink = old
        res = [(x, s.pop()) for x, s in r]
        for x in bad:
            if x.stack[-1].cls == "KeyError":
                x = x.pop()
                res.append((x.stack[-1], x.pop()))
            else:
                I.sink.append(x)
        return res
    if meth in ("items", "keys", "values"):
        its = {
            "items": o.data,
            "keys": tuple(x.items[0] for x in o.data),
            "values": tuple(x.items[1] for x in o.data),
        }[meth]
        ref, s = st.new_obj("list", None, its)
        return one(ref, s)
    if meth in ("update", "setdefault", "pop", "clear", "popitem"):
        I.d.on_write(I, "dict", v, st, node)
    if meth == "update":
        cur = [st]
        pairs = []
        if args:
            if not (isinstance(args[0], Ref) and st.obj(args[0]).kind == "dict"):
                raise AnalysisError("dict.update")
            pairs = list(st.obj(args[0]).data)
        pairs += [Tup((K(k), x)) for k, x in kw.items()]
        for p in pairs:
            cur = [s for c in cur for s in I.setitem(v, p.items[0], p.items[1], c, node)]
        return [(NONE, c) for c in cur]
    if meth == "pop":
        for n, it in enumerate(o.data):
            if F.decide_eq(st, it.items[0], args[0]) is True:
                return one(
                    it.items[1], st.set_obj(v.oid, o.with_(o.data[:n] + o.data[n + 1 :]))
                )
        if len(args) > 1:
            return one(args[1], st)
        I.err("KeyError", st, node)
        return []
    if meth == "copy":
        ref, s = st.new_obj("dict", None, o.data)
        return one(ref, s)
    if meth == "setdefault":
        for it in o.data:
            if F.decide_eq(st, it.items[0], args[0]) is True:
                return one(it.items[1], st)
        dv = args[1] if len(args) > 1 else NONE
        return [(dv, s) for s in I.setitem(v, args[0], dv, st, node)]
    if meth == "__contains__":
        return compare(I, "in", args[0], v, st, node)
    raise AnalysisError("dict." + meth)


def m_iter(I, meth, v, args, kw, st, node):
    if meth == "__iter__":
        return one(v, st)
    if meth == "__next__":
        return f_next(I, [v], {}, st, node)
    if meth == "close":
        return one(NONE, st)
    raise AnalysisError("iterator method " + meth)


def m_int(I, meth, v, args, kw, st, node):
    if meth == "bit_length":
        return one(fresh("bits", "int"), st)
    if meth == "__str__" or meth == "__repr__":
        return to_str(I, v, st, node)
    raise AnalysisError("int." + meth)


METHODS = {
    "str": m_str, "list": m_list, "tuple": m_tuple, "set": m_set, "frozenset": m_set,
    "dict": m_dict, "iter": m_iter, "gen": m_iter, "map": m_iter, "zip": m_iter,
    "enum": m_iter, "int": m_int, "bool": m_int, "object": m_object,
}


# --- operators ------------------------------------------------------------------------------


def kind_of(I, v, st):
    if isinstance(v, K):
        return type(v.v).__name__
    if isinstance(v, Tup):
        return "tuple"
    if F.is_stringy(v):
        return "str"
    if is_int(v):
        return "int"
    if isinstance(v, (Sym, App)):
        return v.sort
    if isinstance(v, Ref):
        return st.obj(v).kind
    if isinstance(v, (Fn, Bound, Cls, Bi, Mod, Partial)):
        return "function"
    return "any"


ARITH = {
    ast.Add: lambda a, b: a + b,
    ast.Sub: lambda a, b: a - b,
    ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b,
    ast.FloorDiv: lambda a, b: a // b,
    ast.Mod: lambda a, b: a % b,
    ast.BitOr: lambda a, b: a | b,
    ast.BitAnd: lambda a, b: a & b,
    ast.BitXor: lambda a, b: a ^ b,
    ast.Pow: lambda a, b: a ** b,
    ast.LShift: lambda a, b: a << b,
    ast.RShift: lambda a, b: a >> b,
}


def binop(I, op, a, b, st, node, inplace=False):
    r = I.d.on_op(I, op, a, b, st, node)
    if r is not None:
        return r
    if isinstance(a, K) and isinstance(b, K):
        try:
            return one(K(ARITH[op.__class__](a.v, b.v)), st)
        except Exception as e:
            I.err(type(e).__name__, st, node, "operator")
            return []
    ka, kb = kind_of(I, a, st), kind_of(I, b, st)
    add = isinstance(op, ast.Add)
    if ka == "inst":
        nm = {"Add": "__add__", "BitOr": "__or__", "Sub": "__sub__", "Mult": "__mul__",
              "BitAnd": "__and__"}.get(op.__class__.__name__)
        o = st.obj(a)
        for n in (("__i" + nm[2:],) if inplace and nm else ()) + ((nm,) if nm else ()):
            if I.class_attr(o.cls, n):
                res = []
                for m, s in I.getattr(a, n, st.push(b), node):
                    b2 = s.stack[-1]
                    res.extend(I.call(m, [b2], {}, s.pop(), node))
                return res
        I.err("TypeError", st, node, "unsupported operand")
        return []
    if add and ka == "str" and kb == "str":
        return one(mkstr((a, b)), st)
    if ka == "str" and isinstance(op, ast.Mod):
        args = list(b.items) if isinstance(b, Tup) else [b]
        if isinstance(a, K):
            f = a.v
            cnt = f.count("%s") + f.count("%d")
            if cnt == len(args) and f.replace("%s", "").replace("%d", "").replace("%%", "").count("%") == 0:
                f = f.replace("{", "{{").replace("}", "}}").replace("%s", "{}").replace("%d", "{}").replace("%%", "%")
                return fmt(I, K(f), args, {}, st, node)
        return one(fresh("fmt", "str"), st)
    if isinstance(op, ast.Mult) and "str" in (ka, kb):
        s, n = (a, b) if ka == "str" else (b, a)
        if isinstance(n, K) and isinstance(n.v, int) and n.v <= 50:
            return one(mkstr((s,) * max(0, n.v)), st)
        return one(App("repeat", (s, n), "str"), st)
    if ka == "list" and add:
        if inplace:
            I.d.on_write(I, "list", a, st, node)
            res = []
            for items, s in I.collect(b, st.push(a), node):
                a2 = s.stack[-1]
                s = s.pop()
                o = s.obj(a2)
                res.append((a2, s.set_obj(a2.oid, o.with_(o.data + tuple(items)))))
            return res
        if kb == "list":
            ref, s = st.new_obj("list", None, st.obj(a).data + st.obj(b).data)
            return one(ref, s)
        r = I.d.external(I, "list+", a, [b], {}, st, node)
        if r is not None:
            return r
        I.err("TypeError", st, node, "list + " + kb)
        return []
    if ka == "list" and isinstance(op, ast.Mult) and isinstance(b, K):
        ref, s = st.new_obj("list", None, st.obj(a).data * b.v)
        return one(ref, s)
    if ka == "tuple" and kb == "tuple" and add:
        ia = a.items if isinstance(a, Tup) else tuple(K(x) for x in a.v)
        ib = b.items if isinstance(b, Tup) else tuple(K(x) for x in b.v)
        return one(Tup(ia + ib), st)
    if ka == "set" and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        meth = {
            "BitOr": "union", "BitAnd": "intersection", "Sub": "difference",
            "BitXor": "symmetric_difference",
        }[op.__class__.__name__]
        if kb not in ("set", "frozenset", "any", "node"):
            I.err("TypeError", st, node, "set operator with " + kb)
            return []
        if inplace:
            if meth == "union":
                return [
                    (s.stack[-1], s.pop())
                    for _, s in m_set(I, "update", a, [b], {}, st.push(a), node)
                ]
            I.d.on_write(I, "set", a, st, node)
        return m_set(I, meth, a, [b], {}, st, node)
    if ka in ("int", "bool") and kb in ("int", "bool") or (
        {ka, kb} <= {"int", "bool", "any"} and "int" in (ka, kb)
    ):
        if add or isinstance(op, ast.Sub):
            for x, y in ((a, b),):
                if isinstance(x, (Sym, App)) and x.sort == "bool" or (
                    isinstance(y, (Sym, App)) and y.sort == "bool"
                ):
                    res = []
                    x0 = x if isinstance(x, (Sym, App)) and x.sort == "bool" else y
                    for t, s in I.truth(x0, st, node):
                        xx = K(int(t)) if x0 is x else x
                        yy = K(int(t)) if x0 is y else y
                        res.extend(binop(I, op, xx, yy, s, node, False))
                    return res
            return one(lin_add(a, b, 1 if add else -1), st)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, K) and isinstance(x, (Lin, Sym, App)):
                    l = lin_of(x)
                    return one(
                        lin_norm(l.const * y.v, tuple((t, c * y.v) for t, c in l.terms)), st
                    )
        return one(App("arith" + op.__class__.__name__, (a, b), "int"), st)
    if ka == "bool" and kb == "bool":
        return one(App("bool" + op.__class__.__name__, (a, b), "bool"), st)
    if "float" in (ka, kb) and {ka, kb} <= {"float", "int", "any", "bool"}:
        return one(App("arith" + op.__class__.__name__, (a, b), "float"), st)
    r = I.d.external(I, "binop." + op.__class__.__name__, a, [b], {}, st, node)
    if r is not None:
        return r
    if "any" in (ka, kb):
        if add and "str" in (ka, kb):
            return one(mkstr((a, b)), st)
        return one(App("arith" + op.__class__.__name__, (a, b), "any"), st)
    I.err(
        "TypeError", st, node, "unsupported operand %s and %s" % (ka, kb)
    )
    return []


def compare(I, op, a, b, st, node):
    I.d.on_compare(I, op, a, b, st, node)
    if op == "is not":
        return negate(I, compare_is(I, a, b, st, node))
    if op == "is":
        return compare_is(I, a, b, st, node)
    if op == "!=":
        return negate(I, compare_eq(I, a, b, st, node))
    if op == "==":
        return compare_eq(I, a, b, st, node)
    if op == "not in":
        return negate(I, contains(I, a, b, st, node))
    if op == "in":
        return contains(I, a, b, st, node)
    return order(I, op, a, b, st, node)


def negate(I, res):
    out = []
    for v, s in res:
        if isinstance(v, K):
            out.append((kbool(not v.v), s))
        elif isinstance(v, App) and v.op == "not":
            out.append((v.args[0], s))
        else:
            out.append((App("not", (v,), "bool"), s))
    return out


def compare_is(I, a, b, st, node):
    if isinstance(b, K) and not isinstance(a, K):
        a, b = b, a
    # a is a constant or both are not
    if isinstance(a, K) and isinstance(b, K):
        if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
            return one(kbool(type(a.v) is type(b.v) and a.v == b.v), st)
        return one(kbool(a == b), st)
    if isinstance(a, K):
        if isinstance(b, (Ref, Tup, Str, Lin, Fn, Bound, Cls, Mod, Bi, Exc, Partial)):
            r = I.d.external(I, "is", b, [a], {}, st, node)
            if r is not None:
                return r
            return one(FALSE, st)
        if isinstance(b, (Sym, App)):
            if a.v is None and b.sort in ("tok", "str", "int", "bool", "type", "float"):
                return one(FALSE, st)
            if isinstance(a.v, bool) and b.sort == "bool":
                return one(b, st) if a.v else negate(I, one(b, st))
            return compare_eq(I, b, a, st, node)
    if isinstance(a, Ref) or isinstance(b, Ref):
        if isinstance(a, Ref) and isinstance(b, Ref):
            return one(kbool(a == b), st)
        return one(FALSE, st)
    return compare_eq(I, a, b, st, node)


def compare_eq(I, a, b, st, node):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ref):
            o = st.obj(x)
            if o.kind == "inst" and I.class_attr(o.cls, "__eq__"):
                if x == y:
                    return one(TRUE, st)
                res = []
                for m, s in I.getattr(x, "__eq__", st.push(y), node):
                    y2 = s.stack[-1]
                    res.extend(I.call(m, [y2], {}, s.pop(), node))
                return res
    r = I.d.external(I, "==", a, [b], {}, st, node)
    if r is not None:
        return r
    if isinstance(a, Ref) or isinstance(b, Ref):
        if a == b:
            return one(TRUE, st)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.obj(a), st.obj(b)
            if oa.kind == ob.kind == "list":
                return compare_eq(I, Tup(oa.data), Tup(ob.data), st, node)
            if oa.kind != ob.kind or oa.kind == "inst":
                return one(FALSE, st)
            return one(fresh("eq", "bool"), st)
        return one(FALSE, st)
    if isinstance(b, K) and isinstance(b.v, bool) and isinstance(a, (Sym, App)) and a.sort == "bool":
        return one(a, st) if b.v else negate(I, one(a, st))
    if isinstance(a, K) and isinstance(a.v, bool) and isinstance(b, (Sym, App)) and b.sort == "bool":
        return one(b, st) if a.v else negate(I, one(b, st))
    d = F.decide_eq(st, a, b)
    if d is not None:
        return one(kbool(d), st)
    if is_int(a) and is_int(b):
        return one(App("eq0", (lin_add(a, b, -1),), "bool"), st)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if any(isinstance(x, Seg) for x in a.items + b.items):
            return one(F.eqterm(a, b), st)
        # element-wise
        res = []
        cur = [st.push(a, b)]
        for i in range(len(a.items)):
            nxt = []
            for c in cur:
                x, y = c.stack[-2].items[i], c.stack[-1].items[i]
                for r, c2 in compare_eq(I, x, y, c, node):
                    for t, c3 in I.truth(r, c2, node):
                        (nxt.append(c3) if t else res.append((FALSE, c3.pop(2))))
            cur = nxt
        return res + [(TRUE, c.pop(2)) for c in cur]
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Str) and isinstance(y, K):
            p, rest = around(x, y.v)
            if p is not None:
                return compare_eq(I, p, K(rest), st, node)
    return one(F.eqterm(a, b), st)


def around(s, text):
    """The one unknown part of a text, and what it must be for the text to be the given one."""
    i = [k for k, p in enumerate(s.parts) if not isinstance(p, str)]
    if len(i) != 1 or not isinstance(text, str):
        return None, None
    p = s.parts[i[0]]
    if not isinstance(p, (Sym, App)) or p.sort not in ("tok", "str") or isinstance(p, App) and p.op not in ("lower", "upper"):
        return None, None
    a, b = "".join(s.parts[: i[0]]), "".join(s.parts[i[0] + 1:])
    if len(text) < len(a) + len(b) or not (text.startswith(a) and text.endswith(b)):
        return None, None
    return p, text[len(a): len(text) - len(b)]


def contains(I, a, b, st, node):
    """a in b"""
    r = I.d.external(I, "in", b, [a], {}, st, node)
    if r is not None:
        return r
    items = None
    if isinstance(b, Tup):
        items = b.items
    elif isinstance(b, Ref):
        o = st.obj(b)
        if o.kind in ("list", "set"):
            items = o.data
        elif o.kind == "dict":
            items = tuple(x.items[0] for x in o.data)
        elif o.kind == "inst" and I.class_attr(o.cls, "__contains__"):
            res = []
            for m, s in I.getattr(b, "__contains__", st.push(a), node):
                x = s.stack[-1]
                for r, s2 in I.call(m, [x], {}, s.pop(), node):
                    res.extend((kbool(t), s3) for t, s3 in I.truth(r, s2, node))
            return res
        else:
            res = []
            for its, s in I.collect(b, st.push(a), node):
                res.extend(contains(I, s.stack[-1], Tup(its), s.pop(), node))
            return res
    elif isinstance(b, K):
        if isinstance(b.v, str):
            if isinstance(a, K):
                if not isinstance(a.v, str):
                    I.err("TypeError", st, node, "in <string>")
                    return []
                return one(kbool(a.v in b.v), st)
            if not F.is_stringy(a) and not (isinstance(a, (Sym, App)) and a.sort == "any"):
                I.err("TypeError", st, node, "in <string>")
                return []
            return one(App("contains", (b, a), "bool"), st)
        if isinstance(b.v, (tuple, frozenset)):
            items = tuple(K(x) for x in b.v)
        else:
            I.err("TypeError", st, node, "not a container")
            return []
    if items is not None:
        if all(isinstance(x, K) for x in items):
            if isinstance(a, K):
                return one(kbool(any(F.decide_eq(st, a, x) for x in items)), st)
            if isinstance(a, (Sym, App, Str, Lin)):
                ds = [F.decide_eq(st, a, x) for x in items]
                if any(d is True for d in ds):
                    return one(TRUE, st)
                if all(d is False for d in ds):
                    return one(FALSE, st)
                pos, _ = F.vfact(st, a)
                if pos is not None and all(p in items for p in pos):
                    return one(TRUE, st)
                return one(App("in", (a, Tup(items)), "bool"), st)
            if isinstance(a, (Ref, Tup, Cls, Fn)):
                res = []
                cur = [st.push(a)]
                for x in items:
                    nxt = []
                    for c in cur:
                        for r, c2 in compare_eq(I, c.stack[-1], x, c, node):
                            for t, c3 in I.truth(r, c2, node):
                                (res.append((TRUE, c3.pop())) if t else nxt.append(c3))
                    cur = nxt
                return res + [(FALSE, c.pop()) for c in cur]
        res = []
        cur = [st.push(a, Tup(items))]
        for i in range(len(items)):
            nxt = []
            for c in cur:
                its = c.stack[-1].items
                x = its[i]
                y = c.stack[-2]
                if isinstance(x, Seg):
                    t = App("member", (y, x), "bool")
                    for bb, c2 in I.truth(t, c, node):
                        (res.append((TRUE, c2.pop(2))) if bb else nxt.append(c2))
                else:
                    for r, c2 in compare_eq(I, y, x, c, node):
                        for t, c3 in I.truth(r, c2, node):
                            (res.append((TRUE, c3.pop(2))) if t else nxt.append(c3))
            cur = nxt
        return res + [(FALSE, c.pop(2)) for c in cur]
    if F.is_stringy(b):
        if a == NONE or isinstance(a, (Lin, Ref, Tup)) or (isinstance(a, K) and not isinstance(a.v, str)):
            I.err("TypeError", st, node, "in <string>")
            return []
        if isinstance(a, K):
            if a.v == "":
                return one(TRUE, st)
            for p in str_parts(b):
                if isinstance(p, str) and a.v in p:
                    return one(TRUE, st)
            if isinstance(b, (Sym, App)):
                pos, _ = F.vfact(st, b)
                if pos is not None:
                    vals = set(a.v in c.v for c in pos)
                    if len(vals) == 1:
                        return one(kbool(vals.pop()), st)
        if any(p == a for p in str_parts(b)):
            return one(TRUE, st)
        return one(App("contains", (b, a), "bool"), st)
    if b == NONE or isinstance(b, (Lin, Fn)):
        I.err("TypeError", st, node, "not a container")
        return []
    if isinstance(b, (Sym, App)):
        return one(App("member", (a, b), "bool"), st)
    raise AnalysisError("in %r" % (b,))


def order(I, op, a, b, st, node):
    if isinstance(a, K) and isinstance(b, K):
        try:
            r = {
                "<": lambda: a.v < b.v, "<=": lambda: a.v <= b.v,
                ">": lambda: a.v > b.v, ">=": lambda: a.v >= b.v,
            }[op]()
        except TypeError:
            I.err("TypeError", st, node, "ordering")
            return []
        return one(kbool(r), st)
    ka, kb = kind_of(I, a, st), kind_of(I, b, st)
    if ka == "NoneType" or kb == "NoneType":
        I.err("TypeError", st, node, "ordering with None")
        return []
    if ka in ("int", "bool", "any") and kb in ("int", "bool", "any") and lin_of(a) and lin_of(b):
        if op == "<":
            l = lin_add(lin_add(b, a, -1), K(-1))
        elif op == "<=":
            l = lin_add(b, a, -1)
        elif op == ">":
            l = lin_add(lin_add(a, b, -1), K(-1))
        else:
            l = lin_add(a, b, -1)
        d = F.decide_lin(st, lin_of(l), "ge")
        if d is not None:
            return one(kbool(d), st)
        return one(App("ge0", (l,), "bool"), st)
    r = I.d.external(I, "order", a, [b], {}, st, node)
    if r is not None:
        return r
    if ka != kb and "any" not in (ka, kb) and not {ka, kb} <= {"int", "float", "bool"}:
        I.err("TypeError", st, node, "ordering %s %s" % (ka, kb))
        return []
    return one(App("order" + op, (a, b), "bool"), st)


def isinstance_(I, v, c, st, node):
    if isinstance(c, Tup):
        res = []
        cur = [st.push(v)]
        for x in c.items:
            nxt = []
            for s in cur:
                for r, s2 in isinstance_(I, s.stack[-1], x, s, node):
                    for b, s3 in I.truth(r, s2, node):
                        (res.append((TRUE, s3.pop())) if b else nxt.append(s3))
            cur = nxt
        return res + [(FALSE, s.pop()) for s in cur]
    if isinstance(c, App) and c.op == "type":
        r = I.d.external(I, "isinstance", v, [c], {}, st, node)
        return r if r is not None else one(fresh("isinst", "bool"), st)
    name = c.name if isinstance(c, (Cls, Bi)) else None
    if name is None:
        raise AnalysisError("isinstance with %r" % (c,))
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "inst":
            return one(kbool(I.is_subclass(o.cls, name)), st)
        if o.kind in ("list", "set", "dict"):
            return one(kbool(name in (o.kind, "object", "typing.Iterable")), st)
    if isinstance(v, K):
        t = getattr(pybuiltins, name, None)
        return one(kbool(isinstance(t, type) and isinstance(v.v, t)), st)
    if F.is_stringy(v):
        return one(kbool(name in ("str", "object")), st)
    if is_int(v):
        return one(kbool(name in ("int", "object")), st)
    if isinstance(v, Tup):
        return one(kbool(name in ("tuple", "object")), st)
    if isinstance(v, Exc):
        m = I.exc_match(v, c)
        return one(kbool(m) if m is not None else fresh("isinst", "bool"), st)
    if isinstance(v, Cls):
        return one(kbool(name in ("type", "object")), st)
    r = I.d.external(I, "isinstance", v, [c], {}, st, node)
    if r is not None:
        return r
    if isinstance(v, (Fn, Bound, Bi, Mod)):
        return one(FALSE, st)
    return one(App("isinst", (v, Cls(name)), "bool"), st)


def to_str(I, v, st, node, conv="s"):
    if isinstance(v, K):
        return one(K(repr(v.v) if conv == "r" else str(v.v)), st)
    if F.is_stringy(v):
        return one(v if conv == "s" else App("repr", (v,), "str"), st)
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind == "inst":
            names = ("__str__", "__repr__") if conv == "s" else ("__repr__",)
            for n in names:
                a = I.class_attr(o.cls, n)
                if a is not None:
                    res = []
                    for m, s in I.getattr(v, n, st, node):
                        res.extend(I.call(m, [], {}, s, node))
                    return res
            return one(App("repr", (v,), "str"), st)
    r = I.d.external(I, "str", v, [K(conv)], {}, st, node)
    if r is not None:
        return r
    if isinstance(v, (Sym, App)) and v.sort == "bool":
        res = []
        for b, s in I.truth(v, st, node):
            res.append((K(str(b)), s))
        return res
    return one(App("str", (v,), "str"), st)
