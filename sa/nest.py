"""G03: where parts end.

The functions that cut the token stream into parts (the collectors of the tokeniser, the
list and ORDER BY parsers of the lexer) are executed abstractly on a stream whose tokens
are split by kind: brackets, CASE, END, quotes, the delimiters looked for, any other.  A
ghost stack holds what is open; it is bounded, everything else about the stream is
unknown.  A part must end at the first delimiter met while nothing is open, and what is
handed on must be exactly the tokens read.
"""
from . import facts as F
from .casing import CaseRule
from .gram import LEX, QUOTES, TOK
from .interp import Domain, Interp
from .loader import AnalysisError
from .vals import *  # noqa

OPENERS = {"(": ")", "[": "]", "case": "end"}
CLOSERS = {")": "(", "]": "[", "end": "case"}


class Found(Exception):
    """One violation is enough."""


class Nest(CaseRule, Domain):
    drop_dead = True

    def __init__(self, root, opts):
        self.root = root
        self.o = opts
        self.viol = {}
        self.stats = {"exits": 0, "tokens": 0, "parts": 0}
        self.contracts = {}
        self.depth = opts.get("depth", 3)
        self.stops = tuple(opts.get("stops", ()))
        self.keep = tuple(opts.get("keep", ()))
        self.quotes = tuple(opts.get("quotes", QUOTES))
        self.run = tuple(opts.get("run", ()))  # the words the part is made of
        self.special = sorted(
            set(self.run) | set(OPENERS) | set(CLOSERS) | set(self.quotes) | set(self.stops) | {k[0] for k in self.keep}
        )
        self.none = [K(w) for w in sorted(set(self.special) | set(QUOTES))]
        self.entered = False

    def bad(self, rule, detail=""):
        self.viol.setdefault((rule, self.root), "%s: %s%s" % (self.root, rule, ": " + detail if detail else ""))
        raise Found()

    def show(self, st):
        s = [x.v for x in st.mon["open"].items]
        return "inside " + " ".join("CASE" if x == "case" else x for x in s) if s else "with nothing open"

    # --- the stream ---------------------------------------------------------------

    def kinds(self, st):
        """(words or None for any other, new stack, is it the delimiter)"""
        op = tuple(x.v for x in st.mon["open"].items)
        out = []
        if self.run:
            return [((w,), (), False) for w in self.run] + [(None, (), True)]
        if op and op[-1] in QUOTES:
            q = op[-1]
            out.append(((q,), op[:-1], False))
            for w in self.special:
                if w != q:
                    out.append(((w,), op[:-1] + (q + ".",), False))
            out.append((None, op[:-1] + (q + ".",), False))
            return out
        if op and op[-1][0] in QUOTES:
            return [((op[-1][0],), op[:-1], False)]
        for w in self.special:
            stop = not op and w in self.stops
            if stop and (st.mon["prev"].v, w) in self.keep:
                stop = False
            if w == "," and (op and op[-1] == "case" or stop and not st.mon["led"].items):
                continue  # no SQL has a comma there
            if w in self.quotes:
                out.append(((w,), op + (w,), False))
            elif w in OPENERS:
                if len(op) < self.depth:
                    out.append(((w,), op + (w,), False))
            elif w in CLOSERS:
                if op and op[-1] == CLOSERS[w]:
                    out.append(((w,), op[:-1], False))
                elif stop:
                    out.append(((w,), op, True))
            else:
                out.append(((w,), op, stop))
        out.append((None, op, False))
        return out

    def token(self, st, kind):
        words, op, stop = kind
        if words is None:
            t = fresh("t", "tok")
            s = F.refine_in(st, F.low(t), self.none, False)
        elif words[0][0].isalpha():
            # in any letter case
            t = fresh("t", "tok")
            s = F.refine_in(st, F.low(t), [K(words[0])], True)
        else:
            t, s = K(words[0]), st
        s = s.set_mon("last", K(words and words[0]))
        s = s.set_mon("led", Tup(s.mon["led"].items + (t,)))
        s = s.set_mon("open", Tup(tuple(K(x) for x in op)))
        s = s.set_mon("prev", K(words[0] if words and words[0] in [k[0] for k in self.keep] else None))
        return t, s.set_mon("stop", K(stop))

    def opaque_next(self, I, ref, obj, st, node):
        if obj.kind != "stream":
            return None
        if st.mon["end"].v:
            return [(None, st)]
        if st.mon["stop"].v:
            self.bad("reads past the delimiter that ends the part")
            return []
        res = []
        for k in self.kinds(st):
            self.stats["tokens"] += 1
            res.append(self.token(st, k))
        if not st.mon["open"].items:
            # the text ends; one that ends inside a bracket is no SQL
            res.append((None, st.set_mon("end", TRUE)))
        return res

    # --- lists ----------------------------------------------------------------------

    def splits(self, I, seg, st):
        return seg.sym.tag == "T"

    def elem_of(self, I, seg, st):
        if seg.sym.tag == "T":
            return fresh("t", "tok"), st
        return Domain.elem_of(self, I, seg, st)

    def normalise(self, I, st, node):
        led = st.mon["led"].items
        for oid, o in list(st.heap.items()):
            if o.kind != "list" or not o.data:
                continue
            d = o.data
            if len(d) > 1 and all(x == K("part") for x in d):
                st = st.set_obj(oid, o.with_((K("part"),)))
                continue
            n = len(d) - 1  # the last one may be looked at again
            if n < 2 or not all(isinstance(x, (K, Sym)) or isinstance(x, Seg) and x.sym.tag == "T" for x in d[:n]):
                continue
            if led[:n] != d[:n]:
                continue
            T = Seg(fresh("T"), None)
            st = F.set_iv(st, App("len", (T.sym,), "int"), 1, None)
            for o2, b in list(st.heap.items()):
                if b.kind == "list" and b.data[:n] == d[:n]:
                    st = st.set_obj(o2, b.with_((T,) + b.data[n:]))
            led = (T,) + led[n:]
            st = st.set_mon("led", Tup(led))
        return [st]

    # --- parts ------------------------------------------------------------------------

    def intercept(self, I, f, args, kw, st, node):
        if f.module != LEX or not f.qualname.endswith(".parse"):
            return None
        if f.qualname == self.root:
            if not self.entered:
                self.entered = True
                return None
            raise AnalysisError("%s calls itself" % self.root)
        lists = [a for a in list(args) + list(kw.values()) if isinstance(a, Ref)]
        if len(lists) != 1:
            raise AnalysisError("arguments of " + f.qualname)
        o = st.obj(lists[0])
        if o.kind == "iter" and o.cls == "live":
            lst, pos = o.data
            items = st.obj(lst).data[pos.v:]
        elif o.kind in ("iter", "list"):
            items = o.data
        else:
            raise AnalysisError("argument of " + f.qualname)
        st = self.part(items, st)
        if st is None:
            return []
        pair = f.qualname == "ExpressionParser.parse"
        return [(Tup((K("part"), NONE)) if pair else K("part"), st)]

    def part(self, items, st):
        """These tokens are handed on as one part."""
        self.stats["parts"] += 1
        led = st.mon["led"].items
        if st.mon["stop"].v:
            led = led[:-1]
        elif not st.mon["end"].v:
            self.bad("a part ends although no delimiter was met", self.show(st))
            return None
        if tuple(items) != led:
            self.bad("the part handed on is not what was read")
            return None
        st = st.set_mon("led", Tup(()))
        return st.set_mon("stop", FALSE)

    # --- the end ----------------------------------------------------------------------

    def items(self, v, st):
        if isinstance(v, Ref) and st.obj(v).kind == "list":
            return st.obj(v).data
        raise AnalysisError("%s returns %r" % (self.root, v))

    def finish(self, I, v, st):
        self.stats["exits"] += 1
        led = st.mon["led"].items
        stopped = st.mon["stop"].v
        shape = self.o["shape"]
        if shape == "parts":
            if led or stopped:
                self.bad("tokens are read and not handed on")
            elif not st.mon["end"].v:
                self.bad("stops before the end")
            return
        if shape == "pair":
            if not (isinstance(v, Tup) and len(v.items) == 2):
                raise AnalysisError("%s returns %r" % (self.root, v))
            v, t = v.items
            if t == NONE:
                if not st.mon["end"].v:
                    self.bad("reports the end of the text before it")
                    return
            elif not led or led[-1] != t:
                self.bad("the token handed back is not the last one read")
                return
            elif not stopped and not st.mon["end"].v:
                self.bad("ends at a token that is no delimiter", self.show(st))
                return
        elif not stopped and not st.mon["end"].v:
            self.bad("ends at a token that is no delimiter", self.show(st))
            return
        if stopped:
            led = led[:-1]
        if tuple(self.items(v, st)) != led:
            self.bad("what is handed on is not what was read")


def run_nest(prog, root, o, holder=None):
    d = Nest(root, o)
    if holder is not None:
        holder.append(d)
    I = Interp(prog, d)
    I.max_heads = 20000
    I.join_ints = lambda a, b: None
    mod = LEX if root.endswith(".parse") else TOK
    f = prog.find(mod, root)
    if f is None:
        raise AnalysisError("no function " + root)
    st = I.initial()
    st = St(st.frame, (), dict(st.heap), {}, {
        "led": Tup(()), "open": Tup(()), "end": FALSE, "stop": FALSE, "prev": NONE, "last": NONE,
    })
    S, st = st.new_obj("stream", None, ())
    states = [({}, st)]
    first = o.get("first")
    if first is not None:
        for k in d.kinds(st):
            if (k[0] or ("other",))[0] == first:
                t, st = d.token(st, k)
                break
        else:
            raise AnalysisError("first token " + first)
        if root != "get_tokens_until_closing_parenthesis":
            st = st.set_mon("stop", FALSE)  # it is given, not looked at
        states = [({"first_token": t}, st)]
    I.sink = []
    err = None
    try:
        for kw, st in states:
            kw = dict(kw)
            args = [S]
            if mod == TOK:
                if "arg" in o:
                    L, st = st.new_obj("list", None, tuple(K(x) for x in d.run or d.stops))
                    args.append(L)
                if d.keep:
                    L, st = st.new_obj("list", None, tuple(Tup((K(a), K(b))) for a, b in d.keep))
                    kw["keep"] = L
                fn = BASE[I.modframes[mod]].data[root]
            else:
                cls = root[: -len(".parse")]
                ca = I.class_attr(LEX + ":" + cls, "parse")
                fn = ca[0].fn if isinstance(ca[0], Wrap) else ca[0]
                a = f.node.args
                if [x.arg for x in a.posonlyargs + a.args][:1] == ["cls"]:
                    args.insert(0, Cls(LEX + ":" + cls))
            for v, s in I.call(fn, args, kw, st, None):
                d.finish(I, v, s)
    except Found:
        pass
    except AnalysisError as e:
        err = str(e)
    return d, I, err


def nest_jobs(tier):
    """Every collector with the kinds of delimiters it is given, up to a nesting depth."""
    deep = tier == "thorough"
    sizes = [(2, ""), (1, "'\""), (0, "'\"`")]
    jobs = []

    def add(root, shape, **o):
        for depth, quotes in sizes:
            jobs.append((root, dict(o, shape=shape, depth=depth, quotes=tuple(quotes))))
        jobs.append((root, dict(o, shape=shape, depth=3, quotes=())))
        if deep:
            jobs.append((root, dict(o, shape=shape, depth=4, quotes=())))
            jobs.append((root, dict(o, shape=shape, depth=3, quotes=("'",))))
            jobs.append((root, dict(o, shape=shape, depth=2, quotes=("'", '"'))))

    def firsts(root, shape, also=(), **o):
        for first in (None, "(", "[", "case", "'", '"', "other") + also:
            d = 2 if deep else 1
            q = ("'", '"') if first in ("'", '"') else ()
            jobs.append((root, dict(o, shape=shape, first=first, depth=d, quotes=q)))

    one = "get_tokens_until_one_of"
    add(one, "pair", arg=1, stops=("stop", "halt"))
    add(one, "pair", arg=1, stops=("stop", "offset"), keep=(("with", "offset"),))
    for stops in ((), (")", "stop"), ("]",), ("end",), (",",)):
        firsts(one, "pair", arg=1, stops=stops)
    firsts(one, "pair", arg=1, stops=("stop", "halt"))
    close = "get_tokens_until_closing_parenthesis"
    add(close, "list", stops=(")",))
    firsts(close, "list", also=(")",), stops=(")",))
    for first in (None, "join"):
        jobs.append(("get_tokens_until_not_in", {"shape": "pair", "arg": 1, "run": ("join", ",", "left"), "first": first, "depth": 0}))
    add("ExpressionListParser.parse", "parts", stops=(",",))
    add("OrderByParser.parse", "parts", stops=(",",))
    return jobs
