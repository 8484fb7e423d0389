"""Abstract interpreter for the Python subset the repository is written in.

Works on sets of abstract states; states of equal shape are joined at every
statement, loops run to a fixpoint.  Domains subclass Domain and are asked
about externals, function contracts, opaque objects and loop normalisation.
"""
import ast
import builtins as pybuiltins
import sys

from .vals import *  # noqa
from . import facts as F
from .loader import AnalysisError

sys.setrecursionlimit(20000)


class ClassInfo:
    __slots__ = ("name", "bases", "attrs", "module", "node", "dataclass", "fields")


class Outs:
    """Outcomes of a block: lists of states; ret/exc carry their value on the stack."""

    __slots__ = ("n", "ret", "brk", "cont", "exc")

    def __init__(self):
        self.n, self.ret, self.brk, self.cont, self.exc = [], [], [], [], []


class Domain:
    """Default hooks; see the property checks for the interesting ones."""

    drop_dead = True

    strict_heads = False  # loop heads with different distinct() are never joined

    def distinct(self, st):
        """States for which this differs are never merged."""
        return None

    def intercept(self, I, f, args, kw, st, node):
        return None

    def external(self, I, name, recv, args, kw, st, node):
        """Unknown external function.  Return list of (value, st) or None."""
        return None

    def opaque_attr(self, I, ref, obj, name, st, node):
        return None

    def sym_attr(self, I, v, name, st, node):
        return None

    def sym_call(self, I, v, args, kw, st, node):
        return None

    def opaque_iter(self, I, v, st, node):
        return None

    def opaque_next(self, I, ref, obj, st, node):
        return None

    def elem_of(self, I, seg, st):
        """Fresh element of a Seg -> (value, st)."""
        t = seg.elem
        if t is None:
            return fresh("el"), st
        m = {}

        def f(x):
            if isinstance(x, Sym) and isinstance(x.id, int) and x.tag.startswith("?"):
                if x not in m:
                    m[x] = Sym(fresh_id(), x.tag[1:], x.sort)
                return m[x]

        return map_val(t, f), st

    def splits(self, I, seg, st):
        return False

    def elems(self, I, seg, st, node):
        """The possible next elements of a Seg -> [(value, st)]."""
        return [self.elem_of(I, seg, st)]

    def seg_done(self, I, seg, st, node):
        """A Seg was iterated to its end -> states."""
        return [st]

    def normalise(self, I, st, node):
        return [st]

    def on_compare(self, I, op, a, b, st, node):
        pass

    def on_strop(self, I, meth, v, args, st, node):
        pass

    # 0: sets are walked as they were filled; 1, -1: in a fixed order or its reverse
    setorder = 0

    def on_write(self, I, kind, target, st, node):
        pass

    def on_cached(self, I, f, how, v, st):
        pass

    def on_walk_set(self, I, ref, st, node):
        pass

    def on_exit_loop(self, I, st, node):
        pass

    def str_replace(self, I, s, a, b, st, node):
        return None

    def on_assign(self, I, name, v, st, node):
        return st

    def on_yield(self, I, v, st, node):
        return [st]

    def on_truth(self, I, v, b, st, node):
        return st

    def on_op(self, I, op, a, b, st, node):
        return None


EXC_PARENTS = {"tokenize.TokenError": "Exception"}


def plain_target(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        return all(map(plain_target, t.elts))
    if isinstance(t, ast.Starred):
        return plain_target(t.value)
    return isinstance(t, ast.Name)


CACHES = ("lru_cache", "cache", "cached_property")


def cached(prog):
    """Functions whose result is kept: {fid: decorator name}"""
    r = {}
    for f in prog.funcs:
        for d in getattr(f.node, "decorator_list", ()):
            x = d.func if isinstance(d, ast.Call) else d
            n = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else ""
            if n in CACHES:
                r[f.fid] = n
    return r


class Interp:
    MAXDEPTH = 60
    max_heads = 400
    affine = False  # keep relations over several counters at loop heads

    def __init__(self, prog, domain):
        self.p = prog
        self.d = domain
        self.cached = cached(prog)
        self.classes = {}
        self.modframes = {}
        self.modstate = {}
        self.fn = None
        self.sink = []
        self.depth = 0
        self.consumers = []
        self.live = {}
        self.steps = 0
        self.maxsteps = 4000000
        self.visited = set()
        self.loading = True
        self.callstack = []
        self.tails = {}
        self.tailq = []
        self.batchnode = self.batchfn = self.batch = None
        BASE.clear()
        self.load()
        self.loading = False

    # --- modules -----------------------------------------------------------

    def load(self):
        for m in self.p.modules:
            oid = fresh_id()
            self.modframes[m] = oid
            BASE[oid] = Obj("frame", m, {})
        done = set()

        def run(m):
            if m in done:
                return
            done.add(m)
            for n in ast.walk(self.p.modules[m]):
                if isinstance(n, ast.ImportFrom):
                    for t in self.import_targets(m, n):
                        if t in self.p.modules:
                            run(t)
            st = St(self.modframes[m], (), dict(BASE), {}, {})
            old = self.fn
            self.fn = None
            self.curmod = m
            body = self.p.modules[m].body
            body = [
                b
                for b in body
                if not (isinstance(b, ast.If) and self.is_main_guard(b.test))
            ]
            out = self.exec_block(body, [st], toplevel=True)
            self.fn = old
            if out.exc or len(out.n) != 1:
                raise AnalysisError(
                    "module %s: %d normal states, exceptions %r"
                    % (m, len(out.n), [s.stack[-1] for s in out.exc][:2])
                )
            BASE.clear()
            BASE.update(out.n[0].heap)

        for m in self.p.modules:
            run(m)

    @staticmethod
    def is_main_guard(t):
        return (
            isinstance(t, ast.Compare)
            and isinstance(t.left, ast.Name)
            and t.left.id == "__name__"
        )

    def import_targets(self, m, n):
        base = n.module or ""
        if n.level:
            pk = m.split(".")
            is_pkg = self.p.files[m].endswith("__init__.py")
            up = n.level - (1 if is_pkg else 0)
            pk = pk[: len(pk) - up] if up else pk
            base = ".".join(pk + ([n.module] if n.module else []))
        return [base] + [base + "." + a.name for a in n.names]

    def module(self):
        return self.fn.module if self.fn else self.curmod

    def initial(self):
        return St(self.modframes[next(iter(self.modframes))], (), {}, {}, {})

    # --- classes -----------------------------------------------------------

    def mro(self, name):
        out = []
        seen = set()

        def go(n):
            if n in seen:
                return
            seen.add(n)
            out.append(n)
            ci = self.classes.get(n)
            if ci:
                for b in ci.bases:
                    go(b)

        go(name)
        return out

    def class_attr(self, cls, name):
        """-> (value, defining class) or None."""
        for c in self.mro(cls):
            ci = self.classes.get(c)
            if ci and name in ci.attrs:
                return ci.attrs[name], c
        return None

    def is_subclass(self, a, b):
        """Class names; builtin classes by their Python meaning."""
        if a == b or b == "object":
            return True
        for c in self.mro(a):
            if c == b:
                return True
            if c not in self.classes:
                if self.py_sub(c, b):
                    return True
        return False

    @staticmethod
    def py_sub(a, b):
        a = EXC_PARENTS.get(a, a)
        x, y = getattr(pybuiltins, a, None), getattr(pybuiltins, b, None)
        if isinstance(x, type) and isinstance(y, type):
            return issubclass(x, y)
        return a == b

    # --- states: keys, joins --------------------------------------------------

    def key(self, st, skel=False):
        """Canonical form (ignoring names of atoms, facts and garbage)."""
        num = {}
        order = []
        queue = []

        def enc(v):
            if isinstance(v, V):
                if v._g:
                    return v
                if isinstance(v, Ref):
                    if v.oid not in st.heap:
                        return ("base", v.oid)
                    n = num.get(v)
                    if n is None:
                        n = num[v] = len(order)
                        order.append(v)
                        queue.append(v.oid)
                    return ("r", n)
                if isinstance(v, Sym):
                    n = num.get(v)
                    if n is None:
                        n = num[v] = len(order)
                        order.append(v)
                    return ("s", v.tag, v.sort, n)
                return (v.__class__.__name__,) + tuple([enc(x) for x in v.k])
            if isinstance(v, tuple):
                return tuple([enc(x) for x in v])
            if isinstance(v, frozenset):
                return ("fs",) + tuple(enc(x) for x in sorted(v, key=repr))
            return v

        out = [enc(Ref(st.frame)), enc(st.stack), self.d.distinct(st)]
        for k in sorted(st.mon):
            out.append((k, enc(st.mon[k])))
        i = 0
        while i < len(queue):
            o = st.heap[queue[i]]
            i += 1
            d = o.data
            if isinstance(d, dict):
                out.append((o.kind, o.cls, tuple([(k, enc(d[k])) for k in sorted(d)])))
            else:
                out.append((o.kind, o.cls, enc(d)))
        return tuple(out), num, order

    def join_cons(self, sa, ka, sb, kb):
        """Facts holding in both, in the names of sa."""
        numa, ordera = ka
        numb, orderb = kb
        if sa.cons is sb.cons:
            return sa.cons
        res = {}
        back = {}

        class Missing(Exception):
            pass

        def to_b(leaf):
            if isinstance(leaf, Ref) and leaf not in numa:
                if leaf.oid in sa.heap:
                    raise Missing
                return leaf
            if isinstance(leaf, Sym) and isinstance(leaf.id, str):
                return leaf
            n = numa.get(leaf)
            if n is None:
                raise Missing
            return orderb[n]

        def to_a(leaf):
            if isinstance(leaf, Ref) and leaf not in numb:
                if leaf.oid in sb.heap:
                    raise Missing
                return leaf
            if isinstance(leaf, Sym) and isinstance(leaf.id, str):
                return leaf
            n = numb.get(leaf)
            if n is None:
                raise Missing
            return ordera[n]

        for k, fa in sa.cons.items():
            try:
                kb_ = (k[0], map_val(k[1], to_b))
            except Missing:
                continue
            fb = sb.cons.get(kb_)
            if fb is None:
                fb = F.default_fact(sb, kb_)
            if fb is None:
                continue
            j = F.join_fact(k, fa, fb)
            if j is not None:
                res[k] = j
        for k, fb in sb.cons.items():
            try:
                ka_ = (k[0], map_val(k[1], to_a))
            except Missing:
                continue
            if ka_ in res or ka_ in sa.cons:
                continue
            fa = F.default_fact(sa, ka_)
            if fa is None:
                continue
            j = F.join_fact(ka_, fa, fb)
            if j is not None:
                res[ka_] = j
        return res

    def prune(self, st, order):
        h = {}
        for r in order:
            if isinstance(r, Ref):
                h[r.oid] = st.heap[r.oid]
        live = set(order)
        cons = {}
        for k, v in st.cons.items():
            for x in leaves(k[1], []):
                if x in live:
                    continue
                if isinstance(x, Sym):
                    if isinstance(x.id, str):
                        continue
                elif isinstance(x, Ref):
                    if x.oid not in st.heap:
                        continue
                else:
                    continue
                break
            else:
                cons[k] = v
        if len(cons) == len(st.cons):
            cons = st.cons
        return St(st.frame, st.stack, h, cons, st.mon)

    def merge(self, states):
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            k, num, order = self.key(s)
            g = groups.get(k)
            if g is None:
                groups[k] = (self.prune(s, order), (num, order))
            else:
                sa, ka = g
                c = self.join_cons(sa, ka, s, (num, order))
                groups[k] = (St(sa.frame, sa.stack, sa.heap, c, sa.mon), ka)
        return [g[0] for g in groups.values()]

    # --- blocks --------------------------------------------------------------

    def exec_block(self, stmts, states, toplevel=False):
        out = Outs()
        cur = states
        for s in stmts:
            if not cur:
                break
            nxt = []
            for o in [self.exec_many(s, cur)]:
                nxt.extend(o.n)
                out.ret.extend(o.ret)
                out.brk.extend(o.brk)
                out.cont.extend(o.cont)
                out.exc.extend(o.exc)
            if self.fn is not None and self.d.drop_dead and not toplevel:
                nxt = [self.kill_dead(s, x) for x in nxt]
            if len(out.exc) > 50:
                out.exc = self.merge(out.exc)
            cur = self.merge(nxt)
            if len(cur) > 6000:
                raise AnalysisError("too many states at line %s" % s.lineno)
        out.n = cur
        out.ret = self.merge(out.ret)
        out.brk = self.merge(out.brk)
        out.cont = self.merge(out.cont)
        out.exc = self.merge(out.exc)
        return out

    def kill_dead(self, stmt, st):
        live = self.liveness(self.fn).get(stmt)
        if live is None:
            return st
        o = st.objid(st.frame)
        if o.cls != self.fn.fid:
            return st
        dead = [k for k in o.data if k not in live and k != "__up__"]
        if not dead:
            return st
        d = {k: v for k, v in o.data.items() if k in live or k == "__up__"}
        return st.set_obj(st.frame, o.with_(d))

    def liveness(self, f):
        r = self.live.get(f.fid)
        if r is None:
            r = self.live[f.fid] = Liveness(f).after
        return r

    def exec_stmt(self, s, st):
        return self.exec_many(s, [st])

    def exec_many(self, s, states):
        """One statement in several states."""
        self.steps += len(states)
        if self.steps > self.maxsteps:
            raise AnalysisError("analysis budget exhausted")
        if self.fn is not None:
            self.visited.add((self.fn.fid, s.lineno))
        old = self.sink
        self.sink = []
        n = len(states[0].stack)
        try:
            if isinstance(s, (ast.If, ast.While, ast.For, ast.Try, ast.With)):
                o = getattr(self, "x_" + s.__class__.__name__)(s, states)
            elif (
                isinstance(s, (ast.Expr, ast.Assign, ast.Return))
                and isinstance(s.value, ast.Call) and self.fn is not None
                and (not isinstance(s, ast.Assign) or all(map(plain_target, s.targets)))
            ):
                o = self.exec_call(s, states)
            else:
                m = getattr(self, "x_" + s.__class__.__name__, None)
                if m is None:
                    raise AnalysisError(
                        "unsupported statement %s line %s"
                        % (s.__class__.__name__, s.lineno)
                    )
                o = Outs()
                for st in states:
                    self.add(o, m(s, st))
            o.exc.extend(self.sink)
            o.exc = [
                x if len(x.stack) == n + 1 else
                St(x.frame, x.stack[:n] + x.stack[-1:], x.heap, x.cons, x.mon)
                for x in o.exc
            ]
            return o
        finally:
            self.sink = old

    def exec_call(self, s, states):
        """A call statement in several states: tail-recursive functions are
        entered with all of them at once."""
        saved = (self.batchnode, self.batchfn, self.batch)
        self.batchnode, self.batchfn, self.batch = s.value, self.fn, []
        res = Outs()
        m = getattr(self, "x_" + s.__class__.__name__)
        try:
            for st in states:
                self.add(res, m(s, st))
            batch = self.batch
            self.batchnode = self.batchfn = None
            groups = {}
            for f, fr, st in batch:
                # variables of the caller not used after the call are dead
                if self.d.drop_dead:
                    st = self.kill_dead(s, st)
                groups.setdefault((f.fid, len(st.stack)), []).append((f, fr, st))
            old = self.sink
            self.sink = []
            for g in groups.values():
                r = self.run_tail(g[0][0], [(fr, st) for _, fr, st in g], s.value)
                if isinstance(s, ast.Expr):
                    res.n.extend(x for _, x in r)
                elif isinstance(s, ast.Return):
                    res.ret.extend(x.push(v) for v, x in r)
                else:
                    for v, x in r:
                        self.add(res, self.assign_all(s, v, x))
            res.exc.extend(self.sink)
            self.sink = old
        finally:
            self.batchnode, self.batchfn, self.batch = saved
        return res

    def raise_(self, exc, st):
        self.sink.append(st.push(exc))

    def err(self, cls, st, node, msg=""):
        """An exception raised by the operation at node."""
        self.raise_(Exc(cls, (K(msg),), False, self.loc(node)), st)

    def loc(self, node):
        f = self.fn
        if f is None:
            return "%s:%s" % (getattr(self, "curmod", "?"), getattr(node, "lineno", "?"))
        return "%s:%s:%s" % (
            self.p.files[f.module],
            f.qualname,
            getattr(node, "lineno", "?"),
        )

    # --- statements -------------------------------------------------------------

    def x_Expr(self, s, st):
        o = Outs()
        o.n = [s2 for _, s2 in self.ev(s.value, st)]
        return o

    def x_Pass(self, s, st):
        o = Outs()
        o.n = [st]
        return o

    x_Global = x_Nonlocal = x_Pass

    def x_Assign(self, s, st):
        o = Outs()
        for v, s2 in self.ev(s.value, st):
            o.n.extend(self.assign_all(s, v, s2).n)
        return o

    def assign_all(self, s, v, st):
        o = Outs()
        cur = [st.push(v)]
        for t in s.targets:
            nxt = []
            for c in cur:
                nxt.extend(self.assign(t, c.stack[-1], c))
            cur = nxt
        o.n.extend(c.pop() for c in cur)
        return o

    def x_AnnAssign(self, s, st):
        o = Outs()
        if s.value is None:
            if self.fn is None and isinstance(s.target, ast.Name):
                ann = st.var("__annotations__") or Tup(())
                st = st.set_var("__annotations__", Tup(ann.items + (K(s.target.id),)))
            o.n = [st]
            return o
        for v, s2 in self.ev(s.value, st):
            if isinstance(s.target, ast.Name) and self.fn is None:
                ann = s2.var("__annotations__") or Tup(())
                s2 = s2.set_var("__annotations__", Tup(ann.items + (K(s.target.id),)))
            o.n.extend(self.assign(s.target, v, s2))
        return o

    def x_AugAssign(self, s, st):
        o = Outs()
        t = s.target
        if isinstance(t, ast.Name):
            for old, s1 in self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st):
                for v, s2 in self.ev(s.value, s1.push(old)):
                    old2 = s2.stack[-1]
                    for r, s3 in self.binop(s.op, old2, v, s2.pop(), s, inplace=True):
                        o.n.extend(self.assign(t, r, s3))
        elif isinstance(t, ast.Attribute):
            for recv, s1 in self.ev(t.value, st):
                s1 = s1.push(recv)
                for old, s2 in self.getattr(recv, t.attr, s1, t):
                    for v, s3 in self.ev(s.value, s2.push(old)):
                        for r, s4 in self.binop(
                            s.op, s3.stack[-1], v, s3.pop(), s, inplace=True
                        ):
                            o.n.extend(
                                self.setattr(s4.stack[-1], t.attr, r, s4.pop(), s)
                            )
        elif isinstance(t, ast.Subscript):
            for (recv, idx), s1 in self.evs([t.value, t.slice], st):
                s1 = s1.push(recv, idx)
                for old, s2 in self.getitem(recv, idx, s1, t):
                    for v, s3 in self.ev(s.value, s2.push(old)):
                        for r, s4 in self.binop(
                            s.op, s3.stack[-1], v, s3.pop(), s, inplace=True
                        ):
                            recv2, idx2 = s4.stack[-2:]
                            o.n.extend(self.setitem(recv2, idx2, r, s4.pop(2), s))
        else:
            raise AnalysisError("augassign")
        return o

    def x_Return(self, s, st):
        o = Outs()
        if s.value is None:
            o.ret = [st.push(NONE)]
        else:
            o.ret = [s2.push(v) for v, s2 in self.ev(s.value, st)]
        return o

    def x_Break(self, s, st):
        o = Outs()
        o.brk = [st]
        return o

    def x_Continue(self, s, st):
        o = Outs()
        o.cont = [st]
        return o

    def x_If(self, s, sts):
        o = Outs()
        ts, fs = [], []
        for st in sts:
            for b, s2 in self.cond(s.test, st):
                (ts if b else fs).append(s2)
        for states, body in ((ts, s.body), (fs, s.orelse)):
            if not states:
                continue
            states = self.merge(states)
            if body:
                b = self.exec_block(body, states)
                self.add(o, b)
            else:
                o.n.extend(states)
        return o

    def add(self, o, b, normal=True):
        if normal:
            o.n.extend(b.n)
        o.ret.extend(b.ret)
        o.brk.extend(b.brk)
        o.cont.extend(b.cont)
        o.exc.extend(b.exc)

    def x_Assert(self, s, st):
        o = Outs()
        for b, s2 in self.cond(s.test, st):
            if b:
                o.n.append(s2)
            else:
                self.err("AssertionError", s2, s)
        return o

    def x_Raise(self, s, st):
        o = Outs()
        if s.exc is None:
            e = st.mon.get("curexc")
            cur = e[-1] if e else Exc("RuntimeError", (), False, self.loc(s))
            self.raise_(cur, st)
            return o
        for v, s2 in self.ev(s.exc, st):
            if isinstance(v, Cls):
                for v2, s3 in self.call(v, [], {}, s2, s):
                    self.raise_exc(v2, s3, s)
            else:
                self.raise_exc(v, s2, s)
        return o

    def raise_exc(self, v, st, node):
        if isinstance(v, Exc):
            if v.info is None:
                v = Exc(v.cls, v.args, v.unknown, self.loc(node))
            self.raise_(v, st)
        elif isinstance(v, Ref) and st.obj(v).kind == "inst":
            self.raise_(Exc(st.obj(v).cls, (v,), False, self.loc(node)), st)
        else:
            self.raise_(Exc("Exception", (), True, self.loc(node)), st)

    def x_Delete(self, s, st):
        o = Outs()
        states = [st]
        for t in s.targets:
            nxt = []
            for c in states:
                if isinstance(t, ast.Name):
                    nxt.append(c.del_var(t.id))
                elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
                    if t.slice.lower or t.slice.upper or t.slice.step:
                        raise AnalysisError("deletion of a slice")
                    for recv, c2 in self.ev(t.value, c):
                        if not (isinstance(recv, Ref) and c2.obj(recv).kind == "list"):
                            raise AnalysisError("deletion of a slice")
                        self.d.on_write(self, "list", recv, c2, t)
                        nxt.append(c2.set_obj(recv.oid, c2.obj(recv).with_(())))
                elif isinstance(t, ast.Subscript):
                    for (recv, idx), c2 in self.evs([t.value, t.slice], c):
                        nxt.extend(s3 for _, s3 in self.delitem(recv, idx, c2, t))
                else:
                    raise AnalysisError("del of attribute")
            states = nxt
        o.n = states
        return o

    def delitem(self, recv, idx, st, node):
        return self.call(Bi("list.pop", recv), [idx], {}, st, node)

    # imports ------------------------------------------------------------------

    def x_Import(self, s, st):
        o = Outs()
        for a in s.names:
            if a.asname:
                st = st.set_var(a.asname, Mod(a.name))
            else:
                top = a.name.split(".")[0]
                st = st.set_var(top, Mod(top))
        o.n = [st]
        return o

    def x_ImportFrom(self, s, st):
        o = Outs()
        m = self.module()
        base = self.import_targets(m, s)[0]
        for a in s.names:
            full = base + "." + a.name
            name = a.asname or a.name
            if a.name == "*":
                raise AnalysisError("import *")
            if full in self.p.modules:
                v = Mod(full)
            elif base in self.p.modules:
                v = BASE[self.modframes[base]].data.get(a.name)
                if v is None:
                    v = Bi(full)
            else:
                v = self.extern(full)
            st = st.set_var(name, v)
        o.n = [st]
        return o

    def extern(self, full):
        """An external module attribute."""
        if full.startswith("typing."):
            return Cls(full)
        if full.startswith("tokenize.") and full.split(".")[1].isupper():
            import tokenize

            v = getattr(tokenize, full.split(".")[1], None)
            if isinstance(v, int):
                return K(v)
        if full.startswith("string."):
            import string

            v = getattr(string, full.split(".")[1], None)
            if isinstance(v, str):
                return K(v)
        if full == "tokenize.TokenError":
            return Cls(full)
        if full in ("os.sep", "os.path.sep"):
            return K("/")
        if full == "os.linesep":
            return K("\n")
        return Bi(full)

    # definitions -----------------------------------------------------------------

    def x_FunctionDef(self, s, st):
        o = Outs()
        f = self.p.by_node[s]
        states = self.make_fn(f, st)
        for v, s2 in states:
            cur = [(v, s2)]
            for dec in reversed(s.decorator_list):
                nxt = []
                for v2, s3 in cur:
                    for d, s4 in self.ev(dec, s3.push(v2)):
                        v3 = s4.stack[-1]
                        s4 = s4.pop()
                        if isinstance(d, Bi) and d.name in (
                            "staticmethod",
                            "classmethod",
                            "property",
                        ):
                            nxt.append((Wrap(d.name, v3), s4))
                        elif isinstance(d, Bi) and d.name in (
                            "functools.lru_cache", "functools.cache",
                        ):
                            self.d.on_write(self, "cache", v3, s4, s)
                            nxt.append((v3, s4))
                        elif isinstance(d, Bi) and d.name in (
                            "functools.cached_property",
                        ):
                            self.d.on_write(self, "cache", v3, s4, s)
                            nxt.append((Wrap("property", v3), s4))
                        elif isinstance(d, Bi) and d.name.endswith("contextmanager"):
                            nxt.append((Wrap("contextmanager", v3), s4))
                        elif isinstance(d, (Fn,)):
                            nxt.extend(self.call(d, [v3], {}, s4, dec))
                        else:
                            nxt.append((v3, s4))
                cur = nxt
            for v2, s3 in cur:
                o.n.append(s3.set_var(s.name, v2))
        return o

    def make_fn(self, f, st):
        """Closure value; defaults are evaluated now and kept in a heap object."""
        a = f.node.args
        exprs = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        res = []
        for vals, s2 in self.evs(exprs, st):
            data = {}
            pos = a.posonlyargs + a.args
            for p, v in zip(pos[len(pos) - len(a.defaults):], vals):
                data[p.arg] = v
            i = len(a.defaults)
            for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
                if dflt is not None:
                    data[p.arg] = vals[i]
                    i += 1
            env = Ref(s2.frame)
            o = s2.objid(s2.frame)
            if o.kind == "frame" and o.cls == "class":
                env = o.data.get("__up__")
            if data:
                ref, s2 = s2.new_obj("defaults", f.fid, data)
                res.append((Fn(f.fid, Tup((env, ref))), s2))
            else:
                res.append((Fn(f.fid, Tup((env,))), s2))
        return res

    def x_ClassDef(self, s, st):
        o = Outs()
        m = self.module()
        name = m + ":" + s.name
        outer = st.frame
        fr, st2 = st.new_obj("frame", "class", {"__up__": Ref(outer)})
        bases = []
        s_b = st
        for b in s.bases:
            r = self.ev(b, s_b)
            v = r[0][0]
            bases.append(v.name if isinstance(v, (Cls, Bi)) else "object")
        out = self.exec_block(s.body, [st2.with_frame(fr.oid)], toplevel=True)
        if len(out.n) != 1 or out.exc:
            raise AnalysisError("class body of " + s.name)
        st3 = out.n[0]
        attrs = dict(st3.objid(fr.oid).data)
        attrs.pop("__up__", None)
        ann = attrs.pop("__annotations__", Tup(()))
        ci = ClassInfo()
        ci.name = name
        ci.bases = bases
        ci.attrs = attrs
        ci.module = m
        ci.node = s
        ci.dataclass = any(
            "dataclass" in ast.dump(d) for d in s.decorator_list
        )
        ci.fields = [x.v for x in ann.items]
        if "typing.NamedTuple" in bases or "NamedTuple" in bases:
            ci.dataclass = "namedtuple"
        self.classes[name] = ci
        h = dict(st3.heap)
        h.pop(fr.oid, None)
        st3 = St(outer, st3.stack, h, st3.cons, st3.mon)
        o.n = [st3.set_var(s.name, Cls(name))]
        return o

    # loops ------------------------------------------------------------------------

    def x_While(self, s, sts):
        return self.loop(s, sts, self.while_step)

    def while_step(self, s, st):
        """-> (entering states, leaving states)."""
        ent, lea = [], []
        for b, s2 in self.cond(s.test, st):
            (ent if b else lea).append(s2)
        return ent, lea

    def x_For(self, s, sts):
        o = Outs()
        starts = []
        n = len(sts[0].stack)
        for st in sts:
            for it, s2 in self.ev(s.iter, st):
                for it2, s3 in self.iterator(it, s2, s.iter):
                    obj = s3.obj(it2) if isinstance(it2, Ref) else None
                    if obj is not None and obj.kind == "gen":
                        self.add(o, self.for_gen(s, it2, s3))
                    else:
                        starts.append(s3.push(it2))
        if starts:
            b = self.loop(s, starts, self.for_step)
            # the iterator is on the stack, below return values
            o.n.extend(self.cut(x, n, 0) for x in b.n)
            o.ret.extend(self.cut(x, n, 1) for x in b.ret)
            o.exc.extend(self.cut(x, n, 1) for x in b.exc)
        return o

    @staticmethod
    def cut(st, n, keep):
        """Drop the iterator at stack position n, keeping `keep` values above."""
        return St(
            st.frame, st.stack[:n] + st.stack[n + 1 :], st.heap, st.cons, st.mon
        )

    def for_step(self, s, st):
        ent, lea = [], []
        for v, s2 in self.next_(st.stack[-1], st, s):
            if v is None:
                lea.append(s2)
            else:
                ent.extend(self.assign(s.target, v, s2))
        return ent, lea

    def loop(self, s, states, step):
        out = Outs()
        heads = {}
        pending = states
        exits = {}
        rounds = 0
        while pending:
            rounds += 1
            if rounds > 200:
                raise AnalysisError("loop at line %s does not converge" % s.lineno)
            new = []
            for p in pending:
                for p2 in self.d.normalise(self, p, s):
                    r = self.head_add(heads, p2, rounds)
                    if r is not None:
                        new.append(r)
            # only the latest version of each head
            pending = []
            seen = set()
            ents = []
            for hk in new:
                if hk in seen or hk not in heads:
                    continue
                seen.add(hk)
                head = heads[hk][0]
                old = self.sink
                self.sink = []
                ent, lea = step(s, head)
                exits[hk] = (lea, self.sink)
                self.sink = old
                ents.extend(ent)
            # the bodies of all new heads at once; what an older version of a
            # head left behind is kept, it is covered by the newer one
            if ents:
                b = self.exec_block(s.body, self.merge(ents))
                out.n.extend(b.brk)
                out.ret.extend(b.ret)
                out.exc.extend(b.exc)
                pending.extend(b.n)
                pending.extend(b.cont)
            pending = self.merge(pending)
        leaving = []
        for hk in heads:
            lea, excs = exits[hk]
            leaving.extend(lea)
            out.exc.extend(excs)
        if s.orelse:
            b = self.exec_block(s.orelse, self.merge(leaving))
            self.add(out, b)
        else:
            out.n.extend(leaving)
        out.n = self.merge(out.n)
        out.ret = self.merge(out.ret)
        out.exc = self.merge(out.exc)
        return out

    def head_add(self, heads, st, rounds):
        """Add a state to the loop heads; returns the head key if something is new."""
        k, num, order = self.key(st)
        g = heads.get(k)
        if g is not None:
            sa, ka, n = g
            c = self.join_cons(sa, ka, st, (num, order))
            if c == sa.cons:
                return None
            if n > 2:
                c = self.widen_cons(sa.cons, c)
            heads[k] = (St(sa.frame, sa.stack, sa.heap, c, sa.mon), ka, n + 1)
            return k
        # same shape up to integers?
        sk = self.skeleton(st)
        for hk, (sa, ka, n) in list(heads.items()):
            if self.skeleton(sa) != sk:
                continue
            j = self.join_ints(sa, st)
            if j is None:
                continue
            jk, jnum, jorder = self.key(j)
            if jk == hk:
                c = self.widen_cons(sa.cons, j.cons) if n > 2 else j.cons
                # names of j are those of its own; adopt j
                if self.join_cons(j, (jnum, jorder), sa, ka) == j.cons and n > 0:
                    # does sa already cover st?
                    pass
                nc = self.join_cons(sa, ka, j, (jnum, jorder))
                if n > 2:
                    nc = self.widen_cons(sa.cons, nc)
                if nc == sa.cons:
                    return None
                heads[hk] = (St(sa.frame, sa.stack, sa.heap, nc, sa.mon), ka, n + 1)
                return hk
            del heads[hk]
            if jk in heads:
                sa2, ka2, n2 = heads[jk]
                nc = self.join_cons(sa2, ka2, j, (jnum, jorder))
                if n2 > 2:
                    nc = self.widen_cons(sa2.cons, nc)
                if nc == sa2.cons:
                    return None
                heads[jk] = (St(sa2.frame, sa2.stack, sa2.heap, nc, sa2.mon), ka2, n2 + 1)
                return jk
            heads[jk] = (j, (jnum, jorder), n + 1)
            return jk
        if len(heads) > self.max_heads:
            self.last_heads = heads
            raise AnalysisError("too many loop states")
        heads[k] = (self.prune(st, order), (num, order), 0)
        return k

    @staticmethod
    def widen_cons(old, new):
        r = {}
        for k, v in new.items():
            if k[0] == "iv":
                o = old.get(k)
                if o is None:
                    r[k] = v
                    continue
                lo = v[0] if v[0] is not None and o[0] is not None and v[0] >= o[0] else None
                hi = v[1] if v[1] is not None and o[1] is not None and v[1] <= o[1] else None
                if lo is None and v[0] is not None and v[0] >= 0:
                    lo = 0
                if lo is not None or hi is not None:
                    r[k] = (lo, hi)
            else:
                r[k] = v
        return r

    # integers at loop heads: value-numbering join keeping affine relations

    def int_slots(self, st):
        """Encode the state with integers replaced; -> (skeleton, ints, leaves)."""
        ints = []
        num = {}
        order = []
        queue = []

        def enc(v):
            if isinstance(v, V):
                if (isinstance(v, K) and type(v.v) is int) or isinstance(v, Lin) or (
                    isinstance(v, (Sym, App)) and v.sort == "int"
                ):
                    ints.append(v)
                    return "INT"
                if isinstance(v, Seg):
                    n = num.get(v.sym)
                    if n is None:
                        n = num[v.sym] = len(order)
                        order.append(v.sym)
                    return ("seg", n, enc(v.elem))
                if v._g:
                    return v
                if isinstance(v, Ref):
                    if v.oid not in st.heap:
                        return ("base", v.oid)
                    n = num.get(v)
                    if n is None:
                        n = num[v] = len(order)
                        order.append(v)
                        queue.append(v.oid)
                    return ("r", n)
                if isinstance(v, Sym):
                    n = num.get(v)
                    if n is None:
                        n = num[v] = len(order)
                        order.append(v)
                    return ("s", v.tag, v.sort, n)
                return (v.__class__.__name__,) + tuple([enc(x) for x in v.k])
            if isinstance(v, tuple):
                return tuple([enc(x) for x in v])
            if isinstance(v, frozenset):
                return ("fs",) + tuple(enc(x) for x in sorted(v, key=repr))
            return v

        out = [enc(Ref(st.frame)), enc(st.stack), self.d.distinct(st) if self.d.strict_heads else None]
        for k in sorted(st.mon):
            out.append((k, enc(st.mon[k])))
        i = 0
        while i < len(queue):
            o = st.heap[queue[i]]
            i += 1
            d = o.data
            if isinstance(d, dict):
                out.append((o.kind, o.cls, tuple([(k, enc(d[k])) for k in sorted(d)])))
            else:
                out.append((o.kind, o.cls, enc(d)))
        return tuple(out), ints, order, num

    def skeleton(self, st):
        return self.int_slots(st)[0]

    @staticmethod
    def lin_terms(v):
        return [x if isinstance(x[0], int) else (x[1], x[0]) for x in v.terms]

    def join_ints(self, sa, sb):
        ska, ia, oa, na = self.int_slots(sa)
        skb, ib, ob, nb = self.int_slots(sb)
        if ska != skb or len(ia) != len(ib):
            return None
        # rename the leaves of sb to those of sa
        ren = {}
        for x, y in zip(ob, oa):
            ren[x] = y
        ibr = [map_val(v, lambda l: ren.get(l)) for v in ib]
        bases = []  # (va, vb, sym)
        repl = []
        cons_new = {}
        for va, vb in zip(ia, ibr):
            if va == vb:
                repl.append(va)
                continue
            done = None
            for ba, bb, s in bases:
                da = lin_add(va, ba, -1)
                db = lin_add(vb, bb, -1)
                if da == db and (
                    self.affine
                    or not isinstance(da, Lin) or all(c > 0 for c, t in self.lin_terms(da))
                ):
                    # differences of unrelated counters are no relation
                    done = lin_add(s, da)
                    break
                da = lin_add(va, ba)
                db = lin_add(vb, bb)
                if da == db and (self.affine or isinstance(da, K)):
                    done = lin_add(da, s, -1)
                    break
            if done is None:
                s = fresh("i", "int")
                la, ha = F.lin_range(sa, lin_of(va))
                lb, hb = F.lin_range(
                    sb, lin_of(ib[len(repl)])
                )
                lo = None if la is None or lb is None else min(la, lb)
                hi = None if ha is None or hb is None else max(ha, hb)
                if lo is not None and lo >= 0 and la != lb:
                    lo = 0 if lo >= 0 else lo
                if ha != hb:
                    hi = None
                if la != lb and lo is not None and lo < 0:
                    lo = None
                if lo is not None or hi is not None:
                    cons_new[("iv", s)] = (lo, hi)
                bases.append((va, vb, s))
                done = s
            repl.append(done)
        # rebuild sa with the integer slots replaced in the same order
        it = iter(repl)
        seen = set()
        queue = []
        heap = dict(sa.heap)

        def sub(v):
            if isinstance(v, V):
                if (isinstance(v, K) and type(v.v) is int) or isinstance(v, Lin) or (
                    isinstance(v, (Sym, App)) and v.sort == "int"
                ):
                    return next(it)
                if isinstance(v, Seg):
                    return Seg(v.sym, sub(v.elem))
                if isinstance(v, Ref):
                    if v.oid in sa.heap and v not in seen:
                        seen.add(v)
                        queue.append(v.oid)
                    return v
                if v._g or isinstance(v, Sym):
                    # ground values may still contain integer constants
                    if v._g and not isinstance(v, (K, Sym, Cls, Mod, Bi)):
                        n = tuple([sub(x) for x in v.k])
                        return v if n == v.k else rebuild(v, n)
                    return v
                n = tuple([sub(x) for x in v.k])
                return rebuild(v, n)
            if isinstance(v, tuple):
                return tuple([sub(x) for x in v])
            if isinstance(v, frozenset):
                return frozenset(sub(x) for x in sorted(v, key=repr))
            return v

        sub(Ref(sa.frame))
        stack = sub(sa.stack)
        mon = {}
        for k in sorted(sa.mon):
            mon[k] = sub(sa.mon[k])
        i = 0
        while i < len(queue):
            oid = queue[i]
            o = sa.heap[oid]
            i += 1
            d = o.data
            if isinstance(d, dict):
                nd = {k: sub(d[k]) for k in sorted(d)}
                heap[oid] = o.with_(nd)
            else:
                heap[oid] = o.with_(sub(d))
        cons = self.join_cons(
            St(sa.frame, sa.stack, sa.heap, sa.cons, sa.mon),
            (na, oa),
            sb,
            (nb, ob),
        )
        cons = dict(cons)
        cons.update(cons_new)
        return St(sa.frame, stack, heap, cons, mon)

    # generators consumed by a for loop

    def for_gen(self, s, gen, st):
        o = Outs()

        def consume(v, cst):
            """cst: state in the consumer's frame -> normal states."""
            ent = self.assign(s.target, v, cst)
            b = self.exec_block(s.body, ent)
            o.brk_.extend(b.brk)
            o.ret_.extend(b.ret)
            o.exc_.extend(b.exc)
            return b.n + b.cont

        class Acc:
            pass

        acc = Acc()
        acc.brk_, acc.ret_, acc.exc_ = [], [], []
        o_real = o
        o = acc
        done = self.run_gen(gen, st, consume, s)
        o = o_real
        depth = len(st.stack)

        def unwind(x, keep):
            n = len(x.stack) - keep
            return St(x.frame, x.stack[:depth] + x.stack[n:], x.heap, x.cons, x.mon)

        if s.orelse:
            b = self.exec_block(s.orelse, done)
            self.add(o, b)
        else:
            o.n.extend(done)
        o.n.extend(unwind(x, 0) for x in acc.brk_)
        o.ret.extend(unwind(x, 1) for x in acc.ret_)
        o.exc.extend(unwind(x, 1) for x in acc.exc_)
        o.n = self.merge(o.n)
        return o

    def run_gen(self, gen, st, consume, node):
        """Run a generator to its end, calling consume at each yield."""
        obj = st.obj(gen)
        fid = obj.cls
        f = self.p.funcs[fid]
        args = obj.data["args"].items
        frame = args[0]
        caller = st.frame
        callerfn = self.fn
        st = st.push(Ref(caller))
        pos = len(st.stack) - 1

        def handler(v, gst):
            gframe = gst.frame
            fn = self.fn
            self.fn = callerfn
            saved = self.consumers.pop()
            cst = gst.push(Ref(gframe)).with_frame(gst.stack[pos].oid)
            n = len(cst.stack)
            old = self.sink
            self.sink = []
            try:
                res = consume(v, cst)
                bad = self.sink
            finally:
                self.sink = old
                self.fn = fn
                self.consumers.append(saved)
            # exceptions raised in the consumer do not enter the generator
            gen_exc.extend(bad)
            out = []
            for r in res:
                out.append(r.pop().with_frame(r.stack[n - 1].oid))
            return out

        gen_exc = []
        if self.depth > self.MAXDEPTH:
            raise AnalysisError("generator nesting too deep")
        self.depth += 1
        self.consumers.append(handler)
        self.fn = f
        try:
            out = self.exec_block(f.body, [st.with_frame(frame.oid)])
        finally:
            self.depth -= 1
            self.consumers.pop()
            self.fn = callerfn
        res = []
        for x in out.n:
            res.append(x.pop().with_frame(caller))
        for x in out.ret:
            res.append(x.pop(2).with_frame(caller))
        for x in out.exc:
            e = x.stack[-1]
            self.sink.append(x.pop(2).with_frame(caller).push(e))
        depth = pos
        for x in gen_exc:
            e = x.stack[-1]
            self.sink.append(
                St(caller, x.stack[:depth], x.heap, x.cons, x.mon).push(e)
            )
        return self.merge(res)

    # try / with ---------------------------------------------------------------------

    def x_Try(self, s, sts):
        o = Outs()
        b = self.exec_block(s.body, sts)
        b.exc = self.merge(b.exc)
        res = Outs()
        res.ret, res.brk, res.cont = list(b.ret), list(b.brk), list(b.cont)
        if s.orelse:
            e = self.exec_block(s.orelse, b.n)
            self.add(res, e)
        else:
            res.n = list(b.n)
        for x in b.exc:
            self.handle(s, x, res)
        if not s.finalbody:
            return res
        for kind in ("n", "ret", "brk", "cont", "exc"):
            for x in getattr(res, kind):
                f = self.exec_block(s.finalbody, [x])
                getattr(o, kind).extend(f.n)
                o.ret.extend(f.ret)
                o.exc.extend(f.exc)
                o.brk.extend(f.brk)
                o.cont.extend(f.cont)
        return o

    x_TryStar = x_Try

    def handle(self, s, x, res):
        exc = x.stack[-1]
        st = x.pop()
        for h in s.handlers:
            if h.type is None:
                match = True
            else:
                vals = self.ev(h.type, st)
                if not vals:
                    return
                match = self.exc_match(exc, vals[0][0])
            if match is False:
                continue
            st2 = st.push(exc)
            if h.name:
                st2 = st2.set_var(h.name, exc)
            cur = st2.mon.get("curexc", ())
            st2 = st2.set_mon("curexc", cur + (exc,))
            n = len(st2.stack)
            b = self.exec_block(h.body, [st2])

            def clean(y):
                y = y.set_mon("curexc", cur) if cur else self.drop_mon(y, "curexc")
                return St(
                    y.frame, y.stack[: n - 1] + y.stack[n:], y.heap, y.cons, y.mon
                )

            res.n.extend(clean(y) for y in b.n)
            res.ret.extend(clean(y) for y in b.ret)
            res.brk.extend(clean(y) for y in b.brk)
            res.cont.extend(clean(y) for y in b.cont)
            res.exc.extend(clean(y) for y in b.exc)
            if match is True:
                return
        res.exc.append(x)

    @staticmethod
    def drop_mon(st, name):
        m = dict(st.mon)
        m.pop(name, None)
        return St(st.frame, st.stack, st.heap, st.cons, m)

    def exc_match(self, exc, t):
        if isinstance(t, Tup):
            r = False
            for x in t.items:
                m = self.exc_match(exc, x)
                if m is True:
                    return True
                if m is None:
                    r = None
            return r
        name = t.name if isinstance(t, (Cls, Bi)) else None
        if name is None:
            return None
        if self.is_subclass(exc.cls, name):
            return True
        if exc.unknown and self.is_subclass(name, exc.cls):
            return None
        return False

    def x_With(self, s, sts):
        return self.with_items(list(s.items), s, sts)

    def with_items(self, items, s, sts):
        if not items:
            return self.exec_block(s.body, sts)
        o = Outs()
        item = items[0]
        n = len(sts[0].stack) + 1
        ents = []
        for st in sts:
            for cm, s2 in self.ev(item.context_expr, st):
                s2 = s2.push(cm)
                for v, s3 in self.cm_enter(cm, s2, s):
                    ents.extend(
                        self.assign(item.optional_vars, v, s3)
                        if item.optional_vars is not None
                        else [s3]
                    )
        if not ents:
            return o
        b = self.with_items(items[1:], s, ents)

        def leave(y):
            return St(
                y.frame, y.stack[: n - 1] + y.stack[n:], y.heap, y.cons, y.mon
            )

        for kind in ("n", "ret", "brk", "cont"):
            for y in getattr(b, kind):
                for _, z in self.cm_exit(y.stack[n - 1], None, y, s):
                    getattr(o, kind).append(leave(z))
        for y in self.merge(b.exc):
            for sup, z in self.cm_exit(y.stack[n - 1], y.stack[-1], y, s):
                if sup is not True:
                    o.exc.append(leave(z))
                if sup is not False:
                    o.n.append(leave(z.pop()))
        return o

    def cm_enter(self, cm, st, node):
        if isinstance(cm, Ref):
            obj = st.obj(cm)
            if obj.kind == "suppress":
                return [(NONE, st)]
            if obj.kind == "inst":
                res = []
                for m, s2 in self.getattr(cm, "__enter__", st, node):
                    res.extend(self.call(m, [], {}, s2, node))
                return res
        r = self.d.external(self, "with.enter", cm, [], {}, st, node)
        if r is not None:
            return r
        raise AnalysisError("unsupported context manager line %s" % node.lineno)

    def cm_exit(self, cm, exc, st, node):
        if isinstance(cm, Ref):
            obj = st.obj(cm)
            if obj.kind == "suppress":
                if exc is None:
                    return [(False, st)]
                m = self.exc_match(exc, obj.data)
                return [(m, st)]
            if obj.kind == "inst":
                res = []
                a = [NONE] * 3 if exc is None else [Cls(exc.cls), exc, NONE]
                for m, s2 in self.getattr(cm, "__exit__", st, node):
                    for v, s3 in self.call(m, a, {}, s2, node):
                        for b, s4 in self.truth(v, s3, node):
                            res.append((b, s4))
                return res
        r = self.d.external(self, "with.exit", cm, [exc], {}, st, node)
        if r is not None:
            return [(False, s) for _, s in r]
        return [(False, st)]

    def x_Match(self, s, st):
        o = Outs()
        for v, s2 in self.ev(s.subject, st):
            todo = [s2.push(v)]
            n = len(s2.stack)
            for case in s.cases:
                nxt = []
                for c in todo:
                    for b, c2 in self.match_pat(case.pattern, c.stack[n], c):
                        if not b:
                            nxt.append(c2)
                            continue
                        if case.guard is not None:
                            gs = self.cond(case.guard, c2)
                        else:
                            gs = [(True, c2)]
                        for g, c3 in gs:
                            if not g:
                                nxt.append(c3)
                            else:
                                c3 = St(
                                    c3.frame,
                                    c3.stack[:n] + c3.stack[n + 1 :],
                                    c3.heap,
                                    c3.cons,
                                    c3.mon,
                                )
                                self.add(o, self.exec_block(case.body, [c3]))
                todo = self.merge(nxt)
            o.n.extend(c.pop() for c in todo)
        return o

    def match_pat(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            res = []
            for c, s2 in self.ev(p.value, st):
                for r, s3 in self.compare("==", v, c, s2, p):
                    res.extend(self.truth(r, s3, p))
            return res
        if isinstance(p, ast.MatchSingleton):
            res = []
            for r, s3 in self.compare("is", v, K(p.value), st, p):
                res.extend(self.truth(r, s3, p))
            return res
        if isinstance(p, ast.MatchOr):
            res = []
            todo = [st]
            for q in p.patterns:
                nxt = []
                for c in todo:
                    for b, c2 in self.match_pat(q, v, c):
                        (res.append((True, c2)) if b else nxt.append(c2))
                todo = nxt
            return res + [(False, c) for c in todo]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return [(True, st.set_var(p.name, v) if p.name else st)]
            return [
                (b, s2.set_var(p.name, v) if b and p.name else s2)
                for b, s2 in self.match_pat(p.pattern, v, st)
            ]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            res = []
            for c, s2 in self.ev(p.cls, st):
                for r, s3 in self.isinstance_(v, c, s2, p):
                    res.extend(self.truth(r, s3, p))
            return res
        if isinstance(p, ast.MatchSequence) and isinstance(v, Tup):
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise AnalysisError("match star")
            if len(p.patterns) != len(v.items):
                return [(False, st)]
            res = []
            todo = [st]
            for q, x in zip(p.patterns, v.items):
                nxt = []
                for c in todo:
                    for b, c2 in self.match_pat(q, x, c):
                        (nxt.append(c2) if b else res.append((False, c2)))
                todo = nxt
            return res + [(True, c) for c in todo]
        raise AnalysisError("unsupported match pattern line %s" % p.lineno)

    # --- assignment ------------------------------------------------------------------

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            return [self.store_name(t.id, v, st, t)]
        if isinstance(t, (ast.Tuple, ast.List)):
            res = []
            for vals, s2 in self.unpack(v, t.elts, st, t):
                s2 = s2.push(*vals)
                n = len(vals)
                base = len(s2.stack) - n
                cur = [s2]
                for i, sub in enumerate(t.elts):
                    if isinstance(sub, ast.Starred):
                        sub = sub.value
                    nxt = []
                    for c in cur:
                        nxt.extend(self.assign(sub, c.stack[base + i], c))
                    cur = nxt
                res.extend(c.pop(n) for c in cur)
            return res
        if isinstance(t, ast.Attribute):
            res = []
            for recv, s2 in self.ev(t.value, st.push(v)):
                v2 = s2.stack[-1]
                res.extend(self.setattr(recv, t.attr, v2, s2.pop(), t))
            return res
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
            if t.slice.lower or t.slice.upper or t.slice.step:
                raise AnalysisError("assignment to a slice")
            res = []
            for recv, s2 in self.ev(t.value, st.push(v)):
                v2 = s2.stack[-1]
                if not (isinstance(recv, Ref) and s2.obj(recv).kind == "list"):
                    raise AnalysisError("assignment to a slice")
                from .builtin import c_list

                for n, s3 in c_list(self, [v2], {}, s2.pop().push(recv), t):
                    recv = s3.stack[-1]
                    self.d.on_write(self, "slice", recv, s3.push(n), t)
                    s3 = s3.pop()
                    res.append(s3.set_obj(recv.oid, s3.obj(recv).with_(s3.obj(n).data)))
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for (recv, idx), s2 in self.evs([t.value, t.slice], st.push(v)):
                v2 = s2.stack[-1]
                res.extend(self.setitem(recv, idx, v2, s2.pop(), t))
            return res
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        raise AnalysisError("assignment target")

    def store_name(self, name, v, st, node):
        st = self.d.on_assign(self, name, v, st, node)
        f = self.fn
        o = st.objid(st.frame)
        if f is None or o.cls in ("comp", "class"):
            return st.set_var(name, v)
        if name in f.globals_:
            self.d.on_write(self, "global", K(name), st, node)
            return st.set_var(name, v, self.modframes[f.module])
        if name in f.nonlocals:
            fr = o.data.get("__up__")
            while fr is not None:
                fo = st.objid(fr.oid)
                g = self.p.funcs[fo.cls] if isinstance(fo.cls, int) else None
                if g is not None and name in g.locals:
                    return st.set_var(name, v, fr.oid)
                fr = fo.data.get("__up__")
            return st.set_var(name, v)
        return st.set_var(name, v)

    def unpack(self, v, elts, st, node):
        """-> list of (values, st) matching the target list."""
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = None
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(v, Ref) and st.obj(v).kind in ("list", "set"):
            items = st.obj(v).data
            if st.obj(v).kind == "set":
                self.d.on_walk_set(self, v, st, node)
                items = self.walk_order(items, st)
        elif isinstance(v, K) and isinstance(v.v, str):
            items = tuple(K(c) for c in v.v)
        if items is None:
            r = self.d.external(self, "unpack", v, [K(len(elts))], {}, st, node)
            if r is not None:
                return r
            if isinstance(v, K):
                self.err("TypeError", st, node, "cannot unpack")
                return []
            its = self.iterator(v, st, node)
            if len(its) == 1:
                cur = [([], its[0][1].push(its[0][0]))]
                for _ in elts:
                    nxt = []
                    for vals, c in cur:
                        for x, c2 in self.next_(c.stack[-1], c, node):
                            if x is None:
                                self.err("ValueError", c2.pop(), node, "unpack")
                            else:
                                nxt.append((vals + [x], c2))
                    cur = nxt
                return [(vals, c.pop()) for vals, c in cur]
            raise AnalysisError("unpack of %r line %s" % (v, node.lineno))
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if any(isinstance(x, Seg) for x in items[:i]) or (
                after and any(isinstance(x, Seg) for x in items[len(items) - after :])
            ):
                raise AnalysisError("starred unpack of unknown list")
            if len(items) < len(elts) - 1:
                self.err("ValueError", st, node, "unpack")
                return []
            mid = items[i : len(items) - after]
            ref, s2 = st.new_obj("list", None, tuple(mid))
            return [(list(items[:i]) + [ref] + list(items[len(items) - after :]), s2)]
        if any(isinstance(x, Seg) for x in items):
            return self.unpack_seg(v, items, elts, st, node)
        if len(items) != len(elts):
            self.err("ValueError", st, node, "unpack")
            return []
        return [(list(items), st)]

    def unpack_seg(self, v, items, elts, st, node):
        cur = [([], items, st)]
        for _ in elts:
            nxt = []
            for vals, its, c in cur:
                c = c.push(Tup(its), *vals)
                nv = len(vals)
                for x, rest, c2 in self.take_first(Tup(its), c):
                    vs = list(c2.stack[len(c2.stack) - nv :]) if nv else []
                    c2 = c2.pop(nv + 1)
                    if x is None:
                        self.err("ValueError", c2, node, "unpack")
                    else:
                        nxt.append((vs + [x], rest, c2))
            cur = nxt
        res = []
        for vals, its, c in cur:
            if not its:
                res.append((vals, c))
                continue
            for b, c2 in self.truth(Tup(its), c.push(*vals), node):
                vs = list(c2.stack[len(c2.stack) - len(vals) :])
                c2 = c2.pop(len(vals))
                if b:
                    self.err("ValueError", c2, node, "unpack")
                else:
                    res.append((vs, c2))
        return res

    # --- opaque sequences -----------------------------------------------------------

    def subst_seg(self, st, sym, items):
        """Replace the Seg named sym by items everywhere in the state."""

        def conv(v):
            if isinstance(v, (Sym, Ref, K, Cls, Mod, Bi, str, int, bool)) or v is None:
                return v
            if isinstance(v, tuple):
                out = []
                ch = False
                for x in v:
                    if isinstance(x, Seg) and x.sym == sym:
                        out.extend(items)
                        ch = True
                    else:
                        y = conv(x)
                        ch = ch or y is not x
                        out.append(y)
                return tuple(out) if ch else v
            if isinstance(v, Tup):
                n = conv(v.items)
                return v if n is v.items else Tup(n)
            if isinstance(v, Str):
                out = []
                ch = False
                for p in v.parts:
                    if isinstance(p, Joined) and p.seg == sym:
                        out.extend(self.join_items(p, items))
                        ch = True
                    else:
                        q = conv(p)
                        ch = ch or q is not p
                        out.append(q)
                return mkstr(out) if ch else v
            if isinstance(v, App) and v.op in ("len", "nonempty") and v.args == (sym,):
                if v.op == "len":
                    n = K(len([i for i in items if not isinstance(i, Seg)]))
                    for i in items:
                        if isinstance(i, Seg):
                            n = lin_add(n, App("len", (i.sym,), "int"))
                    return n
                if any(not isinstance(i, Seg) for i in items):
                    return TRUE
                if not items:
                    return FALSE
                return v
            if isinstance(v, V):
                if v._g:
                    return v
                n = tuple([conv(x) for x in v.k])
                for a, b in zip(n, v.k):
                    if a is not b:
                        return rebuild(v, n)
                return v
            if isinstance(v, frozenset):
                return frozenset(conv(x) for x in v)
            return v

        heap = {}
        for oid, o in st.heap.items():
            d = o.data
            if isinstance(d, dict):
                nd = {k: conv(x) for k, x in d.items()}
                if any(nd[k] is not d[k] for k in d):
                    o = o.with_(nd)
            else:
                n = conv(d)
                if n is not d:
                    o = o.with_(n)
            heap[oid] = o
        mon = {k: conv(x) for k, x in st.mon.items()}
        cons = {}
        # length facts about the old segment carry over to what replaces it
        old = F.ifact(st, App("len", (sym,), "int"))
        for k, v in st.cons.items():
            if k == ("iv", App("len", (sym,), "int")):
                continue
            t = conv(k[1])
            if isinstance(t, K):
                continue
            cons[(k[0], t)] = v
        st = St(st.frame, conv(st.stack), heap, cons, mon)
        n = len([i for i in items if not isinstance(i, Seg)])
        segs = [i for i in items if isinstance(i, Seg)]
        if len(segs) == 1:
            lo = None if old[0] is None else max(0, old[0] - n)
            hi = None if old[1] is None else old[1] - n
            st = F.set_iv(st, App("len", (segs[0].sym,), "int"), lo or 0, hi)
        return st

    def join_items(self, p, items):
        """Joined part after its segment was replaced by items."""
        raise AnalysisError("joined string of a split list")

    def seg_len(self, st, seg):
        return F.ifact(st, App("len", (seg.sym,), "int"))

    def take_first(self, v, st):
        """First item of a sequence value -> [(item|None, rest items, st)].

        v is a Tup (or a list object); segments are split in the whole state.
        """
        items = v.items if isinstance(v, Tup) else st.obj(v).data
        if not items:
            return [(None, (), st)]
        x = items[0]
        if not isinstance(x, Seg):
            return [(x, items[1:], st)]
        res = []
        lo, hi = self.seg_len(st, x)
        if not lo:
            s2 = self.subst_seg(st.push(v), x.sym, ())
            v2 = s2.stack[-1]
            s2 = s2.pop()
            if s2 is not None:
                res.extend(self.take_first(v2, s2))
        if hi is None or hi > 0:
            e, s3 = self.d.elem_of(self, x, st)
            rest = Seg(fresh(x.sym.tag, x.sym.sort), x.elem)
            s3 = self.subst_seg(s3.push(v), x.sym, (e, rest))
            if s3 is not None:
                v3 = s3.stack[-1]
                s3 = s3.pop()
                its = v3.items if isinstance(v3, Tup) else s3.obj(v3).data
                res.append((its[0], its[1:], s3))
        return res

    def take_last(self, v, st):
        items = v.items if isinstance(v, Tup) else st.obj(v).data
        if not items:
            return [(None, (), st)]
        x = items[-1]
        if not isinstance(x, Seg):
            return [(x, items[:-1], st)]
        res = []
        lo, hi = self.seg_len(st, x)
        if not lo:
            s2 = self.subst_seg(st.push(v), x.sym, ())
            v2 = s2.stack[-1]
            res.extend(self.take_last(v2, s2.pop()))
        if hi is None or hi > 0:
            e, s3 = self.d.elem_of(self, x, st)
            rest = Seg(fresh(x.sym.tag, x.sym.sort), x.elem)
            s3 = self.subst_seg(s3.push(v), x.sym, (rest, e))
            if s3 is not None:
                v3 = s3.stack[-1]
                s3 = s3.pop()
                its = v3.items if isinstance(v3, Tup) else s3.obj(v3).data
                res.append((its[-1], its[:-1], s3))
        return res

    # --- iteration -----------------------------------------------------------------

    def iterator(self, v, st, node):
        """-> [(iterator value, st)]; iterators are heap objects."""
        if isinstance(v, Tup):
            ref, s2 = st.new_obj("iter", None, v.items)
            return [(ref, s2)]
        if isinstance(v, K):
            if isinstance(v.v, str):
                ref, s2 = st.new_obj("iter", None, tuple(K(c) for c in v.v))
                return [(ref, s2)]
            if isinstance(v.v, (tuple, frozenset)):
                ref, s2 = st.new_obj("iter", None, tuple(K(c) for c in v.v))
                return [(ref, s2)]
            self.err("TypeError", st, node, "not iterable")
            return []
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ("iter", "gen", "stream", "map", "enum", "zip"):
                self.d.on_write(self, "iter", v, st, node)
                return [(v, st)]
            if o.kind == "list":
                # a list iterator follows later changes of the list
                ref, s2 = st.new_obj("iter", "live", (v, K(0)))
                if any(isinstance(i, Seg) for i in o.data):
                    ref, s2 = st.new_obj("iter", None, o.data)
                return [(ref, s2)]
            if o.kind == "set":
                self.d.on_walk_set(self, v, st, node)
                ref, s2 = st.new_obj("iter", "set", self.walk_order(o.data, st))
                r = self.d.external(self, "iter.set", v, [], {}, s2, node)
                return [(ref, s2)]
            if o.kind == "dict":
                ref, s2 = st.new_obj(
                    "iter", None, tuple(x.items[0] for x in o.data)
                )
                return [(ref, s2)]
            if o.kind == "inst":
                m = self.class_attr(o.cls, "__iter__")
                if m:
                    res = []
                    for b, s2 in self.getattr(v, "__iter__", st, node):
                        for r, s3 in self.call(b, [], {}, s2, node):
                            res.extend(self.iterator(r, s3, node))
                    return res
                if self.class_attr(o.cls, "__next__"):
                    return [(v, st)]
        r = self.d.opaque_iter(self, v, st, node)
        if r is not None:
            return r
        if isinstance(v, (Ref, Fn, Cls, Lin)):
            self.err("TypeError", st, node, "not iterable")
            return []
        raise AnalysisError("iteration over %r line %s" % (v, getattr(node, "lineno", "?")))

    def walk_order(self, items, st):
        if not self.d.setorder or len(items) < 2:
            return items

        def key(x, deep=0):
            if isinstance(x, Ref) and deep < 4:
                o = st.obj(x)
                if isinstance(o.data, dict):
                    return "%s %s" % (o.cls, sorted((k, key(y, deep + 1)) for k, y in o.data.items() if not k.startswith("__")))
                return "%s %s" % (o.kind, [key(y, deep + 1) for y in o.data or ()] if isinstance(o.data, tuple) else o.data)
            return repr(x)

        return tuple(sorted(items, key=key, reverse=self.d.setorder < 0))

    def next_(self, it, st, node):
        """-> [(value or None when exhausted, st)]."""
        o = st.obj(it)
        if o.kind == "iter":
            if o.cls == "live":
                lst, pos = o.data
                items = st.obj(lst).data
                i = pos.v
                if i >= len(items):
                    return [(None, st)]
                if isinstance(items[i], Seg):
                    raise AnalysisError("list grew by an unknown part while iterated")
                return [
                    (items[i], st.set_obj(it.oid, o.with_((lst, K(i + 1)))))
                ]
            res = []
            if o.data and isinstance(o.data[0], Seg):
                # elements of a segment come one by one; the list itself is not split
                seg = o.data[0]
                if self.d.splits(self, seg, st):
                    # the segment is split wherever it occurs
                    for x, its, s2 in self.take_first(Tup(o.data), st.push(it)):
                        i2 = s2.stack[-1]
                        s2 = s2.pop()
                        res.append((x, s2.set_obj(i2.oid, o.with_(its))))
                    return res
                lo, hi = self.seg_len(st, seg)
                rest = o.data[1:]
                if not lo:
                    s2 = st.set_obj(it.oid, o.with_(rest))
                    for s2 in self.d.seg_done(self, seg, s2, node):
                        res.extend(self.next_(it, s2, node))
                if hi is None or hi > 0:
                    for e, s3 in self.d.elems(self, seg, st, node):
                        seg2 = seg
                        if lo or hi is not None:
                            seg2 = Seg(fresh(seg.sym.tag, seg.sym.sort), seg.elem)
                            s3 = F.set_iv(
                                s3,
                                App("len", (seg2.sym,), "int"),
                                max(0, (lo or 0) - 1),
                                None if hi is None else hi - 1,
                            )
                        s3 = s3.set_obj(it.oid, o.with_((seg2,) + rest))
                        res.append((e, s3))
                return res
            if not o.data:
                return [(None, st)]
            return [(o.data[0], st.set_obj(it.oid, o.with_(o.data[1:])))]
        if o.kind == "map":
            fn = o.data["fn"]
            its = o.data["its"].items
            res = []
            cur = [([], st)]
            for sub in its:
                nxt = []
                for vals, c in cur:
                    for x, c2 in self.next_(sub, c.push(*vals), node):
                        vs = list(c2.stack[len(c2.stack) - len(vals) :]) if vals else []
                        c2 = c2.pop(len(vals)) if vals else c2
                        if x is None:
                            res.append((None, c2))
                        else:
                            nxt.append((vs + [x], c2))
                cur = nxt
            for vals, c in cur:
                if o.cls == "filter":
                    c = c.push(*vals)
                    for b, c2 in self.call(fn, vals, {}, c, node) if not (
                        isinstance(fn, K)
                    ) else [(vals[0], c)]:
                        for t, c3 in self.truth(b, c2, node):
                            v2 = c3.stack[-1]
                            c3 = c3.pop()
                            if t:
                                res.append((v2, c3))
                            else:
                                res.extend(self.next_(it, c3, node))
                else:
                    res.extend(self.call(fn, vals, {}, c, node))
            return res
        if o.kind == "zip":
            cur = [((), st)]
            res = []
            for sub in o.data:
                nxt = []
                for vals, c in cur:
                    for x, c2 in self.next_(sub, c.push(*vals), node):
                        vs = c2.stack[len(c2.stack) - len(vals) :] if vals else ()
                        c2 = c2.pop(len(vals)) if vals else c2
                        if x is None:
                            res.append((None, c2))
                        else:
                            nxt.append((vs + (x,), c2))
                cur = nxt
            return res + [(Tup(v), c) for v, c in cur]
        if o.kind == "enum":
            sub, n = o.data
            res = []
            for x, c in self.next_(sub, st, node):
                if x is None:
                    res.append((None, c))
                else:
                    c = c.set_obj(it.oid, o.with_((sub, lin_add(n, K(1)))))
                    res.append((Tup((n, x)), c))
            return res
        if o.kind == "inst":
            res = []
            for m, s2 in self.getattr(it, "__next__", st, node):
                old = self.sink
                self.sink = []
                r = self.call(m, [], {}, s2, node)
                bad = self.sink
                self.sink = old
                for x in bad:
                    if x.stack[-1].cls == "StopIteration":
                        res.append((None, x.pop()))
                    else:
                        self.sink.append(x)
                res.extend(r)
            return res
        r = self.d.opaque_next(self, it, o, st, node)
        if r is not None:
            return r
        if o.kind == "gen":
            r = self.eager(it, st, node)
            out = []
            for s2 in r:
                out.extend(self.next_(it, s2, node))
            return out
        raise AnalysisError("next() of %s" % o.kind)

    def eager(self, gen, st, node):
        """Run a generator to its end now and keep what it yields."""
        lst, st = st.new_obj("list", None, ())
        st = st.push(lst)
        n = len(st.stack) - 1

        def consume(v, cst):
            ref = cst.stack[n]
            o = cst.obj(ref)
            return [cst.set_obj(ref.oid, o.with_(o.data + (v,)))]

        res = []
        for s2 in self.run_gen(gen, st, consume, node):
            items = s2.obj(s2.stack[n]).data
            s2 = s2.pop()
            res.append(s2.set_obj(gen.oid, Obj("iter", None, items)))
        return res

    def collect(self, v, st, node, each=None):
        """All items of an iterable as a tuple of items: [(items, st)]."""
        res = []
        if isinstance(v, Tup):
            return [(v.items, st)]
        if isinstance(v, Ref) and st.obj(v).kind == "list":
            return [(st.obj(v).data, st)]
        if isinstance(v, Ref) and st.obj(v).kind == "set":
            self.d.on_walk_set(self, v, st, node)
            return [(self.walk_order(st.obj(v).data, st), st)]
        for it, s2 in self.iterator(v, st, node):
            o = s2.obj(it)
            if o.kind == "gen":
                for s3 in self.eager(it, s2, node):
                    res.append((s3.obj(it).data, s3.set_obj(it.oid, Obj("iter", None, ()))))
                continue
            if o.kind == "iter" and o.cls != "live":
                res.append((o.data, s2.set_obj(it.oid, o.with_(()))))
                continue
            if o.kind == "stream":
                r = self.d.external(self, "collect", it, [], {}, s2, node)
                if r is not None:
                    res.extend((x.items, c) for x, c in r)
                    continue
            res.extend(self.collect_by_next(it, s2, node))
        return res

    def collect_by_next(self, it, st, node):
        """Fixpoint over next(): concrete items first, segments as images."""
        o = st.obj(it)
        if o.kind == "map" and o.cls != "filter":
            subs = o.data["its"].items
            if len(subs) == 1:
                return self.collect_map(it, o, subs[0], st, node)
        if o.kind in ("enum", "zip"):
            subs = [o.data[0]] if o.kind == "enum" else list(o.data)
            for sub in subs:
                so = st.obj(sub)
                if so.kind == "iter" and any(isinstance(x, Seg) for x in so.data):
                    raise AnalysisError("enumerate/zip over unknown list")
        items = []
        cur = [((), st)]
        res = []
        for _ in range(60):
            nxt = []
            for vals, c in cur:
                c = c.push(*vals, it)
                for x, c2 in self.next_(c.stack[-1], c, node):
                    k = len(vals) + 1
                    vs = c2.stack[len(c2.stack) - k : -1]
                    c2 = c2.pop(k)
                    if x is None:
                        res.append((vs, c2))
                    else:
                        nxt.append((vs + (x,), c2))
            cur = nxt
            if not cur:
                return res
        raise AnalysisError("unbounded collection line %s" % getattr(node, "lineno", "?"))

    def collect_map(self, it, o, sub, st, node):
        fn = o.data["fn"]
        res = []
        for items, s2 in self.collect_sub(sub, st, node):
            cur = [((), s2)]
            for idx, x in enumerate(items):
                nxt = []
                for vals, c in cur:
                    # items may have been renamed by substitutions: keep on stack
                    c = c.push(Tup(items), *vals)
                    if isinstance(x, Seg):
                        its = c.stack[len(c.stack) - len(vals) - 1].items
                        x2 = its[idx] if idx < len(its) else x
                        r = self.image(fn, x2, c, node)
                    else:
                        r = self.call(fn, [x], {}, c, node)
                    for v, c2 in r:
                        k = len(vals)
                        vs = c2.stack[len(c2.stack) - k :] if k else ()
                        c2 = c2.pop(k + 1)
                        nxt.append((vs + (v,), c2))
                cur = nxt
            res.extend(cur)
        return res

    def collect_sub(self, sub, st, node):
        so = st.obj(sub)
        if so.kind == "iter" and so.cls == "live":
            lst, pos = so.data
            return [(st.obj(lst).data[pos.v :], st)]
        if so.kind == "iter":
            return [(so.data, st)]
        return self.collect(sub, st, node)

    def image(self, fn, seg, st, node):
        """Image of a segment under fn -> [(Seg, st)], by analysing one element."""
        e, s1 = self.d.elem_of(self, seg, st)
        r = self.d.external(self, "image.begin", seg, [e], {}, s1, node)
        res = self.call(fn, [e], {}, s1.push(e), node)
        alts = set()
        for v, c in res:
            e2 = c.stack[-1]
            alts.add(self.abstract_elem(v, e2, c))
        if not res:
            # fn always raises on an element: only the empty case continues
            s0 = self.subst_seg(st.push(seg), seg.sym, ())
            return [(Seg(fresh("empty"), None), s0.pop())] if s0 else []
        out = App("img", (seg.sym, frozenset(alts)), "any")
        return [(Seg(seg.sym, App("img", (seg.elem or NONE, frozenset(alts)), "any")), st)]

    def abstract_elem(self, v, e, st):
        if e == v:
            return ELEM
        return subst_term(v, e, ELEM)

    # --- conditions --------------------------------------------------------------------

    def cond(self, e, st):
        """-> [(bool, st)], refined."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            res = []
            cur = [st]
            for v in e.values[:-1]:
                nxt = []
                for c in cur:
                    for b, c2 in self.cond(v, c):
                        if b == isand:
                            nxt.append(c2)
                        else:
                            res.append((b, c2))
                cur = self.merge(nxt)
            for c in cur:
                res.extend(self.cond(e.values[-1], c))
            return self.merge_cond(res)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s2) for b, s2 in self.cond(e.operand, st)]
        res = []
        for v, s2 in self.ev(e, st):
            res.extend(self.truth(v, s2, e))
        return res

    def merge_cond(self, res):
        t = self.merge([s for b, s in res if b])
        f = self.merge([s for b, s in res if not b])
        return [(True, s) for s in t] + [(False, s) for s in f]

    def truth(self, v, st, node=None):
        if isinstance(v, K):
            return [(bool(v.v), st)]
        if isinstance(v, Tup):
            return self.seq_truth(v.items, st)
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ("list", "set"):
                return self.seq_truth(o.data, st)
            if o.kind == "dict":
                return [(bool(o.data), st)]
            if o.kind == "inst":
                for meth in ("__bool__", "__len__"):
                    if self.class_attr(o.cls, meth):
                        res = []
                        for m, s2 in self.getattr(v, meth, st, node):
                            for r, s3 in self.call(m, [], {}, s2, node):
                                res.extend(self.truth(r, s3, node))
                        return res
            return [(True, st)]
        if isinstance(v, (Fn, Bound, Cls, Mod, Bi, Exc, Partial)):
            return [(True, st)]
        if isinstance(v, Str):
            for p in v.parts:
                if isinstance(p, str) or (
                    isinstance(p, (Sym, App)) and p.sort == "tok"
                ):
                    return [(True, st)]
            t = App("nonempty", (v,), "bool")
            return self.truth(t, st, node)
        if isinstance(v, Lin) or (isinstance(v, (Sym, App)) and v.sort == "int"):
            res = []
            for b, op in ((True, "ne"), (False, "eq")):
                s2 = F.refine_lin(st, lin_of(v), op)
                if s2 is not None:
                    res.append((b, s2))
            return res
        if isinstance(v, App):
            r = self.app_truth(v, st, node)
            if r is not None:
                return r
        if isinstance(v, Sym) or isinstance(v, App):
            if v.sort == "tok" or v.sort in ("type", "obj"):
                return [(True, st)]
            if v.sort == "str":
                res = []
                for b in (True, False):
                    s2 = F.refine_eq(st, v, K(""), not b)
                    if s2 is not None:
                        res.append((b, s2))
                return res
            if v.sort == "bool":
                pos, _ = F.vfact(st, v)
                if pos is not None and len(pos) == 1:
                    return [(bool(next(iter(pos)).v), st)]
                return [
                    (b, st.set_cons(("v", v), (frozenset([kbool(b)]), F.EMPTY)))
                    for b in (True, False)
                ]
            t = App("truthy", (v,), "bool")
            return self.truth(t, st, node)
        raise AnalysisError("truth of %r" % (v,))

    def seq_truth(self, items, st):
        if any(not isinstance(i, Seg) for i in items):
            return [(True, st)]
        if not items:
            return [(False, st)]
        if len(items) == 1:
            seg = items[0]
            t = App("len", (seg.sym,), "int")
            res = []
            for b, op in ((True, "ge"), (False, "lt")):
                s2 = F.refine_lin(st, lin_add(t, K(-1)), op)
                if s2 is not None:
                    res.append((b, s2))
            return res
        t = K(0)
        for i in items:
            t = lin_add(t, App("len", (i.sym,), "int"))
        res = []
        for b, op in ((True, "ge"), (False, "lt")):
            s2 = F.refine_lin(st, lin_add(t, K(-1)), op)
            if s2 is not None:
                res.append((b, s2))
        return res

    def app_truth(self, v, st, node):
        op = v.op
        if op == "eq":
            a, b = v.args
            d = F.decide_eq(st, a, b)
            if d is not None:
                return [(d, st)]
            res = []
            if isinstance(b, K):
                for t in (True, False):
                    s2 = F.refine_eq(st, a, b, t)
                    if s2 is not None:
                        res.append((t, s2))
                return res
            if F.is_stringy(a) and F.is_stringy(b) or True:
                for t in (True, False):
                    res.append(
                        (t, st.set_cons(("v", v), (frozenset([kbool(t)]), F.EMPTY)))
                    )
            return res
        if op == "in":
            a, tup = v.args
            res = []
            for t in (True, False):
                s2 = F.refine_in(st, a, tup.items, t)
                if s2 is not None:
                    res.append((t, s2))
            return res
        if op == "ge0" or op == "eq0":
            l = lin_of(v.args[0])
            res = []
            for t, o in (
                ((True, "ge"), (False, "lt"))
                if op == "ge0"
                else ((True, "eq"), (False, "ne"))
            ):
                s2 = F.refine_lin(st, l, o)
                if s2 is not None:
                    res.append((t, s2))
            return res
        if op == "not":
            return [(not b, s2) for b, s2 in self.truth(v.args[0], st, node)]
        if v.sort == "bool":
            d = F.decide_pred(st, v)
            if d is not None:
                return [(d, st)]
        return None

    # --- expressions ------------------------------------------------------------------

    def ev(self, e, st):
        c = e.__class__
        if c is ast.Name:
            return self.e_Name(e, st)
        if c is ast.Constant:
            if e.value is Ellipsis:
                return [(NONE, st)]
            return [(K(e.value), st)]
        m = getattr(self, "e_" + c.__name__, None)
        if m is None:
            raise AnalysisError("unsupported expression %s line %s" % (c.__name__, e.lineno))
        return m(e, st)

    def evs(self, exprs, st):
        n = len(exprs)
        if n == 0:
            return [([], st)]
        states = [st]
        for e in exprs:
            nxt = []
            for s in states:
                for v, s2 in self.ev(e, s):
                    nxt.append(s2.push(v))
            states = nxt
        return [(list(s.stack[len(s.stack) - n :]), s.pop(n)) for s in states]

    def e_Name(self, e, st):
        name = e.id
        fr = st.objid(st.frame)
        f = self.fn
        while True:
            v = fr.data.get(name)
            if v is not None:
                return [(v, st)]
            if isinstance(fr.cls, int):
                g = self.p.funcs[fr.cls]
                if name in g.locals:
                    self.err("UnboundLocalError", st, e, name)
                    return []
            up = fr.data.get("__up__")
            if up is None:
                break
            fr = st.objid(up.oid)
        return [(self.builtin(name, e, st), st)] if self.has_builtin(name) else self.name_error(e, st)

    def name_error(self, e, st):
        if self.loading:
            raise AnalysisError("unknown name %s line %s" % (e.id, e.lineno))
        self.err("NameError", st, e, e.id)
        return []

    def has_builtin(self, name):
        return name in ("__name__", "__file__") or hasattr(pybuiltins, name)

    def builtin(self, name, e, st):
        if name == "__name__":
            return K(self.module())
        if name == "__file__":
            return fresh("file", "str")
        v = getattr(pybuiltins, name)
        if isinstance(v, type):
            if name in ("staticmethod", "classmethod", "property", "super", "map",
                        "filter", "zip", "enumerate", "reversed", "range"):
                return Bi(name)
            return Cls(name)
        return Bi(name)

    def e_Attribute(self, e, st):
        res = []
        for v, s2 in self.ev(e.value, st):
            res.extend(self.getattr(v, e.attr, s2, e))
        return res

    def e_Tuple(self, e, st):
        return [(Tup(items), s2) for items, s2 in self.seq_items(e.elts, st)]

    def e_List(self, e, st):
        res = []
        for items, s2 in self.seq_items(e.elts, st):
            ref, s3 = s2.new_obj("list", None, tuple(items))
            res.append((ref, s3))
        return res

    def e_Set(self, e, st):
        res = []
        for items, s2 in self.seq_items(e.elts, st):
            its = []
            for i in items:
                if i not in its:
                    its.append(i)
            for s3 in self.check_hash(its, s2, e):
                ref, s4 = s3.new_obj("set", None, tuple(its))
                res.append((ref, s4))
        return res

    def check_hash(self, items, st, node):
        """Unhashable items raise TypeError."""
        cur = [st]
        for i in items:
            if isinstance(i, Ref):
                nxt = []
                for c in cur:
                    o = c.obj(i)
                    if o.kind in ("list", "set", "dict"):
                        self.err("TypeError", c, node, "unhashable")
                        continue
                    if o.kind == "inst":
                        h = self.class_attr(o.cls, "__hash__")
                        q = self.class_attr(o.cls, "__eq__")
                        ci = self.classes.get(o.cls)
                        bad = False
                        if h is None and (q is not None or (ci and ci.dataclass is True)):
                            bad = True
                        elif h is not None and q is not None:
                            m = self.mro(o.cls)
                            if m.index(q[1]) < m.index(h[1]):
                                bad = True
                        if bad:
                            self.err("TypeError", c, node, "unhashable " + o.cls)
                            continue
                        if h is not None and isinstance(h[0], Fn):
                            old = self.sink
                            for r, c2 in self.call(Bound(h[0], i), [], {}, c, node):
                                nxt.append(c2)
                            continue
                    nxt.append(c)
                cur = nxt
            else:
                nxt = []
                for c in cur:
                    r = self.d.external(self, "hash", i, [], {}, c, node)
                    if r is None:
                        nxt.append(c)
                    else:
                        nxt.extend(x for _, x in r)
                cur = nxt
        return cur

    def e_Dict(self, e, st):
        if any(k is None for k in e.keys):
            raise AnalysisError("dict unpacking")
        res = []
        for vals, s2 in self.evs(list(e.keys) + list(e.values), st):
            n = len(e.keys)
            items = {}
            for k, v in zip(vals[:n], vals[n:]):
                items[k] = v
            ref, s3 = s2.new_obj("dict", None, tuple(Tup((k, v)) for k, v in items.items()))
            res.append((ref, s3))
        return res

    def seq_items(self, elts, st):
        if not any(isinstance(x, ast.Starred) for x in elts):
            return self.evs(elts, st)
        cur = [((), st)]
        for x in elts:
            nxt = []
            for vals, c in cur:
                c = c.push(*vals)
                k = len(vals)
                if isinstance(x, ast.Starred):
                    for v, c2 in self.ev(x.value, c):
                        for items, c3 in self.collect(v, c2, x):
                            vs = c3.stack[len(c3.stack) - k :] if k else ()
                            nxt.append((vs + tuple(items), c3.pop(k)))
                else:
                    for v, c2 in self.ev(x, c):
                        vs = c2.stack[len(c2.stack) - k :] if k else ()
                        nxt.append((vs + (v,), c2.pop(k)))
            cur = nxt
        return [(list(v), c) for v, c in cur]

    def e_UnaryOp(self, e, st):
        res = []
        if isinstance(e.op, ast.Not):
            for v, s2 in self.ev(e.operand, st):
                if isinstance(v, (App, Sym)) and v.sort == "bool":
                    if isinstance(v, App) and v.op == "not":
                        res.append((v.args[0], s2))
                    else:
                        res.append((App("not", (v,), "bool"), s2))
                else:
                    for b, s3 in self.truth(v, s2, e):
                        res.append((kbool(not b), s3))
            return res
        for v, s2 in self.ev(e.operand, st):
            if isinstance(e.op, ast.USub):
                if isinstance(v, K) and isinstance(v.v, (int, float)):
                    res.append((K(-v.v), s2))
                elif F.is_stringy(v) or isinstance(v, (Ref, Tup)) or v == NONE:
                    self.err("TypeError", s2, e, "bad operand")
                elif isinstance(v, (App, Sym)) and v.sort == "float":
                    res.append((App("neg", (v,), "float"), s2))
                else:
                    res.append((lin_add(K(0), v, -1), s2))
            elif isinstance(e.op, ast.UAdd):
                res.append((v, s2))
            else:
                res.append((App("invert", (v,), "int"), s2))
        return res

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        res = []
        cur = [st]
        for i, x in enumerate(e.values):
            nxt = []
            for c in cur:
                for v, c2 in self.ev(x, c):
                    if i == len(e.values) - 1:
                        res.append((v, c2))
                        continue
                    c2 = c2.push(v)
                    for b, c3 in self.truth(v, c2, x):
                        v2 = c3.stack[-1]
                        c3 = c3.pop()
                        if b == isand:
                            nxt.append(c3)
                        else:
                            if isinstance(v2, (App, Sym)) and v2.sort == "bool":
                                v2 = kbool(b)
                            res.append((v2, c3))
            cur = self.merge(nxt)
        return res

    def e_IfExp(self, e, st):
        res = []
        for b, s2 in self.cond(e.test, st):
            res.extend(self.ev(e.body if b else e.orelse, s2))
        return res

    def e_NamedExpr(self, e, st):
        res = []
        for v, s2 in self.ev(e.value, st):
            o = s2.objid(s2.frame)
            fr = s2.frame
            while o.cls == "comp":
                fr = o.data["__up__"].oid
                o = s2.objid(fr)
            if fr == s2.frame:
                s2 = self.store_name(e.target.id, v, s2, e)
            else:
                s2 = s2.set_var(e.target.id, v, fr)
            res.append((v, s2))
        return res

    def e_Lambda(self, e, st):
        f = self.p.by_node[e]
        return self.make_fn(f, st)

    def e_Starred(self, e, st):
        raise AnalysisError("starred expression")

    def e_JoinedStr(self, e, st):
        exprs = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                exprs.append(p.value)
        res = []
        for vals, s2 in self.evs(exprs, st):
            cur = [((), s2)]
            i = 0
            vi = list(vals)
            for p in e.values:
                nxt = []
                if isinstance(p, ast.Constant):
                    cur = [(x + (p.value,), c) for x, c in cur]
                    continue
                v = vi[i]
                i += 1
                for x, c in cur:
                    c = c.push(Tup(tuple(y if isinstance(y, V) else K(y) for y in x)), *vi[i:])
                    k = len(vi) - i
                    conv = "r" if p.conversion == ord("r") else "s"
                    if p.format_spec is not None:
                        r = [(fresh("fmt", "str"), c)]
                    else:
                        r = self.to_str(v, c, p, conv)
                    for sv, c2 in r:
                        x2 = c2.stack[len(c2.stack) - k - 1].items
                        nxt.append((tuple(x2) + (sv,), c2.pop(k + 1)))
                cur = nxt
            res.extend((mkstr(x), c) for x, c in cur)
        return res

    def e_FormattedValue(self, e, st):
        res = []
        for v, s2 in self.ev(e.value, st):
            res.extend(self.to_str(v, s2, e, "s"))
        return res

    def e_BinOp(self, e, st):
        res = []
        for (a, b), s2 in self.evs([e.left, e.right], st):
            res.extend(self.binop(e.op, a, b, s2, e))
        return res

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            res = []
            for (a, b), s2 in self.evs([e.left, e.comparators[0]], st):
                res.extend(self.compare(OPS[e.ops[0].__class__], a, b, s2, e))
            return res
        # chain: a < b < c
        res = []
        for vals, s2 in self.evs([e.left] + e.comparators, st):
            cur = [s2.push(*vals)]
            n = len(vals)
            base = len(s2.stack)
            for i, op in enumerate(e.ops):
                nxt = []
                for c in cur:
                    a, b = c.stack[base + i], c.stack[base + i + 1]
                    for r, c2 in self.compare(OPS[op.__class__], a, b, c, e):
                        if i == len(e.ops) - 1:
                            res.append((r, c2.pop(n)))
                            continue
                        for t, c3 in self.truth(r, c2, e):
                            if t:
                                nxt.append(c3)
                            else:
                                res.append((FALSE, c3.pop(n)))
                cur = nxt
        return res

    def e_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            parts = [e.value] + [
                x if x is not None else ast.copy_location(ast.Constant(None), e)
                for x in (e.slice.lower, e.slice.upper, e.slice.step)
            ]
            res = []
            for (v, lo, hi, step), s2 in self.evs(parts, st):
                res.extend(self.getslice(v, lo, hi, step, s2, e))
            return res
        res = []
        for (v, i), s2 in self.evs([e.value, e.slice], st):
            res.extend(self.getitem(v, i, s2, e))
        return res

    # comprehensions

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "iter")

    def e_DictComp(self, e, st):
        raise AnalysisError("dict comprehension")

    def comp(self, e, st, kind):
        """Evaluated at once; over a Seg the result is the image Seg."""
        outer = st.frame
        res = []
        gen0 = e.generators[0]
        for it, s1 in self.ev(gen0.iter, st):
            fr, s2 = s1.new_obj("frame", "comp", {"__up__": Ref(outer)})
            acc, s2 = s2.new_obj("list", None, ())
            s2 = s2.push(Ref(outer), acc).with_frame(fr.oid)
            n = len(s2.stack)
            outs = self.comp_gen(e, 0, it, s2, n - 1)
            for c in outs:
                ref = c.stack[n - 1]
                c2 = c.pop(2).with_frame(c.stack[n - 2].oid)
                data = c.obj(ref).data
                if kind == "list":
                    r, c2 = c2.new_obj("list", None, data)
                    res.append((r, c2))
                elif kind == "set":
                    uniq = []
                    for x in data:
                        if x not in uniq:
                            uniq.append(x)
                    for c3 in self.check_hash(uniq, c2, e):
                        r, c3 = c3.new_obj("set", None, tuple(uniq))
                        res.append((r, c3))
                else:
                    r, c2 = c2.new_obj("iter", None, data)
                    res.append((r, c2))
        return res

    def comp_gen(self, e, i, itv, st, accpos):
        """Run generator clause i over iterable value itv; -> states."""
        g = e.generators[i]
        done = []
        for items, s1 in self.collect(itv, st, g.iter):
            base = len(s1.stack)
            cur = [s1.push(Tup(items))]
            for idx in range(len(items)):
                nxt = []
                for c in cur:
                    its = c.stack[base].items
                    x = its[idx]
                    if isinstance(x, Seg):
                        nxt.extend(self.comp_seg(e, i, x, c, accpos))
                    else:
                        nxt.extend(self.comp_elem(e, i, x, c, accpos))
                cur = self.merge(nxt)
            done.extend(c.pop() for c in cur)
        return done

    def comp_elem(self, e, i, x, st, accpos):
        g = e.generators[i]
        cur = self.assign(g.target, x, st)
        skipped = []
        for cnd in g.ifs:
            nxt = []
            for c in cur:
                for b, c2 in self.cond(cnd, c):
                    (nxt if b else skipped).append(c2)
            cur = nxt
        out = list(skipped)
        for c in cur:
            if i + 1 < len(e.generators):
                for it, c2 in self.ev(e.generators[i + 1].iter, c):
                    out.extend(self.comp_gen(e, i + 1, it, c2, accpos))
            else:
                for v, c2 in self.ev(e.elt, c):
                    ref = c2.stack[accpos]
                    o = c2.obj(ref)
                    out.append(c2.set_obj(ref.oid, o.with_(o.data + (v,))))
        return out

    def comp_seg(self, e, i, seg, st, accpos):
        """One generic element; the result is an image segment."""
        if i + 1 < len(e.generators):
            raise AnalysisError("nested comprehension over unknown list")
        el, s1 = self.d.elem_of(self, seg, st)
        g = e.generators[i]
        s1 = s1.push(el)
        pos = len(s1.stack) - 1
        alts = set()
        cond0 = s1.cons
        cur = [c for c in self.assign(g.target, el, s1)]
        skip = False
        for cnd in g.ifs:
            nxt = []
            for c in cur:
                for b, c2 in self.cond(cnd, c):
                    if b:
                        nxt.append(c2)
                    else:
                        skip = True
            cur = nxt
        guard = set()
        for c in cur:
            for v, c2 in self.ev(e.elt, c):
                e2 = c2.stack[pos]
                gd = self.new_facts(cond0, c2, e2) if g.ifs else frozenset()
                alts.add(self.abstract_elem(v, e2, c2))
                guard.add(gd)
        if not alts:
            return [st]
        if alts == {ELEM} and not skip:
            img = seg
        elif skip or g.ifs:
            img = Seg(
                fresh("sub"),
                App("filt", (seg.elem or NONE, frozenset(alts), frozenset(guard), seg.sym)),
            )
        else:
            img = Seg(seg.sym, App("img", (seg.elem or NONE, frozenset(alts))))
        ref = st.stack[accpos]
        o = st.obj(ref)
        st2 = st.set_obj(ref.oid, o.with_(o.data + (img,)))
        return [st2]

    def new_facts(self, old, st, e):
        """Facts learnt about the element, as a template."""
        out = set()
        for k, v in st.cons.items():
            if old.get(k) != v:
                out.add((k[0], subst_term(k[1], e, ELEM), v))
        return frozenset(out)

    # yield

    def e_Yield(self, e, st):
        res = []
        vals = self.ev(e.value, st) if e.value is not None else [(NONE, st)]
        for v, s2 in vals:
            res.extend((NONE, s3) for s3 in self.do_yield(v, s2, e))
        return res

    def do_yield(self, v, st, node):
        if self.consumers:
            return self.consumers[-1](v, st)
        return self.d.on_yield(self, v, st, node)

    def e_YieldFrom(self, e, st):
        res = []
        for v, s2 in self.ev(e.value, st):
            r = self.d.external(self, "yield from", v, [], {}, s2, e)
            if r is not None:
                res.extend(r)
                continue
            fake = ast.copy_location(
                ast.For(
                    target=ast.Name("__yf__", ast.Store()),
                    iter=e.value,
                    body=[
                        ast.copy_location(
                            ast.Expr(ast.Yield(ast.Name("__yf__", ast.Load()))), e
                        )
                    ],
                    orelse=[],
                ),
                e,
            )
            ast.fix_missing_locations(fake)
            key = ("yf", id(e))
            fake = self.__dict__.setdefault("_fakes", {}).setdefault(key, fake)
            for it2, s3 in self.iterator(v, s2, e):
                obj = s3.obj(it2)
                if obj.kind == "gen":
                    o = self.for_gen(fake, it2, s3)
                else:
                    o = self.loop(fake, [s3.push(it2)], self.for_step)
                    n = len(s3.stack)
                    o.n = [self.cut(x, n, 0) for x in o.n]
                    o.exc = [self.cut(x, n, 1) for x in o.exc]
                self.sink.extend(o.exc)
                for x in o.n:
                    res.append((NONE, x.del_var("__yf__")))
        return res

    def e_Await(self, e, st):
        raise AnalysisError("await")

    # calls

    def e_Call(self, e, st):
        res = []
        for f, s1 in self.ev(e.func, st):
            s1 = s1.push(f)
            kws = [k for k in e.keywords]
            if any(k.arg is None for k in kws):
                r2 = self.call_kwstar(e, s1)
                res.extend(r2)
                continue
            for args, s2 in self.seq_items(e.args, s1):
                s2 = s2.push(*args)
                na = len(args)
                for kv, s3 in self.evs([k.value for k in kws], s2):
                    a = list(s3.stack[len(s3.stack) - na :]) if na else []
                    s3 = s3.pop(na) if na else s3
                    fv = s3.stack[-1]
                    s3 = s3.pop()
                    res.extend(
                        self.call(
                            fv, a, {k.arg: v for k, v in zip(kws, kv)}, s3, e
                        )
                    )
        return res

    def call_kwstar(self, e, s1):
        res = []
        for args, s2 in self.seq_items(e.args, s1):
            s2 = s2.push(*args)
            na = len(args)
            for kv, s3 in self.evs([k.value for k in e.keywords], s2):
                kw = {}
                for k, v in zip(e.keywords, kv):
                    if k.arg is not None:
                        kw[k.arg] = v
                        continue
                    if isinstance(v, Ref) and s3.obj(v).kind == "dict":
                        for it in s3.obj(v).data:
                            if not isinstance(it.items[0], K):
                                raise AnalysisError("** of unknown dict")
                            kw[it.items[0].v] = it.items[1]
                    else:
                        raise AnalysisError("** of unknown value")
                a = list(s3.stack[len(s3.stack) - na :]) if na else []
                s3 = s3.pop(na) if na else s3
                fv = s3.stack[-1]
                res.extend(self.call(fv, a, kw, s3.pop(), e))
        return res

    def call(self, fv, args, kw, st, node):
        if isinstance(fv, Fn):
            return self.call_fn(fv, args, kw, st, node)
        if isinstance(fv, Bound):
            return self.call(fv.fn, [fv.recv] + list(args), kw, st, node)
        if isinstance(fv, Wrap):
            return self.call(fv.fn, args, kw, st, node)
        if isinstance(fv, Partial):
            fn, a0, k0 = fv.k
            k = dict(k0)
            k.update(kw)
            return self.call(fn, list(a0) + list(args), k, st, node)
        if isinstance(fv, Cls):
            saved, self.batchnode = self.batchnode, None
            try:
                return self.instantiate(fv, args, kw, st, node)
            finally:
                self.batchnode = saved
        if isinstance(fv, Bi):
            from . import builtin

            # calls made from within are not the statement's own call
            saved, self.batchnode = self.batchnode, None
            try:
                return builtin.call(self, fv, args, kw, st, node)
            finally:
                self.batchnode = saved
        if isinstance(fv, Ref):
            o = st.obj(fv)
            if o.kind == "inst" and self.class_attr(o.cls, "__call__"):
                res = []
                for m, s2 in self.getattr(fv, "__call__", st.push(*args), node):
                    n = len(args)
                    a = list(s2.stack[len(s2.stack) - n :]) if n else []
                    res.extend(self.call(m, a, kw, s2.pop(n) if n else s2, node))
                return res
        r = self.d.sym_call(self, fv, args, kw, st, node)
        if r is not None:
            return r
        if isinstance(fv, (K, Tup, Str, Lin, Ref)):
            self.err("TypeError", st, node, "not callable")
            return []
        raise AnalysisError("call of %r line %s" % (fv, getattr(node, "lineno", "?")))

    def bind(self, f, fv, args, kw, st, node):
        """Bind arguments -> (frame data dict, st) or None (TypeError raised)."""
        a = f.node.args
        data = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        args = list(args)
        segs = [i for i, x in enumerate(args) if isinstance(x, Seg)]
        if segs and (not a.vararg or segs[0] < len(pos)):
            if a.vararg is None or True:
                raise AnalysisError(
                    "unknown number of arguments for %s line %s"
                    % (f.qualname, getattr(node, "lineno", "?"))
                )
        for name, v in zip(pos, args):
            data[name] = v
        extra = args[len(pos) :]
        if a.vararg:
            data[a.vararg.arg] = Tup(tuple(extra))
        elif extra:
            self.err("TypeError", st, node, "too many arguments for " + f.qualname)
            return None
        rest = {}
        for k, v in kw.items():
            if k in data and k in pos:
                self.err("TypeError", st, node, "multiple values for " + k)
                return None
            if k in pos or k in kwonly:
                data[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                self.err(
                    "TypeError", st, node, "unexpected argument %s for %s" % (k, f.qualname)
                )
                return None
        defaults = None
        if len(fv.env.items) > 1:
            defaults = st.obj(fv.env.items[1]).data
        for name in pos + kwonly:
            if name not in data:
                if defaults is not None and name in defaults:
                    data[name] = defaults[name]
                else:
                    self.err(
                        "TypeError", st, node, "missing argument %s of %s" % (name, f.qualname)
                    )
                    return None
        if a.kwarg:
            ref, st = st.new_obj(
                "dict", None, tuple(Tup((K(k), v)) for k, v in rest.items())
            )
            data[a.kwarg.arg] = ref
        return data, st

    def call_fn(self, fv, args, kw, st, node):
        f = self.p.funcs[fv.fid]
        how = self.cached.get(fv.fid)
        if how is None:
            return self.call_fn1(f, fv, args, kw, st, node)
        res = self.call_fn1(f, fv, args, kw, st, node)
        for v, s in res:
            self.d.on_cached(self, f, how, v, s)
        return res

    def call_fn1(self, f, fv, args, kw, st, node):
        r = self.d.intercept(self, f, args, kw, st, node)
        if r is not None:
            return r
        b = self.bind(f, fv, args, kw, st, node)
        if b is None:
            return []
        data, st = b
        data["__up__"] = fv.env.items[0]
        fr, s2 = st.new_obj("frame", f.fid, data)
        if f.is_gen:
            g, s3 = s2.new_obj("gen", f.fid, {"args": Tup((fr,))})
            return [(g, s3)]
        return self.run_fn(f, fr, s2, node)

    def tail_calls(self, f):
        """Call nodes in tail position that name the function itself."""
        r = self.tails.get(f.fid)
        if r is not None:
            return r
        r = set()

        def is_self(c):
            if not isinstance(c, ast.Call):
                return False
            if isinstance(c.func, ast.Name):
                return c.func.id == f.name
            if not (isinstance(c.func, ast.Attribute) and c.func.attr == f.name):
                return False
            v = c.func.value
            return not (
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super"
            )

        def go(stmts):
            if not stmts:
                return
            # statements before the last one may return a call
            for s in stmts[:-1]:
                rets(s)
            last(stmts[-1])

        def rets(s):
            if isinstance(s, ast.Return) and s.value is not None and is_self(s.value):
                r.add(s.value)
            elif isinstance(s, ast.If):
                for x in s.body + s.orelse:
                    rets(x)
                # call; return
                for body in (s.body, s.orelse):
                    pair(body)

        def pair(body):
            for a, b in zip(body, body[1:]):
                if (
                    isinstance(a, ast.Expr)
                    and is_self(a.value)
                    and isinstance(b, ast.Return)
                    and (b.value is None or isinstance(b.value, ast.Constant) and b.value.value is None)
                ):
                    r.add(a.value)

        def last(s):
            if isinstance(s, ast.Expr) and is_self(s.value):
                r.add(s.value)
            elif isinstance(s, ast.Return) and s.value is not None and is_self(s.value):
                r.add(s.value)
            elif isinstance(s, ast.If):
                pair(s.body)
                pair(s.orelse)
                go(s.body)
                go(s.orelse)
            else:
                rets(s)

        if f.body is not None and not f.is_gen:
            go(f.body)
            pair(f.body)
        self.tails[f.fid] = r
        return r

    def run_fn(self, f, fr, st, node):
        tails = self.tail_calls(f)
        if node in tails and self.fn is f and self.tailq and self.tailq[-1] is not None:
            base, q = self.tailq[-1]
            # drop the calling activation: its frame is dead
            s2 = St(fr.oid, st.stack[: base], st.heap, st.cons, st.mon)
            q.append(s2)
            return []
        if tails:
            if node is not None and node is self.batchnode and self.fn is self.batchfn:
                self.batch.append((f, fr, st))
                return []
            return self.run_tail(f, [(fr, st)], node)
        self.tailq.append(None)
        try:
            return self.run_fn1(f, fr, st, node)
        finally:
            self.tailq.pop()

    def run_tail(self, f, entries, node):
        """A tail-recursive function: a loop over its entry states.

        entries: [(frame ref, state)] of calls at the same place."""
        base = len(entries[0][1].stack) + 1
        pending = [
            st.push(Ref(st.frame)).with_frame(fr.oid) for fr, st in entries
        ]
        heads = {}
        results = []
        bad = []
        rounds = 0
        while pending:
            rounds += 1
            if rounds > 100:
                raise AnalysisError("recursion of %s does not converge" % f.qualname)
            new = []
            for p in pending:
                old = self.fn
                self.fn = f
                norm = self.d.normalise(self, p, f.node)
                self.fn = old
                for p2 in norm:
                    k = self.head_add(heads, p2, rounds)
                    if k is not None and k not in new:
                        new.append(k)
            starts = []
            for k in new:
                if k not in heads:
                    continue
                head = heads[k][0]
                s0 = St(
                    head.stack[base - 1].oid, head.stack[: base - 1], head.heap,
                    head.cons, head.mon,
                )
                starts.append((Ref(head.frame), s0))
            pending = []
            if starts:
                q = []
                oldsink = self.sink
                self.sink = []
                self.tailq.append((base, q))
                try:
                    r = self.run_many(f, starts, node)
                finally:
                    self.tailq.pop()
                    bad.extend(self.sink)
                    self.sink = oldsink
                results.extend(s.push(v) for v, s in r)
                pending = self.merge(q)
        self.sink.extend(self.merge(bad))
        return [(x.stack[-1], x.pop()) for x in self.merge(results)]

    def run_fn1(self, f, fr, st, node):
        return self.run_many(f, [(fr, st)], node)

    def run_many(self, f, entries, node):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise AnalysisError("call depth exceeded at " + f.qualname)
        callerfn = self.fn
        self.fn = f
        self.callstack.append(f)
        cons = self.consumers
        self.consumers = []
        sts = [st.push(Ref(st.frame)).with_frame(fr.oid) for fr, st in entries]
        try:
            if isinstance(f.node, ast.Lambda):
                old = self.sink
                self.sink = []
                rets = [
                    s2.push(v) for st in sts for v, s2 in self.ev(f.node.body, st)
                ]
                excs = self.sink
                self.sink = old
                norm = []
            else:
                out = self.exec_block(f.body, sts)
                rets, excs, norm = out.ret, out.exc, out.n
        finally:
            self.depth -= 1
            self.fn = callerfn
            self.callstack.pop()
            self.consumers = cons
        res = []
        alls = list(rets) + [x.push(NONE) for x in norm]
        alls = [
            St(x.stack[-2].oid, x.stack[:-2] + (x.stack[-1],), x.heap, x.cons, x.mon)
            for x in alls
        ]
        for x in self.merge(alls):
            res.append((x.stack[-1], x.pop()))
        for x in excs:
            e = x.stack[-1]
            self.sink.append(
                St(x.stack[-2].oid, x.stack[:-2] + (e,), x.heap, x.cons, x.mon)
            )
        return res

    def instantiate(self, c, args, kw, st, node):
        if c.name not in self.classes:
            from . import builtin

            return builtin.construct(self, c.name, args, kw, st, node)
        ci = self.classes[c.name]
        if self.is_subclass(c.name, "BaseException"):
            init = self.class_attr(c.name, "__init__")
            if init is None:
                return [(Exc(c.name, tuple(args)), st)]
        r = self.d.external(self, "new", c, args, kw, st, node)
        if r is not None:
            return r
        ref, s2 = st.new_obj("inst", c.name, {})
        init = self.class_attr(c.name, "__init__")
        if init is None:
            dc = self.dataclass_fields(c.name)
            if dc is not None:
                fields, dflt = dc
                data = {}
                for n, v in zip(fields, args):
                    data[n] = v
                if len(args) > len(fields):
                    self.err("TypeError", st, node, "too many arguments")
                    return []
                for k, v in kw.items():
                    if k not in fields:
                        self.err("TypeError", st, node, "unexpected argument " + k)
                        return []
                    data[k] = v
                for n in fields:
                    if n not in data:
                        if n in dflt:
                            data[n] = dflt[n]
                        else:
                            self.err("TypeError", st, node, "missing argument " + n)
                            return []
                return [(ref, s2.set_obj(ref.oid, Obj("inst", c.name, data)))]
            if args or kw:
                self.err("TypeError", st, node, c.name + " takes no arguments")
                return []
            return [(ref, s2)]
        res = []
        s2 = s2.push(ref)
        for _, s3 in self.call(init[0], [ref] + list(args), kw, s2, node):
            res.append((s3.stack[-1], s3.pop()))
        # exceptions raised inside keep the instance on the stack
        return res

    def dataclass_fields(self, name):
        fields = []
        dflt = {}
        found = False
        for c in reversed(self.mro(name)):
            ci = self.classes.get(c)
            if ci and ci.dataclass:
                found = True
                for f in ci.fields:
                    if f not in fields:
                        fields.append(f)
                    if f in ci.attrs:
                        dflt[f] = ci.attrs[f]
        return (fields, dflt) if found else None

    # --- attributes ------------------------------------------------------------------------

    def getattr(self, v, name, st, node):
        from . import builtin

        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind == "inst":
                if name in o.data:
                    return [(o.data[name], st)]
                if name == "__class__":
                    return [(Cls(o.cls), st)]
                if name == "__dict__":
                    raise AnalysisError("__dict__")
                a = self.class_attr(o.cls, name)
                if a is not None:
                    return self.bind_attr(a[0], v, Cls(o.cls), st, node)
                b = builtin.object_method(name)
                if b:
                    return [(Bi("object." + name, v), st)]
                r = self.d.opaque_attr(self, v, o, name, st, node)
                if r is not None:
                    return r
                self.err("AttributeError", st, node, "%s has no %s" % (o.cls, name))
                return []
            if o.kind in ("list", "set", "dict", "iter", "gen", "map", "zip", "enum"):
                if hasattr(builtin.PYTYPE.get(o.kind, object), name):
                    return [(Bi(o.kind + "." + name, v), st)]
                self.err("AttributeError", st, node, "%s has no %s" % (o.kind, name))
                return []
            r = self.d.opaque_attr(self, v, o, name, st, node)
            if r is not None:
                return r
            raise AnalysisError("attribute %s of %s" % (name, o.kind))
        if isinstance(v, Mod):
            if v.name in self.p.modules:
                full = v.name + "." + name
                fr = st.objid(self.modframes[v.name])
                if name in fr.data:
                    return [(fr.data[name], st)]
                if full in self.p.modules:
                    return [(Mod(full), st)]
                self.err("AttributeError", st, node, full)
                return []
            full = v.name + "." + name
            if full in ("os.path",):
                return [(Mod(full), st)]
            return [(self.extern(full), st)]
        if isinstance(v, Cls):
            if v.name in self.classes:
                a = self.class_attr(v.name, name)
                if a is not None:
                    val = a[0]
                    if isinstance(val, Wrap):
                        if val.kind == "staticmethod":
                            return [(val.fn, st)]
                        if val.kind == "classmethod":
                            return [(Bound(val.fn, v), st)]
                    return [(val, st)]
                if name == "__name__":
                    return [(K(v.name.split(":")[1]), st)]
                if name == "__mro__":
                    return [(Tup(tuple(Cls(c) for c in self.mro(v.name))), st)]
                if builtin.object_method(name):
                    return [(Bi("object." + name), st)]
                self.err("AttributeError", st, node, "%s.%s" % (v.name, name))
                return []
            if name in ("__name__", "__qualname__"):
                return [(K(v.name.split(".")[-1]), st)]
            if v.name.startswith("typing."):
                return [(v, st)]
            t = getattr(pybuiltins, v.name, None)
            if t is not None and hasattr(t, name):
                return [(Bi(v.name + "." + name), st)]
            return [(Bi(v.name + "." + name), st)]
        if isinstance(v, Exc):
            if name == "args":
                return [(Tup(v.args), st)]
            if name == "__class__":
                return [(Cls(v.cls), st)]
            return [(App("excattr", (v, K(name))), st)]
        if isinstance(v, App) and v.op == "super":
            cls, self_ = v.args
            ty = st.obj(self_).cls if isinstance(self_, Ref) else self_.name
            m = self.mro(ty)
            i = m.index(cls.name) + 1 if cls.name in m else 0
            for c in m[i:]:
                ci = self.classes.get(c)
                if ci and name in ci.attrs:
                    return self.bind_attr(ci.attrs[name], self_, Cls(ty), st, node)
            if builtin.object_method(name):
                return [(Bi("object." + name, self_), st)]
            if name == "__init__" and isinstance(self_, Ref):
                return [(Bi("object.__init__", self_), st)]
            self.err("AttributeError", st, node, "super has no " + name)
            return []
        if isinstance(v, (Fn, Bound, Bi)):
            if name in ("__name__", "__qualname__"):
                if isinstance(v, Fn):
                    return [(K(self.p.funcs[v.fid].name), st)]
                return [(fresh("name", "str"), st)]
            if isinstance(v, Bi) and v.recv is None:
                return [(self.extern(v.name + "." + name), st)]
            self.err("AttributeError", st, node, name)
            return []
        r = self.d.sym_attr(self, v, name, st, node)
        if r is not None:
            return r
        if F.is_stringy(v):
            if hasattr(str, name):
                return [(Bi("str." + name, v), st)]
            self.err("AttributeError", st, node, "str has no " + name)
            return []
        if isinstance(v, Tup):
            if hasattr(tuple, name):
                return [(Bi("tuple." + name, v), st)]
            self.err("AttributeError", st, node, "tuple has no " + name)
            return []
        if isinstance(v, K):
            if hasattr(v.v, name):
                return [(Bi(type(v.v).__name__ + "." + name, v), st)]
            self.err(
                "AttributeError", st, node, "%s has no %s" % (type(v.v).__name__, name)
            )
            return []
        if isinstance(v, Lin) or (isinstance(v, (Sym, App)) and v.sort in ("int", "bool")):
            if hasattr(int, name):
                return [(Bi("int." + name, v), st)]
            self.err("AttributeError", st, node, "int has no " + name)
            return []
        if isinstance(v, (Sym, App)) and v.sort == "type":
            if name == "__name__":
                return [(App("typename", (v,), "tok"), st)]
        raise AnalysisError(
            "attribute %s of %r line %s" % (name, v, getattr(node, "lineno", "?"))
        )

    def bind_attr(self, val, recv, cls, st, node):
        if isinstance(val, Fn):
            return [(Bound(val, recv), st)]
        if isinstance(val, Wrap):
            if val.kind == "property":
                return self.call(val.fn, [recv], {}, st, node)
            if val.kind == "staticmethod":
                return [(val.fn, st)]
            if val.kind == "classmethod":
                return [(Bound(val.fn, cls), st)]
        return [(val, st)]

    def setattr(self, recv, name, v, st, node):
        if isinstance(recv, Ref):
            o = st.obj(recv)
            if o.kind == "inst":
                a = self.class_attr(o.cls, name)
                if a is not None and isinstance(a[0], Wrap) and a[0].kind == "property":
                    self.err("AttributeError", st, node, "can't set " + name)
                    return []
                self.d.on_write(self, "attr", Tup((recv, K(name))), st, node)
                d = dict(o.data)
                d[name] = v
                return [st.set_obj(recv.oid, o.with_(d))]
            if o.kind == "node":
                self.d.on_write(self, "attr", Tup((recv, K(name))), st, node)
            r = self.d.external(self, "setattr", recv, [K(name), v], {}, st, node)
            if r is not None:
                return [s for _, s in r]
        if isinstance(recv, Cls):
            self.d.on_write(self, "class", Tup((recv, K(name))), st, node)
            return [st]
        if isinstance(recv, (Fn, Mod)):
            self.d.on_write(self, "module", Tup((recv, K(name))), st, node)
            return [st]
        r = self.d.external(self, "setattr", recv, [K(name), v], {}, st, node)
        if r is not None:
            return [s for _, s in r]
        if isinstance(recv, (K, Str, Tup, Sym)):
            self.err("AttributeError", st, node, "cannot set " + name)
            return []
        raise AnalysisError("setattr on %r" % (recv,))

    # --- items -----------------------------------------------------------------------------

    def getitem(self, v, i, st, node):
        if isinstance(v, Cls):
            return [(v, st)]  # typing subscripts
        items = None
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(v, Ref) and st.obj(v).kind == "list":
            items = st.obj(v).data
        if items is not None and isinstance(i, K) and isinstance(i.v, int):
            n = int(i.v)
            if not any(isinstance(x, Seg) for x in items):
                if -len(items) <= n < len(items):
                    return [(items[n], st)]
                self.err("IndexError", st, node, "index out of range")
                return []
            if n >= 0 and not any(isinstance(x, Seg) for x in items[: n + 1]):
                return [(items[n], st)]
            if n < 0 and not any(isinstance(x, Seg) for x in items[n:]):
                return [(items[n], st)]
            res = []
            if n == 0:
                for x, rest, s2 in self.take_first(v, st):
                    if x is None:
                        self.err("IndexError", s2, node, "index out of range")
                    else:
                        res.append((x, s2))
                return res
            if n == -1:
                for x, rest, s2 in self.take_last(v, st):
                    if x is None:
                        self.err("IndexError", s2, node, "index out of range")
                    else:
                        res.append((x, s2))
                return res
            # split further elements off the first segment
            k = next(j for j, x in enumerate(items) if isinstance(x, Seg))
            if 0 <= k <= n:
                pre = items[:k]
                tail = Tup(items[k:])
                for x, rest, s2 in self.take_first(tail, st.push(v)):
                    v2 = s2.stack[-1]
                    s2 = s2.pop()
                    if x is None:
                        self.err("IndexError", s2, node, "index out of range")
                    else:
                        res.extend(self.getitem(v2, i, s2, node))
                return res
            raise AnalysisError("index %r of unknown list" % n)
        if items is not None and isinstance(i, (Sym, App, Lin)):
            return self.unknown_index(v, items, i, st, node)
        if isinstance(v, Ref) and st.obj(v).kind == "dict":
            self.d.on_compare(self, "in", i, v, st, node)
            for it in st.obj(v).data:
                if F.decide_eq(st, it.items[0], i) is True:
                    return [(it.items[1], st)]
            if isinstance(i, K) and all(isinstance(x.items[0], K) for x in st.obj(v).data):
                self.err("KeyError", st, node)
                return []
            res = []
            miss = st
            for it in st.obj(v).data:
                d = F.decide_eq(miss, i, it.items[0])
                if d is False:
                    continue
                if not isinstance(it.items[0], K):
                    raise AnalysisError("dict with unknown keys")
                s2 = F.refine_eq(miss, i, it.items[0], True)
                if s2 is not None:
                    res.append((it.items[1], s2))
                miss = F.refine_eq(miss, i, it.items[0], False)
                if miss is None:
                    return res
            self.err("KeyError", miss, node)
            return res
        if isinstance(v, K) and isinstance(v.v, str) and isinstance(i, K):
            try:
                return [(K(v.v[i.v]), st)]
            except IndexError:
                self.err("IndexError", st, node)
                return []
        r = self.d.external(self, "getitem", v, [i], {}, st, node)
        if r is not None:
            return r
        if F.is_stringy(v):
            if not (isinstance(v, (Sym, App)) and v.sort == "tok" and i in (K(0), K(-1))):
                for b, s2 in self.truth(v, st, node):
                    if not b:
                        self.err("IndexError", s2, node)
            return [(App("item", (v, i), "tok"), st)]
        if v == NONE or isinstance(v, (Lin, Fn)) or isinstance(v, K):
            self.err("TypeError", st, node, "not subscriptable")
            return []
        raise AnalysisError("item %r of %r line %s" % (i, v, getattr(node, "lineno", "?")))

    def unknown_index(self, v, items, i, st, node):
        self.err("IndexError", st, node)
        if not items:
            return []
        if any(isinstance(x, Seg) for x in items):
            raise AnalysisError("unknown index into unknown list")
        return [(x, st) for x in items]

    def getslice(self, v, lo, hi, step, st, node):
        if isinstance(v, K) and isinstance(v.v, str):
            if all(isinstance(x, K) for x in (lo, hi, step)):
                return [(K(v.v[lo.v : hi.v : step.v]), st)]
        items = None
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(v, Ref) and st.obj(v).kind == "list":
            items = st.obj(v).data
        if items is not None:
            if not all(isinstance(x, K) for x in (lo, hi, step)):
                raise AnalysisError("slice with unknown bounds")
            if not any(isinstance(x, Seg) for x in items):
                out = items[lo.v : hi.v : step.v]
                return [self.reseq(v, out, st)]
            if step.v not in (None, 1):
                if step.v == -1 and lo.v is None and hi.v is None:
                    return [self.reseq(v, tuple(reversed(items)), st)]
                raise AnalysisError("slice step")
            res = []
            # drop from the front
            cur = [(v, st)]
            n = lo.v or 0
            m = hi.v
            if n < 0 or (m is not None and m >= 0):
                raise AnalysisError("slice bounds of unknown list")
            front = [(Tup(items), st)]
            for _ in range(n):
                nxt = []
                for t, c in front:
                    for x, rest, c2 in self.take_first(t, c.push(v)):
                        v = c2.stack[-1]
                        nxt.append((Tup(rest), c2.pop()))
                front = nxt
            for _ in range(-(m or 0)):
                nxt = []
                for t, c in front:
                    for x, rest, c2 in self.take_last(t, c.push(v)):
                        v = c2.stack[-1]
                        nxt.append((Tup(rest), c2.pop()))
                front = nxt
            for t, c in front:
                res.append(self.reseq(v, t.items, c))
            return res
        r = self.d.external(self, "getslice", v, [lo, hi, step], {}, st, node)
        if r is not None:
            return r
        if F.is_stringy(v):
            return [(App("slice", (v, lo, hi, step), "str"), st)]
        if v == NONE:
            self.err("TypeError", st, node)
            return []
        raise AnalysisError("slice of %r" % (v,))

    def reseq(self, v, items, st):
        if isinstance(v, Tup):
            return Tup(items), st
        ref, s2 = st.new_obj("list", None, tuple(items))
        return ref, s2

    def setitem(self, recv, i, v, st, node):
        if isinstance(recv, Ref):
            o = st.obj(recv)
            self.d.on_write(self, "item", recv, st, node)
            if o.kind == "list" and isinstance(i, K):
                if any(isinstance(x, Seg) for x in o.data):
                    if i.v == -1 and not isinstance(o.data[-1], Seg):
                        d = list(o.data)
                        d[-1] = v
                        return [st.set_obj(recv.oid, o.with_(tuple(d)))]
                    raise AnalysisError("store into unknown list")
                if not -len(o.data) <= i.v < len(o.data):
                    self.err("IndexError", st, node)
                    return []
                d = list(o.data)
                d[i.v] = v
                return [st.set_obj(recv.oid, o.with_(tuple(d)))]
            if o.kind == "dict":
                d = list(o.data)
                for n, it in enumerate(d):
                    if F.decide_eq(st, it.items[0], i) is True:
                        d[n] = Tup((i, v))
                        break
                else:
                    if not isinstance(i, K) or not all(
                        isinstance(x.items[0], K) for x in d
                    ):
                        raise AnalysisError("store into dict with unknown keys")
                    d.append(Tup((i, v)))
                return [st.set_obj(recv.oid, o.with_(tuple(d)))]
        r = self.d.external(self, "setitem", recv, [i, v], {}, st, node)
        if r is not None:
            return [s for _, s in r]
        if isinstance(recv, (Tup, K, Str)):
            self.err("TypeError", st, node)
            return []
        raise AnalysisError("item assignment on %r" % (recv,))

    # --- operators -----------------------------------------------------------------------------

    def binop(self, op, a, b, st, node, inplace=False):
        from . import builtin

        return builtin.binop(self, op, a, b, st, node, inplace)

    def compare(self, op, a, b, st, node):
        from . import builtin

        return builtin.compare(self, op, a, b, st, node)

    def isinstance_(self, v, c, st, node):
        from . import builtin

        return builtin.isinstance_(self, v, c, st, node)

    def to_str(self, v, st, node, conv="s"):
        from . import builtin

        return builtin.to_str(self, v, st, node, conv)


OPS = {
    ast.Eq: "==",
    ast.NotEq: "!=",
    ast.Lt: "<",
    ast.LtE: "<=",
    ast.Gt: ">",
    ast.GtE: ">=",
    ast.Is: "is",
    ast.IsNot: "is not",
    ast.In: "in",
    ast.NotIn: "not in",
}


def free_names(f):
    """Names a nested function may take from the enclosing one."""
    a = f.args
    own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x is not None:
            own.add(x.arg)
    outer, used = set(), set()
    body = f.body if isinstance(f.body, list) else [f.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            if isinstance(n, ast.FunctionDef):
                own.add(n.name)
                stack.extend(n.decorator_list)
            stack.extend(n.args.defaults + [d for d in n.args.kw_defaults if d])
            used |= free_names(n)
            continue
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            outer |= set(n.names)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                used.add(n.id)
            else:
                own.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            own.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return (used - own) | outer


class Liveness:
    """Live local variables after each statement of a function (may-use)."""

    def __init__(self, f):
        self.after = {}
        self.f = f
        # names used by nested functions are always live
        self.always = set(f.nonlocals)
        if f.body is None:
            return
        for s in f.body:
            for n in ast.walk(s):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    self.always |= free_names(n)
        # names of enclosing functions' frames are not ours
        self.brk, self.cont = [], []
        self.extra = set()
        self.block(f.body, set())

    def uses(self, n):
        r = set()
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Load, ast.Del)):
                r.add(m.id)
            elif isinstance(m, ast.Name):
                pass
        return r

    def defs(self, t):
        if isinstance(t, ast.Name):
            return {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            r = set()
            for x in t.elts:
                r |= self.defs(x)
            return r
        if isinstance(t, ast.Starred):
            return self.defs(t.value)
        return set()

    def block(self, stmts, out):
        live = set(out)
        for s in reversed(stmts):
            a = live | self.always | self.extra
            old = self.after.get(s)
            self.after[s] = a if old is None else old | a
            live = self.stmt(s, live)
        return live

    def stmt(self, s, out):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            kill = set()
            use = set()
            for t in targets:
                kill |= self.defs(t)
                use |= self.uses(t)
            if s.value is None:
                kill = set()
            else:
                use |= self.uses(s.value)
            return (out - kill) | use
        if isinstance(s, ast.AugAssign):
            u = self.uses(s.value) | self.uses(s.target)
            return out | u | self.defs(s.target)
        if isinstance(s, ast.Return):
            return self.uses(s) if s.value is not None else set()
        if isinstance(s, ast.Raise):
            return self.uses(s) | self.extra
        if isinstance(s, ast.Break):
            return set(self.brk[-1]) if self.brk else set(out)
        if isinstance(s, ast.Continue):
            return set(self.cont[-1]) if self.cont else set(out)
        if isinstance(s, ast.If):
            return (
                self.uses(s.test)
                | self.block(s.body, out)
                | (self.block(s.orelse, out) if s.orelse else out)
            )
        if isinstance(s, (ast.While, ast.For)):
            after = self.block(s.orelse, out) if s.orelse else set(out)
            base = self.uses(s.test) if isinstance(s, ast.While) else set()
            head = after | base
            for _ in range(3):
                self.brk.append(out)
                self.cont.append(head)
                b = self.block(s.body, head)
                self.brk.pop()
                self.cont.pop()
                if isinstance(s, ast.For):
                    b = (b - self.defs(s.target)) | self.uses(s.target)
                new = head | b
                if new == head:
                    break
                head = new
            if isinstance(s, ast.For):
                return head | self.uses(s.iter)
            return head
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            fin = self.block(s.finalbody, out) if s.finalbody else set(out)
            hs = set()
            for h in s.handlers:
                hb = self.block(h.body, fin)
                hs |= (hb - {h.name}) | (self.uses(h.type) if h.type else set())
            els = self.block(s.orelse, fin) if s.orelse else fin
            saved = self.extra
            self.extra = saved | hs | (fin if s.finalbody else set())
            b = self.block(s.body, els)
            self.extra = saved
            return b | hs | fin
        if isinstance(s, ast.With):
            b = self.block(s.body, out)
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    b = b - self.defs(it.optional_vars)
                b = b | self.uses(it.context_expr)
            return b
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return out | self.uses(s)
        if s.__class__.__name__ == "Match":
            r = self.uses(s.subject) | out
            for c in s.cases:
                r |= self.block(c.body, out)
                if c.guard is not None:
                    r |= self.uses(c.guard)
                r |= self.uses(c.pattern)
            return r
        return out | self.uses(s)
