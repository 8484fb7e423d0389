"""Abstract values and states of the analyser."""
import itertools

_ids = itertools.count(1)


def fresh_id():
    return next(_ids)


def ground(x):
    """No renamable leaf inside."""
    if isinstance(x, V):
        return x._g
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            if not ground(y):
                return False
    return True


class V:
    """An immutable abstract value, compared structurally."""

    __slots__ = ("k", "_h", "_g")

    def __init__(self, *k):
        self.k = k
        self._h = hash((self.__class__.__name__, k))
        g = True
        for x in k:
            if isinstance(x, V):
                if not x._g:
                    g = False
                    break
            elif isinstance(x, (tuple, frozenset)) and not ground(x):
                g = False
                break
        self._g = g

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (
            self.__class__ is o.__class__ and self._h == o._h and self.k == o.k
        )

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return "%s%r" % (self.__class__.__name__, self.k)


class K(V):
    """A Python constant (type-aware: True is not 1)."""

    __slots__ = ()

    def __init__(self, v):
        V.__init__(self, type(v).__name__, v)

    @property
    def v(self):
        return self.k[1]

    def __repr__(self):
        return "K(%r)" % (self.v,)


class Sym(V):
    """An opaque atom.  id: int = renamable, str = rigid (keeps its name).

    sort: 'tok' (a non-empty string), 'str', 'int', 'bool', 'any', ...
    """

    __slots__ = ()

    def __init__(self, id, tag, sort="any"):
        V.__init__(self, id, tag, sort)
        self._g = isinstance(id, str)

    id = property(lambda s: s.k[0])
    tag = property(lambda s: s.k[1])
    sort = property(lambda s: s.k[2])

    def __repr__(self):
        return "%s:%s" % (self.tag, self.id)


def fresh(tag, sort="any"):
    return Sym(fresh_id(), tag, sort)


class App(V):
    """Uninterpreted operation on abstract values."""

    __slots__ = ()

    def __init__(self, op, args, sort="any"):
        V.__init__(self, op, tuple(args), sort)

    op = property(lambda s: s.k[0])
    args = property(lambda s: s.k[1])
    sort = property(lambda s: s.k[2])

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


class Tup(V):
    """A tuple; items may contain Seg."""

    __slots__ = ()

    def __init__(self, items):
        V.__init__(self, tuple(items))

    items = property(lambda s: s.k[0])

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Seg(V):
    """An unknown number of items inside a list, tuple, set or ledger.

    sym: identity;  elem: template of one item (contains ELEM), or None;
    """

    __slots__ = ()

    def __init__(self, sym, elem=None):
        V.__init__(self, sym, elem)

    sym = property(lambda s: s.k[0])
    elem = property(lambda s: s.k[1])

    def __repr__(self):
        return "<%r*%r>" % (self.sym, self.elem)


class Str(V):
    """Concatenation: parts are Python strings, values or Joined."""

    __slots__ = ()

    def __init__(self, parts):
        V.__init__(self, tuple(parts))

    parts = property(lambda s: s.k[0])

    def __repr__(self):
        return "Str%r" % (self.parts,)


class Joined(V):
    """sep.join over a Seg: alts = frozenset of element renderings (with ELEM)."""

    __slots__ = ()

    def __init__(self, sep, seg, alts):
        V.__init__(self, sep, seg, alts)

    sep = property(lambda s: s.k[0])
    seg = property(lambda s: s.k[1])
    alts = property(lambda s: s.k[2])


class Lin(V):
    """Linear integer expression: const + sum coef*term."""

    __slots__ = ()

    def __init__(self, const, terms):
        V.__init__(self, const, tuple(terms))

    const = property(lambda s: s.k[0])
    terms = property(lambda s: s.k[1])


class Ref(V):
    __slots__ = ()

    def __init__(self, oid):
        V.__init__(self, oid)
        self._g = False

    oid = property(lambda s: s.k[0])

    def __repr__(self):
        return "Ref(%s)" % (self.oid,)


class Fn(V):
    """A function of the program (fd index) with its defining frame (or None)."""

    __slots__ = ()

    def __init__(self, fid, env):
        V.__init__(self, fid, env)

    fid = property(lambda s: s.k[0])
    env = property(lambda s: s.k[1])


class Bound(V):
    __slots__ = ()

    def __init__(self, fn, recv):
        V.__init__(self, fn, recv)

    fn = property(lambda s: s.k[0])
    recv = property(lambda s: s.k[1])


class Cls(V):
    """A class: of the program (name 'module:Class') or builtin ('int')."""

    __slots__ = ()

    def __init__(self, name):
        V.__init__(self, name)

    name = property(lambda s: s.k[0])


class Mod(V):
    __slots__ = ()

    def __init__(self, name):
        V.__init__(self, name)

    name = property(lambda s: s.k[0])


class Bi(V):
    """Builtin or external function, by dotted name; recv for methods."""

    __slots__ = ()

    def __init__(self, name, recv=None):
        V.__init__(self, name, recv)

    name = property(lambda s: s.k[0])
    recv = property(lambda s: s.k[1])


class Wrap(V):
    """staticmethod / classmethod / property wrapper in a class body."""

    __slots__ = ()

    def __init__(self, kind, fn):
        V.__init__(self, kind, fn)

    kind = property(lambda s: s.k[0])
    fn = property(lambda s: s.k[1])


class Partial(V):
    __slots__ = ()

    def __init__(self, fn, args, kw):
        V.__init__(self, fn, tuple(args), tuple(kw))


class Exc(V):
    """An exception value; unknown=True: some subclass of cls."""

    __slots__ = ()

    def __init__(self, cls, args=(), unknown=False, info=None):
        V.__init__(self, cls, tuple(args), unknown, info)

    cls = property(lambda s: s.k[0])
    args = property(lambda s: s.k[1])
    unknown = property(lambda s: s.k[2])
    info = property(lambda s: s.k[3])


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
ELEM = Sym("ELEM", "ELEM")


def kbool(b):
    return TRUE if b else FALSE


class Obj:
    """Heap object, immutable: kind, cls, data (V, tuple of V or dict str->V)."""

    __slots__ = ("kind", "cls", "data")

    def __init__(self, kind, cls, data):
        self.kind = kind
        self.cls = cls
        self.data = data

    def with_(self, data):
        return Obj(self.kind, self.cls, data)

    def __repr__(self):
        return "Obj(%s,%s,%r)" % (self.kind, self.cls, self.data)


class St:
    """Abstract state; copy on write."""

    __slots__ = ("frame", "stack", "heap", "cons", "mon")

    def __init__(self, frame, stack, heap, cons, mon):
        self.frame = frame
        self.stack = stack
        self.heap = heap
        self.cons = cons
        self.mon = mon

    def with_frame(self, f):
        return St(f, self.stack, self.heap, self.cons, self.mon)

    def push(self, *vs):
        return St(self.frame, self.stack + vs, self.heap, self.cons, self.mon)

    def pop(self, n=1):
        return St(
            self.frame, self.stack[: len(self.stack) - n], self.heap, self.cons, self.mon
        )

    def set_obj(self, oid, obj):
        h = dict(self.heap)
        h[oid] = obj
        return St(self.frame, self.stack, h, self.cons, self.mon)

    def new_obj(self, kind, cls, data):
        oid = fresh_id()
        return Ref(oid), self.set_obj(oid, Obj(kind, cls, data))

    def obj(self, ref):
        o = self.heap.get(ref.oid)
        return BASE[ref.oid] if o is None else o

    def objid(self, oid):
        o = self.heap.get(oid)
        return BASE[oid] if o is None else o

    def set_mon(self, name, val):
        m = dict(self.mon)
        m[name] = val
        return St(self.frame, self.stack, self.heap, self.cons, m)

    def set_cons(self, term, con):
        c = dict(self.cons)
        if con is None:
            c.pop(term, None)
        else:
            c[term] = con
        return St(self.frame, self.stack, self.heap, c, self.mon)

    def var(self, name, frame=None):
        return self.objid(self.frame if frame is None else frame).data.get(name)

    def set_var(self, name, val, frame=None):
        f = self.frame if frame is None else frame
        o = self.objid(f)
        d = dict(o.data)
        d[name] = val
        return self.set_obj(f, o.with_(d))

    def del_var(self, name):
        o = self.objid(self.frame)
        d = dict(o.data)
        d.pop(name, None)
        return self.set_obj(self.frame, o.with_(d))


# --- linear integers ------------------------------------------------------


def lin_of(v):
    """Value -> Lin, or None when it is not an integer expression."""
    if isinstance(v, K):
        if isinstance(v.v, bool):
            return Lin(int(v.v), ())
        if isinstance(v.v, int):
            return Lin(v.v, ())
        return None
    if isinstance(v, Lin):
        return v
    if isinstance(v, (Sym, App)) and v.sort in ("int", "any", "bool"):
        return Lin(0, ((v, 1),))
    return None


def is_int(v):
    return (isinstance(v, K) and type(v.v) is int) or isinstance(v, Lin) or (
        isinstance(v, (Sym, App)) and v.sort == "int"
    )


def lin_norm(const, terms):
    d = {}
    for t, c in terms:
        d[t] = d.get(t, 0) + c
    ts = tuple(sorted(((t, c) for t, c in d.items() if c), key=lambda x: repr(x[0])))
    if not ts:
        return K(const)
    if const == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return Lin(const, ts)


def lin_add(a, b, sb=1):
    a, b = lin_of(a), lin_of(b)
    return lin_norm(
        a.const + sb * b.const, tuple(a.terms) + tuple((t, sb * c) for t, c in b.terms)
    )


# --- strings ----------------------------------------------------------------


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, K) and isinstance(p.v, str):
            p = p.v
        if isinstance(p, Str):
            sub = p.parts
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return K("")
    if len(out) == 1:
        if isinstance(out[0], str):
            return K(out[0])
        if isinstance(out[0], (Sym, App)) and out[0].sort in ("str", "tok"):
            return out[0]
    return Str(out)


def str_parts(v):
    if isinstance(v, K) and isinstance(v.v, str):
        return (v.v,) if v.v else ()
    if isinstance(v, Str):
        return v.parts
    return (v,)


# --- traversal / renaming ------------------------------------------------------


def map_val(v, f):
    """Rebuild v with f applied to Sym and Ref leaves (None = keep)."""
    if isinstance(v, (Sym, Ref)):
        r = f(v)
        return v if r is None else r
    if isinstance(v, (K, Cls, Mod)):
        return v
    if isinstance(v, str) or v is None or isinstance(v, (int, bool)):
        return v
    if isinstance(v, tuple):
        n = tuple([map_val(x, f) for x in v])
        for a, b in zip(n, v):
            if a is not b:
                return n
        return v
    if isinstance(v, V):
        n = tuple([map_val(x, f) for x in v.k])
        for a, b in zip(n, v.k):
            if a is not b:
                break
        else:
            return v
        return rebuild(v, n)
    if isinstance(v, frozenset):
        return frozenset(map_val(x, f) for x in v)
    return v


def rebuild(v, n):
    if isinstance(v, Str):
        return mkstr(n[0])
    if isinstance(v, Lin):
        const = n[0]
        terms = []
        for t, c in n[1]:
            l = lin_of(t)
            if l is None:
                terms.append((t, c))
            else:
                const += c * l.const
                terms += [(tt, cc * c) for tt, cc in l.terms]
        return lin_norm(const, terms)
    if isinstance(v, Seg) and not isinstance(n[0], Sym):
        return n[0]
    new = v.__class__.__new__(v.__class__)
    V.__init__(new, *n)
    return new


BASE = {}  # heap of the modules, shared by all states


def subst_term(v, old, new):
    """Replace every occurrence of the value old inside v."""
    if v == old:
        return new
    if isinstance(v, (K, Cls, Mod, Sym, Ref, str, int, bool)) or v is None:
        return v
    if isinstance(v, tuple):
        n = tuple([subst_term(x, old, new) for x in v])
        return v if all(a is b for a, b in zip(n, v)) else n
    if isinstance(v, V):
        n = tuple([subst_term(x, old, new) for x in v.k])
        if all(a is b for a, b in zip(n, v.k)):
            return v
        return rebuild(v, n)
    if isinstance(v, frozenset):
        return frozenset(subst_term(x, old, new) for x in v)
    return v


def leaves(v, out):
    if isinstance(v, (Sym, Ref)):
        out.append(v)
    elif isinstance(v, K):
        pass
    elif isinstance(v, V):
        for x in v.k:
            leaves(x, out)
    elif isinstance(v, (tuple, frozenset, list)):
        for x in v:
            leaves(x, out)
    elif isinstance(v, dict):
        for b in v.values():
            leaves(b, out)
    return out
