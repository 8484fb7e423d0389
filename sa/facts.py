"""What a state knows about opaque values: finite value sets and intervals."""
from .vals import *  # noqa

EMPTY = frozenset()
STRPRED = {
    "isdigit": lambda s: s.isdigit(),
    "isalpha": lambda s: s.isalpha(),
    "isalnum": lambda s: s.isalnum(),
    "isnumeric": lambda s: s.isnumeric(),
    "isdecimal": lambda s: s.isdecimal(),
    "isspace": lambda s: s.isspace(),
    "isidentifier": lambda s: s.isidentifier(),
    "isupper": lambda s: s.isupper(),
    "islower": lambda s: s.islower(),
}


def vfact(st, t):
    return st.cons.get(("v", t), (None, EMPTY))


def ifact(st, t):
    r = st.cons.get(("iv", t))
    if r is not None:
        return r
    if isinstance(t, App) and t.op in ("len", "count", "strlen"):
        return (0, None)
    return (None, None)


def is_stringy(t):
    return isinstance(t, Str) or (
        isinstance(t, (Sym, App)) and t.sort in ("tok", "str")
    ) or (isinstance(t, K) and isinstance(t.v, str))


def caseless(s):
    return s.lower() == s.upper()


def case_base(t):
    """lower(x) / upper(x) -> (x, op)."""
    if isinstance(t, App) and t.op in ("lower", "upper") and len(t.args) == 1:
        return t.args[0], t.op
    return None, None


def low(t):
    return App("lower", (t,), t.sort if t.sort == "tok" else "str")


def decide_eq(st, a, b):
    if isinstance(a, K) and isinstance(b, K):
        try:
            return a.v == b.v
        except Exception:
            return False
    if a == b:
        return True
    if isinstance(a, K):
        a, b = b, a
    if isinstance(b, K):
        return decide_eq_const(st, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if any(isinstance(x, Seg) for x in a.items + b.items):
            return None
        if len(a.items) != len(b.items):
            return False
        res = True
        for x, y in zip(a.items, b.items):
            r = decide_eq(st, x, y)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if isinstance(a, (Cls, Mod, Fn, Bi)) and isinstance(b, (Cls, Mod, Fn, Bi)):
        return a == b
    if isinstance(a, Tup) and is_stringy(b) or isinstance(b, Tup) and is_stringy(a):
        return False
    pos, neg = vfact(st, eqterm(a, b))
    if pos is not None and len(pos) == 1:
        return next(iter(pos)).v
    if is_stringy(a) and is_stringy(b):
        pa, _ = vfact(st, a) if isinstance(a, (Sym, App)) else (None, None)
        pb, _ = vfact(st, b) if isinstance(b, (Sym, App)) else (None, None)
        if pa is not None and pb is not None and not (pa & pb):
            return False
        # same literal-free skeleton
    if is_int(a) and is_int(b):
        return decide_lin(st, lin_add(a, b, -1), "eq")
    return None


def eqterm(a, b):
    if isinstance(a, K) or (not isinstance(b, K) and repr(b) < repr(a)):
        a, b = b, a
    return App("eq", (a, b), "bool")


def decide_eq_const(st, t, c):
    if isinstance(t, (Tup, Cls, Mod, Fn, Bi, Bound, Ref)):
        if isinstance(t, Tup) and isinstance(c.v, tuple):
            return None
        return False
    if isinstance(t, Str):
        if not isinstance(c.v, str):
            return False
        parts = t.parts
        if isinstance(parts[0], str) and not c.v.startswith(parts[0]):
            return False
        if isinstance(parts[-1], str) and not c.v.endswith(parts[-1]):
            return False
        minlen = 0
        for p in parts:
            if isinstance(p, str):
                if p not in c.v:
                    return False
                minlen += len(p)
            elif isinstance(p, (Sym, App)) and p.sort == "tok":
                minlen += 1
        if minlen > len(c.v):
            return False
        return None
    if isinstance(t, Lin):
        if not isinstance(c.v, (int, float)):
            return False
        return decide_lin(st, lin_add(t, c, -1), "eq")
    if not isinstance(t, (Sym, App)):
        return None
    if t.sort in ("tok", "str"):
        if not isinstance(c.v, str):
            return False
        if t.sort == "tok" and c.v == "":
            return False
    elif t.sort == "int":
        if not isinstance(c.v, (int, float)):
            return False
        r = decide_lin(st, lin_add(t, c, -1), "eq") if isinstance(c.v, int) else None
        if r is not None:
            return r
    elif t.sort == "bool":
        if not isinstance(c.v, (bool, int)):
            return False
    elif t.sort == "type":
        if not isinstance(c.v, type):
            return False
    pos, neg = vfact(st, t)
    if pos is not None:
        if c not in pos:
            return False
        if len(pos) == 1:
            return True
    if c in neg:
        return False
    if isinstance(c.v, str):
        base, op = case_base(t)
        if base is not None:
            conv = str.lower if op == "lower" else str.upper
            if conv(c.v) != c.v:
                return False
            bpos, bneg = vfact(st, base)
            if bpos is not None:
                vals = set(conv(x.v) for x in bpos if isinstance(x.v, str))
                if c.v not in vals:
                    return False
                if len(vals) == 1:
                    return True
            if caseless(c.v) and c in bneg:
                return False
            other = App(
                "upper" if op == "lower" else "lower", (base,), t.sort
            )
            oc = K(c.v.upper() if op == "lower" else c.v.lower())
            opos, oneg = vfact(st, other)
            if opos is not None:
                if oc not in opos:
                    return False
                if len(opos) == 1:
                    return True
            if oc in oneg:
                return False
            if pred_conflict(st, base, c.v):
                return False
        else:
            lt = low(t)
            lpos, lneg = vfact(st, lt)
            lc = K(c.v.lower())
            if lpos is not None:
                if lc not in lpos:
                    return False
                if len(lpos) == 1 and caseless(c.v):
                    return True
            if lc in lneg:
                return False
            if pred_conflict(st, t, c.v):
                return False
    return None


def pred_conflict(st, t, s):
    for (kind, term), con in st.cons.items():
        if (
            kind == "v"
            and isinstance(term, App)
            and term.op in STRPRED
            and term.args == (t,)
            and con[0] is not None
            and len(con[0]) == 1
        ):
            if STRPRED[term.op](s) != next(iter(con[0])).v:
                return True
    return False


def decide_pred(st, term):
    """A boolean App about a string with a finite value set."""
    pos, _ = vfact(st, term)
    if pos is not None and len(pos) == 1:
        return next(iter(pos)).v
    if term.op in STRPRED and len(term.args) == 1:
        t = term.args[0]
        f = STRPRED[term.op]
        if isinstance(t, K):
            return f(t.v)
        tp, _ = vfact(st, t)
        if tp is None:
            tp, _ = vfact(st, low(t)) if isinstance(t, (Sym, App)) else (None, None)
            if term.op in ("isupper", "islower"):
                tp = None
        if tp is not None and all(isinstance(c.v, str) for c in tp):
            vals = set(f(c.v) for c in tp)
            if len(vals) == 1:
                return vals.pop()
    return None


def refine_eq(st, t, c, truth):
    """Assume t == c (const) / t != c.  Returns a state or None (contradiction)."""
    d = decide_eq(st, t, c)
    if d is not None:
        return st if d == truth else None
    if isinstance(t, Lin) or (isinstance(t, (Sym, App)) and t.sort == "int"):
        return refine_lin(st, lin_add(t, c, -1), "eq" if truth else "ne")
    if truth:
        pos, neg = vfact(st, t)
        st = st.set_cons(("v", t), (frozenset([c]), EMPTY))
        if isinstance(c.v, str) and isinstance(t, (Sym, App)):
            base, op = case_base(t)
            if base is not None:
                if caseless(c.v):
                    st = st.set_cons(("v", base), (frozenset([c]), EMPTY))
            else:
                st = st.set_cons(
                    ("v", low(t)), (frozenset([K(c.v.lower())]), EMPTY)
                )
    else:
        pos, neg = vfact(st, t)
        if pos is not None:
            pos = pos - {c}
            st = st.set_cons(("v", t), (pos, neg))
        else:
            st = st.set_cons(("v", t), (None, neg | {c}))
        if isinstance(c.v, str) and caseless(c.v) and isinstance(t, (Sym, App)):
            base, op = case_base(t)
            other = base if base is not None else low(t)
            pos, neg = vfact(st, other)
            if pos is not None:
                st = st.set_cons(("v", other), (pos - {c}, neg))
            else:
                st = st.set_cons(("v", other), (None, neg | {c}))
    return st


def refine_in(st, t, consts, truth):
    """Assume t in / not in a tuple of constants."""
    if truth:
        ok = frozenset(c for c in consts if decide_eq(st, t, c) is not False)
        if not ok:
            return None
        if len(ok) == 1:
            return refine_eq(st, t, next(iter(ok)), True)
        st = st.set_cons(("v", t), (ok, EMPTY))
        if all(isinstance(c.v, str) for c in ok) and isinstance(t, (Sym, App)):
            base, op = case_base(t)
            if base is None:
                st = st.set_cons(
                    ("v", low(t)), (frozenset(K(c.v.lower()) for c in ok), EMPTY)
                )
            elif all(caseless(c.v) for c in ok):
                st = st.set_cons(("v", base), (ok, EMPTY))
        return st
    for c in consts:
        if decide_eq(st, t, c) is False:
            continue
        st = refine_eq(st, t, c, False)
        if st is None:
            return None
    pos, _ = vfact(st, t)
    if pos is not None and not pos:
        return None
    return st


def refine_pred(st, term, truth):
    d = decide_pred(st, term)
    if d is not None:
        return st if d == truth else None
    return st.set_cons(("v", term), (frozenset([kbool(truth)]), EMPTY))


# --- integers ---------------------------------------------------------------


def lin_split(l):
    """Lin -> (term, sign, const): l = sign*term + const."""
    l = lin_of(l)
    if not l.terms:
        return None, 1, l.const
    sign = 1 if l.terms[0][1] > 0 else -1
    terms = tuple((t, c * sign) for t, c in l.terms)
    if len(terms) == 1 and terms[0][1] == 1:
        return terms[0][0], sign, l.const
    return Lin(0, terms), sign, l.const


def lin_range(st, l):
    t, s, c = lin_split(l)
    if t is None:
        return c, c
    lo, hi = ifact(st, t)
    if isinstance(t, Lin):
        # combine term intervals
        slo, shi = 0, 0
        for x, k in t.terms:
            xl, xh = ifact(st, x)
            if k < 0:
                xl, xh = xh, xl
            slo = None if slo is None or xl is None else slo + k * xl
            shi = None if shi is None or xh is None else shi + k * xh
        if slo is not None and (lo is None or slo > lo):
            lo = slo
        if shi is not None and (hi is None or shi < hi):
            hi = shi
    if s < 0:
        lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
    return (None if lo is None else lo + c), (None if hi is None else hi + c)


def decide_lin(st, l, op):
    """op: 'ge' (l >= 0) or 'eq' (l == 0)."""
    lo, hi = lin_range(st, l)
    if op == "ge":
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        return None
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return False
    if lo == 0 and hi == 0:
        return True
    t, s, c = lin_split(l)
    if t is not None:
        _, neg = vfact(st, t)
        if K(-c * s) in neg:
            return False
    return None


def refine_lin(st, l, op):
    """op: ge, lt, eq, ne (with respect to 0)."""
    if op in ("ge", "lt"):
        d = decide_lin(st, l, "ge")
        if d is not None:
            return st if d == (op == "ge") else None
    else:
        d = decide_lin(st, l, "eq")
        if d is not None:
            return st if d == (op == "eq") else None
    t, s, c = lin_split(l)
    lo, hi = ifact(st, t)
    v = -c * s  # t == v  <=>  l == 0
    if op == "eq":
        return set_iv(st, t, v, v)
    if op == "ne":
        pos, neg = vfact(st, t)
        neg = neg | {K(v)}
        st = st.set_cons(("v", t), (None, neg))
        return set_iv(st, t, lo, hi)
    if op == "ge":
        # s*t + c >= 0
        if s > 0:
            return set_iv(st, t, maxn(lo, -c), hi)
        return set_iv(st, t, lo, minn(hi, c))
    # s*t + c <= -1
    if s > 0:
        return set_iv(st, t, lo, minn(hi, -1 - c))
    return set_iv(st, t, maxn(lo, c + 1), hi)


def maxn(a, b):
    return b if a is None else a if b is None else max(a, b)


def minn(a, b):
    return b if a is None else a if b is None else min(a, b)


def set_iv(st, t, lo, hi):
    _, neg = vfact(st, t)
    while lo is not None and K(lo) in neg:
        lo += 1
    while hi is not None and K(hi) in neg:
        hi -= 1
    if lo is not None and hi is not None and lo > hi:
        return None
    return st.set_cons(("iv", t), (lo, hi))


# --- join -------------------------------------------------------------------


def join_fact(key, a, b):
    """Join of two facts about the same term; None = no information."""
    if key[0] == "iv":
        lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
        return None if lo is None and hi is None else (lo, hi)
    pa, na = a
    pb, nb = b
    if pa is not None and pb is not None:
        return (pa | pb, EMPTY)
    if pa is None and pb is None:
        n = na & nb
    elif pa is not None:
        n = nb - pa
    else:
        n = na - pb
    return (None, n) if n else None


def default_fact(st, key):
    """Information a state has about a term it has no explicit fact for."""
    if key[0] == "iv":
        lo, hi = lin_range(st, key[1])
        return None if lo is None and hi is None else (lo, hi)
    t = key[1]
    if isinstance(t, App):
        d = decide_pred(st, t)
        if d is not None:
            return (frozenset([kbool(d)]), EMPTY)
    return None
