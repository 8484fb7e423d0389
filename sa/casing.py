"""G01: a token is compared with a keyword only after its letters were put into one case.
A domain mixed with CaseRule looks at every comparison of a token with constant words."""
from . import facts as F
from .vals import *  # noqa

TESTS = ("isupper", "islower", "istitle")


def keyword(w):
    """A word in letters, written as one token."""
    return isinstance(w, str) and w.lower() != w.upper() and not any(c.isspace() for c in w)


class CaseRule:
    def cased(self, I, what):
        w = "%s (in %s)" % (what, I.fn.qualname)
        self.viol.setdefault(("G01", w), w)

    def skip(self, I):
        return I.loading or I.fn is None or getattr(self, "folding", False)

    def on_compare(self, I, op, a, b, st, node):
        if self.skip(I) or op not in ("==", "!=", "in", "not in"):
            return
        self.compared = getattr(self, "compared", 0) + 1
        if op in ("==", "!="):
            self.pair(I, a, b, st)
            self.pair(I, b, a, st)
            return
        if F.is_stringy(b) and not isinstance(b, K):
            return self.pair(I, b, a, st)  # a word looked for inside a token
        for x in self.members(b, st):
            self.pair(I, a, x, st)
            self.pair(I, x, a, st)

    def members(self, b, st):
        if isinstance(b, K):
            return [K(x) for x in b.v] if isinstance(b.v, (tuple, frozenset)) else []
        if isinstance(b, Tup):
            return b.items
        if isinstance(b, Ref):
            o = st.obj(b)
            if o.kind == "dict":
                return [x.items[0] for x in o.data]
            if o.kind in ("list", "set") and o.data:
                return o.data
        return []

    def as_written(self, p):
        if isinstance(p, Joined):
            return any(self.as_written(a) for a in p.alts)
        if isinstance(p, Str):
            return any(self.as_written(x) for x in p.parts)
        return isinstance(p, Sym)

    def pair(self, I, t, c, st):
        if isinstance(t, Tup):
            cs = c.items if isinstance(c, Tup) else [K(x) for x in c.v] if isinstance(c, K) and isinstance(c.v, tuple) else ()
            if len(cs) == len(t.items):
                for x, y in zip(t.items, cs):
                    self.pair(I, x, y, st)
                    self.pair(I, y, x, st)
            return
        if isinstance(t, Str) and isinstance(c, K) and isinstance(c.v, str) and c.v.lower() != c.v.upper():
            if any(self.as_written(p) for p in t.parts):
                self.cased(I, "a text made of tokens as they are written is compared with '%s'" % c.v)
            return
        if not (isinstance(c, K) and keyword(c.v)):
            return
        self.compared_words = getattr(self, "compared_words", 0) + 1
        base, how = F.case_base(t)
        if how:
            if c.v != getattr(c.v, how)():
                self.cased(I, "a token in %s case is compared with '%s'" % (how, c.v))
            return
        if not (isinstance(t, Sym) and t.sort == "tok"):
            return
        pos, neg = F.vfact(st, t)
        if pos is not None:
            return  # its letters are known already
        pos, neg = F.vfact(st, F.low(t))
        w = K(c.v.lower())
        if pos is not None and w not in pos or w in neg:
            return  # the answer does not depend on the case
        self.cased(I, "a token is compared with '%s' as it is written" % c.v)

    def on_strop(self, I, meth, v, args, st, node):
        if self.skip(I) or not (isinstance(v, Sym) and v.sort == "tok"):
            return
        if meth in TESTS:
            self.cased(I, "the letter case of a token is asked for")
        elif meth in ("startswith", "endswith", "find", "index", "count"):
            for a in args:
                for x in a.items if isinstance(a, Tup) else (a,):
                    self.pair(I, v, x, st)

    def on_collect(self, I, f, d, stops, st, node):
        if self.skip(I):
            return
        for w in stops:
            if isinstance(w, str) and w != w.lower():
                self.cased(I, "tokens in lower case are compared with the stop word '%s'" % w)
