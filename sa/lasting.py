"""A02: writes to what existed before a call.  A domain mixed with Lasting reports every
change of an object of the modules (module variables, class attributes, default arguments),
of an object a cache hands out again and, while `pre` is set, of any object that existed
when it was set."""
from .vals import *  # noqa

class Lasting:
    pre = None
    shared = frozenset()
    phase = "parsing"

    def lasting(self, what):
        self.viol.setdefault(("A02", what), what)

    def existed(self, ref, o):
        if self.pre is not None and (o.kind == "node" or o.kind == "inst" and "__src" in o.data):
            return True  # a part of the tree that was looked at now
        return ref.oid in BASE or ref.oid in self.shared or self.pre is not None and ref.oid in self.pre

    def on_write(self, I, kind, target, st, node):
        if I.loading or kind == "cache":
            return
        self.wrote = getattr(self, "wrote", 0) + 1
        who = "%s (in %s)" % (self.phase, I.fn.qualname if I.fn else "?")
        if kind == "global":
            return self.lasting("%s changes the module variable %s" % (who, target.v))
        if kind in ("class", "module"):
            return self.lasting("%s changes the attribute %s of a %s" % (who, target.items[1].v, kind))
        ref = target.items[0] if kind == "attr" else target
        if not isinstance(ref, Ref) or not self.existed(ref, st.obj(ref)):
            return
        o = st.obj(ref)
        where = "that belongs to the modules" if ref.oid in BASE else "that a cache keeps" if ref.oid in self.shared else "that was there before"
        if kind == "attr":
            c = (o.cls or "object").split(":")[-1] if isinstance(o.cls, str) else "object"
            return self.lasting("%s changes the attribute %s of a %s %s" % (who, target.items[1].v, c, where))
        if kind == "iter":
            if o.kind in ("stream", "tokens"):
                return
            return self.lasting("%s uses up an iterator %s" % (who, where))
        self.lasting("%s changes a %s %s" % (who, o.kind, where))

    def on_cached(self, I, f, how, v, st):
        """A function whose result is kept returned v."""
        if I.loading:
            return
        if f.is_gen or isinstance(v, Ref) and st.obj(v).kind in ("gen", "iter", "map", "zip", "enum"):
            self.lasting("the result of %s, which can be read only once, is kept in a cache" % f.qualname)
        elif isinstance(v, Ref):
            if f.name in ("validate", "known_fields") and st.obj(v).kind in ("list", "set"):
                self.lasting("the %s that %s returns is kept in a cache" % (st.obj(v).kind, f.qualname))
            self.shared = self.shared | {v.oid}
