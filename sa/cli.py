"""The command line: one abstract run of the program over every set of options,
every list of inputs, every directory tree, every token stream and every failure.

The domain stands for the world outside the program (argparse, the file system,
tokenize, the SQL library) and keeps ghost records (`mon`) of what a correct run
must have done; the properties F01-F12 are obligations checked on these records.
"""
import ast
import re
import tokenize

from .vals import *  # noqa
from . import facts as F
from .interp import Domain, Interp
from .loader import AnalysisError

ZERO = K(0)
# a token of a run that is not followed one by one
TOKEL = Tup(
    (Sym(1, "?ty", "int"), Sym(2, "?v.run", "str"), Sym(3, "?st"), Sym(4, "?en"), Sym(5, "?ln", "str"))
)
OPTS = ("format", "check_format", "validate", "verbose_validate")
WRITERS = {
    "os.remove", "os.unlink", "os.rename", "os.replace", "os.renames", "os.truncate",
    "os.mkdir", "os.makedirs", "os.rmdir", "os.removedirs", "os.chmod", "os.chown",
    "os.link", "os.symlink", "os.utime", "os.write", "os.open", "os.mknod",
    "shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.copyfileobj",
    "shutil.move", "shutil.rmtree", "shutil.copytree", "shutil.copymode",
    "shutil.copystat", "os.system", "subprocess.run", "subprocess.call",
    "subprocess.Popen", "subprocess.check_call", "subprocess.check_output",
    "tempfile.NamedTemporaryFile", "tempfile.mkstemp", "tempfile.mkdtemp",
    "tempfile.TemporaryDirectory",
}
LIT_QUOTES = ('"', "'", '"""', "'''")
LIT_PREFIXES = ("",) + tuple(
    sorted(set(
        "".join(c.upper() if m >> i & 1 else c for i, c in enumerate(p))
        for p in ("r", "u", "f", "b", "fr", "rf", "br", "rb") for m in range(4)
    ))
)
NOFMT = "nosqlformat"
NOVAL = "nosqlvalidation"


def syms(v):
    return [x for x in leaves(v, []) if isinstance(x, Sym)]


def mentions(v, s):
    return any(x == s for x in syms(v))


def body_of(v):
    """The Sym of a string literal's content mentioned in v, if any."""
    for x in syms(v):
        if x.tag.startswith("b."):
            return x
    return None


def has_app(v, op):
    if isinstance(v, App) and v.op == op:
        return True
    if isinstance(v, (K, Sym, Ref, Cls, Mod)):
        return False
    if isinstance(v, V):
        return any(has_app(x, op) for x in v.k)
    if isinstance(v, (tuple, frozenset)):
        return any(has_app(x, op) for x in v)
    return False


def find_app(v, op, out):
    if isinstance(v, App) and v.op == op:
        out.append(v)
    if isinstance(v, (K, Sym, Ref, Cls, Mod)):
        return out
    if isinstance(v, V):
        for x in v.k:
            find_app(x, op, out)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            find_app(x, op, out)
    return out


class Cli(Domain):
    def __init__(self, only=None, part=None, tags=None, comments=None):
        # the kinds of strings and comments a file may contain: D differs when
        # formatted, V valid; f/v the opt-out markers
        self.quotes = None
        self.tags = tags or ("b.n", "b.s.DV", "b.s.D", "b.s.V", "b.s.")
        self.comments = comments or ("", "f", "v", "fv")
        self.only = only  # a set of options, or None for all rejected ones too
        # "file": one file input with any token stream whatever;
        # "tree": any inputs and directories, of files with at most two strings
        self.part = part
        self.viol = {}  # (pid, rule) -> message
        self.tables = {}  # flags -> {S kind: set of replaced?}
        self.stats = {
            "exits": 0, "opens": 0, "prints": 0, "writes": 0, "tokens": 0,
            "sql_folds": 0, "file_closes": 0, "combos": 0, "reads_raise": 0,
        }
        self.sites = set()
        self.ghost0 = {
            "cur": NONE, "tok": K("none"), "tcount": ZERO, "failed": FALSE, "errp": FALSE,
            "wr": NONE, "wrote": FALSE, "rep": FALSE, "invrep": FALSE,
            "nrep": ZERO, "ninv": ZERO, "led": Tup(()), "pend": NONE, "nx": Tup(()),
            "inv": Tup(()), "listed": FALSE, "listing": FALSE, "lst": NONE, "ledbad": FALSE,
            "printed": Tup(()), "enc": NONE,
        }
        self.run0 = {
            "T": ZERO, "TF": ZERO, "V": ZERO, "VF": ZERO, "seen": Tup(()),
            "srcp": NONE, "walk": K("none"), "wfiles": K("none"), "want": NONE,
            "one": FALSE, "invinp": FALSE, "srcdone": FALSE, "usage": FALSE, "opened": FALSE,
            "sumf": FALSE, "sumv": FALSE, "wpath": NONE, "nonpy": NONE,
        }

    def distinct(self, st):
        m = st.mon
        if "srcdone" not in m or not m["srcdone"].v:
            return None
        out = []
        for t in ("T", "V"):
            lo, hi = F.lin_range(st, lin_of(m[t]))
            out.append(0 if hi == 0 else 1 if lo is not None and lo > 0 else 2)
        return tuple(out)

    # --- reporting --------------------------------------------------------------

    def bad(self, pid, rule, I, node, st=None, **kw):
        k = (pid, rule)
        if k not in self.viol:
            fl = ""
            if st is not None and "flags" in st.mon:
                fl = " with " + (
                    " ".join(
                        "--" + n.replace("_", "-")
                        for n, v in zip(OPTS, st.mon["flags"].items)
                        if v.v
                    )
                    or "no option"
                )
            where = I.loc(node) if node is not None else "end of run"
            self.viol[k] = "%s%s [at %s%s]" % (
                rule, " (%s)" % kw["what"] if "what" in kw else "", where, fl
            )

    # --- options ---------------------------------------------------------------

    def flag(self, st, name):
        return st.mon["flags"].items[OPTS.index(name)].v

    def ext_argparse(self, I, name, recv, args, kw, st, node):
        if name == "argparse.ArgumentParser":
            ref, st = st.new_obj("parser", None, Tup(()))
            return [(ref, st)]
        if recv is None or not isinstance(recv, Ref):
            return None
        o = st.obj(recv)
        meth = name.split(".", 1)[1]
        if o.kind == "parser":
            if meth in ("add_mutually_exclusive_group", "add_argument_group"):
                req = kw.get("required", FALSE)
                ref, st = st.new_obj(
                    "pgroup", None,
                    Tup((recv, K(fresh_id()), K(meth.startswith("add_mut")), req)),
                )
                return [(ref, st)]
            if meth == "error":
                st = st.set_mon("usage", TRUE)
                I.raise_(Exc("SystemExit", (K(2),), False, I.loc(node)), st)
                return []
            if meth == "exit":
                code = args[0] if args else kw.get("status", ZERO)
                I.raise_(Exc("SystemExit", (code,), False, I.loc(node)), st)
                return []
            if meth in ("print_usage", "print_help", "set_defaults"):
                return [(NONE, st)]
            if meth == "parse_args":
                return self.parse_args(I, recv, o, st, node)
        if meth == "add_argument" and o.kind in ("parser", "pgroup"):
            if o.kind == "parser":
                p, gid, excl, req = recv, ZERO, FALSE, FALSE
            else:
                p, gid, excl, req = o.data.items
            names = [a.v for a in args if isinstance(a, K)]
            longs = [n for n in names if n.startswith("--")]
            nm = (longs or names)[0]
            dest = kw["dest"].v if "dest" in kw else nm.lstrip("-").replace("-", "_")
            act = kw["action"].v if "action" in kw else "store"
            dflt = kw.get("default", NONE)
            if act in ("store_true",) and "default" not in kw:
                dflt = FALSE
            if act in ("store_false",) and "default" not in kw:
                dflt = TRUE
            const = kw.get("const", NONE)
            row = Tup(
                (
                    K(nm), K(dest), gid, excl, req, K(act), dflt, const,
                    kw.get("nargs", NONE),
                )
            )
            po = st.obj(p)
            st = st.set_obj(p.oid, po.with_(Tup(po.data.items + (row,))))
            return [(NONE, st)]
        return None

    def parse_args(self, I, recv, o, st, node):
        rows = [r.items for r in o.data.items]
        bools, pos = [], []
        data = {}
        for r in rows:
            nm, dest, gid, excl, req, act, dflt, const, nargs = r
            if act.v in ("store_true", "store_false", "store_const"):
                bools.append(r)
            elif act.v in ("version", "help"):
                continue
            elif not nm.v.startswith("-"):
                pos.append(r)
            else:
                data[dest.v] = dflt
        names = [b[0].v.lstrip("-").replace("-", "_") for b in bools]
        for n in OPTS:
            if n not in names:
                raise AnalysisError("option --%s not found" % n.replace("_", "-"))
        res = []
        for mask in range(1 << len(bools)):
            on = [bool(mask >> i & 1) for i in range(len(bools))]
            chosen = {names[i]: on[i] for i in range(len(bools))}
            if any(on[i] for i, n in enumerate(names) if n not in OPTS):
                continue  # options unknown to the properties stay off
            if self.only is not None and tuple(chosen[n] for n in OPTS) not in self.only:
                continue
            self.stats["combos"] += 1
            s = st.set_mon("flags", Tup(tuple(K(chosen[n]) for n in OPTS)))
            bad = False
            groups = {}
            for b, x in zip(bools, on):
                if b[3].v:
                    groups.setdefault(b[2].v, [b[4], 0])[1] += x
            for req, n in groups.values():
                if n > 1 or (n == 0 and req == TRUE):
                    bad = True
            if bad:
                s = s.set_mon("usage", TRUE)
                I.raise_(Exc("SystemExit", (K(2),), False, I.loc(node)), s)
                continue
            d = dict(data)
            vals = {}
            for b, x in zip(bools, on):
                dest = b[1].v
                v = (
                    (TRUE if b[5].v == "store_true" else FALSE)
                    if b[5].v != "store_const"
                    else b[7]
                )
                if x:
                    vals[dest] = v
                else:
                    d.setdefault(dest, b[6])
            d.update(vals)
            for r in pos:
                if r[8] in (K("+"), K("*")):
                    seg = Seg(fresh("src", "seq"))
                    s = F.set_iv(s, App("len", (seg.sym,), "int"), 1 if r[8].v == "+" else 0, None)
                    ref, s = s.new_obj("list", None, (seg,))
                    d[r[1].v] = ref
                else:
                    raise AnalysisError("positional argument without nargs")
            ns, s = s.new_obj("ns", None, d)
            res.append((ns, s))
        return res

    # --- attributes ---------------------------------------------------------------

    def opaque_attr(self, I, ref, obj, name, st, node):
        if obj.kind in ("parser", "pgroup"):
            return [(Bi("parser." + name, ref), st)]
        if obj.kind == "ns":
            if name in obj.data:
                return [(obj.data[name], st)]
            I.err("AttributeError", st, node, name)
            return []
        if obj.kind == "file":
            if name == "name":
                return [(obj.data["path"], st)]
            if name in ("read", "readline", "readlines", "write", "writelines", "close",
                        "flush", "__enter__", "__exit__", "seek", "truncate", "__next__"):
                return [(Bi("file." + name, ref), st)]
            raise AnalysisError("file attribute " + name)
        if obj.kind == "query":
            if name in ("format", "is_valid"):
                return [(Bi("query." + name, ref), st)]
            if name == "errors":
                op = "errs" if obj.data["done"].v else "errs0"
                return [(App(op, (obj.data["sql"],), "seq"), st)]
            if name == "sql":
                return [(obj.data["sql"], st)]
            if name == "validated":
                return [(obj.data["done"], st)]
            raise AnalysisError("query attribute " + name)
        if obj.kind == "regex":
            return [(Bi("regex." + name, ref), st)]
        if obj.kind == "stream":
            return [(Bi("stream." + name, ref), st)]
        return None

    def sym_attr(self, I, v, name, st, node):
        if isinstance(v, Tup) and len(v.items) == 5:
            fields = ("type", "string", "start", "end", "line")
            if name in fields:
                return [(v.items[fields.index(name)], st)]
            if name == "exact_type":
                raise AnalysisError("exact_type")
            if name == "_replace":
                return [(Bi("token._replace", v), st)]
        if isinstance(v, App) and v.op == "errs" and name in ("copy", "__iter__", "__len__"):
            return [(Bi("errs." + name, v), st)]
        return None

    # --- the outside world -----------------------------------------------------------

    def may_raise(self, I, st, node, what, window=True):
        """An operation that can fail in any way."""
        if st.mon.get("wr", NONE) != NONE and window:
            self.bad(
                "F02",
                "a failure of %s after the file was opened for writing leaves it truncated"
                % what,
                I, node, st,
            )
        s = st
        if s.mon["cur"] != NONE:
            s = s.set_mon("failed", TRUE)
        s = s.set_mon("errp", TRUE)
        self.stats["reads_raise"] += 1
        I.raise_(Exc("Exception", (), True, I.loc(node)), s)

    def external(self, I, name, recv, args, kw, st, node):
        if I.loading:
            if name == "re.compile":
                ref, st = st.new_obj("regex", None, Tup(tuple(args)))
                return [(ref, st)]
            return None
        h = getattr(self, "e_" + name.replace(".", "_").replace("=", "_eq").replace("+", "_plus"), None)
        if h is not None:
            return h(I, recv, args, kw, st, node)
        if name.startswith(("argparse.", "parser.")):
            return self.ext_argparse(I, name, recv, args, kw, st, node)
        if name.startswith("str."):
            return self.strop(I, name[4:], recv, args, kw, st, node)
        if name in WRITERS:
            self.write_event(I, name, args[0] if args else NONE, st, node)
            if self.flag(st, "format"):
                raise AnalysisError("file system call %s" % name)
            return []
        if name.startswith("os.path."):
            return [(App(name[8:], tuple(args), "str"), st)]
        if name in ("io.open", "codecs.open"):
            return self.e_open(I, recv, args, kw, st, node)
        if name.startswith("re."):
            return self.regex(I, name[3:], args[0] if args else NONE, args[1:], st, node)
        if name.startswith("regex."):
            return self.regex(I, name[6:], st.obj(recv).data.items[0], args, st, node)
        if name in ("logging.getLogger", "warnings.warn", "sys.stdout.flush", "gc.collect"):
            return [(NONE, st)]
        if name in ("sys.stdout.write", "sys.stderr.write"):
            return self.e_print(I, None, args, {}, st, node)
        return None

    def write_event(self, I, what, path, st, node):
        self.stats["writes"] += 1
        if "flags" not in st.mon or not self.flag(st, "format"):
            self.bad("F01", "%s modifies the file system without --format" % what, I, node, st)
            if "flags" in st.mon and not any(self.flag(st, o) for o in OPTS):
                pass

    # os

    def prop(self, st, op, p):
        t = App(op, (p,), "bool")
        pos, _ = F.vfact(st, t)
        return next(iter(pos)).v if pos is not None and len(pos) == 1 else None

    def e_os_path_isdir(self, I, recv, args, kw, st, node):
        p = args[0]
        if self.prop(st, "isfile", p):
            return [(FALSE, st)]
        return [(App("isdir", (p,), "bool"), st)]

    def e_os_path_isfile(self, I, recv, args, kw, st, node):
        p = args[0]
        if isinstance(p, App) and p.op == "join" and any(s.tag in ("py", "nonpy") for s in syms(p)):
            return [(App("isfile", (p,), "bool"), st)]
        if self.prop(st, "isdir", p):
            return [(FALSE, st)]
        return [(App("isfile", (p,), "bool"), st)]

    def e_os_path_exists(self, I, recv, args, kw, st, node):
        p = args[0]
        if self.prop(st, "isfile", p) or self.prop(st, "isdir", p):
            return [(TRUE, st)]
        s = st
        for op in ("isfile", "isdir"):
            s = s.set_cons(("v", App(op, (p,), "bool")), (frozenset([FALSE]), F.EMPTY))
        return [(TRUE, st), (FALSE, s)]

    def e_os_path_join(self, I, recv, args, kw, st, node):
        if len(args) == 1:
            return [(args[0], st)]
        return [(App("join", tuple(args), "tok"), st)]

    def e_os_path_splitext(self, I, recv, args, kw, st, node):
        return [(Tup((App("stem", args, "str"), App("ext", args, "str"))), st)]

    def e_os_fspath(self, I, recv, args, kw, st, node):
        return [(args[0], st)]

    def e_os_walk(self, I, recv, args, kw, st, node):
        top = args[0] if args else kw.get("top")
        st = st.set_mon("wpath", top)
        if self.canon(top) == st.mon["srcp"]:
            if st.mon["walk"] == K("none"):
                st = st.set_mon("walk", K("run"))
        ref, st = st.new_obj("iter", None, (Seg(fresh("walk", "seq")),))
        return [(ref, st)]

    @staticmethod
    def canon(p):
        """Strip operations that keep the file a path denotes."""
        while isinstance(p, App) and p.op in (
            "abspath", "realpath", "normpath", "expanduser", "normcase", "fspath",
        ):
            p = p.args[0]
        if isinstance(p, Str) and len(p.parts) == 3 and p.parts[1] == "/":
            p = App("join", (p.parts[0], p.parts[2]), "tok")
        return p

    def is_abs(self, p):
        while isinstance(p, App):
            if p.op in ("abspath", "realpath"):
                return True
            if p.op in ("normpath", "normcase", "fspath") and p.args:
                p = p.args[0]
                continue
            return False
        return False

    # open and files

    def e_open(self, I, recv, args, kw, st, node):
        path = args[0] if args else kw.get("file")
        mode = args[1] if len(args) > 1 else kw.get("mode", K("r"))
        if not isinstance(mode, K):
            raise AnalysisError("open with unknown mode")
        self.stats["opens"] += 1
        self.sites.add(I.loc(node))
        p = self.canon(path)
        write = any(c in mode.v for c in "wax+")
        enc = Tup((kw.get("encoding", args[3] if len(args) > 3 else NONE),
                   kw.get("errors", args[4] if len(args) > 4 else NONE)))
        st = st.set_mon("opened", TRUE)
        if write:
            self.write_event(I, "open(..., %r)" % mode.v, p, st, node)
            if not self.flag(st, "format"):
                return []
            m = st.mon
            if m["cur"] == NONE or p != m["cur"]:
                self.bad("F02", "a file other than the one just analysed is opened for writing", I, node, st)
                return []
            if m["failed"].v:
                self.bad("F02", "a file is rewritten although its analysis failed", I, node, st)
                return []
            if m["tok"] != K("eof"):
                self.bad("F02", "the file is opened for writing before its whole content was read", I, node, st)
                return []
            if mode.v.replace("t", "").replace("+", "") not in ("w",):
                self.bad("F02", "open mode %r does not replace the old content" % mode.v, I, node, st)
                return []
            if m["wrote"].v:
                self.bad("F02", "the file is written twice", I, node, st)
                return []
            if m["enc"] != enc:
                self.bad("F09", "the file is read and written with different encodings or error handlers", I, node, st)
            if not m["ledbad"].v:
                s0 = self.fold(I, st, node, final=True)
                # the ghost count is complete only once everything is folded
                lo, hi = F.lin_range(s0, lin_of(s0.mon["nrep"]))
                if s0.mon["ledbad"].v:
                    pass
                elif lo is None or lo < 1:
                    self.bad("F02", "a file in which nothing changed is opened for writing", I, node, st)
            self.may_raise(I, st, node, "open", window=False)
            ref, st = st.new_obj("file", None, {"path": p, "mode": mode})
            return [(ref, st.set_mon("wr", p))]
        # reading
        if "flags" not in st.mon:
            raise AnalysisError("file opened before the options are known")
        for s in syms(p):
            if s.tag == "nonpy":
                self.bad("F07", "a file below a directory whose name does not end in .py is opened", I, node, st)
        if st.mon["srcp"] != NONE and p == st.mon["srcp"]:
            if self.prop(st, "isfile", p) is False and self.prop(st, "isdir", p) is False:
                self.bad("F07", "an input that is neither a file nor a directory is opened", I, node, st)
        st = self.close_file(I, st, node)
        # F06
        if not self.not_seen(st, p):
            self.bad("F06", "a file is opened without knowing that it was not analysed before", I, node, st)
        if any(i == Seg(Sym("lostseen", "lostseen")) for i in st.mon["seen"].items):
            self.bad("F06", "a file analysed earlier is not remembered", I, node, st)
        st = st.set_mon("seen", Tup(st.mon["seen"].items + (App("abspath", (p,), "str"),)))
        st = st.set_mon("cur", p)
        if p == st.mon["want"]:
            st = st.set_mon("want", NONE)
        if enc.items[1] not in (NONE, K("strict"), K("surrogateescape")):
            st = st.set_mon("enc", Tup((enc.items[0], enc.items[1], K("lossy"))))
        else:
            st = st.set_mon("enc", enc)
        self.may_raise(I, st, node, "open")
        ref, st = st.new_obj("file", None, {"path": p, "mode": mode})
        return [(ref, st)]

    def not_seen(self, st, p):
        if p in [self.canon(i) for i in st.mon["seen"].items if not isinstance(i, Seg)]:
            return False
        ok_terms = [t for (k, t), c in st.cons.items()
                    if k == "v" and isinstance(t, App) and t.op in ("member", "eq", "in")
                    and c[0] == frozenset([FALSE])]
        for i in st.mon["seen"].items:
            if isinstance(i, Seg):
                hi = F.ifact(st, App("len", (i.sym,), "int"))[1]
                if hi == 0:
                    continue
                if not any(
                    t.op == "member" and self.canon(t.args[0]) == p and self.is_abs(t.args[0])
                    and isinstance(t.args[1], Seg) and t.args[1].sym == i.sym
                    for t in ok_terms
                ):
                    return False
            else:
                q = self.canon(i)
                if not any(
                    t.op == "eq"
                    and {self.canon(t.args[0]), self.canon(t.args[1])} == {p, q}
                    and self.is_abs(t.args[0]) and self.is_abs(t.args[1])
                    for t in ok_terms
                ):
                    return False
        return True

    def e_with_enter(self, I, recv, args, kw, st, node):
        if isinstance(recv, Ref) and st.obj(recv).kind == "file":
            return [(recv, st)]
        return None

    def e_with_exit(self, I, recv, args, kw, st, node):
        if isinstance(recv, Ref) and st.obj(recv).kind == "file":
            return self.close_handle(I, recv, st, node, args[0] is not None)
        return None

    def close_handle(self, I, recv, st, node, exc=False):
        o = st.obj(recv)
        if any(c in o.data["mode"].v for c in "wax+"):
            if not st.mon["wrote"].v and not exc:
                self.bad("F02", "the file is truncated and closed without writing its new text", I, node, st)
            st = st.set_mon("wr", NONE)
        return [(NONE, st)]

    def e_file_close(self, I, recv, args, kw, st, node):
        return self.close_handle(I, recv, st, node)

    def e_file_flush(self, I, recv, args, kw, st, node):
        return [(NONE, st)]

    def e_file_read(self, I, recv, args, kw, st, node):
        if args:
            raise AnalysisError("partial read")
        o = st.obj(recv)
        self.may_raise(I, st, node, "read")
        return [(App("content", (o.data["path"],), "str"), st)]

    def e_io_StringIO(self, I, recv, args, kw, st, node):
        v = args[0] if args else None
        if isinstance(v, App) and v.op == "content":
            ref, st = st.new_obj("file", None, {"path": v.args[0], "mode": K("r")})
            return [(ref, st)]
        raise AnalysisError("io.StringIO of %r" % (v,))

    def e_file_write(self, I, recv, args, kw, st, node):
        o = st.obj(recv)
        v = args[0]
        if st.mon["wrote"].v:
            self.bad("F02", "the new text is written more than once", I, node, st)
        ok = isinstance(v, App) and v.op == "untok" and v.args[0] == o.data["path"]
        if not ok:
            self.bad("F02", "what is written is not the complete recomputed text", I, node, st)
        elif st.mon["ledbad"].v or v.args[1] != K("ok"):
            why = st.mon["ledbad"].v or v.args[1].v
            self.bad("F09", "the written text is not the source text with its literals replaced in place: %s" % why, I, node, st)
        if len(st.mon["enc"].items) > 2:
            self.bad("F09", "undecodable text is dropped when the file is read", I, node, st)
        self.may_raise(I, st, node, "write", window=False)
        return [(NONE, st.set_mon("wrote", TRUE))]

    # tokenize

    def e_tokenize_generate_tokens(self, I, recv, args, kw, st, node):
        rl = args[0]
        if not (isinstance(rl, Bi) and rl.name == "file.readline" and isinstance(rl.recv, Ref)):
            raise AnalysisError("generate_tokens of %r" % (rl,))
        if st.mon["tok"] != K("none"):
            raise AnalysisError("the file is tokenised twice")
        path = st.obj(rl.recv).data["path"]
        st = st.set_mon("tok", K("run"))
        ref, st = st.new_obj("stream", None, {"path": path})
        return [(ref, st)]

    def new_tok(self, st, ty, value):
        return Tup(
            (ty, value, fresh("st"), fresh("en"), fresh("ln", "str"))
        )

    def opaque_next(self, I, ref, obj, st, node):
        if obj.kind != "stream":
            return None
        if st.mon["tok"] == K("eof"):
            return [(None, st)]
        self.stats["tokens"] += 1
        self.may_raise(I, st, node, "reading or tokenising")
        res = []

        def give(tok, s, kind):
            s = s.set_mon("led", Tup(s.mon["led"].items + (tok,)))
            p = s.mon["pend"]
            if p != NONE and kind != "oth":
                s = s.set_mon("nx", Tup(s.mon["nx"].items + (Tup((p, K(kind))),)))
                s = s.set_mon("pend", NONE)
            if kind == "sql":
                s = s.set_mon("pend", body_of(tok))
            res.append((tok, s))

        if self.part == "lit":
            n = st.mon["tcount"].v
            s = st.set_mon("tcount", K(n + 1))
            if n == 0:
                for pre in LIT_PREFIXES:
                    for q in LIT_QUOTES if self.quotes is None else self.quotes:
                        v = Str((pre + q + "select ", fresh("b.s.DV", "tok"), " x" + q))
                        give(self.new_tok(s, K(tokenize.STRING), v), s, "sql")
            s = st.set_mon("tcount", ZERO).set_mon("tok", K("eof"))
            give(self.new_tok(s, K(tokenize.ENDMARKER), K("")), s, "end")
            return res
        if self.part == "tree":
            n = st.mon["tcount"].v
            s = st.set_mon("tcount", K(n + 1))
            for tag in (self.tags, self.tags, ())[n]:
                v = Str(('"select ', fresh(tag, "tok"), ' x"'))
                give(self.new_tok(s, K(tokenize.STRING), v), s, "sql")
            s = st.set_mon("tcount", ZERO).set_mon("tok", K("eof"))
            give(self.new_tok(s, K(tokenize.ENDMARKER), K("")), s, "end")
            return res
        ty = Sym(fresh_id(), "ty", "int")
        s = st
        for c in (tokenize.COMMENT, tokenize.STRING, tokenize.ENDMARKER):
            s = F.refine_eq(s, ty, K(c), False)
        give(self.new_tok(s, ty, fresh("v.oth", "str")), s, "oth")
        for b in self.comments:
            give(self.new_tok(st, K(tokenize.COMMENT), fresh("c." + b, "tok")), st, "c" + b)
        for tag in self.tags:
            # the text between the quotes starts like a query (or like another
            # word) so that no prefix or quote test is ambiguous
            v = Str(('"x' if tag == "b.n" else '"select ', fresh(tag, "tok"), ' x"'))
            give(
                self.new_tok(st, K(tokenize.STRING), v), st,
                "str" if tag == "b.n" else "sql",
            )
        give(self.new_tok(st, K(tokenize.ENDMARKER), K("")), st.set_mon("tok", K("eof")), "end")
        return res

    def e_token__replace(self, I, recv, args, kw, st, node):
        fields = ("type", "string", "start", "end", "line")
        items = list(recv.items)
        for k, v in kw.items():
            items[fields.index(k)] = v
        return [(Tup(tuple(items)), st)]

    def e_tokenize_TokenInfo(self, I, recv, args, kw, st, node):
        fields = ("type", "string", "start", "end", "line")
        items = list(args) + [kw[f] for f in fields[len(args):]]
        return [(Tup(tuple(items)), st)]

    def e_getitem(self, I, recv, args, kw, st, node):
        if isinstance(recv, Sym) and recv.tag in ("st", "en", "?st") and isinstance(args[0], K):
            return [(App("line" if args[0].v == 0 else "col", (recv,), "int"), st)]
        if isinstance(recv, App) and recv.op == "errs":
            return [(App("erritem", (recv,), "str"), st)]
        return None

    def e_getslice(self, I, recv, args, kw, st, node):
        if isinstance(recv, App) and recv.op == "errs":
            return [(App("erritem", (recv,), "seq"), st)]
        if isinstance(recv, Str) and body_of(recv) is not None and all(
            isinstance(a, K) for a in args
        ) and args[2].v is None:
            parts = list(recv.parts)
            lo, hi = args[0].v or 0, args[1].v
            if lo >= 0 and (hi is None or hi < 0):
                hi = 0 if hi is None else -hi
                while lo and parts and isinstance(parts[0], str):
                    n = min(lo, len(parts[0]))
                    parts[0] = parts[0][n:]
                    lo -= n
                    if not parts[0]:
                        parts.pop(0)
                    elif lo == 0:
                        break
                while hi and parts and isinstance(parts[-1], str):
                    n = min(hi, len(parts[-1]))
                    parts[-1] = parts[-1][: len(parts[-1]) - n]
                    hi -= n
                    if not parts[-1]:
                        parts.pop()
                    elif hi == 0:
                        break
                v = mkstr(parts)
                if lo or hi:
                    v = App("cut", (v, K(lo), K(hi)), "str")
                return [(v, st)]
        return None

    def e_unpack(self, I, recv, args, kw, st, node):
        if isinstance(recv, Sym) and recv.tag in ("st", "en", "?st") and args[0] == K(2):
            return [([App("line", (recv,), "int"), App("col", (recv,), "int")], st)]
        if isinstance(recv, Ref) and st.obj(recv).kind == "ns":
            return None
        return None

    def check_lit(self, I, st, x, node):
        """F10 on one emitted token of the one-literal program."""
        b = body_of(x)
        if b is None or not self.is_tok(x):
            return
        orig = [e for e in st.mon["led"].items if self.is_tok(e) and body_of(e) == b]
        if not orig or x.items[1] == orig[0].items[1]:
            return
        self.stats["lits"] = self.stats.get("lits", 0) + 1
        head = orig[0].items[1].parts[0]
        q = orig[0].items[1].parts[-1][2:]
        pre = head[: head.index(q)]
        what = "of the literal %s...%s" % (pre + q, q)
        v = x.items[1]
        if not isinstance(v, Str) or not has_app(v, "fmt"):
            raise AnalysisError("rewritten literal %r not understood" % (v,))
        parts = list(v.parts)
        l = parts.pop(0) if isinstance(parts[0], str) else ""
        r = parts.pop() if parts and isinstance(parts[-1], str) else ""
        if len(parts) != 1 or not (isinstance(parts[0], App) and parts[0].op == "fmt"):
            if len(parts) == 1 and has_app(parts[0], "fmt"):
                m = "the formatted SQL is altered before it is put between the quotes"
            else:
                m = "something other than the formatted SQL is put between the quotes"
            self.bad("F10", m, I, node, st, what=what)
            return
        if parts[0].args != (Str(("select ", b, " x")),):
            self.bad("F10", "the text that is formatted is not what stands between the quotes", I, node, st, what=what)
            return
        if not l.startswith(pre) or l[len(pre):].lstrip("\n")[:1] not in ("'", '"') :
            self.bad("F10", "the string prefix is lost or changed", I, node, st, what=what)
            return
        lq, rq = l[len(pre):].rstrip("\n"), r.lstrip("\n")
        if lq != rq or lq[:1] != q[:1] or lq not in (q[0], q[0] * 3) or (len(q) == 3 and len(lq) != 3):
            self.bad("F10", "the literal is not opened and closed with its own quotes", I, node, st, what=what)
            return
        multi = "\n" in l or "\n" in r
        if not multi:
            t = App("contains", (parts[0], K("\n")), "bool")
            f = F.vfact(st, t)
            multi = not (f[0] is not None and TRUE not in f[0] or TRUE in f[1])
        if multi and len(lq) != 3:
            self.bad("F10", "a text of several lines is put between single quotes", I, node, st, what=what)

    def e_tokenize_untokenize(self, I, recv, args, kw, st, node):
        if self.part == "lit":
            for items, s in I.collect(args[0], st, node):
                for x in items:
                    self.check_lit(I, s, x, node)
        st = self.fold(I, st, node, final=True)
        path = st.mon["cur"]
        res = []
        for items, s in I.collect(args[0], st, node):
            led = s.mon["led"].items
            if s.mon["tok"] != K("eof"):
                why = "the text is rebuilt before the end of the file was reached"
            elif tuple(items) == tuple(led):
                why = "ok"
                # every token is accounted for
                s = s.set_mon("led", Tup(())).set_mon("nx", Tup(())).set_mon("pend", NONE)
            else:
                why = "the tokens handed to untokenize are not those of the file in order"
            self.may_raise(I, s, node, "untokenize")
            res.append((App("untok", (path, K(why)), "str"), s))
        return res

    # SQL library

    def e_new(self, I, recv, args, kw, st, node):
        if recv.name.endswith(":SQLQuery"):
            sql = args[0] if args else kw.get("sql", NONE)
            ref, st = st.new_obj("query", None, {"sql": sql, "done": FALSE})
            return [(ref, st)]
        return None

    def intercept(self, I, f, args, kw, st, node):
        if f.module.endswith(".sql_formatter") and f.qualname == "format_sql":
            sql = args[0] if args else next(iter(kw.values()))
            self.may_raise(I, st, node, "formatting")
            return [(App("fmt", (sql,), "str"), st)]
        if ".grammar" in f.module:
            raise AnalysisError("the command line calls %s directly" % f.qualname)
        return None

    def e_query_format(self, I, recv, args, kw, st, node):
        self.may_raise(I, st, node, "formatting")
        return [(App("fmt", (st.obj(recv).data["sql"],), "str"), st)]

    def e_query_is_valid(self, I, recv, args, kw, st, node):
        self.may_raise(I, st, node, "validating")
        o = st.obj(recv)
        st = st.set_obj(recv.oid, o.with_(dict(o.data, done=TRUE)))
        b = body_of(o.data["sql"])
        if b is None or b.tag == "b.n":
            return [(App("valid", (o.data["sql"],), "bool"), st)]
        return [(kbool("V" in b.tag), st)]

    def e_errs_copy(self, I, recv, args, kw, st, node):
        return [(recv, st)]

    def opaque_iter(self, I, v, st, node):
        if isinstance(v, App) and v.op in ("errs", "errs0", "erritem"):
            ref, st = st.new_obj("iter", None, (Seg(v, Sym("m", "msg", "str")),))
            return [(ref, st)]
        return None

    def e_list(self, I, recv, args, kw, st, node):
        if args and isinstance(args[0], App) and args[0].op == "errs":
            return [(args[0], st)]
        return None

    def e_tuple(self, I, recv, args, kw, st, node):
        return self.e_list(I, recv, args, kw, st, node)

    def e_len(self, I, recv, args, kw, st, node):
        if isinstance(recv, App) and recv.op == "errs":
            t = App("len", (recv,), "int")
            b = body_of(recv)
            if b is not None and "V" not in b.tag:
                st = F.set_iv(st, t, 1, None) or st
            else:
                return [(ZERO, st)]
            return [(t, st)]
        return None

    def e_sorted(self, I, recv, args, kw, st, node):
        v = args[0]
        if isinstance(v, Ref) and st.obj(v).kind in ("list", "iter", "set"):
            o = st.obj(v)
            if o.cls != "live" and o.data and all(
                isinstance(x, Seg) and isinstance(x.sym, Sym)
                and x.sym.tag in ("files", "walk", "dirs", "sub", "src") for x in o.data
            ):
                ref, st = st.new_obj("list", None, o.data)
                return [(ref, st)]
        return None

    # strings

    def e__eq_eq(self, I, recv, args, kw, st, node):
        a, b = recv, args[0]
        for x, y in ((a, b), (b, a)):
            if isinstance(y, K) and isinstance(y.v, str):
                s = self.select_test(x, y)
                if s is not None:
                    return [(kbool(s), st)]
                e = self.ext_test(x, y.v, st, exact=True)
                if e is not None:
                    return [(kbool(e), st)]
                m = self.marker_test(x, y.v, False)
                if m is not None:
                    return [(kbool(m), st)]
        if F.is_stringy(a) and F.is_stringy(b):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Str) and has_app(x, "fmt") and isinstance(y, Str) and not has_app(y, "fmt"):
                    bx, by = body_of(x), body_of(y)
                    if bx is not None and bx == by and y == Str(('"select ', by, ' x"')) and self.is_lit(x, by):
                        return [(kbool("D" not in by.tag[3:]), st)]
        if a in (NONE,) or b in (NONE,):
            return None
        return None

    def is_lit(self, v, b):
        """v is a rewritten literal of the string with content b."""
        if v == App("newlit", (b,), "str"):
            return True
        if not isinstance(v, Str) or len(v.parts) != 3:
            return False
        l, m, r = v.parts
        return isinstance(m, App) and m.op == "fmt" and m.args == (Str(("select ", b, " x")),)

    def select_test(self, x, c):
        if "select" not in c.v.lower():
            return None
        b = body_of(x)
        if b is None or has_app(x, "fmt"):
            return None
        return b.tag.startswith("b.s")

    def marker_test(self, x, c, contains):
        """c (== / in / prefix) a comment's text."""
        cs = [s for s in syms(x) if s.tag.startswith("c.")]
        bit = "f" if NOFMT in c else "v" if NOVAL in c else None
        if bit is None:
            return None
        if not cs:
            # the content of strings is assumed not to contain the markers
            if body_of(x) is not None or any(s.tag == "v.oth" for s in syms(x)):
                return False
            return None
        if bit not in cs[0].tag[2:]:
            return False
        if contains and c in (NOFMT, NOVAL):
            return True
        return None

    def ext_test(self, x, c, st, exact=False):
        """Test of a file name's ending."""
        fs = [s for s in syms(x) if s.tag in ("py", "nonpy")]
        if not fs or not isinstance(x, (Sym, App, Str)):
            return None
        py = fs[-1].tag == "py"
        if isinstance(x, App) and x.op == "ext":
            if c == ".py":
                return py
            return False if py else None
        if exact:
            return None
        return None

    def strop(self, I, meth, v, args, kw, st, node):
        if meth in ("startswith", "endswith") and args and isinstance(args[0], K) and isinstance(args[0].v, str):
            c = args[0].v
            s = self.select_test(v, args[0])
            if s is not None and meth == "startswith":
                return [(kbool(s), st)]
            m = self.marker_test(v, c, False)
            if m is not None:
                return [(kbool(m), st)]
            fs = [x for x in syms(v) if x.tag in ("py", "nonpy")]
            if fs and meth == "endswith":
                py = fs[-1].tag == "py"
                low = isinstance(v, App) and v.op in ("lower", "casefold")
                if py and ".py".endswith(c):
                    return [(TRUE, st)]
                if py and not c.endswith(".py"):
                    return [(FALSE, st)]
                if not py and c.endswith(".py") and not low:
                    return [(FALSE, st)]
        if meth in ("splitlines", "split") and body_of(v) is not None and body_of(v).tag.startswith("b.s"):
            seg = Seg(
                Sym(fresh_id(), "split"),
                App(meth, (v,) + tuple(args) + (Sym(fresh_id(), "?n"),), "str"),
            )
            st = F.set_iv(st, App("len", (seg.sym,), "int"), 1, None)
            ref, st = st.new_obj("list", None, (seg,))
            return [(ref, st)]
        if meth == "join" and isinstance(args[0], App) and args[0].op == "errs":
            return [(Str((Joined(v, Seg(args[0], NONE), frozenset([ELEM])),)), st)]
        return None

    def e_in(self, I, recv, args, kw, st, node):
        x = args[0]
        if isinstance(x, K) and isinstance(x.v, str):
            s = self.select_test(recv, x)
            if s is not None:
                return [(kbool(s), st)]
            m = self.marker_test(recv, x.v, True)
            if m is not None:
                return [(kbool(m), st)]
        return None

    def regex(self, I, meth, pat, args, st, node):
        if meth == "compile":
            ref, st = st.new_obj("regex", None, Tup((pat,)))
            return [(ref, st)]
        if meth in ("match", "search", "fullmatch") and isinstance(pat, K):
            if args and "select" in pat.v.lower():
                b = body_of(args[0])
                if b is not None:
                    return [(TRUE if b.tag.startswith("b.s") else NONE, st)]
            if args and NOFMT in pat.v or NOVAL in pat.v:
                m = self.marker_test(args[0], NOFMT if NOFMT in pat.v else NOVAL, pat.v in (NOFMT, NOVAL) and meth == "search")
                if m is not None:
                    return [(TRUE if m else NONE, st)]
        raise AnalysisError("regular expression")

    def e_fnmatch_fnmatch(self, I, recv, args, kw, st, node):
        fs = [x for x in syms(args[0]) if x.tag in ("py", "nonpy")]
        if fs and args[1] == K("*.py"):
            return [(kbool(fs[-1].tag == "py"), st)]
        return [(fresh("fnmatch", "bool"), st)]

    # --- sequences of inputs ---------------------------------------------------------------

    def elems(self, I, seg, st, node):
        tag = seg.sym.tag if isinstance(seg.sym, Sym) else ""
        if tag == "src":
            if self.part == "file" and st.mon["one"].v:
                return []
            st = self.close_src(I, st, node)
            v = fresh("srcp", "tok")
            if self.part in ("file", "lit"):
                st = st.set_mon("one", TRUE)
                st = st.set_cons(("v", App("isfile", (v,), "bool")), (frozenset([TRUE]), F.EMPTY))
                st = st.set_cons(("v", App("isdir", (v,), "bool")), (frozenset([FALSE]), F.EMPTY))
            st = st.set_mon("srcp", v).set_mon("walk", K("none")).set_mon("invinp", FALSE)
            st = st.set_mon("want", v)
            return [(v, st)]
        if tag == "walk":
            st = self.close_walk(I, st, node)
            root = fresh("root", "tok")
            d, st = st.new_obj("list", "dirs", (Seg(fresh("dirs", "seq"), Sym(fresh_id(), "?dirname", "tok")),))
            f, st = st.new_obj("list", None, (Seg(fresh("files", "seq")),))
            st = st.set_mon("wfiles", Tup((root,)))
            return [(Tup((root, d, f)), st)]
        if tag == "files":
            st = self.close_one(I, st, node)
            return self.file_elems(I, st)
        if tag == "dirs":
            return [(fresh("dirname", "tok"), st)]
        if isinstance(seg.elem, App) and seg.elem.op == "filt" and isinstance(seg.elem.args[3], Sym) and seg.elem.args[3].tag == "files":
            st = self.close_one(I, st, node)
            return self.filt_elems(I, seg, st, node)
        if isinstance(seg.elem, App) and seg.elem.op == "img":
            raise AnalysisError("iteration over a mapped list")
        if tag == "ecov":
            st = self.close_listing(I, st, node)
            e, st = self.elem_of(I, seg, st)
            b = body_of(e)
            s0 = [x for x in syms(e) if x.tag == "st"]
            st = st.set_mon("lst", Tup((b, s0[0] if s0 else NONE)))
            inv = st.mon["inv"].items
            if len(inv) == 1 and isinstance(inv[0], Seg) and inv[0].sym == seg.sym:
                # all of them, from the first on
                st = st.set_mon("listing", TRUE)
            return [(e, st)]
        return [self.elem_of(I, seg, st)]

    def file_elems(self, I, st):
        root = st.mon["wfiles"].items[0] if isinstance(st.mon["wfiles"], Tup) else NONE
        a = fresh("py", "tok")
        b = fresh("nonpy", "tok")
        p = App("join", (root, a), "tok")
        return [
            (a, st.set_mon("want", p)),
            (b, st.set_mon("nonpy", b)),
        ]

    def filt_elems(self, I, seg, st, node):
        base, alts, guards, src = seg.elem.args
        res = []
        for v, s in self.file_elems(I, st):
            keep = None
            for g in guards:
                ok = True
                for kind, t, con in g:
                    if con[0] is None or len(con[0]) != 1:
                        ok = None
                        continue
                    want = next(iter(con[0])).v
                    if isinstance(t, App) and t.op in ("endswith", "startswith") and isinstance(t.args[1], K):
                        r = self.strop(I, t.op, subst_term(t.args[0], ELEM, v), [t.args[1]], {}, s, node)
                        if r is not None:
                            if r[0][0].v != want:
                                ok = False
                                break
                            continue
                    if isinstance(t, App) and t.op == "ext":
                        if (v.tag == "py") != (K(".py") in con[0]):
                            ok = False
                            break
                        continue
                    ok = None if ok else ok
                if ok is True:
                    keep = True
                elif ok is None and keep is None:
                    keep = "maybe"
                elif keep is None and ok is False:
                    pass
            if keep is None or keep == "maybe":
                if v.tag == "py":
                    self.bad("F07", "a file whose name ends in .py is filtered out of a directory", I, node, s)
            if keep:
                alt = list(alts)
                if len(alt) != 1:
                    raise AnalysisError("filtered list with several forms")
                res.append((subst_term(alt[0], ELEM, v), s))
        return res

    def seg_done(self, I, seg, st, node):
        tag = seg.sym.tag if isinstance(seg.sym, Sym) else ""
        if tag == "src":
            if self.part in ("file", "lit") and not st.mon["one"].v:
                return []
            st = self.close_src(I, st, node)
            st = st.set_mon("srcdone", TRUE)
        elif tag == "walk":
            st = self.close_walk(I, st, node)
            if st.mon["walk"] == K("run") and self.canon(st.mon["wpath"]) == st.mon["srcp"]:
                st = st.set_mon("walk", K("done"))
        elif tag == "files" or (
            isinstance(seg.elem, App) and seg.elem.op == "filt"
            and isinstance(seg.elem.args[3], Sym) and seg.elem.args[3].tag == "files"
        ):
            st = self.close_one(I, st, node)
            st = st.set_mon("wfiles", K("done"))
        elif tag == "ecov":
            st = self.close_listing(I, st, node)
            if st.mon["listing"].v:
                st = st.set_mon("listed", TRUE).set_mon("listing", FALSE)
        return [st]

    def close_listing(self, I, st, node):
        l = st.mon["lst"]
        if l != NONE:
            self.bad("F11", "a recorded invalid query is not printed with its line and all of its messages", I, node, st)
            st = st.set_mon("lst", NONE)
        return st

    def close_one(self, I, st, node):
        """The previous file of a directory is finished."""
        st = self.close_file(I, st, node)
        w = st.mon["want"]
        if w != NONE and any(s.tag == "py" for s in syms(w)):
            if not self.known_seen(st, w):
                self.bad("F07", "a .py file of a directory is neither opened nor known to be analysed already", I, node, st)
            st = st.set_mon("want", NONE)
        return st.set_mon("nonpy", NONE)

    def known_seen(self, st, p):
        for (k, t), c in st.cons.items():
            if k == "v" and isinstance(t, App) and t.op in ("member", "eq") and c[0] == frozenset([TRUE]):
                if any(self.canon(a) == p for a in t.args):
                    return True
        return False

    def close_walk(self, I, st, node):
        st = self.close_one(I, st, node)
        if isinstance(st.mon["wfiles"], Tup):
            self.bad("F07", "not all files of a directory are looked at", I, node, st)
        return st.set_mon("wfiles", K("none"))

    def close_src(self, I, st, node):
        if st.mon["srcp"] == NONE:
            return st
        st = self.close_walk(I, st, node)
        p = st.mon["srcp"]
        d, f = self.prop(st, "isdir", p), self.prop(st, "isfile", p)
        if d is True or (d is None and f is not True):
            if st.mon["walk"] != K("done"):
                self.bad("F07", "a directory input is not walked to its end", I, node, st)
        if f is True or (f is None and d is not True):
            if st.mon["want"] == p and not self.known_seen(st, p):
                self.bad("F07", "a file input is neither opened nor known to be analysed already", I, node, st)
        if d is not True and f is not True:
            if not st.mon["invinp"].v:
                self.bad("F07", "an input that is neither a file nor a directory is not reported", I, node, st)
        return st.set_mon("srcp", NONE).set_mon("want", NONE)

    # --- end of a file -----------------------------------------------------------------------

    def close_file(self, I, st, node):
        m = st.mon
        if m["errp"].v:
            self.bad("F05", "a failure is swallowed without being reported", I, node, st)
            st = st.set_mon("errp", FALSE)
        if m["cur"] == NONE:
            return st
        self.stats["file_closes"] += 1
        if not m["failed"].v:
            st = self.fold(I, st, node, final=True)
            m = st.mon
            n, v = m["nrep"], m["ninv"]
            some = F.refine_lin(st, lin_add(n, K(-1)), "ge")
            if some is not None and not m["ledbad"].v:
                if self.flag(st, "format") and not m["wrote"].v:
                    self.bad("F03", "a file with changed queries is not rewritten by --format", I, node, st)
                if self.flag(st, "check_format") and not m["rep"].v:
                    self.bad("F03", "a file with changed queries is not reported by --check-format", I, node, st)
                if self.flag(st, "format") and not m["rep"].v:
                    self.bad("F03", "a rewritten file is not reported by --format", I, node, st)
            somei = F.refine_lin(st, lin_add(v, K(-1)), "ge")
            if somei is not None and (self.flag(st, "validate") or self.flag(st, "verbose_validate")):
                if not m["invrep"].v:
                    self.bad("F11", "a file with invalid queries is not reported", I, node, st)
                if self.flag(st, "verbose_validate") and m["inv"].items and not m["listed"].v:
                    self.bad("F11", "an invalid query is not listed with its line by --verbose-validate", I, node, st)
            st = st.set_mon("T", lin_add(m["T"], n)).set_mon("V", lin_add(m["V"], v))
            for tot, cnt in (("TF", n), ("VF", v)):
                if tot == "VF" and not (self.flag(st, "validate") or self.flag(st, "verbose_validate")):
                    continue
                lo, hi = F.lin_range(st, lin_of(cnt))
                if lo is not None and lo >= 1:
                    st = st.set_mon(tot, lin_add(st.mon[tot], K(1)))
                elif hi is None or hi > 0:
                    # whether the file counts is not known here
                    st = st.set_mon(tot, lin_add(st.mon[tot], fresh("anyfile", "int")))
        for k, v in self.ghost0.items():
            st = st.set_mon(k, v)
        return st

    # --- printing -----------------------------------------------------------------------------

    def e_print(self, I, recv, args, kw, st, node):
        self.stats["prints"] += 1
        parts = []
        for a in args:
            parts.extend(str_parts(a))
        text = " ".join(p for p in parts if isinstance(p, str))
        raw = "\0".join(p if isinstance(p, str) else "\0" for p in parts)
        low = text.lower()
        vals = Tup(tuple(p for p in parts if not isinstance(p, str)))
        m = st.mon
        if "flags" not in m:
            return [(NONE, st)]
        ints = []
        for p in parts:
            if isinstance(p, App) and p.op == "str" and len(p.args) == 1 and (
                is_int(p.args[0]) or isinstance(p.args[0], Lin)
            ):
                ints.append(p.args[0])
        ints += [K(int(x)) for x in re.findall(r"(?<![A-Za-z])\d+", raw)]
        fails = m["errp"].v
        st = st.set_mon("errp", FALSE)
        if "invalid input" in low or "no such" in low or "not found" in low or "does not exist" in low:
            st = st.set_mon("invinp", TRUE)
            return [(NONE, st)]
        if m["srcdone"].v:
            return self.print_summary(I, low, ints, st, node)
        cur = m["cur"]
        if cur == NONE or fails or m["failed"].v:
            return [(NONE, st)]
        errs = find_app(vals, "errs", []) + find_app(vals, "errs0", [])
        if errs:
            return self.print_listing(I, errs, vals, st, node)
        onpath = any(s in syms(cur) for s in syms(vals))
        st0 = st
        if "reformat" in low and onpath:
            st0 = self.fold(I, st, node, final=True)
            n = st0.mon["nrep"]
            if not (self.flag(st, "format") or self.flag(st, "check_format")):
                self.bad("F12", "changed queries are reported without a formatting option", I, node, st)
            if not st0.mon["ledbad"].v:
                lo, hi = F.lin_range(st0, lin_of(n))
                if lo is None or lo < 1:
                    self.bad("F03", "a file is reported as changed although nothing in it changes", I, node, st)
                self.same(I, "F08", "the number of changed queries reported for a file is not the number replaced", ints, n, st0, node)
                self.same(I, "F03", "the number of changed queries reported for a file is not the number replaced", ints, n, st0, node)
            if m["rep"].v:
                self.bad("F06", "a file is reported twice", I, node, st)
            st0 = st0.set_mon("rep", TRUE)
        elif "invalid" in low and onpath:
            st0 = self.fold(I, st, node, final=True)
            n = st0.mon["ninv"]
            if not (self.flag(st, "validate") or self.flag(st, "verbose_validate")):
                self.bad("F12", "invalid queries are reported without a validation option", I, node, st)
            lo, hi = F.lin_range(st0, lin_of(n))
            if lo is None or lo < 1:
                self.bad(self.exempt_pid(), "a file without (unexempted) invalid queries is reported as invalid", I, node, st)
            self.same(I, self.exempt_pid(), "the number of invalid queries reported for a file is not the number found", ints, n, st0, node)
            st0 = st0.set_mon("invrep", TRUE)
        return [(NONE, st0)]

    def exempt_pid(self):
        """A wrong count of invalid queries: with opt-out comments around, their
        fault unless the run without any shows it too."""
        return "F08" if any("v" in c for c in self.comments) else "F11"

    def equal(self, st, a, b):
        d = lin_add(a, b, -1)
        if d == ZERO:
            return True
        return F.lin_range(st, lin_of(d)) == (0, 0)

    def same(self, I, pid, msg, ints, n, st, node):
        if not ints or not all(self.equal(st, v, n) for v in ints):
            self.bad(pid, msg, I, node, st)

    def print_listing(self, I, errs, vals, st, node):
        if not self.flag(st, "verbose_validate"):
            self.bad("F12", "invalid queries are listed without --verbose-validate", I, node, st)
        st = self.fold(I, st, node, final=False)
        m = st.mon
        for e in errs:
            b = body_of(e)
            if b is None:
                continue
            lines = find_app(vals, "line", [])
            shown = [
                p for p in vals.items
                if isinstance(p, App) and p.op == "str" and isinstance(p.args[0], App)
                and p.args[0].op == "line"
            ]
            whole = e.op == "errs" and not has_app(vals, "erritem")
            if m["lst"] != NONE and m["lst"].items[0] == b:
                if any(p.args[0].args[0] == m["lst"].items[1] for p in shown) and whole:
                    st = st.set_mon("lst", NONE)
                continue
            start = self.start_of(st, b)
            ok = whole and start is not None and any(p.args[0].args[0] == start for p in shown)
            if not ok:
                self.bad("F11", "an invalid query is listed without its starting line or its own messages", I, node, st)
            st = st.set_mon("printed", Tup(st.mon["printed"].items + (b,)))
        return [(NONE, st)]

    def start_of(self, st, b):
        for t in st.mon["led"].items:
            if isinstance(t, Tup) and body_of(t) == b:
                return t.items[2]
        for t in st.mon["inv"].items:
            if isinstance(t, Tup) and t.items[1] == b:
                return t.items[0]
        return None

    def print_summary(self, I, low, ints, st, node):
        m = st.mon
        if "reformat" in low:
            if not (self.flag(st, "format") or self.flag(st, "check_format")):
                self.bad("F12", "a formatting summary is printed without a formatting option", I, node, st)
            self.summary(I, ints, m["T"], m["TF"], "changed", st, node)
            st = st.set_mon("sumf", TRUE)
        elif "invalid" in low:
            if not (self.flag(st, "validate") or self.flag(st, "verbose_validate")):
                self.bad("F12", "a validation summary is printed without a validation option", I, node, st)
            self.summary(I, ints, m["V"], m["VF"], "invalid", st, node)
            st = st.set_mon("sumv", TRUE)
        return [(NONE, st)]

    def summary(self, I, ints, tot, files, what, st, node):
        if not ints:
            some = F.refine_lin(st, lin_add(tot, K(-1)), "ge")
            if some is not None:
                some = F.refine_lin(some, lin_add(files, K(-1)), "ge")
            if some is not None:
                self.bad("F04", "the summary shows no %s queries although there are some" % what, I, node, st)
            return
        rest = list(ints)
        for n, nm in ((tot, "queries"), (files, "files")):
            for v in rest:
                if self.equal(st, v, n):
                    rest.remove(v)
                    break
            else:
                self.bad("F04", "the number of %s %s in the summary is not the sum over the files analysed" % (what, nm), I, node, st)
                return
        if rest:
            self.bad("F04", "the summary shows a number that is not a total of the run", I, node, st)

    # --- the ledger of tokens -----------------------------------------------------------------------

    @staticmethod
    def is_tok(x):
        return isinstance(x, Tup) and len(x.items) == 5

    def match(self, e, x):
        """ledger entry e against output entry x: None, 'same' or 'new'."""
        if isinstance(e, Seg) or isinstance(x, Seg):
            return "same" if e == x else None
        if e == x:
            return "same"
        if self.is_tok(e) and self.is_tok(x):
            if e.items[0] == x.items[0] and e.items[2:] == x.items[2:]:
                b = body_of(e)
                if b is not None and b.tag.startswith("b.s") and self.is_lit(x.items[1], b):
                    return "new"
        return None

    def lists(self, st):
        return [(oid, o) for oid, o in st.heap.items() if o.kind == "list" and isinstance(o.data, tuple)]

    def fold(self, I, st, node, final=False):
        m = st.mon
        if m["cur"] == NONE:
            return st
        led = m["led"].items
        if m["ledbad"].v:
            st = self.set_bad(st, m["ledbad"].v)
        elif led:
            st = self.canon_lits(I, st, node)
            st = self.fold_prefix(I, st, node, final)
            if not final:
                st = self.fold_runs(I, st)
        st = self.fold_errors(I, st, node)
        return st

    def canon_lits(self, I, st, node):
        """The spelling of rewritten literals does not matter here."""
        heap = None
        for oid, o in self.lists(st):
            new = []
            for x in o.data:
                if self.is_tok(x) and isinstance(x.items[1], Str):
                    b = body_of(x.items[1])
                    if self.part == "lit":
                        self.check_lit(I, st, x, node)
                    if b is not None and self.is_lit(x.items[1], b):
                        x = Tup((x.items[0], App("newlit", (b,), "str")) + x.items[2:])
                new.append(x)
            new = tuple(new)
            if new != o.data:
                heap = heap or dict(st.heap)
                heap[oid] = o.with_(new)
        if heap is None:
            return st
        return St(st.frame, st.stack, heap, st.cons, st.mon)

    def set_bad(self, st, why, oid=None):
        st = st.set_mon("ledbad", K(why)).set_mon("led", Tup(()))
        st = st.set_mon("nx", Tup(())).set_mon("pend", NONE)
        # the tokens need not be followed any further
        heap = dict(st.heap)
        for o, ob in self.lists(st):
            if any(self.is_tok(x) for x in ob.data) or any(
                isinstance(x, Seg) and isinstance(x.sym, Sym) and x.sym.tag in ("cov", "oth") for x in ob.data
            ):
                heap[o] = ob.with_((Seg(Sym("badlist", "badlist"), TOKEL),))
        return St(st.frame, st.stack, heap, st.cons, st.mon)

    def occurrences(self, st):
        """Leaf counts over the whole state, without the ledger."""
        cnt = {}
        mon = {k: v for k, v in st.mon.items() if k not in ("led", "nx", "pend", "inv")}
        for x in leaves((st.stack, tuple(mon.values())), []):
            cnt[x] = cnt.get(x, 0) + 1
        for o in st.heap.values():
            for x in leaves(o.data if not isinstance(o.data, dict) else tuple(o.data.values()), []):
                cnt[x] = cnt.get(x, 0) + 1
        return cnt

    def reach(self, I, st):
        k, num, order = I.key(st)
        return I.prune(st, order)

    def fold_prefix(self, I, st, node, final):
        st = self.reach(I, st)
        led = st.mon["led"].items
        limit = len(led)
        pend = st.mon["pend"]
        if pend != NONE and not (final and st.mon["tok"] == K("eof")):
            for i, e in enumerate(led):
                if self.is_tok(e) and body_of(e) == pend:
                    limit = i
                    break
        best, bm = None, 0
        for oid, o in self.lists(st):
            n = 0
            while n < len(o.data) and n < len(led) and self.match(led[n], o.data[n]):
                n += 1
            if n > bm:
                best, bm = oid, n
        hascov = led and isinstance(led[0], Seg) and led[0].sym.tag == "cov"
        if best is None:
            if hascov:
                return self.set_bad(st, "the list of tokens already seen is dropped")
        else:
            data = st.obj(Ref(best)).data
            if len(data) > bm:
                x = data[bm]
                if self.is_tok(x) or isinstance(x, Seg):
                    if bm >= len(led):
                        return self.set_bad(st, "a token is emitted twice or invented")
                    return self.set_bad(
                        st, "a token is emitted out of order, changed, or in place of another one"
                    )
            k = min(bm, limit)
            if k > (1 if hascov else 0):
                nrep, ninv = st.mon["nrep"], st.mon["ninv"]
                inv = st.mon["inv"].items
                nx = {t.items[0]: t.items[1].v for t in st.mon["nx"].items}
                for e, x in zip(led[:k], data[:k]):
                    if not self.is_tok(e):
                        continue
                    b = body_of(e)
                    if b is None or not b.tag.startswith("b.s"):
                        continue
                    self.stats["sql_folds"] += 1
                    kind = nx.get(b, "end")
                    diff, valid = "D" in b.tag[3:], "V" in b.tag[3:]
                    new = self.match(e, x) == "new" and diff
                    fx = kind.startswith("c") and "f" in kind
                    vx = kind.startswith("c") and "v" in kind
                    key = (diff, valid, kind)
                    fl = tuple(v.v for v in st.mon["flags"].items)
                    self.tables.setdefault(fl, {}).setdefault(key, set()).add(new)
                    if new:
                        nrep = lin_add(nrep, K(1))
                        if fx:
                            self.bad("F08", "a string exempted by a nosqlformat comment is changed", I, node, st)
                    if not valid and not vx:
                        ninv = lin_add(ninv, K(1))
                        if b not in st.mon["printed"].items and self.flag(st, "verbose_validate"):
                            inv = inv + (Tup((e.items[2], b) + e.items[3:]),)
                    if valid or vx:
                        st = self.not_listed(I, st, b, vx, node)
                done = set(body_of(e) for e in led[:k] if self.is_tok(e))
                cov = Seg(fresh("cov", "seq"), TOKEL)
                st = F.set_iv(st, App("len", (cov.sym,), "int"), 1, None)
                o = st.obj(Ref(best))
                st = st.set_obj(best, o.with_((cov,) + data[k:]))
                st = st.set_mon("led", Tup((cov,) + led[k:]))
                st = st.set_mon("nrep", nrep).set_mon("ninv", ninv)
                st = st.set_mon("inv", Tup(inv))
                st = st.set_mon(
                    "nx", Tup(tuple(t for t in st.mon["nx"].items if t.items[0] not in done))
                )
                led = st.mon["led"].items
        # tokens nobody holds any more
        cnt = self.occurrences(st)
        for e in led:
            if self.is_tok(e):
                if e == led[-1] and not final and e.items[0] == K(tokenize.ENDMARKER):
                    pass
                if not any(cnt.get(s) for s in syms(Tup((e.items[2], e.items[3])))) and not any(
                    cnt.get(s) for s in syms(e)
                ):
                    return self.set_bad(st, "a token is dropped")
        return st

    def not_listed(self, I, st, b, exempt, node):
        """Query b must not be recorded for listing."""
        for oid, o in self.lists(st):
            for x in o.data:
                if isinstance(x, (Tup,)) and not self.is_tok(x) and has_app(x, "errs") and mentions(x, b):
                    if self.flag(st, "verbose_validate"):
                        self.bad(
                            "F11",
                            "%s query is recorded for the list of invalid queries"
                            % ("an exempted" if exempt else "a valid"),
                            I, node, st,
                        )
                    st = st.set_obj(oid, o.with_(tuple(y for y in o.data if y is not x)))
        return st

    def fold_runs(self, I, st):
        """Runs of ordinary tokens inside the part of the ledger not yet emitted."""
        for _ in range(50):
            led = st.mon["led"].items
            cnt = self.occurrences(st)
            ls = self.lists(st)
            done = False

            def where(e):
                return [(oid, i) for oid, o in ls for i, x in enumerate(o.data) if x == e]

            def foldable(e):
                if isinstance(e, Seg):
                    return e.sym.tag == "oth"
                if not (self.is_tok(e) and isinstance(e.items[1], Sym) and e.items[1].tag == "v.oth"):
                    return False
                n = len(where(e))
                return n > 0 and all(cnt.get(s, 0) == n for s in syms(e))

            for i, e in enumerate(led):
                if self.is_tok(e) and foldable(e):
                    seg = Seg(fresh("oth", "seq"), TOKEL)
                    st = F.set_iv(st, App("len", (seg.sym,), "int"), 1, None)
                    st = self.repl(st, (e,), seg)
                    done = True
                    break
                if isinstance(e, Seg) and e.sym.tag == "oth" and i + 1 < len(led):
                    f = led[i + 1]
                    if isinstance(f, Seg) and f.sym.tag == "oth":
                        we, wf = where(e), where(f)
                        if set((o, j + 1) for o, j in we) == set(wf):
                            seg = Seg(fresh("oth", "seq"), TOKEL)
                            st = F.set_iv(st, App("len", (seg.sym,), "int"), 1, None)
                            st = self.repl(st, (e, f), seg)
                            done = True
                            break
            if not done:
                return st
        return st

    def repl(self, st, run, seg):
        n = len(run)

        def sub(items):
            out = []
            i = 0
            while i < len(items):
                if tuple(items[i : i + n]) == run:
                    out.append(seg)
                    i += n
                else:
                    out.append(items[i])
                    i += 1
            return tuple(out)

        heap = dict(st.heap)
        for oid, o in self.lists(st):
            heap[oid] = o.with_(sub(o.data))
        for oid, o in list(heap.items()):
            if o.kind == "iter" and o.cls != "live" and isinstance(o.data, tuple):
                heap[oid] = o.with_(sub(o.data))
        st = St(st.frame, st.stack, heap, st.cons, st.mon)
        return st.set_mon("led", Tup(sub(st.mon["led"].items)))

    def fold_junk(self, I, st):
        """Messages nobody may print: what was recorded does not matter."""
        pend = set(body_of(e) for e in st.mon["led"].items if self.is_tok(e))
        for oid, o in self.lists(st):
            out = []
            for x in o.data:
                if isinstance(x, Seg):
                    junk = isinstance(x.sym, Sym) and x.sym.tag == "junk"
                else:
                    junk = not self.is_tok(x) and has_app(x, "errs") and body_of(x) not in pend
                if junk:
                    if out and isinstance(out[-1], Seg) and out[-1].sym.tag == "junk":
                        continue
                    sym = fresh("junk", "seq")
                    st = F.set_iv(st, App("len", (sym,), "int"), 1, None)
                    x = Seg(sym)
                out.append(x)
            if tuple(out) != o.data and not (len(out) == len(o.data) == 1 and isinstance(o.data[0], Seg)):
                st = st.set_obj(oid, o.with_(tuple(out)))
        return st

    def fold_errors(self, I, st, node):
        if not self.flag(st, "verbose_validate"):
            return self.fold_junk(I, st)
        inv = st.mon["inv"].items
        if not inv or all(isinstance(x, Seg) for x in inv):
            return st
        hascov = isinstance(inv[0], Seg)
        for oid, o in self.lists(st):
            data = o.data
            n = 0
            tpl = inv[0].elem if hascov else None
            ok = True
            while n < len(data) and n < len(inv):
                e, x = inv[n], data[n]
                if isinstance(e, Seg):
                    if not (isinstance(x, Seg) and x.sym == e.sym):
                        break
                    n += 1
                    continue
                start, b = e.items[:2]
                if isinstance(x, Seg) or self.is_tok(x) or not has_app(x, "errs") or not mentions(x, b):
                    break
                ren = {
                    start: Sym(1, "?st"), b: Sym(2, "?" + b.tag, "tok"),
                    e.items[2]: Sym(3, "?en"), e.items[3]: Sym(4, "?ln", "str"),
                }
                t = map_val(x, lambda l: ren.get(l))
                # the bits of the query do not matter any more
                t = map_val(t, lambda l: Sym(2, "?b.s.", "tok") if isinstance(l, Sym) and l.tag.startswith("?b.") else None)
                if any(isinstance(l, Ref) or (isinstance(l, Sym) and not l.tag.startswith("?") and isinstance(l.id, int)) for l in leaves(t, [])):
                    break
                if tpl is not None and tpl != t:
                    break
                tpl = t
                n += 1
            if n == len(inv) and n > (1 if hascov else 0):
                seg = Seg(fresh("ecov", "seq"), tpl)
                st = F.set_iv(st, App("len", (seg.sym,), "int"), 1, None)
                st = st.set_obj(oid, o.with_((seg,) + data[n:]))
                return st.set_mon("inv", Tup((seg,)))
        # recorded nowhere
        cnt = self.occurrences(st)
        last = inv[-1]
        if isinstance(last, Tup) and not cnt.get(last.items[1]):
            if self.flag(st, "verbose_validate"):
                st = st.set_mon("inv", Tup((Seg(Sym("missing", "missing")),)))
            else:
                st = st.set_mon("inv", Tup(()))
        return st

    def elem_of(self, I, seg, st):
        return Domain.elem_of(self, I, seg, st)

    # --- loop heads ---------------------------------------------------------------------------------

    def normalise(self, I, st, node):
        if "flags" not in st.mon:
            return [st]
        if isinstance(node, ast.For) and st.stack and isinstance(st.stack[-1], Ref):
            o = st.obj(st.stack[-1])
            if o.kind == "iter" and o.data and o.cls != "live" and isinstance(o.data[0], Seg):
                seg = o.data[0]
                tag = seg.sym.tag if isinstance(seg.sym, Sym) else ""
                if tag == "src":
                    st = self.close_src(I, st, node)
                elif tag == "walk":
                    st = self.close_walk(I, st, node)
                elif tag == "files" or (isinstance(seg.elem, App) and seg.elem.op == "filt"):
                    st = self.close_one(I, st, node)
                elif tag == "ecov":
                    st = self.close_listing(I, st, node)
        st = self.fold(I, st, node)
        st = self.fold_seen(I, st)
        return [st]

    def fold_seen(self, I, st):
        g = st.mon["seen"].items
        if st.mon["cur"] != NONE or not g:
            return st
        if len(g) == 1 and isinstance(g[0], Seg):
            return st
        st = self.reach(I, st)
        seg = Seg(fresh("seen", "seq"))
        hit = False
        heap = dict(st.heap)
        lost = Seg(Sym("lostseen", "lostseen"))

        def key(x):
            return ("seg", x.sym) if isinstance(x, Seg) else (self.canon(x), self.is_abs(x))

        gk = [key(x) for x in g]
        for oid, o in st.heap.items():
            if o.kind not in ("set", "list", "dict") or isinstance(o.data, dict) or not o.data:
                continue
            items = o.data
            if o.kind == "dict":
                items = tuple(x.items[0] for x in items)
            dk = [key(x) if isinstance(x, (Seg, App, Sym, Str)) else None for x in items]
            if all(k in dk for k in gk):
                if o.kind == "dict":
                    raise AnalysisError("analysed files kept in a dict")
                rest = tuple(x for x, k in zip(items, dk) if k not in gk and not isinstance(x, Seg))
                heap[oid] = o.with_((seg,) + rest)
                hit = True
        if not hit:
            return st.set_mon("seen", Tup((lost,)))
        st = St(st.frame, st.stack, heap, st.cons, st.mon)
        st = F.set_iv(st, App("len", (seg.sym,), "int"), 1, None)
        return st.set_mon("seen", Tup((seg,)))

    def on_write(self, I, kind, target, st, node):
        if kind == "slice":
            o = st.obj(target)
            if o.cls == "dirs" and {getattr(x, "sym", x) for x in o.data} != {getattr(x, "sym", x) for x in st.obj(st.stack[-1]).data}:
                self.bad("F07", "the list of subdirectories still to be walked is changed", I, node, st)
            return
        if kind in ("list", "item") and isinstance(target, Ref):
            o = st.obj(target)
            if o.kind == "list" and o.cls == "dirs":
                meth = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else ""
                if meth not in ("sort", "reverse"):
                    self.bad("F07", "the list of subdirectories still to be walked is changed", I, node, st)

    # --- end of the run -----------------------------------------------------------------------------

    def finish(self, I, st, exc=None):
        """A run ends: normally (exc None) or with an exception."""
        self.stats["exits"] += 1
        node = None
        if "flags" not in st.mon:
            if exc is not None and exc.cls == "SystemExit" and st.mon["usage"].v:
                return
            if exc is not None:
                raise AnalysisError("the run fails before the options are known: %r" % (exc,))
            return
        f, c, v, vv = [x.v for x in st.mon["flags"].items]
        wrong = (f and c) or (v and vv) or not (f or c or v or vv)

        class At:
            lineno = exc.info if exc is not None else "end of run"

        if wrong:
            if not (exc is not None and exc.cls == "SystemExit" and st.mon["usage"].v):
                self.bad("F12", "a run with contradictory or missing modes is not rejected with a usage error", I, None, st)
            if st.mon["opened"].v:
                self.bad("F12", "an input is opened although the options are rejected", I, None, st)
            return
        if st.mon["usage"].v:
            self.bad("F12", "a run with valid modes is rejected", I, None, st)
            return
        if exc is not None and exc.cls != "SystemExit":
            if exc.unknown:
                self.bad("F05", "a failure on one file escapes and ends the run (raised at %s)" % exc.info, I, None, st)
            else:
                self.bad("F05", "the run ends with %s raised at %s" % (exc.cls, exc.info), I, None, st)
            return
        if not st.mon["srcdone"].v:
            self.bad("F05", "the run ends before every input was handled", I, None, st)
            return
        st = self.close_src(I, st, None)
        if st.mon["errp"].v:
            self.bad("F05", "a failure is swallowed without being reported", I, None, st)
        if (f or c) and not st.mon["sumf"].v:
            self.bad("F05", "no formatting summary is printed", I, None, st)
        if (v or vv) and not st.mon["sumv"].v:
            self.bad("F05", "no validation summary is printed", I, None, st)
        # exit status
        code = ZERO
        if exc is not None:
            code = exc.args[0] if exc.args else NONE
        for cb, s in I.truth(code, st, None) if not isinstance(code, K) else [(None, st)]:
            if cb is None:
                got = code.v
                got = 0 if got is None else 1 if got is True else 0 if got is False else got
            elif isinstance(code, (Sym, App)) and code.sort == "bool":
                got = int(cb)
            else:
                pos = F.lin_range(s, lin_of(code)) if lin_of(code) else (None, None)
                got = pos[0] if pos[0] == pos[1] and pos[0] is not None else "?"
            for t in (True, False):
                s1 = F.refine_lin(s, lin_add(s.mon["T"], K(-1)), "ge" if t else "lt")
                if s1 is None:
                    continue
                for u in (True, False):
                    s2 = F.refine_lin(s1, lin_add(s1.mon["V"], K(-1)), "ge" if u else "lt")
                    if s2 is None:
                        continue
                    # a file counts exactly when one of its queries does
                    for n, b in (("TF", t), ("VF", u)):
                        if s2 is not None and (n == "TF" or v or vv):
                            s2 = F.refine_lin(s2, lin_add(s2.mon[n], K(-1)), "ge" if b else "lt")
                    if s2 is None:
                        continue
                    want = int((c and t) or ((v or vv) and u))
                    if got != want:
                        self.bad(
                            "F04",
                            "exit status %s where %s is due (%s changed, %s invalid queries)"
                            % (got, want, "some" if t else "no", "some" if u else "no"),
                            I, None, s2,
                        )


def run_cli(prog, only=None, part=None, tags=None, comments=None, quotes=None, holder=None):
    d = Cli(only, part, tags, comments)
    if holder is not None:
        holder.append(d)
    d.quotes = quotes
    I = Interp(prog, d)
    I.affine = part == "tree"
    f = None
    for m in prog.modules:
        g = prog.find(m, "_main") or prog.find(m, "main")
        if m == "sqlvalidator.main" and g is not None:
            f = g
    if f is None:
        raise AnalysisError("entry point sqlvalidator.main._main not found")
    st = I.initial()
    mon = dict(d.ghost0)
    mon.update(d.run0)
    st = St(st.frame, st.stack, st.heap, st.cons, mon)
    I.sink = []
    err = None
    try:
        res = I.call(Fn(f.fid, Tup((Ref(I.modframes[f.module]),))), [], {}, st, None)
        for v, s in res:
            d.finish(I, s)
        for s in I.sink:
            d.finish(I, s.pop(), s.stack[-1])
    except AnalysisError as e:
        err = str(e)
    # check and format must replace the same strings
    if err is None:
        for fl, tab in d.tables.items():
            if fl[1] and not fl[0]:
                other = d.tables.get((True, False) + fl[2:])
                if other is None:
                    continue
                for k in set(tab) | set(other):
                    a, b = tab.get(k), other.get(k)
                    if a is not None and b is not None and a != b:
                        d.viol.setdefault(
                            ("F03", "--check-format and --format disagree on a query"),
                            "--check-format %s a query that --format %s (differs: %s, valid: %s, next: %s)"
                            % (
                                "counts" if True in a else "does not count",
                                "rewrites" if True in b else "keeps",
                                k[0], k[1], k[2],
                            ),
                        )
    return d, I, err
