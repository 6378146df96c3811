"""P01: serialised XML is well formed whatever the document contains."""
import ast, codecs
from ..core import text, walk_own, bind, AnchorLost, Func, Module, Class
from ..consts import UNKNOWN, Regex, callers, single_assignment
from .. import strx
from ..strx import EMPTY, NONE, Const, NodeRef, seq, alt, star, structural

TECHNIQUE = ("abstract interpretation: the output grammar of every XML writer is extracted from its syntax tree (fixed text, document data, the "
             "constant transformations applied to the data) and run through the lexical states of XML, data being any word over the characters special there")
NOTE = ("Names of elements and attributes are taken to be XML names, and control characters that XML cannot express to be absent. Data that passes "
        "through a function the model does not know is not judged.")

MARK = __import__("re").compile(r"<(?:[/!?{%A-Za-z]|$)")
STRING = ("lit", "base", "op", "seq", "alt", "star", "opaque")


class St:
    __slots__ = ("env", "out", "conds")

    def __init__(self, env, out=None, conds=frozenset()):
        self.env, self.out, self.conds = env, out if out is not None else [], conds

    def fork(self, c, t):
        return St(dict(self.env), [], self.conds | {(c, t)} if c is not None else self.conds)

    def tree(self):
        return seq(*self.out)


class TooDeep(Exception):
    pass


class Exec:
    def __init__(self, prj, fold, roots):
        self.prj, self.fold, self.roots = prj, fold, roots
        self.stack, self.steps, self.inlined = [], 0, set()

    # ---- constants ------------------------------------------------------------------------------------------------
    def pyenv(self, st):
        res = {}
        for k, v in st.env.items():
            if v[0] == "lit":
                res[k] = v[1]
            elif v[0] == "const":
                res[k] = v[1].v
            elif v == NONE:
                res[k] = None
            else:
                res[k] = UNKNOWN
        return res

    def const(self, n, st, f):
        return self.fold.fold(n, self.pyenv(st), f.module, f)

    @staticmethod
    def lift(v):
        if isinstance(v, str):
            return ("lit", v)
        if v is None:
            return NONE
        return ("const", Const(v))

    def chars(self, n, f, busy=()):
        """characters an expression's text is limited to, or None"""
        v = self.fold.value(n, f)
        if v is None:
            return frozenset()
        if isinstance(v, str):
            return frozenset(v)
        if v is not UNKNOWN:
            return None
        if isinstance(n, ast.IfExp):
            return self.union([n.body, n.orelse], f, busy)
        if isinstance(n, ast.BoolOp):
            return self.union(n.values, f, busy)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return self.union([n.left, n.right], f, busy)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
            return self.chars(n.left, f, busy) if not isinstance(n.left, ast.Constant) or isinstance(n.left.value, str) else self.chars(n.right, f, busy)
        if isinstance(n, ast.Name):
            t = self.prj.lookup(n.id, f, f.module)
            if isinstance(t, tuple) and t[0] == "local":
                return self.local_chars(t[1], n.id, busy)
            return None
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            c = self.prj.self_class(n.value.id, f)
            if c is None or (c, n.attr) in busy:
                return None if c is None else frozenset()
            res, any_ = frozenset(), False
            for k in c.family():
                if isinstance(k.attrs.get(n.attr), ast.expr):
                    r = self.chars(k.attrs[n.attr], k.module.main, busy + ((c, n.attr),))
                    if r is None:
                        return None
                    res, any_ = res | r, True
                for g, node in k.selfattrs.get(n.attr, []):
                    p = node._parent
                    if not isinstance(p, ast.Assign):
                        return None
                    r = self.chars(p.value, g, busy + ((c, n.attr),))
                    if r is None:
                        return None
                    res, any_ = res | r, True
            return res if any_ else None
        return None

    def union(self, ns, f, busy):
        res = frozenset()
        for x in ns:
            r = self.chars(x, f, busy)
            if r is None:
                return None
            res |= r
        return res

    def local_chars(self, f, name, busy):
        if (f, name) in busy:
            return frozenset()
        busy = busy + ((f, name),)
        if len(busy) > 12:
            return None
        res, seen = frozenset(), False
        for x in walk_own(f.node):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                p = x._parent
                if not (isinstance(p, ast.Assign) and x in p.targets or isinstance(p, ast.AugAssign) and isinstance(p.op, ast.Add)):
                    return None
                r = self.chars(p.value, f, busy)
                if r is None:
                    return None
                res, seen = res | r, True
        if name in f.params or name in f.kwonly:
            if name in f.defaults:
                r = self.chars(f.defaults[name], f.outer or f.module.main, busy)
                if r is None:
                    return None
                res, seen = res | r, True
            for c, g in self.callers_of(f):
                b = bind(c, f)
                if name in b:
                    r = self.chars(b[name], g, busy)
                    if r is None:
                        return None
                    res, seen = res | r, True
        elif name in f.allparams:
            return None
        return res if seen else None

    def callers_of(self, f):
        res = list(callers(self.prj).get(f, []))
        return res

    # ---- expressions ----------------------------------------------------------------------------------------------
    def opaque(self, n):
        return ("opaque", NodeRef(n))

    def ev(self, n, st, f):
        self.steps += 1
        if self.steps > 60000:
            raise TooDeep
        if isinstance(n, ast.Constant):
            return self.lift(n.value)
        if isinstance(n, ast.Name):
            if n.id in st.env:
                return st.env[n.id]
            t = self.prj.lookup(n.id, f, f.module)
            if isinstance(t, Func):
                return ("fn", t)
            c = self.const(n, st, f)
            if c is not UNKNOWN:
                return self.lift(c)
            return self.opaque(n)
        if isinstance(n, ast.JoinedStr):
            parts = []
            for x in n.values:
                if isinstance(x, ast.Constant):
                    parts.append(("lit", x.value))
                elif x.format_spec is None and x.conversion in (-1, 115):
                    parts.append(self.string(self.ev(x.value, st, f), x))
                else:
                    parts.append(self.opaque(x))
            return seq(*parts)
        if isinstance(n, ast.BinOp):
            return self.binop(n, st, f)
        if isinstance(n, ast.Call):
            return self.call(n, st, f)
        if isinstance(n, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in n.elts):
            vs = [self.ev(x, st, f) for x in n.elts]
            if isinstance(n, ast.Tuple):
                return ("tup", tuple(vs))
            return ("list", seq(*[("item", v) for v in vs]))
        if isinstance(n, ast.Attribute):
            c = self.const(n, st, f)
            if c is not UNKNOWN:
                return self.lift(c)
            cs = self.chars(n, f)
            if cs is not None:
                return ("base", text(n), cs)
            v = self.ev(n.value, st, f)
            return ("opaque", ("attr", v, n.attr)) if v[0] == "opaque" and not isinstance(n.value, ast.Name) else ("base", ("attr", v, n.attr), None)
        if isinstance(n, ast.Subscript):
            c = self.const(n, st, f)
            if c is not UNKNOWN:
                return self.lift(c)
            v = self.ev(n.value, st, f)
            if isinstance(n.slice, ast.Slice):
                a, b = [self.const(x, st, f) if x is not None else None for x in (n.slice.lower, n.slice.upper)]
                if UNKNOWN in (a, b) or n.slice.step is not None or v[0] not in STRING:
                    return self.opaque(n)
                return ("op", "slice", (v, ("k", a), ("k", b))) if False else self.op("slice", v, Const(a), Const(b))
            i = self.const(n.slice, st, f)
            return self.index(v, i, n, st, f)
        if isinstance(n, ast.IfExp):
            c = self.cond(n.test, st, f)
            if c in (True, False):
                return self.ev(n.body if c else n.orelse, st, f)
            a, b = st.fork(c, True), st.fork(c, False)
            va, vb = self.ev(n.body, a, f), self.ev(n.orelse, b, f)
            if a.out or b.out:
                st.out.append(alt([(frozenset([(c, True)]), a.tree()), (frozenset([(c, False)]), b.tree())]))
            return alt([(frozenset([(c, True)]), va), (frozenset([(c, False)]), vb)])
        if isinstance(n, ast.BoolOp):
            vs = [self.ev(x, st, f) for x in n.values]
            if isinstance(n.op, ast.Or) and len(vs) == 2 and all(v[0] in STRING + ("none",) for v in vs):
                if vs[0] == NONE or vs[0] == EMPTY:
                    return vs[1]
                c = ("truth", vs[0])
                return alt([(frozenset([(c, True)]), vs[0]), (frozenset([(c, False)]), vs[1])])
            return self.opaque(n)
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, st, f)
            self.bind(n.target, v, st, f)
            return v
        if isinstance(n, ast.Lambda):
            return ("fn", n._func) if getattr(n, "_func", None) is not None else self.opaque(n)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            return self.comp(n, st, f)
        c = self.const(n, st, f)
        return self.lift(c) if c is not UNKNOWN else self.opaque(n)

    def index(self, v, i, n, st, f):
        if v[0] == "alt":
            return alt([(c, self.index(x, i, n, st, f)) for c, x in v[1]])
        if v[0] == "tup" and isinstance(i, int) and -len(v[1]) <= i < len(v[1]):
            return v[1][i]
        if v[0] == "base":
            k = self.lift(i) if i is not UNKNOWN and not isinstance(i, (list, dict, set)) else self.ev(n.slice, st, f) if isinstance(n, ast.Subscript) else NodeRef(n)
            return ("base", ("sub", v, k), None)
        if v[0] == "const" or v[0] in STRING and v[0] != "opaque":
            return self.opaque(n)
        return ("opaque", ("sub", v, i if isinstance(i, (int, str)) else NodeRef(n)))

    def op(self, name, *args):
        return ("op", name, tuple(a if isinstance(a, tuple) and a and a[0] in STRING else a for a in args))

    def string(self, v, n):
        if v[0] in STRING:
            return v
        if v[0] == "const" and isinstance(v[1].v, (int, float)):
            return ("lit", str(v[1].v))
        return self.opaque(n)

    def binop(self, n, st, f):
        a, b = self.ev(n.left, st, f), self.ev(n.right, st, f)
        if isinstance(n.op, ast.Add):
            if a[0] in STRING and b[0] in STRING:
                return seq(a, b)
            if a[0] == "list" and b[0] == "list":
                return ("list", seq(a[1], b[1]))
            if a[0] == "tup" and b[0] == "tup":
                return ("tup", a[1] + b[1])
        elif isinstance(n.op, ast.Mult):
            if a[0] == "const":
                a, b = b, a
            if a[0] == "lit":
                if b[0] == "const" and isinstance(b[1].v, int) and b[1].v < 200:
                    return ("lit", a[1] * b[1].v)
                return star(a)
            if a[0] in STRING:
                return star(a)
        elif isinstance(n.op, ast.Mod) and a[0] == "lit":
            args = list(b[1]) if b[0] == "tup" else [b]
            return self.percent(a[1], args, n)
        return self.opaque(n)

    def percent(self, s, args, n):
        parts, i, k = [], 0, 0
        while i < len(s):
            j = s.find("%", i)
            if j < 0 or j + 1 >= len(s):
                parts.append(("lit", s[i:]))
                break
            parts.append(("lit", s[i:j]))
            if s[j + 1] == "%":
                parts.append(("lit", "%"))
            elif s[j + 1] in "sd" and k < len(args):
                parts.append(self.string(args[k], n))
                k += 1
            else:
                return self.opaque(n)
            i = j + 2
        return seq(*parts)

    def format(self, s, args, kws, n):
        import string as _s
        parts, auto = [], 0
        try:
            fields = list(_s.Formatter().parse(s))
        except ValueError:
            return self.opaque(n)
        for lit, name, spec, conv in fields:
            parts.append(("lit", lit))
            if name is None:
                continue
            if spec or conv not in (None, "s", ""):
                parts.append(self.opaque(n))
                continue
            v = None
            if name == "":
                v = args[auto] if auto < len(args) else None
                auto += 1
            elif name.isdigit():
                v = args[int(name)] if int(name) < len(args) else None
            elif name.isidentifier():
                v = kws.get(name)
            else:
                head = name.split("[")[0].split(".")[0]
                b = args[int(head)] if head.isdigit() and int(head) < len(args) else kws.get(head) if head else args[0] if args else None
                rest = name[len(head):]
                if b is not None and b[0] == "tup" and rest.startswith("[") and rest.endswith("]") and rest[1:-1].isdigit() and int(rest[1:-1]) < len(b[1]):
                    v = b[1][int(rest[1:-1])]
                elif b is not None and b[0] == "base":
                    v = ("base", ("fmt", b, rest), None)
            parts.append(self.string(v, n) if v is not None else self.opaque(n))
        return seq(*parts)

    DATA_METHODS = {"get", "pop", "strip", "lstrip", "rstrip", "lower", "upper", "title", "decode", "splitlines", "split", "rsplit", "items", "keys",
                    "values", "itertext", "findtext", "find", "findall", "iter", "copy", "capitalize", "casefold", "partition", "rpartition", "expandtabs",
                    "group", "attrib", "setdefault", "getchildren", "popitem"}
    PASS = {"builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed", "builtins.set", "builtins.iter", "builtins.enumerate", "builtins.zip",
            "builtins.dict", "builtins.next", "builtins.min", "builtins.max", "builtins.filter"}

    def call(self, n, st, f):
        fn = n.func
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            if isinstance(fn, ast.Attribute) and fn.attr == "format":
                s = self.ev(fn.value, st, f)
                if s[0] == "lit":
                    args = []
                    for a in n.args:
                        v = self.ev(a.value if isinstance(a, ast.Starred) else a, st, f)
                        if isinstance(a, ast.Starred):
                            if v[0] != "tup":
                                return self.opaque(n)
                            args.extend(v[1])
                        else:
                            args.append(v)
                    return self.format(s[1], args, {}, n)
            return self.opaque(n)
        # the writer itself
        fv = None
        if isinstance(fn, ast.Name) and fn.id in st.env:
            fv = st.env[fn.id]
            if fv == ("writer",):
                for a in n.args:
                    v = self.ev(a, st, f)
                    st.out.append(("at", NodeRef(n), self.string(v, a)))
                return NONE
            if fv[0] == "append":       # out.append kept in a variable
                return self.append(fv[1], [self.ev(a, st, f) for a in n.args], "append", st, n)
        c = self.const(n, st, f)
        if c is not UNKNOWN and not isinstance(c, Regex):
            return self.lift(c)
        e = self.prj.ext_name(fn, f, f.module) if not (isinstance(fn, ast.Name) and fn.id in st.env) else None
        if e is not None:
            return self.external(e, n, st, f)
        if isinstance(fn, ast.Attribute):
            r = self.method(n, st, f)
            if r is not None:
                return r
        gs = self.targets(n, fv, st, f)
        if gs:
            return self.project(gs, n, st, f)
        for a in n.args:
            self.ev(a, st, f)
        return self.opaque(n)

    def targets(self, n, fv, st, f):
        if fv is not None:
            return [fv[1]] if fv[0] == "fn" else []
        gs, exact = self.prj.callees(n, f, f.module)
        if not exact and not (len(gs) == 1):
            return []
        return gs

    def external(self, e, n, st, f):
        args = [self.ev(a, st, f) for a in n.args]
        kw = {k.arg: k.value for k in n.keywords}
        if e == "re.sub":
            p = self.const(n.args[0], st, f) if n.args else UNKNOWN
            if len(args) < 3:
                return self.opaque(n)
            count = self.const(n.args[3], st, f) if len(n.args) > 3 else self.const(kw["count"], st, f) if "count" in kw else 0
            flags = self.const(n.args[4], st, f) if len(n.args) > 4 else self.const(kw["flags"], st, f) if "flags" in kw else 0
            if isinstance(p, Regex):
                p, flags = p.pattern, p.flags
            return self.resub(p, flags, n.args[1], args[1], args[2], count, n, st, f)
        if e in ("html.escape", "cgi.escape"):
            q = self.const(n.args[1], st, f) if len(n.args) > 1 else self.const(kw["quote"], st, f) if "quote" in kw else e == "html.escape"
            return self.op("html.escape", args[0], Const(q)) if q is not UNKNOWN and args[0][0] in STRING else self.opaque(n)
        if e in ("xml.sax.saxutils.escape", "xml.sax.saxutils.quoteattr"):
            m = self.const(n.args[1], st, f) if len(n.args) > 1 else self.const(kw["entities"], st, f) if "entities" in kw else {}
            return self.op("sax." + e.rsplit(".", 1)[1], args[0], Const(m)) if isinstance(m, dict) and args[0][0] in STRING else self.opaque(n)
        if e == "builtins.str" and len(args) == 1:
            return self.string(args[0], n)
        if e == "builtins.getattr" and len(args) >= 2 and args[1][0] == "lit":
            return ("base", ("attr", args[0], args[1][1]), None)
        if e in self.PASS and args and (args[0][0] in ("list", "tup") or isdata(args[0])):
            return args[0] if e != "builtins.enumerate" else ("base", ("enum", args[0]), None)
        if e in self.PASS and not args:
            return ("list", EMPTY)
        return self.opaque(n)

    def resub(self, p, flags, rnode, r, t, count, n, st, f):
        if not isinstance(p, str) or flags is UNKNOWN or count is UNKNOWN or t[0] not in STRING or not isinstance(flags, int):
            return self.opaque(n)
        if r[0] == "lit":
            return ("op", "resub", (p, int(flags), r[1], count, t))
        tb = None
        if r[0] == "fn":
            tb = self.table(r[1], st, f)
        elif isinstance(rnode, ast.Attribute) and rnode.attr in ("get", "__getitem__"):
            tb = None
        if tb is not None:
            table, default = tb
            return ("op", "tablesub", (p, int(flags), Const(table), default, count, t))
        return self.opaque(n)

    def table(self, g, st, f):
        """the table a replacement function looks the matched text up in: (table, default)"""
        if len(g.params) - (1 if g.selfname else 0) != 1:
            return None
        m = g.params[-1]
        rets = [x.value for x in walk_own(g.node) if isinstance(x, ast.Return)] if not g.is_lambda else [g.node.body]
        if len(rets) != 1 or not g.is_lambda and len([s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]) != 1:
            return None
        r = rets[0]

        def whole(x):
            return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "group" and isinstance(x.func.value, ast.Name) and x.func.value.id == m \
                and (not x.args or isinstance(x.args[0], ast.Constant) and x.args[0].value == 0 and len(x.args) == 1) \
                or isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == m and isinstance(x.slice, ast.Constant) and x.slice.value == 0
        tn = default = None
        if isinstance(r, ast.Subscript) and whole(r.slice):
            tn = r.value
        elif isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == "get" and r.args and whole(r.args[0]):
            tn = r.func.value
            if len(r.args) == 2:
                if whole(r.args[1]):
                    default = "group"
                else:
                    d = self.const(r.args[1], st, g)
                    if not isinstance(d, str):
                        return None
                    default = ("lit", d)
            else:
                return None
        if tn is None:
            return None
        t = self.const(tn, st, g)
        return (t, default) if isinstance(t, dict) and all(isinstance(k, str) and isinstance(v, str) for k, v in t.items()) else None

    def method(self, n, st, f):
        fn = n.func
        a = fn.attr
        # a list kept in a variable
        if isinstance(fn.value, ast.Name) and fn.value.id in st.env and st.env[fn.value.id][0] == "list":
            if a in ("append", "extend", "insert", "clear", "pop", "reverse", "sort", "remove"):
                return self.append(fn.value.id, [self.ev(x, st, f) for x in n.args], a, st, n)
        if isinstance(fn.value, ast.Name) and self.prj.self_class(fn.value.id, f) is not None and fn.value.id not in ():
            c = self.prj.self_class(fn.value.id, f)
            if c.find(a) is not None:
                return None
        r = self.fold.fold(fn.value, self.pyenv(st), f.module, f)
        if isinstance(r, Regex) and a == "sub" and len(n.args) >= 2:
            count = self.const(n.args[2], st, f) if len(n.args) > 2 else 0
            return self.resub(r.pattern, r.flags, n.args[0], self.ev(n.args[0], st, f), self.ev(n.args[1], st, f), count, n, st, f)
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            return None
        v = self.ev(fn.value, st, f)
        args = None
        if v[0] in STRING or v[0] == "const":
            if a == "format" and v[0] == "lit":
                return self.format(v[1], [self.ev(x, st, f) for x in n.args], {k.arg: self.ev(k.value, st, f) for k in n.keywords}, n)
            if a == "join" and v[0] in STRING and len(n.args) == 1:
                cm = self.charjoin(n.args[0], st, f) if v == EMPTY else None
                if cm is not None:
                    return cm
                l = self.ev(n.args[0], st, f)
                # "b".join(t.split("a"))
                if l[0] == "splitof":
                    return self.op("joinsplit", l[1], l[2], v)
                if l[0] == "list":
                    return strx.join(v, l[1])
                if l[0] == "tup":
                    return strx.join(v, seq(*[("item", x) for x in l[1]]))
                if isdata(l):
                    return seq(("base", ("items", l), None), star(seq(v, ("base", ("items", l), None))))
                return self.opaque(n)
            if a == "replace" and len(n.args) in (2, 3) and v[0] in STRING:
                args = [self.ev(x, st, f) for x in n.args[:2]]
                if all(x[0] in STRING for x in args):
                    if len(n.args) == 3:
                        k = self.const(n.args[2], st, f)
                        return self.op("replacen", v, args[0], args[1], Const(k)) if isinstance(k, int) else self.opaque(n)
                    return self.op("replace", v, args[0], args[1])
                return self.opaque(n)
            if a == "translate" and len(n.args) == 1 and v[0] in STRING:
                t = self.const(n.args[0], st, f)
                if isinstance(t, dict):
                    return ("op", "translate", (Const({(ord(k) if isinstance(k, str) else k): x for k, x in t.items()}), v))
                return self.opaque(n)
            if a in ("strip", "lstrip", "rstrip") and v[0] in ("op", "seq", "alt", "lit", "star", "base") and all(isinstance(x, ast.Constant) for x in n.args):
                return self.op(a, v, *[self.lift(x.value) for x in n.args])
            if a in ("upper", "lower", "title") and v[0] in ("op", "seq", "alt", "lit", "star") and not n.args:
                return self.op(a, v)
            if a in ("encode", "decode"):
                return v
            if a == "split" and len(n.args) == 1 and v[0] in STRING and v[0] != "opaque":
                s = self.ev(n.args[0], st, f)
                if s[0] == "lit":
                    return ("splitof", v, s)
        if isdata(v) and a in self.DATA_METHODS:
            return ("base", ("call", v, a, tuple(text(x) for x in n.args)), None)
        if v[0] in STRING or v[0] in ("const", "list", "tup", "splitof"):
            for x in n.args:
                self.ev(x, st, f)
            if isdata(v):
                gs, exact = self.prj.callees(n, f, f.module)
                if len(gs) == 1:
                    return None
            return self.opaque(n)
        return None

    def charjoin(self, n, st, f):
        """"".join(table.get(c, c) for c in text)"""
        if not isinstance(n, (ast.GeneratorExp, ast.ListComp)) or len(n.generators) != 1 or n.generators[0].ifs or not isinstance(n.generators[0].target, ast.Name):
            return None
        c = n.generators[0].target.id
        isc = lambda x: isinstance(x, ast.Name) and x.id == c
        el, tn = n.elt, None
        if isinstance(el, ast.Call) and isinstance(el.func, ast.Attribute) and el.func.attr == "get" and len(el.args) == 2 and isc(el.args[0]) and isc(el.args[1]):
            tn = el.func.value
        elif isinstance(el, ast.IfExp) and isinstance(el.body, ast.Subscript) and isc(el.body.slice) and isc(el.orelse) and isinstance(el.test, ast.Compare) \
                and isinstance(el.test.ops[0], ast.In) and isc(el.test.left) and ast.dump(el.test.comparators[0]) == ast.dump(el.body.value):
            tn = el.body.value
        if tn is None:
            return None
        t = self.const(tn, st, f)
        v = self.ev(n.generators[0].iter, st, f)
        return ("op", "charmap", (Const(t), v)) if isinstance(t, dict) and v[0] in STRING else None

    def append(self, name, args, how, st, n):
        cur = st.env[name]
        if how == "append" and len(args) == 1:
            st.env[name] = ("list", seq(cur[1], ("item", args[0])))
        elif how == "extend" and len(args) == 1:
            a = args[0]
            if a[0] == "list":
                st.env[name] = ("list", seq(cur[1], a[1]))
            elif a[0] == "tup":
                st.env[name] = ("list", seq(cur[1], *[("item", x) for x in a[1]]))
            else:
                st.env[name] = ("list", seq(cur[1], star(("item", ("base", ("items", a), None) if a[0] == "base" else self.opaque(n)))))
        else:
            st.env[name] = self.opaque(n)
        return NONE

    def comp(self, n, st, f):
        s = St(dict(st.env))
        items = None
        for g in n.generators:
            it = self.const(g.iter, s, f)
            if len(n.generators) == 1 and it is not UNKNOWN and isinstance(it, (list, tuple, dict)) and len(it) <= 20 and not g.ifs:
                items = []
                for x in it:
                    self.bind(g.target, self.lift(x) if not isinstance(x, tuple) else ("tup", tuple(self.lift(y) for y in x)), s, f)
                    items.append(("item", self.ev(n.elt, s, f)))
                break
            v = self.ev(g.iter, s, f)
            self.bind(g.target, self.element(v, g.iter), s, f)
        if items is None:
            conds = [self.cond(c, s, f) for g in n.generators for c in g.ifs]
            for c in conds:
                if c not in (True, False):
                    s.conds |= {(c, True)}
            items = [star(alt([(s.conds, ("item", self.ev(n.elt, s, f)))]))]
        if s.out:
            st.out.append(star(s.tree()))
        return ("list", seq(*items))

    def element(self, v, n):
        """what iterating a value gives"""
        if isdata(v):
            return ("base", ("each", v, NodeRef(n)), None)
        if v[0] == "list":
            its = [x for x in (v[1][1] if v[1][0] == "seq" else (v[1],))]
            vs = []
            for x in its:
                while x[0] == "star":
                    x = x[1]
                if x[0] != "item":
                    return ("opaque", NodeRef(n))
                vs.append(x[1])
            if vs:
                return alt([(frozenset(), x) for x in vs])
        if v[0] == "tup" and v[1]:
            return alt([(frozenset(), x) for x in v[1]])
        if v[0] in ("op", "seq", "alt", "splitof"):
            return ("opaque", ("each", NodeRef(n)))
        return ("opaque", ("each", NodeRef(n)))

    # ---- conditions -----------------------------------------------------------------------------------------------
    def cond(self, t, st, f):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            c = self.cond(t.operand, st, f)
            return (not c) if c in (True, False) else ("not", c)
        c = self.const(t, st, f)
        if c is not UNKNOWN:
            return bool(c)
        if isinstance(t, ast.BoolOp):
            cs = [self.cond(x, st, f) for x in t.values]
            stop = isinstance(t.op, ast.Or)
            if any(x is stop for x in cs):
                return stop
            cs = [x for x in cs if x not in (True, False)]
            if not cs:
                return not stop
            return cs[0] if len(cs) == 1 else (("or",) if stop else ("and",)) + tuple(cs)
        if isinstance(t, ast.NamedExpr):
            return ("truth", self.ev(t, st, f))
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            o, l, r = t.ops[0], t.left, t.comparators[0]
            if isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant) and r.value is None:
                v = self.ev(l, st, f)
                pos = isinstance(o, (ast.Is, ast.Eq))
                if v == NONE:
                    return pos
                if v[0] in ("lit", "op", "seq", "list", "tup", "const", "fn", "writer", "star"):
                    return not pos
                c = ("cond", "none", v)
                return c if pos else ("not", c)
            if isinstance(o, (ast.In, ast.NotIn)):
                a, b = self.ev(l, st, f), self.ev(r, st, f)
                if a[0] == "lit" and b[0] in STRING:
                    c = ("in", a, b)
                    return c if isinstance(o, ast.In) else ("not", c)
            if isinstance(o, (ast.Eq, ast.NotEq)):
                a, b = self.ev(l, st, f), self.ev(r, st, f)
                if a[0] in STRING and b[0] in STRING and (a[0] == "lit" or b[0] == "lit"):
                    c = ("eq", a, b)
                    return c if isinstance(o, ast.Eq) else ("not", c)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and not t.keywords:
            if t.func.attr in ("startswith", "endswith") and len(t.args) == 1:
                a, b = self.ev(t.args[0], st, f), self.ev(t.func.value, st, f)
                if a[0] == "lit" and b[0] in STRING:
                    return ("starts" if t.func.attr == "startswith" else "ends", a, b)
            if t.func.attr in ("search", "match", "fullmatch"):
                rx = self.const(t.func.value, st, f)
                e = self.prj.ext_name(t.func, f, f.module)
                if isinstance(rx, Regex) and len(t.args) == 1 and isinstance(rx.flags, int):
                    return ("re", rx.pattern, int(rx.flags), t.func.attr, self.ev(t.args[0], st, f))
                if e in ("re.search", "re.match", "re.fullmatch") and len(t.args) == 2:
                    p = self.const(t.args[0], st, f)
                    if isinstance(p, str):
                        return ("re", p, 0, t.func.attr, self.ev(t.args[1], st, f))
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("any", "all") and len(t.args) == 1 and not t.keywords \
                and isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)) and len(t.args[0].generators) == 1 and not t.args[0].generators[0].ifs:
            g = t.args[0].generators[0]
            it = self.const(g.iter, st, f)
            if it is not UNKNOWN and isinstance(it, (list, tuple, dict, str, set)) and len(it) <= 20:
                s = St(dict(st.env))
                cs = []
                for x in sorted(it) if isinstance(it, set) else it:
                    self.bind(g.target, self.lift(x) if not isinstance(x, tuple) else ("tup", tuple(self.lift(y) for y in x)), s, f)
                    cs.append(self.cond(t.args[0].elt, s, f))
                stop = t.func.id == "any"
                if any(x is stop for x in cs):
                    return stop
                cs = [x for x in cs if x not in (True, False)]
                return (("or",) if stop else ("and",)) + tuple(cs) if cs else not stop
        if isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
            v = self.ev(t, st, f)
            if v[0] in STRING and v[0] != "opaque":
                return ("truth", v)
            if v == NONE:
                return False
        vals = []
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and x.id in st.env:
                vals.append((x.id, st.env[x.id]))
        return ("cond", ast.dump(t), tuple(sorted(set(vals), key=lambda p: p[0])))

    # ---- calls into the project -----------------------------------------------------------------------------------
    def project(self, gs, n, st, f):
        args = [self.ev(a, st, f) for a in n.args]
        kws = {k.arg: self.ev(k.value, st, f) for k in n.keywords}
        writes = ("writer",) in args or ("writer",) in kws.values()
        if writes and any(g in self.stack or g in self.roots for g in gs):
            st.out.append(("at", NodeRef(n), ("balanced",)))
            return self.opaque(n)
        res, trees = [], []
        for g in gs:
            if g in self.stack or len(self.stack) > 7:
                if any(self.touches_writer(g, st) for g in gs):
                    st.out.append(("at", NodeRef(n), ("balanced",)))
                return ("opaque", ("call", g.qual, tuple(args)))
            nested = g.outer is not None and g.outer in self.stack
            env = {k: v for k, v in st.env.items() if k not in g.locals} if nested else {}
            off = 1 if g.cls is not None and not g.is_static and not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                                                                      and isinstance(self.prj.lookup(n.func.value.id, f, f.module), Class)
                                                                      and not g.is_classmethod) else 0
            ps = g.params[off:]
            if off and g.params:
                rv = ("base", ("self", g.cls.name), None)
                env[g.params[0]] = rv
            dst = St(env)
            for p in g.params[off:] + g.kwonly:
                if p in g.defaults:
                    d = self.fold.fold(g.defaults[p], {}, g.module, g.outer)
                    env[p] = self.lift(d) if d is not UNKNOWN else ("opaque", ("default", g.qual, p))
                else:
                    env[p] = ("opaque", ("param", g.qual, p))
            for p, v in zip(ps, args):
                env[p] = v
            for p, v in kws.items():
                env[p] = v
            if g.vararg:
                env[g.vararg] = ("tup", tuple(args[len(ps):]))
            if g.kwarg:
                env[g.kwarg] = ("opaque", ("kw", g.qual))
            if writes or nested and self.touches_writer(g, st):
                self.inlined.add(g)
            self.stack.append(g)
            try:
                outs = self.block(g.body, dst, g)
            finally:
                self.stack.pop()
            outs = [o for o in outs if o[0] in ("next", "return")]
            if not outs:
                continue
            trees.append(alt([(o[1].conds, o[1].tree()) for o in outs]))
            res.append(alt([(o[1].conds, o[2] if o[0] == "return" else NONE) for o in outs]))
            if nested:
                for k in list(st.env):
                    if k not in g.locals:
                        st.env[k] = alt([(o[1].conds, o[1].env.get(k, st.env[k])) for o in outs])
        if not res:
            return self.opaque(n)
        t = alt([(frozenset(), x) for x in trees])
        if t != EMPTY:
            st.out.append(t)
        return alt([(frozenset(), x) for x in res])

    def touches_writer(self, g, st):
        """a nested function that uses the writer of the function around it"""
        return any(isinstance(x, ast.Name) and x.id not in g.locals and st.env.get(x.id) == ("writer",) for x in walk_own(g.node))

    # ---- statements -----------------------------------------------------------------------------------------------
    def bind(self, t, v, st, f):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, ("base", ("rest", v), None) if v[0] == "base" else ("opaque", ("rest", v)), st, f)
                else:
                    self.bind(x, self.index(v, i, t, st, f), st, f)

    def block(self, body, st, f):
        outs = []
        for s in body:
            rs = self.stmt(s, st, f)
            nxt = [o for o in rs if o[0] == "next"]
            outs.extend(o for o in rs if o[0] != "next")
            if not nxt:
                return outs
            st = nxt[0][1]
        return outs + [("next", st, None)]

    def merge(self, st, branches):
        """branches: outcome lists whose states were forked from st.  One 'next' outcome at most"""
        res, nxt = [], []
        for outs in branches:
            for k, s, v in outs:
                if k == "next":
                    nxt.append(s)
                else:
                    res.append((k, St(s.env, st.out + s.out, s.conds), v))
        if nxt:
            if len(nxt) == 1:
                n = St(nxt[0].env, st.out + nxt[0].out, nxt[0].conds)
            else:
                tree = alt([(s.conds - st.conds, s.tree()) for s in nxt])
                env = {}
                for k in set().union(*[set(s.env) for s in nxt]):
                    env[k] = alt([(s.conds - st.conds, s.env.get(k, ("opaque", ("unset", k)))) for s in nxt])
                n = St(env, st.out + ([tree] if tree != EMPTY else []), st.conds)
            res.append(("next", n, None))
        return res

    def stmt(self, s, st, f):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, st, f)
            if v[0] == "const" and isinstance(v[1].v, (dict, set, list)) and not all(isinstance(t, ast.Name) and self.fixed(t.id, f) for t in s.targets):
                v = ("base", ("table", NodeRef(s)), None)
            if v[0] == "splitof":
                v = ("opaque", ("split", v))
            if isinstance(s.value, ast.Attribute) and s.value.attr == "append" and isinstance(s.value.value, ast.Name) \
                    and st.env.get(s.value.value.id, ("x",))[0] == "list":
                v = ("append", s.value.value.id)
            for t in s.targets:
                self.bind(t, v, st, f)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, st, f), st, f)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, st, f)
            if isinstance(s.target, ast.Name):
                old = st.env.get(s.target.id, ("opaque", ("unset", s.target.id)))
                if isinstance(s.op, ast.Add) and old[0] in STRING + ("acc",) and v[0] in STRING:
                    st.env[s.target.id] = seq(old, v)
                elif isinstance(s.op, ast.Add) and old[0] == "list":
                    self.append(s.target.id, [v], "extend", st, s)
                else:
                    st.env[s.target.id] = self.opaque(s)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, st, f)
        elif isinstance(s, ast.If):
            c = self.cond(s.test, st, f)
            if c is True:
                return self.block(s.body, st, f)
            if c is False:
                return self.block(s.orelse, st, f)
            for cc, t in st.conds:
                if cc == c:
                    return self.block(s.body if t else s.orelse, st, f)
            pre = st
            a, b = pre.fork(c, True), pre.fork(c, False)
            return self.merge(pre, [self.block(s.body, a, f), self.block(s.orelse, b, f)])
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            return self.for_(s, st, f)
        elif isinstance(s, ast.While):
            return self.while_(s, st, f)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, st, f) if s.value is not None else NONE
            return [("return", st, v)]
        elif isinstance(s, ast.Raise):
            return [("raise", st, None)]
        elif isinstance(s, ast.Break):
            return [("break", st, None)]
        elif isinstance(s, ast.Continue):
            return [("continue", st, None)]
        elif isinstance(s, ast.Try):
            outs = self.block(s.body, st, f)
            res = []
            for k, x, v in outs:
                rs = [(k, x, v)] if k != "next" else self.block(s.orelse, x, f)
                for k2, y, w in rs:
                    if s.finalbody and k2 != "raise":
                        for k3, z, u in self.block(s.finalbody, y, f):
                            res.append((k2, z, w) if k3 == "next" else (k3, z, u))
                    else:
                        res.append((k2, y, w))
            return res
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, st, f)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v if v[0] != "splitof" else self.opaque(i.context_expr), st, f)
            return self.block(s.body, st, f)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.env[s.name] = ("fn", s._func)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
        elif type(s).__name__ == "Match":
            raise TooDeep
        return [("next", st, None)]

    def fixed(self, name, f):
        """a local table that is bound once and not changed or handed to anything that may change it"""
        if single_assignment(f, name) is None:
            return False
        for x in walk_own(f.node):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                p = x._parent
                if isinstance(p, ast.Call) and x in p.args and self.prj.callees(p, f, f.module)[0] or isinstance(p, (ast.keyword, ast.Assign, ast.Return)):
                    return False
        return True

    def changed(self, body):
        names = set()
        for s in body:
            for x in [s] + list(walk_own(s)):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ("append", "extend"):
                    names.add(x.func.value.id)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                    names.add(x.func.id)
        return names

    def loop(self, body, st, f, begin):
        """runs a loop body on accumulators; returns outcomes"""
        touched = set()
        for rounds in range(2):
            env = dict(st.env)
            for k, v in st.env.items():
                if v[0] == "list":
                    env[k] = ("list", ("acc", k))
                elif k in self.changed(body) and v[0] in STRING:
                    env[k] = ("acc", k) if k not in touched else alt([(frozenset(), v), (frozenset(), touched_vals[k])])
            s = St(env, [], st.conds)
            begin(s)
            outs = self.block(body, s, f)
            cont = [o for o in outs if o[0] in ("next", "continue")]
            touched_vals, again = {}, False
            for k, v in st.env.items():
                for o in cont:
                    w = o[1].env.get(k)
                    if w is None or v[0] not in STRING or env[k] != ("acc", k):
                        continue
                    if w == ("acc", k) or self.delta(w, k) is not None:
                        continue
                    touched_vals[k] = w if not mentions(w, k) else ("opaque", ("loop", k))
                    again = True
            touched = set(touched_vals)
            if not again:
                break
        base = dict(st.env)
        trees = alt([(o[1].conds - st.conds, o[1].tree()) for o in cont]) if cont else EMPTY
        for k, v in st.env.items():
            if v[0] == "list":
                ds = [self.delta(o[1].env[k][1], k) if o[1].env.get(k, ("x",))[0] == "list" else None for o in cont]
                if any(d is None for d in ds):
                    base[k] = ("opaque", ("loop", k))
                elif cont:
                    base[k] = ("list", seq(v[1], star(alt([(o[1].conds - st.conds, d) for o, d in zip(cont, ds)]))))
            elif v[0] in STRING and k in self.changed(body):
                ds = [self.delta(o[1].env.get(k, ("x",)), k) for o in cont]
                if cont and all(d is not None for d in ds):
                    base[k] = seq(v, star(alt([(o[1].conds - st.conds, d) for o, d in zip(cont, ds)])))
                elif cont:
                    base[k] = alt([(frozenset(), v)] + [(frozenset(), o[1].env.get(k, v) if not mentions(o[1].env.get(k, v), k) else ("opaque", ("loop", k)))
                                                       for o in cont])
        for o in cont:
            for k, v in o[1].env.items():
                if k not in st.env:
                    base.setdefault(k, v)
                elif v != env.get(k) and base[k] == st.env[k] and v[0] not in ("list",) and st.env[k][0] not in STRING:
                    base[k] = alt([(frozenset(), st.env[k]), (frozenset(), v)])
        before = star(trees)
        res = []
        after = St(base, st.out + ([before] if before != EMPTY else []), st.conds)
        ends = [("next", after, None)]
        for k, s2, v in outs:
            if k == "break":
                e = {x: (y if not mentions(y, x) else base.get(x, ("opaque", ("loop", x)))) for x, y in s2.env.items()}
                ends.append(("break", St(e, after.out + s2.out, st.conds), None))
            elif k in ("return", "raise"):
                res.append((k, St(s2.env, after.out + s2.out, s2.conds), v))
        return res, ends

    def delta(self, w, k):
        """what was added to an accumulator, or None"""
        if w == ("acc", k):
            return EMPTY
        if w[0] == "seq" and w[1][0] == ("acc", k):
            r = seq(*w[1][1:])
            return r if not mentions(r, k) else None
        if w[0] == "alt":
            ds = [(c, self.delta(x, k)) for c, x in w[1]]
            return alt(ds) if all(d is not None for _, d in ds) else None
        if w[0] == "seq" and w[1][0][0] == "alt":
            d = self.delta(w[1][0], k)
            r = seq(*w[1][1:])
            return seq(d, r) if d is not None and not mentions(r, k) else None
        return None

    def finish(self, res, ends, st, orelse, f):
        nxt = [("next", s, None) for k, s, _ in ends]
        if orelse:
            first = self.block(orelse, ends[0][1], f)
            res = res + [o for o in first if o[0] != "next"]
            nxt = [o for o in first if o[0] == "next"] + nxt[1:]
        if not nxt:
            return res
        if len(nxt) == 1:
            return res + nxt
        pre = len(st.out)
        tree = alt([(frozenset([(("cond", "exit", id(o)), True)]), seq(*o[1].out[pre:])) for o in nxt])
        env = {}
        for k in set().union(*[set(o[1].env) for o in nxt]):
            env[k] = alt([(frozenset(), o[1].env.get(k, ("opaque", ("unset", k)))) for o in nxt])
        return res + [("next", St(env, st.out + [tree], st.conds), None)]

    def for_(self, s, st, f):
        c = self.const(s.iter, st, f)
        if c is not UNKNOWN and isinstance(c, (list, tuple, dict, str)) and len(c) <= 24 and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
            outs = []
            for x in c:
                self.bind(s.target, self.lift(x) if not isinstance(x, tuple) else ("tup", tuple(self.lift(y) for y in x)), st, f)
                rs = self.block(s.body, st, f)
                outs.extend(o for o in rs if o[0] != "next")
                nxt = [o for o in rs if o[0] == "next"]
                if not nxt:
                    return outs
                st = nxt[0][1]
            return outs + self.block(s.orelse, st, f)
        v = self.ev(s.iter, st, f)
        el = self.element(v, s.iter)
        res, ends = self.loop(s.body, st, f, lambda x: self.bind(s.target, el, x, f))
        return self.finish(res, ends, st, s.orelse, f)

    def while_(self, s, st, f):
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.In) and isinstance(t.comparators[0], ast.Name) and len(s.body) == 1 \
                and isinstance(s.body[0], ast.Assign) and len(s.body[0].targets) == 1 and isinstance(s.body[0].targets[0], ast.Name):
            nm, call = t.comparators[0].id, s.body[0].value
            if s.body[0].targets[0].id == nm and isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr == "replace" \
                    and isinstance(call.func.value, ast.Name) and call.func.value.id == nm and len(call.args) == 2:
                k = [self.const(x, st, f) for x in [t.left] + call.args]
                if all(isinstance(x, str) for x in k) and st.env.get(nm, ("x",))[0] in STRING:
                    st.env[nm] = ("op", "until", tuple(("lit", x) for x in k) + (st.env[nm],))
                    return [("next", st, None)]
        c = self.cond(t, st, f)
        if c is False:
            return self.block(s.orelse, st, f)
        res, ends = self.loop(s.body, st, f, lambda x: None)
        if c is True:
            ends = [e for e in ends if e[0] == "break"]
            if not ends:
                return res
        return self.finish(res, ends, st, s.orelse, f)


def isdata(v):
    """document data, not known further"""
    return v[0] == "base" or v[0] == "alt" and all(isdata(x) for _, x in v[1])


def mentions(v, k):
    if not isinstance(v, tuple):
        return False
    if v[:1] == ("acc",):
        return v[1] == k
    return any(mentions(x, k) for x in v if isinstance(x, tuple))


# ---- finding the writers ---------------------------------------------------------------------------------------------------
def writer_param(prj, f):
    """the parameter a function calls with XML text"""
    if f.is_lambda or isinstance(f.node, ast.Module):
        return None
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in f.params and n.args:
            for a in n.args:
                for x in ast.walk(a):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str) and MARK.search(x.value):
                        return n.func.id
    return None


def callback_param(prj, f):
    """parameters that are called or handed on to the same parameter of an override (serialize_xml of a derived class)"""
    p = writer_param(prj, f)
    if p is not None:
        return p
    return None


def run(prj, fold, rep):
    rep.rule("every path through a writer brings the lexical state of XML back to element content with the same elements open; document data of any "
             "content stays inside the text, attribute value, comment or CDATA block it is written in")
    if not prj.example:
        prj.need("ETWriter", "serialize_xml")
    cands = {f: writer_param(prj, f) for f in prj.funcs}
    cands = {f: p for f, p in cands.items() if p is not None}
    # a writer whose text is passed on: functions that give their own parameter to a candidate under the same method name are checked too
    more = {}
    for f in prj.funcs:
        if f in cands or f.is_lambda or isinstance(f.node, ast.Module) or f.cls is None:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                for g in prj.callees(n, f, f.module)[0]:
                    if g in cands and g.name == f.name:
                        v = bind(n, g).get(cands[g])
                        if isinstance(v, ast.Name) and v.id in f.params:
                            more[f] = v.id
    allw = dict(cands)
    allw.update(more)
    # who hands a writer to whom
    inner = {}
    for f in allw:
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                for g in prj.callees(n, f, f.module)[0]:
                    if g in allw and g is not f and g.name != f.name:
                        inner.setdefault(g, set()).add(f)
    roots = {f for f in allw if not inner.get(f)}
    if not roots:
        roots = {f for f in allw if not f.name.startswith("_")}
    rep.count("writers", len(roots))
    for f in sorted(roots, key=lambda x: x.qual):
        check_writer(prj, fold, rep, f, allw[f], roots)
    encodings(prj, fold, rep, roots)


def check_writer(prj, fold, rep, f, param, roots):
    ex = Exec(prj, fold, roots)
    env = {}
    for p in f.allparams:
        if p == param:
            env[p] = ("writer",)
        elif f.selfname == p:
            env[p] = ("base", ("self", f.cls.name), None)
        else:
            env[p] = ("base", ("param", f.qual, p), ex.local_chars(f, p, ()) if p in f.params + f.kwonly else None)
    ex.stack.append(f)
    try:
        outs = ex.block(f.body, St(env), f)
    except (TooDeep, RecursionError):
        rep.note("%s: the writer is too involved for the model" % f.qual)
        return
    lx = strx.Lexer()
    for k, st, v in outs:
        if k not in ("next", "return"):
            continue
        ends = lx.run(st.tree(), {(("start", "", ()), st.conds)})
        lx.node = f.node
        for (mode, aux, stack), d in ends:
            if mode not in ("start", "content", "c]", "c]]"):
                lx.err("a path through the writer ends inside %s" % strx.where(mode), EMPTY)
            elif stack:
                lx.err("a path through the writer leaves an element without its end tag", EMPTY)
    if lx.gaveup:
        rep.note("%s: too many paths; not judged" % f.qual)
        return
    rep.count("data_pieces", len(lx.holes))
    rep.count("pieces_not_modelled", lx.opaque)
    rep.count("helper_functions", len(ex.inlined))
    for v, fam in sorted(lx.holes.items(), key=lambda x: show(x[0])):
        rep.site("%s: %s in %s" % (f.qual, show(v), strx.where(fam)))
    seen = set()
    for (msg, nr), piece in sorted(lx.errors.items(), key=lambda x: (getattr(x[0][1].n, "lineno", 0), x[0][0])):
        node = nr.n
        what = show(piece) if piece != EMPTY else f.name
        key = (what, getattr(node, "lineno", None))
        if key in seen:
            continue
        seen.add(key)
        g = prj.scope_of(node) or f
        rep.finding("not-well-formed", g if not isinstance(node, (ast.FunctionDef,)) else f, what[:80], "%s%s" % (msg, "" if piece == EMPTY else " (written: %s)" % what), node)


def show(v, depth=0):
    k = v[0]
    if depth > 6:
        return "..."
    if k == "lit":
        return repr(v[1])
    if k in ("base", "opaque"):
        return key(v[1], depth)
    if k == "op":
        return "%s(%s)" % (v[1], ", ".join(show(a, depth + 1) if isinstance(a, tuple) and a and a[0] in STRING else repr(a) for a in v[2]))
    if k == "seq":
        return " + ".join(show(x, depth + 1) for x in v[1])
    if k == "alt":
        return " | ".join(show(x, depth + 1) for _, x in v[1])
    if k == "star":
        return "(%s)*" % show(v[1], depth + 1)
    return k


def key(k, depth=0):
    if isinstance(k, str):
        return k
    if isinstance(k, NodeRef):
        return text(k.n, 40)
    if isinstance(k, tuple) and k:
        if k[0] == "param":
            return k[2]
        if k[0] == "self":
            return "self"
        if k[0] == "attr":
            return "%s.%s" % (show(k[1], depth + 1), k[2])
        if k[0] == "each":
            return "item of %s" % (show(k[1], depth + 1) if isinstance(k[1], tuple) else key(k[1]))
        if k[0] == "sub":
            return "%s[%s]" % (show(k[1], depth + 1), show(k[2], depth + 1) if isinstance(k[2], tuple) else k[2])
        if k[0] == "call":
            return "%s.%s()" % (show(k[1], depth + 1) if isinstance(k[1], tuple) else k[1], k[2] if isinstance(k[2], str) else "")
        return str(k[0])
    return str(k)


# ---- the declared encoding -------------------------------------------------------------------------------------------------
def encodings(prj, fold, rep, roots):
    """text from a writer that declares an encoding is encoded in it"""
    declared = {}
    for f in roots:
        for x in walk_own(f.node):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                m = __import__("re").match(r"<\?xml[^>]*encoding=[\"']([^\"']+)", x.value)
                if m:
                    declared[f] = codec(m.group(1))
    names = {f.name: c for f, c in declared.items()}
    if not names:
        return
    want = set(names.values())
    if len(want) != 1 or None in want:
        return
    want = want.pop()
    for f in prj.funcs:
        if isinstance(f.node, ast.Module) and not f.module.is_script:
            continue
        cs = [n for n in walk_own(f.node) if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name))
              and (n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) in names]
        if not cs:
            continue
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            enc = None
            if isinstance(n.func, ast.Attribute) and n.func.attr == "encode" and from_writer(f, n.func.value, cs):
                a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "encoding"), None)
                enc = "utf-8" if a is None else fold.value(a, f)
            elif prj.ext_name(n.func, f, f.module) in ("builtins.open", "codecs.open", "io.open") and is_sink(f, n, cs):
                a = next((k.value for k in n.keywords if k.arg == "encoding"), None)
                if a is None and prj.ext_name(n.func, f, f.module) == "codecs.open" and len(n.args) > 2:
                    a = n.args[2]
                if a is None:
                    continue
                enc = fold.value(a, f)
            if isinstance(enc, str):
                rep.count("encodings_compared")
                if codec(enc) not in (want, None):
                    rep.finding("encoding", f, text(n), "the XML text declares %s but is encoded as %s" % (want, enc), n)


def codec(s):
    try:
        return codecs.lookup(s).name
    except LookupError:
        return None


def from_writer(f, v, cs):
    """the value is what a list handed to the writer collected"""
    lists = {a.value.id for c in cs for a in list(c.args) + [k.value for k in c.keywords]
             if isinstance(a, ast.Attribute) and a.attr in ("append", "write") and isinstance(a.value, ast.Name)}
    names = set(lists)
    for _ in range(3):
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & names:
                names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    return bool({x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & names)


def is_sink(f, n, cs):
    """the opened file is what the writer writes to"""
    lists = {a.value.id for c in cs for a in list(c.args) + [k.value for k in c.keywords]
             if isinstance(a, ast.Attribute) and a.attr == "write" and isinstance(a.value, ast.Name)}
    p = n._parent
    if isinstance(p, ast.withitem) and isinstance(p.optional_vars, ast.Name):
        return p.optional_vars.id in lists
    if isinstance(p, ast.Assign):
        return any(isinstance(t, ast.Name) and t.id in lists for t in p.targets)
    return False


_HEAD = """
import re
_el = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}
_at = dict(_el)
_at['"'] = '&quot;'
class ETWriter(object):
    indent = "\\t"
    cd = set()
    def _protect(self, txt, base=_at):
        %s
    def _comment(self, txt):
        return %s
    def _name(self, tag):
        return tag[1:].split('}')[1] if tag[0] == '{' else tag
    def serialize_xml(self, write, base=None, indent=''):
        if base is None:
            base = self.root
            write('<?xml version="1.0" encoding="utf-8"?>\\n')
        tag = self._name(base.tag)
%s
"""
_BODY = """        for c in base.comments:
            write('{}<!--{}-->\\n'.format(indent, self._comment(c)))
        write('{}<{}'.format(indent, tag))
        for k in sorted(base.attrib):
            write(' {}="{}"'.format(self._name(k), self._protect(base.get(k))))
        if len(base):
            write('>\\n')
            for b in base:
                self.serialize_xml(write, b, indent + self.indent)
            write('{}</{}>\\n'.format(indent, tag))
        elif base.text:
            if tag in self.cd:
                t = '<![CDATA[' + base.text.replace(']]>', ']]]]><![CDATA[>') + ']]>'
            else:
                t = self._protect(base.text, _el)
            write('>{}</{}>\\n'.format(t, tag))
        else:
            write('/>\\n')
"""
_SUB = """return re.sub('[' + ''.join(base.keys()) + ']', lambda m: base[m.group(0)], txt)"""
_COM = """re.sub('-(?=-|$)', '- ', txt)"""


def _ex(name, want, old=None, new=None, protect=_SUB, comment=_COM, tail=""):
    body = _BODY
    if old is not None:
        assert old in body, name
        body = body.replace(old, new)
    return (name, {"lib/sldr/ldml.py": _HEAD % (protect, comment, body) + tail}, want)


_B = ["not-well-formed"]
EXAMPLES = [
    _ex("a writer that escapes everything", False),
    _ex("attribute values as they are", _B, "self._protect(base.get(k))", "base.get(k)"),
    _ex("text as it is", _B, "self._protect(base.text, _el)", "base.text"),
    _ex("element table used for attributes", _B, "self._protect(base.get(k))", "self._protect(base.get(k), _el)"),
    _ex("quotes of the other kind", _B, "' {}=\"{}\"'", "\" {}='{}'\""),
    _ex("only the first special character", _B * 2, protect="return re.sub('[' + ''.join(base.keys()) + ']', lambda m: base[m.group(0)], txt, count=1)"),
    _ex("replacement one after another", False, protect="for k, v in base.items(): txt = txt.replace(k, v)\n        return txt"),
    _ex("character by character", False, protect="return ''.join(base.get(c, c) for c in txt)"),
    _ex("translation table", False, protect="return txt.translate(str.maketrans(base))"),
    _ex("short cut that misses a character", _B * 2, protect="return txt if '<' not in txt and '>' not in txt else " + _SUB[7:]),
    _ex("short cut that misses none", False, protect="return txt if not any(c in txt for c in base) else " + _SUB[7:]),
    _ex("CDATA as it is", _B, "base.text.replace(']]>', ']]]]><![CDATA[>')", "base.text"),
    _ex("CDATA split once only", _B, "base.text.replace(']]>', ']]]]><![CDATA[>')", "base.text.replace(']]>', ']]]]><![CDATA[>', 1)"),
    _ex("CDATA end escaped as in text", False, "base.text.replace(']]>', ']]]]><![CDATA[>')", "base.text.replace(']]>', ']]]]>&gt;<![CDATA[')"),
    _ex("comment as it is", _B, comment="txt"),
    _ex("double hyphens only", _B, comment="txt.replace('--', '- -')"),
    _ex("every hyphen", False, comment="txt.replace('-', '- ')"),
    _ex("hyphen at the end forgotten", _B, comment="re.sub('-(?=-)', '- ', txt)"),
    _ex("another name in the end tag", _B, "write('{}</{}>\\n'.format(indent, tag))", "write('{}</{}>\\n'.format(indent, base.tag))"),
    _ex("the same name worked out again", False, "write('{}</{}>\\n'.format(indent, tag))", "write('{}</{}>\\n'.format(indent, self._name(base.tag)))"),
    _ex("name of the last child in the end tag", _B, "                self.serialize_xml(write, b,", "                tag = self._name(b.tag)\n                self.serialize_xml(write, b,"),
    _ex("empty element left open", _B, "write('/>\\n')", "write('>\\n')"),
    _ex("end tag only sometimes", _B, "            write('{}</{}>\\n'.format(indent, tag))\n        elif", "            if indent: write('{}</{}>\\n'.format(indent, tag))\n        elif"),
    _ex("left early", _B, "            for b in base:", "            if indent == self.last: return\n            for b in base:"),
    _ex("start and end under the same condition", False, "            write('{}</{}>\\n'.format(indent, tag))\n        elif", "        if len(base):\n            write('{}</{}>\\n'.format(indent, tag))\n        elif"),
    _ex("attributes run together", _B, """' {}="{}"'""", """'{}="{}"'"""),
    _ex("declaration after other output", _B, "        for c in base.comments:", "        if base is self.root: write('<?xml version=\"1.0\"?>')\n        for c in base.comments:"),
    _ex("children by a helper", False, "            for b in base:\n                self.serialize_xml(write, b, indent + self.indent)\n", "            self._kids(write, base, indent)\n",
        tail="    def _kids(self, write, base, indent):\n        for b in base:\n            self.serialize_xml(write, b, indent + self.indent)\n"),
    _ex("attributes by a helper that forgets", _B, "            write(' {}=\"{}\"'.format(self._name(k), self._protect(base.get(k))))", "            self._attr(write, k, base.get(k))",
        tail="    def _attr(self, write, k, v):\n        write(' %s=\"%s\"' % (self._name(k), v))\n"),
    _ex("attributes collected first", False, "        for k in sorted(base.attrib):\n            write(' {}=\"{}\"'.format(self._name(k), self._protect(base.get(k))))\n",
        "        parts = []\n        for k in sorted(base.attrib):\n            parts.append('{}=\"{}\"'.format(self._name(k), self._protect(base.get(k))))\n        write(''.join(' ' + p for p in parts))\n"),
    _ex("encoded otherwise than declared", ["encoding"], tail="    def save_as(self, fname):\n        out = []\n        self.serialize_xml(out.append)\n        return ''.join(out).encode('latin-1')\n"),
    _ex("encoded as declared", False, tail="    def save_as(self, fname):\n        out = []\n        self.serialize_xml(out.append)\n        return ''.join(out).encode('UTF8')\n"),
]
