"""P30: what a lookup may not find is checked before it is used."""
import ast, re
import re._parser as sre_parse
from ..core import walk_own, text, dotted, parents, bind, targets
from ..paths import Paths, State, TooMany, atoms, atom, mentions
from ..noret import noreturn
from ..reach import reach
from .P27 import Env
from ..util import in_main_guard

TECHNIQUE = "path-sensitive nullness analysis of variables and lookups, with return and parameter summaries of project functions"
NOTE = ("A lookup is taken to be able to fail unless the schema requires what it looks for, or the function reads a data file shipped with the package; "
        "values kept in fields and containers are not followed, and texts and attributes of elements are judged in the library only.")

# what the schemas (LDML, its keyboard and supplemental DTDs, and the SIL extension) require to be there
REQUIRED = {"identity", "path", "name", "id", "key", "value", "attributes", "locales", "ordering", "territories", "from", "to", "type"}

TEXT = ("attr", "sub", "len", "iter", "arith", "arg")
ANY = ("attr", "sub", "call", "iter", "len", "arith", "arg")
OBJ = ("attr", "sub", "call", "iter", "len")
STRARG = {"int", "float", "len", "ord", "list", "tuple", "set", "sorted", "sum", "min", "max", "iter", "enumerate", "reversed", "open"}


class Nulls:
    def __init__(self, prj, fold=None, rep=None):
        self.prj, self.fold = prj, fold
        self.rets, self.derefs, self.fields, self.groups = {}, {}, None, {}
        self.env = Env(prj, fold, rep) if rep is not None else None

    # (why, kinds of use that fail) for an expression that may be None
    def source(self, n, f, args=None):
        if isinstance(n, ast.NamedExpr):
            return self.source(n.value, f)
        if isinstance(n, ast.Attribute) and n.attr == "text" and isinstance(n.ctx, ast.Load) and not f.module.is_script and isinstance(n.value, (ast.Name, ast.Call)) \
                and not self.fixed(f) and self.element(n.value, f):
            return ("the text of an element", TEXT)
        if isinstance(n, ast.Constant) and n.value is None:
            return ("None", ANY)
        if isinstance(n, ast.IfExp):
            return None
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.value, ast.Name):
            return self.group(n.value, n.slice.value, f)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "group" and len(n.args) == 1 and isinstance(n.args[0], ast.Constant):
            return self.group(n.func.value, n.args[0].value, f)
        if not isinstance(n, ast.Call) or any(isinstance(a, ast.Starred) for a in n.args):
            return None
        e = self.prj.ext_name(n.func, f, f.module) or ""
        none2 = lambda i: len(n.args) == i or len(n.args) == i + 1 and isinstance(n.args[i], ast.Constant) and n.args[i].value is None
        if e == "builtins.getattr":
            return ("getattr() with None as its default", ANY) if len(n.args) == 3 and none2(2) else None
        if e == "builtins.next":
            return ("next() with None as its default", ANY) if len(n.args) == 2 and none2(1) else None
        if e in ("shutil.which", "os.environ.get", "os.getenv") and len(n.args) == 1:
            return (e + "()", ANY)
        fs, exact = self.prj.callees(n, f, f.module)
        if fs:
            if exact or len(fs) == 1:
                ws = [self.returns(g, n, f) for g in fs]
                ws = [w for w in ws if w]
                return ws[0] if ws else None
            return None
        if isinstance(n.func, ast.Attribute):
            d = n.func.value
            while isinstance(d, ast.Attribute):
                d = d.value
            if isinstance(d, ast.Name):
                t = self.prj.lookup(d.id, f, f.module)
                if isinstance(t, tuple) and t[0] in ("ext", "builtin") and not e.startswith("os.environ"):
                    return None         # a function of another package
        if isinstance(n.func, ast.Attribute) and not n.keywords:
            a = n.func.attr
            if a in ("get", "find", "findtext") and n.args:
                if self.fixed(f):
                    return None
                k = self.fold.value(n.args[0], f) if self.fold else None
                if isinstance(k, str) and k.rsplit("/", 1)[-1].split("[")[0].rsplit("}", 1)[-1] in REQUIRED:
                    return None
            if a == "get" and n.args and none2(1) and not f.module.is_script:
                return ("%s.get() without a default" % text(n.func.value, 40), ANY)
            if a == "findtext" and none2(1):
                return (".findtext() without a default", ANY)
            if a == "pop" and len(n.args) == 2 and none2(1):
                return (".pop() with None as its default", ANY)
            if a == "getparent" and not n.args:
                return (".getparent()", OBJ)
            if a == "find" and len(n.args) == 1:
                return (".find()", OBJ)
        return None

    def group(self, m, k, f):
        """a group that may be absent although the expression matched"""
        if isinstance(k, bool) or not isinstance(k, (int, str)) or not isinstance(m, (ast.Name, ast.Call)) or self.env is None:
            return None
        for ps, _, d in self.env.sources(m, f) or ():
            for p in ps or ():
                num = p.groupindex.get(k) if isinstance(k, str) else k
                if num in self.absent(p):
                    return ("group %r of %r, which may be absent" % (k, p.pattern), TEXT)
        return None

    def absent(self, p):
        """groups under a repetition that may happen not at all (alternatives are left to the code that tells them apart)"""
        if p not in self.groups:
            res = set()

            def go(seq, opt):
                for op, av in seq:
                    o = str(op)
                    if o in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                        go(av[2], opt or av[0] == 0)
                    elif o == "SUBPATTERN":
                        if av[0] is not None and opt:
                            res.add(av[0])
                        go(av[3], opt)
                    elif o == "ATOMIC_GROUP":
                        go(av, opt)
            try:
                go(sre_parse.parse(p.pattern, p.flags & ~re.U if isinstance(p.pattern, bytes) else p.flags), False)
            except Exception:
                pass
            self.groups[p] = res
        return self.groups[p]

    def fixed(self, f):
        """it reads a file shipped with the package, whose layout is known"""
        while f is not None:
            if not isinstance(f.node, ast.Module) and any(isinstance(x, ast.Name) and x.id == "__file__" for x in walk_own(f.node)):
                return True
            f = f.outer
        return False

    def element(self, n, f):
        """certainly an XML element: what find() returned, or one of findall() or iter()"""
        if isinstance(n, ast.Call):
            return isinstance(n.func, ast.Attribute) and n.func.attr in ("find", "getroot") and not isinstance(n.func.value, ast.Constant)
        ds = reach(f).use.get(n)
        if not ds:
            return False
        return all(d[0] == "expr" and isinstance(d[1], ast.Call) and self.element(d[1], f)
                   or d[0] in ("iter", "elem") and isinstance(d[1], ast.Call) and isinstance(d[1].func, ast.Attribute) and d[1].func.attr in ("findall", "iter", "iterfind") for d in ds)

    def param(self, f, p):
        """why a parameter may be None"""
        d = f.defaults.get(p)
        if isinstance(d, ast.Constant) and d.value is None:
            return "the default of the parameter"
        if any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store) for x in walk_own(f.node)):
            return None
        for n in walk_own(f.node):
            if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.left, ast.Name) and n.left.id == p \
                    and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                return "which is asked about in other places"
        return None

    def field(self, e, f):
        """a field that is None in some states of its object"""
        if self.fields is None:
            self.fields = {}
            for g in self.prj.funcs:
                for n in walk_own(g.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            for x, v in zip(t.elts, n.value.elts) if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts) else [(t, n.value)]:
                                if isinstance(x, ast.Attribute) and isinstance(v, ast.Constant) and v.value is None:
                                    self.setfield(x, g, "%s sets it to None" % g.qual)
                                elif isinstance(x, ast.Attribute) and isinstance(v, ast.Name) and isinstance(g.defaults.get(v.id), ast.Constant) and g.defaults[v.id].value is None \
                                        and not any(isinstance(y, ast.Name) and y.id == v.id and isinstance(y.ctx, ast.Store) for y in walk_own(g.node)):
                                    self.setfield(x, g, "%s sets it to %s, whose default is None" % (g.qual, v.id))
            # fields nobody asks about are set up before they are used
            asked, compared = set(), set()
            for g in self.prj.funcs:
                for n in walk_own(g.node):
                    for t in ([n.test] if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)) else n.values if isinstance(n, ast.BoolOp) else n.ifs if isinstance(n, ast.comprehension) else ()):
                        for pol in (True, False):
                            for x, _ in atoms(t, pol):
                                if isinstance(x, ast.Compare) and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value is None:
                                    if isinstance(x.left, ast.Attribute):
                                        compared.add((g.module, x.left.attr))
                                    x = x.left
                                if isinstance(x, ast.Attribute):
                                    asked.add(x.attr)
            self.fields = {k: v for k, v in self.fields.items() if (k[0] is not None and (k[0].module, k[1]) in compared if v.endswith("default is None") else k[1] in asked)}
        c = self.prj.self_class(e.value.id, f) if isinstance(e.value, ast.Name) else None
        if c is None and isinstance(e.value, ast.Name) and e.value.id in f.allparams and f.cls is not None:
            c = f.cls       # the other one of a pair
        w = self.fields.get((None, e.attr)) if c is None else next((self.fields[(k, e.attr)] for k in c.mro() if (k, e.attr) in self.fields), None)
        return (w, ANY) if w else None

    def setfield(self, x, g, why):
        for n in walk_own(g.node):
            if isinstance(n, ast.If) and any(isinstance(y, ast.Attribute) and ast.unparse(y) == ast.unparse(x) for y in ast.walk(n.test)) \
                    and any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and ast.unparse(y) == ast.unparse(x) for b in n.body for y in ast.walk(b)):
                return      # made up for in the same function
        c = self.prj.self_class(x.value.id, g) if isinstance(x.value, ast.Name) else None
        self.fields[c, x.attr] = why

    def context(self, g, call, f):
        """what a call tells about the parameters of the function it calls: tests that can come out only one way"""
        if call is None:
            return {}
        b = bind(call, g)
        if b is None:
            return {}
        facts = {}
        tests = [n for n in walk_own(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2
                 and isinstance(n.args[0], ast.Name)]
        for p in g.allparams:
            a = b.get(p)
            if a is None:
                a = g.defaults.get(p) if p in g.defaults else None
                if a is None:
                    continue
            if isinstance(a, ast.Constant):
                facts[p] = bool(a.value)
                facts[p + " is None"] = a.value is None
                typ = type(a.value).__name__
            elif isinstance(a, (ast.List, ast.Tuple, ast.Set)) and not a.elts or isinstance(a, ast.Dict) and not a.keys \
                    or isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ("set", "dict", "list") and not a.args and not a.keywords:
                facts.update({p: False, p + " is None": False, "len(%s)" % p: False, "len(%s) == 0" % p: True, "0 < len(%s)" % p: False})
                typ = "set"
            else:
                typ = self.made(a, f)
            if typ is not None and typ != "object":
                facts.setdefault(p + " is None", typ == "NoneType")
            if typ is not None:
                for t in tests:
                    if t.args[0].id == p:
                        v = self.isa(typ, t.args[1], g)
                        if v is not None:
                            facts[ast.unparse(t)] = v
        return facts

    def made(self, a, f):
        """the class of an object that was certainly just constructed"""
        if isinstance(a, ast.Name):
            ds = reach(f).use.get(a)
            if ds and all(d[0] == "expr" for d in ds):
                ts = {id(t): t for t in (self.made(d[1], f) if not isinstance(d[1], ast.Name) else None for d in ds)}
                if len(ts) == 1 and None not in ts.values():
                    return list(ts.values())[0]
            # its methods are called that a text does not have
            used = {x._parent.attr for x in walk_own(f.node) if isinstance(x, ast.Name) and x.id == a.id and isinstance(getattr(x, "_parent", None), ast.Attribute)}
            return "object" if used - set(dir(str)) else None
        if isinstance(a, (ast.JoinedStr,)):
            return "str"
        if isinstance(a, ast.Call):
            c = self.prj.resolve_class(a.func, f.module, f)
            if c is not None:
                return c
            e = self.prj.ext_name(a.func, f, f.module) or ""
            if e in ("io.BytesIO", "io.StringIO", "builtins.dict", "builtins.list", "builtins.set", "builtins.str"):
                return e.split(".")[-1]
        return None

    def isa(self, typ, t, g):
        ts = t.elts if isinstance(t, ast.Tuple) else [t]
        res = False
        for x in ts:
            c = self.prj.resolve_class(x, g.module, g)
            if c is not None:
                if typ == "object":
                    res = None
                elif not isinstance(typ, str) and c in typ.mro():
                    return True
                continue
            e = (self.prj.ext_name(x, g, g.module) or "").split(".")[-1]
            if isinstance(typ, str):
                if e == typ:
                    return True
                if typ == "object":
                    res = res if e in ("str", "bytes") else None
                    continue
                if e not in ("str", "bytes", "int", "dict", "list", "set", "tuple"):
                    res = None
            elif e not in ("str", "bytes", "int", "dict", "list", "set", "tuple") or typ.external_bases():
                res = None
        return res

    def returns(self, g, call=None, f=None):
        """a project function that returns something on one path and None on another"""
        fl = self.context(g, call, f) if not g.is_lambda and not isinstance(g.node, ast.Module) else {}
        key = (g, frozenset(fl.items()))
        if key in self.rets:
            return self.rets[key]
        self.rets[key] = r = self.returns0(g, fl)
        return r

    def returns0(self, g, fl):
        key = (g, frozenset(fl.items()))
        self.rets[key] = None
        if isinstance(g.node, ast.Module) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(g.node)) or any("contextmanager" in d for d in g.decorators):
            return None
        if g.name == "__init__":
            return None
        if g.is_lambda:
            r = self.source(g.node.body, g)
            return r and ("%s, which returns %s" % (g.qual, r[0]), r[1])
        vals = [n.value for n in walk_own(g.node) if isinstance(n, ast.Return)]
        if not any(v is not None and not (isinstance(v, ast.Constant) and v.value is None) for v in vals):
            return None     # a procedure
        p = NPaths(self, g)
        r = p.outcome(fl)
        return r and ("%s(), which can return None" % g.qual, r)

    def deref(self, g):
        """parameters that are used as objects before anything is asked about them"""
        if g in self.derefs:
            return self.derefs[g]
        self.derefs[g] = {}
        if g.is_lambda or isinstance(g.node, ast.Module):
            return {}
        p = NPaths(self, g, params=True)
        p.go()
        self.derefs[g] = p.hit
        return p.hit


class NPaths(Paths):
    coarse, may = 120, ("mn",)

    def __init__(self, nulls, f, rep=None, params=False):
        self.nulls, self.rep, self.params = nulls, rep, params
        self.prj = nulls.prj
        self.hit = {}
        self.found, self.judged = [], 0
        self.none_ret = None
        super().__init__(f, noreturn=noreturn(nulls.prj, f), at_return=self.ret)
        self.companions = self.pairs()
        self.asked = {x for s in self.companions.values() for x in s}
        # locals that are only ever touched by this function
        self.shared = {x for n in walk_own(f.node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}

    def pairs(self):
        """variables that are set together: wherever a variable that starts as None gets a value, its companions get one too"""
        sets = {}
        for n in walk_own(self.func.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ([t] if isinstance(t, ast.Name) else [y for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)]):
                        none = isinstance(n.value, ast.Constant) and n.value.value is None and x is t
                        sets.setdefault(x.id, []).append((n, none))
        res = {}
        for v, ss in sets.items():
            if not any(none for n, none in ss) or all(none for n, none in ss):
                continue
            common = None
            for n, none in ss:
                if none:
                    continue
                here, p, c = set(), n._parent, n
                while p is not None:
                    for body in (getattr(p, k, None) for k in ("body", "orelse", "finalbody", "handlers")):
                        if isinstance(body, list) and c in body:
                            here |= {t.id for s in body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
                    if p is self.func.node or isinstance(p, (ast.For, ast.While)):
                        break
                    c, p = p, getattr(p, "_parent", None)
                common = here if common is None else common & here
            common = (common or set()) - {v}
            for n, none in ss:
                if none and common:
                    # and they start as nothing where it does
                    body = next((b for b in (getattr(n._parent, k, None) for k in ("body", "orelse", "finalbody")) if isinstance(b, list) and n in b), [n])
                    common &= {t.id for s in body if isinstance(s, ast.Assign) and (isinstance(s.value, (ast.Constant, ast.UnaryOp)) or s.value is None)
                               for t in s.targets if isinstance(t, ast.Name)}
            if common:
                res[v] = common
        return res

    def go(self, facts=None):
        f = self.func
        a = f.node.args if not isinstance(f.node, ast.Module) else None
        stars = {x.arg for x in (a.vararg, a.kwarg) if x is not None} if a is not None else set()
        if self.params:
            fl = [("mn", p, "P", ANY) for p in f.allparams if p != f.selfname and p not in stars]
        else:
            fl = []
            for p in f.allparams:
                if p in stars or p == f.selfname or (facts or {}).get(p + " is None") is False:
                    continue
                w = self.nulls.param(f, p)
                if w:
                    fl.append(("mn", p, w, ANY))
        try:
            body = [ast.Expr(f.node.body)] if f.is_lambda else f.node.body
            return self.run(body, fl, facts)
        except TooMany:
            return None

    def outcome(self, facts=None):
        r = self.go(facts)
        if r is None:
            return None
        fall, _ = r
        if self.none_ret:
            return self.none_ret
        if fall:
            return ANY
        return None

    def ret(self, s, sts):
        for st in sts:
            v = s.value
            if v is None:
                self.none_ret = ANY
            else:
                w = self.nullable(v, st)
                if w and w[0] != "P":
                    self.none_ret = w[1]

    def nullable(self, v, st):
        if isinstance(v, tuple):
            c, i = v
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "groups" and not c.args:
                return self.nulls.group(c.func.value, i + 1, self.func)
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "group" and len(c.args) > i and isinstance(c.args[i], ast.Constant):
                return self.nulls.group(c.func.value, c.args[i].value, self.func)
            return None
        if isinstance(v, ast.IfExp):
            val = self.value(v.test, st.facts)
            ra = rb = None
            if val is not False and not isinstance(v.body, ast.Constant) and not self.guarded(v.test, True, v.body):
                ra = self.nullable(v.body, st)
            if val is not True and not isinstance(v.orelse, ast.Constant) and not self.guarded(v.test, False, v.orelse):
                rb = self.nullable(v.orelse, st)
            return ra or rb
        if isinstance(v, ast.BoolOp):
            if isinstance(v.op, ast.Or):
                return self.nullable(v.values[-1], st)
            return None
        if isinstance(v, ast.Name):
            for x in st.flags:
                if x[0] == "mn" and x[1] == v.id:
                    return x[2], x[3]
            return None
        if isinstance(v, ast.Attribute) and v.attr != "text":
            d = dotted(v)
            if d is None or ("nn", d) in st.flags:
                return None
            w = self.nulls.field(v, self.func)
            return w if w and not (self.value(v, st.facts) or st.facts.get(d + " is None") is False) else None
        w = self.nulls.source(v, self.func)
        if w and not self.known(v, st):
            return w
        return None

    def guarded(self, test, pol, what):
        k = text(what, 400)
        for e, p in atoms(test, pol):
            if self.says(e, p) == k:
                return True
            if isinstance(e, ast.Compare) and isinstance(e.ops[0], ast.In) and p and isinstance(what, ast.Call) and isinstance(what.func, ast.Attribute) and what.args:
                if text(e.left) == text(what.args[0]) and text(e.comparators[0]) in (text(what.func.value), text(what.func.value) + ".attrib", text(what.func.value) + ".keys()"):
                    return True
        return False

    def says(self, e, p):
        """the expression text that is certainly not None, if e came out as p"""
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if isinstance(e, (ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "hasattr") and e.args and p:
                return text(e.args[0], 400)
            return text(e, 400) if p else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, o, b = e.left, e.ops[0], e.comparators[0]
            if isinstance(a, ast.NamedExpr):
                a = a.target
            nb = isinstance(b, ast.Constant)
            if nb and b.value is None:
                return text(a, 400) if isinstance(o, (ast.Is, ast.Eq)) != p else None
            if isinstance(o, (ast.Eq, ast.Is)) and p and nb or isinstance(o, (ast.NotEq, ast.IsNot)) and not p and nb:
                return text(a, 400)
            if isinstance(o, ast.In) and p and isinstance(b, (ast.Tuple, ast.List, ast.Set)):
                return text(a, 400)
            if isinstance(o, ast.NotIn) and not p and isinstance(b, (ast.Tuple, ast.List, ast.Set)):
                return text(a, 400)
        return None

    def known(self, n, st):
        k = text(n, 400)
        if ("nn", k) in st.flags:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args:
            o = text(n.func.value, 400)
            for s in ("", ".attrib", ".keys()"):
                if ("in", text(n.args[0], 400), o + s) in st.flags:
                    return True
        return False

    def assume(self, sts, t, pol, note=None):
        sts = super().assume(sts, t, pol, note)
        ats = atoms(t, pol)
        # equal to something else tells nothing; a disjunction of tests of one variable does
        if isinstance(t, ast.BoolOp) and not ats:
            ks = None
            for v in t.values:
                s = {self.says(e, p) for e, p in atoms(v, pol)} - {None}
                ks = s if ks is None else ks & s
            told = ks or set()
        else:
            told = {self.says(e, p) for e, p in ats} - {None}
        ins = {(text(e.left, 400), text(e.comparators[0], 400)) for e, p in ats if isinstance(e, ast.Compare) and len(e.ops) == 1
               and (isinstance(e.ops[0], ast.In) and p or isinstance(e.ops[0], ast.NotIn) and not p)}
        asked = set()
        if self.asked:
            for e, p in ats:
                if isinstance(e, ast.Name) or isinstance(e, ast.Compare) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
                    asked |= {("asked", x) for x in self.asked if x in told}
                elif p:
                    asked |= {("asked", x.id) for x in ast.walk(e) if isinstance(x, ast.Name) and x.id in self.asked}
        if told or ins or asked:
            res = []
            for s in sts:
                fl = frozenset(x for x in s.flags if not (x[0] == "mn" and x[1] in told))
                fl |= {("nn", k) for k in told if not k.isidentifier()} | {("in", a, b) for a, b in ins} | asked
                res.append(State(fl, s.facts, s.trail))
            sts = self.dedupe(res)
        # truth of None on this path
        return sts

    def lose(self, sts, name):
        res = []
        for s in sts:
            fl = frozenset(x for x in s.flags if not (x[0] == "nn" and name in mentions(x[1]) or x[0] == "in" and (name in mentions(x[1]) or name in mentions(x[2]))))
            res.append(State(fl, s.facts, s.trail) if fl != s.flags else s)
        return res

    def forget(self, sts, name, deep=False):
        return super().forget(sts if deep else self.lose(sts, name), name, deep)

    def store(self, t, value, stmt, sts):
        if isinstance(t, ast.Name):
            ws = [(s, self.nullable(value, s) if isinstance(value, ast.AST) or isinstance(value, tuple) and not isinstance(stmt, (ast.AugAssign, ast.For)) else None) for s in sts]
            out = super().store(t, value, stmt, sts)
            out = [State(frozenset(x for x in s.flags if not (x[0] in ("mn", "asked") and x[1] == t.id)), s.facts, s.trail) for s in out]
            w = next((w for s, w in ws if w), None)
            if t.id not in self.shared and w:
                # which states get it: those whose source was not known; states are merged, so ask again
                if all(w for s, w in ws):
                    out = [State(s.flags | {("mn", t.id, w[0], w[1])}, s.facts, s.trail) for s in out]
                else:
                    res = []
                    for s0, w0 in ws:
                        r = super().store(t, value, stmt, [s0])
                        for s in r:
                            fl = frozenset(x for x in s.flags if not (x[0] == "mn" and x[1] == t.id))
                            res.append(State(fl | ({("mn", t.id, w0[0], w0[1])} if w0 else set()), s.facts, s.trail))
                    out = res
            if isinstance(stmt, ast.For) and value is None:
                out = [State(s.flags | {("in", t.id, text(stmt.iter, 400))}, s.facts, s.trail) for s in out]
            return self.dedupe(out)
        d = dotted(t) if isinstance(t, ast.Attribute) else None
        if d:
            # the same field of another object keeps what is known of it
            keep = [frozenset(x for x in s.flags if x[0] == "nn" and x[1].endswith("." + t.attr) and x[1].split(".")[0] != d.split(".")[0]) for s in sts]
            if any(keep):
                res = []
                for s, k in zip(sts, keep):
                    res += [State(x.flags | k, x.facts, x.trail) for x in super().store(t, value, stmt, [s])]
                sts = self.dedupe(res)
            else:
                sts = super().store(t, value, stmt, sts)
        else:
            sts = super().store(t, value, stmt, sts)
        if d and isinstance(value, ast.AST) and not isinstance(stmt, (ast.AugAssign, ast.For)):
            sts = self.dedupe([State(s.flags | {("nn", d)}, s.facts, s.trail) if not self.nullable(value, s) else s for s in sts])
        return sts

    def sink(self, e, kind, n, sts):
        """e is used as an object at n"""
        self.judged += isinstance(e, (ast.Name, ast.Call))
        if isinstance(e, ast.Name):
            bad = [s for s in sts if any(x[0] == "mn" and x[1] == e.id and kind in x[3] for x in s.flags)]
            if not bad:
                return sts
            w = next(x for x in bad[0].flags if x[0] == "mn" and x[1] == e.id)
            self.report(e.id, w, kind, n, bad)
            return self.dedupe([State(frozenset(x for x in s.flags if not (x[0] == "mn" and x[1] == e.id)), s.facts, s.trail) for s in sts])
        if isinstance(e, ast.Attribute) and e.attr != "text" and dotted(e):
            w = self.nulls.field(e, self.func)
            if w and kind in w[1]:
                bad = [s for s in sts if ("nn", dotted(e)) not in s.flags]
                if bad:
                    self.report(dotted(e), ("mn", None) + w, kind, n, bad)
                    return self.dedupe([State(s.flags | {("nn", dotted(e))}, s.facts, s.trail) for s in sts])
        if isinstance(e, (ast.Call, ast.IfExp, ast.Attribute, ast.Subscript)):
            for s in sts:
                w = self.nullable(e, s)
                if w and kind in w[1]:
                    self.report(text(e, 60), ("mn", None) + tuple(w), kind, n, [s])
                    break
        return sts

    def report(self, what, w, kind, n, bad):
        if w[2] == "P":
            if any(not s.trail for s in bad) and not self.tried(n):
                self.hit.setdefault(what, (kind, n))
            return
        if w[2] == "None":
            cs = self.companions.get(what, ())
            bad = [s for s in bad if not any(("asked", c) in s.flags for c in cs)]
            if not bad:
                return
        if not self.tried(n):
            self.found.append((what, w[2], kind, n, bad[0].trail))

    def tried(self, n):
        p, c = getattr(n, "_parent", None), n
        while p is not None and p is not self.func.node:
            if isinstance(p, ast.Try) and c in p.body:
                for h in p.handlers:
                    ns = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                    if h.type is None or any((dotted(x) or "") in ("AttributeError", "TypeError", "Exception", "BaseException") for x in ns):
                        return True
            c, p = p, getattr(p, "_parent", None)
        return False

    def expr(self, n, sts):
        sts = super().expr(n, sts)
        if not sts or n is None:
            return sts
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            if n.attr not in ("__class__", "__doc__"):
                sts = self.sink(n.value, "attr", n, sts)
        elif isinstance(n, ast.Subscript):
            sts = self.sink(n.value, "sub", n, sts)
        elif isinstance(n, ast.Starred):
            sts = self.sink(n.value, "iter", n, sts)
        elif isinstance(n, ast.BinOp):
            for x in (n.left, n.right):
                if x is n.right and isinstance(n.op, ast.Mod):
                    continue
                sts = self.sink(x, "arith", n, sts)
        elif isinstance(n, ast.Compare):
            seq = [n.left] + n.comparators
            for i, o in enumerate(n.ops):
                if isinstance(o, (ast.In, ast.NotIn)):
                    sts = self.sink(seq[i + 1], "iter", n, sts)
                elif isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                    sts = self.sink(seq[i], "arith", n, sts)
                    sts = self.sink(seq[i + 1], "arith", n, sts)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                sts = self.sink(n.func, "call", n, sts)
            e = self.prj.ext_name(n.func, self.func, self.func.module) or ""
            if e.startswith("builtins.") and e[9:] in STRARG and n.args and len(n.args) == 1:
                sts = self.sink(n.args[0], "len" if e[9:] == "len" else "arg", n, sts)
            elif e in ("re.match", "re.search", "re.split", "re.findall") and len(n.args) > 1:
                sts = self.sink(n.args[1], "arg", n, sts)
            elif e in ("re.sub",) and len(n.args) > 2:
                sts = self.sink(n.args[2], "arg", n, sts)
            elif e in ("os.path.join", "os.path.exists", "os.path.isfile", "os.path.basename", "os.path.dirname") and n.args:
                for a in n.args:
                    sts = self.sink(a, "arg", n, sts)
            else:
                fs, exact = self.prj.callees(n, self.func, self.func.module)
                if fs and exact and len(fs) == 1:
                    d = self.nulls.deref(fs[0])
                    if d:
                        b = bind(n, fs[0])
                        for p, (kind, at) in d.items():
                            a = b.get(p) if b else None
                            if a is not None:
                                sts = self.sink(a, kind, n, sts)
        elif isinstance(n, ast.comprehension):
            pass
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            sts = self.sink(n.generators[0].iter, "iter", n, sts)
        return sts

    def stmt(self, s, sts, out):
        if isinstance(s, (ast.For, ast.AsyncFor)):
            sts = self.sink(s.iter, "iter", s.iter, sts)
        elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple):
            sts = self.sink(s.value, "iter", s.value, sts)
        elif isinstance(s, ast.AugAssign):
            sts = self.sink(s.value, "arith", s.value, sts) if not isinstance(s.op, ast.Mod) else sts
        for t in getattr(s, "targets", [getattr(s, "target", None)]):
            if isinstance(t, ast.Attribute):
                sts = self.sink(t.value, "attr", t, sts)
        return super().stmt(s, sts, out)


def run(prj, fold, rep):
    rep.rule("on every path to a use of a value as an object (attribute, item, call, iteration, length, arithmetic, or an argument used so at once), the value "
             "does not come from a lookup that may have found nothing, unless a test on that path says it did find something")
    nl = Nulls(prj, fold, rep)
    for f in prj.funcs:
        p = NPaths(nl, f, rep)
        rep.count("functions")
        if p.go() is None:
            rep.count("functions_with_too_many_paths")
            rep.note("%s has too many paths to follow" % f.qual)
        rep.count("uses_judged", p.judged)
        for what, why, kind, n, trail in p.found:
            rep.finding("maybe-none", f, "%s: %s" % (what, text(n, 60)), "%s may be None here (%s) and is used as a value" % (what, why), n)


L = "lib/sldr/a.py"
EXAMPLES = [
    ("chained find", {L: "def f(e):\n    return e.find('a').text\n"}, True),
    ("find later", {L: "def f(e):\n    x = e.find('a')\n    return x.text\n"}, True),
    ("find tested", {L: "def f(e):\n    x = e.find('a')\n    if x is None:\n        return ''\n    return x.tag\n"}, False),
    ("find tested in one branch", {L: "def f(e, k):\n    x = e.find('a')\n    if k:\n        if x is None:\n            return ''\n    return x.tag\n"}, True),
    ("find truth", {L: "def f(e):\n    x = e.find('a')\n    return x.tag if x is not None else ''\n"}, False),
    ("find and", {L: "def f(e):\n    x = e.find('a')\n    if x is not None and x.tag == 'b':\n        return 1\n"}, False),
    ("find or", {L: "def f(e):\n    x = e.find('a')\n    if x is None or x.tag == 'b':\n        return 1\n"}, False),
    ("find wrong way round", {L: "def f(e):\n    x = e.find('a')\n    if x is not None or x.tag == 'b':\n        return 1\n"}, True),
    ("find of a text", {L: "def f(s):\n    i = s.find('a')\n    return i + 1\n"}, False),
    ("find continue", {L: "def f(es):\n    r = []\n    for e in es:\n        x = e.find('a')\n        if x is None:\n            continue\n        r.append(x.tag)\n    return r\n"}, False),
    ("find test after", {L: "def f(es):\n    r = []\n    for e in es:\n        x = e.find('a')\n        r.append(x.tag)\n        if x is None:\n            continue\n    return r\n"}, True),
    ("required by the schema", {L: "def f(e):\n    return e.find('identity').tag + e.get('name')[1:]\n"}, False),
    ("file of the package", {L: "import os\ndef f(d, fn=None):\n    fn = fn or os.path.join(os.path.dirname(__file__), 'a.xml')\n    return d(fn).find('a').tag\n"}, False),
    ("get", {L: "def f(d, k):\n    return d.get(k).strip()\n"}, True),
    ("get default", {L: "def f(d, k):\n    return d.get(k, '').strip()\n"}, False),
    ("get or", {L: "def f(d, k):\n    return (d.get(k) or '').strip()\n"}, False),
    ("get in", {L: "def f(d, k):\n    if k in d:\n        return d.get(k).strip()\n"}, False),
    ("get of its keys", {L: "def f(d):\n    for k in d:\n        print(d.get(k).strip())\n"}, False),
    ("get try", {L: "def f(d, k):\n    try:\n        return d.get(k).strip()\n    except AttributeError:\n        return ''\n"}, False),
    ("get same call tested", {L: "def f(d, k):\n    if d.get(k):\n        return d.get(k).strip()\n"}, False),
    ("get iterated", {L: "def f(d, k):\n    for x in d.get(k):\n        print(x)\n"}, True),
    ("get len", {L: "def f(d, k):\n    v = d.get(k)\n    return len(v)\n"}, True),
    ("get added", {L: "def f(d, k):\n    v = d.get(k)\n    return 'a' + v\n"}, True),
    ("get of another package", {L: "import requests\ndef f(u):\n    return requests.get(u).text\n"}, False),
    ("equal to a constant", {L: "def f(d, k):\n    v = d.get(k)\n    if v == 'a':\n        return v.upper()\n"}, False),
    ("getattr", {L: "def f(o):\n    return getattr(o, 'a', None).b\n"}, True),
    ("next", {L: "def f(o):\n    x = next(iter(o), None)\n    return x.b\n"}, True),
    ("default of a parameter", {L: "def f(a, b=None):\n    return a + len(b)\n"}, True),
    ("default replaced", {L: "def f(a, b=None):\n    if b is None:\n        b = []\n    return a + len(b)\n"}, False),
    ("default replaced, one line", {L: "def f(a, b=None):\n    b = b or []\n    return a + len(b)\n"}, False),
    ("parameter asked about elsewhere", {L: "def f(a, b):\n    if b is not None:\n        a += b.x\n    return a + b.y\n"}, True),
    ("function that may return None", {L: "def g(x):\n    if x:\n        return []\n    return None\ndef f(x):\n    return g(x)[0]\n"}, True),
    ("function that falls off", {L: "def g(x):\n    for y in x:\n        if y.a:\n            return y\ndef f(x):\n    return g(x).b\n"}, True),
    ("its result tested", {L: "def g(x):\n    for y in x:\n        if y.a:\n            return y\ndef f(x):\n    r = g(x)\n    if r is None:\n        raise KeyError(x)\n    return r.b\n"}, False),
    ("decided by the call", {L: "def g(x, strict=True):\n    if not strict:\n        return None\n    return [x]\ndef f(x):\n    return g(x)[0]\n"}, False),
    ("parameter used as an object", {L: "def g(x):\n    return x.strip()\ndef f(d, k):\n    return g(d.get(k))\n"}, True),
    ("parameter tested first", {L: "def g(x):\n    if x is None:\n        return ''\n    return x.strip()\ndef f(d, k):\n    return g(d.get(k))\n"}, False),
    ("starts as nothing", {L: "def f(xs):\n    r = None\n    for x in xs:\n        if x.a:\n            r = x\n    return r.b\n"}, True),
    ("starts as nothing, told by its companion", {L: "def f(xs):\n    r = None\n    n = -1\n    for x in xs:\n        if x.a > n:\n            n = x.a\n            r = x\n    if n > -1:\n        return r.b\n"}, False),
    ("field", {L: "class A:\n    def __init__(self):\n        self.x = None\n    def f(self):\n        if self.x is not None:\n            return self.x.a\n    def g(self):\n        return self.x.a\n"}, True),
    ("field asked", {L: "class A:\n    def __init__(self):\n        self.x = None\n    def f(self):\n        if self.x is not None:\n            return self.x.a\n    def g(self):\n        if self.x is None:\n            self.x = A()\n        return self.x.a\n"}, False),
    ("field set up before", {L: "class A:\n    def __init__(self):\n        self.x = None\n    def s(self, y):\n        self.x = y\n    def g(self):\n        return self.x.a\n"}, False),
    ("field of a parameter of the constructor", {L: "class A:\n    def __init__(self, x=None):\n        self.x = x\n    def f(self):\n        return len(self.x) if self.x is not None else 0\n    def g(self, o):\n        return [y for y in o.x]\n"}, True),
    ("text of an element", {L: "def f(e):\n    x = e.find('a')\n    if x is not None:\n        return x.text.split()\n"}, True),
    ("text of an element or nothing", {L: "def f(e):\n    x = e.find('a')\n    if x is not None:\n        return (x.text or '').split()\n"}, False),
    ("text of an element tested", {L: "def f(e):\n    for x in e.findall('a'):\n        if x.text:\n            print(x.text.split())\n"}, False),
    ("optional group", {L: "import re\ndef f(s):\n    m = re.match(r'(a)(\\d)?', s)\n    if m:\n        g = m.group(2)\n        return int(g)\n"}, True),
    ("optional group unpacked", {L: "import re\ndef f(s):\n    m = re.match(r'(a)(\\d)?', s)\n    if m:\n        a, g = m.groups()\n        return a + g\n"}, True),
    ("optional group tested", {L: "import re\ndef f(s):\n    m = re.match(r'(a)(\\d)?', s)\n    if m:\n        a, g = m.groups()\n        return a + (g or '')\n"}, False),
    ("alternative groups", {L: "import re\ndef f(s):\n    m = re.match(r'(a)|(b)', s)\n    if m:\n        g = m.group(2)\n        return g + 'x' if not m.group(1) else ''\n"}, False),
    ("loop to the top", {L: "def f(e):\n    p = e.getparent()\n    while p is not None:\n        e = p\n        p = p.getparent()\n    return e.tag\n"}, False),
    ("same test twice", {L: "def f(e, k):\n    x = None\n    if k:\n        x = e\n    y = 1\n    if k:\n        return x.a\n"}, False),
]
