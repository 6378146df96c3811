"""Loads /repo's sources as syntax trees and resolves names, classes and calls.  Nothing of /repo is imported or run."""
import ast, os, builtins

REPO = os.environ.get("SLDR_REPO", "/repo")


class AnchorLost(Exception):
    """A public part of the code that a property is about no longer exists, so the check has nothing to judge."""


class Func:
    __slots__ = ("name", "qual", "node", "module", "cls", "outer", "params", "vararg", "kwarg", "kwonly", "defaults",
                 "nested", "locals", "globals_", "nonlocals", "is_lambda", "decorators", "summary")

    def __init__(self, name, qual, node, module, cls, outer):
        self.name, self.qual, self.node, self.module, self.cls, self.outer = name, qual, node, module, cls, outer
        self.nested = {}
        self.is_lambda = isinstance(node, ast.Lambda)
        self.summary = None
        self.decorators = []
        if isinstance(node, ast.Module):
            self.params, self.vararg, self.kwarg, self.kwonly, self.defaults = [], None, None, [], {}
        else:
            a = node.args
            self.params = [x.arg for x in a.posonlyargs + a.args]
            self.kwonly = [x.arg for x in a.kwonlyargs]
            self.vararg = a.vararg.arg if a.vararg else None
            self.kwarg = a.kwarg.arg if a.kwarg else None
            self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
            self.defaults.update({n: d for n, d in zip(self.kwonly, a.kw_defaults) if d is not None})
            if not self.is_lambda:
                self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) or "" for d in node.decorator_list]
        self.locals, self.globals_, self.nonlocals = set(), set(), set()

    @property
    def allparams(self):
        return self.params + self.kwonly + ([self.vararg] if self.vararg else []) + ([self.kwarg] if self.kwarg else [])

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(d == "property" or d.endswith(".setter") or d.endswith(".getter") or d.endswith("cached_property")
                   for d in self.decorators)

    @property
    def selfname(self):
        return self.params[0] if self.cls is not None and self.params and not self.is_static else None

    @property
    def body(self):
        if self.is_lambda:
            return [ast.copy_location(ast.Return(value=self.node.body), self.node)]
        return self.node.body

    def where(self):
        return "%s:%s" % (self.module.path, self.qual)

    def __repr__(self):
        return "<Func %s>" % self.qual


class Class:
    def __init__(self, name, qual, node, module, outer):
        self.name, self.qual, self.node, self.module, self.outer = name, qual, node, module, outer
        self.methods, self.attrs, self.bases, self.subclasses = {}, {}, [], []
        self.basenames = []
        self.selfattrs = {}      # attribute -> list of (func, node) that assign it through self/cls

    def mro(self):
        res, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in res:
                res.append(c)
                todo.extend(c.bases)
        return res

    def external_bases(self):
        return [b for c in self.mro() for b in c.basenames if b not in ("object",) and not any(x.name == b.split(".")[-1] for x in c.bases)]

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def family(self):
        """this class, its bases and everything derived from it"""
        res, todo = [], list(self.mro())
        while todo:
            c = todo.pop()
            if c not in res:
                res.append(c)
                todo.extend(c.subclasses)
        return res

    def descendants(self):
        res, todo = [], [self]
        while todo:
            c = todo.pop()
            if c not in res:
                res.append(c)
                todo.extend(c.subclasses)
        return res

    def __repr__(self):
        return "<Class %s>" % self.qual


class Plain(ast.NodeTransformer):
    """the plain way to write a comparison: `not a in b`, `not a is b` and `not n == 1` are `a not in b`, `a is not b` and `n != 1`"""
    OPP = {ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
    MIRROR = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Is: ast.Is, ast.IsNot: ast.IsNot}

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        c = n.operand
        if isinstance(n.op, ast.Not) and isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in self.OPP:
            if not isinstance(c.ops[0], (ast.Eq, ast.NotEq)) or any(isinstance(x, ast.Constant) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "ord", "int", "str")
                                                                    for x in (c.left, c.comparators[0])):
                c.ops = [self.OPP[type(c.ops[0])]()]
                return c
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Constant) and type(n.ops[0]) in self.MIRROR and not isinstance(n.comparators[0], ast.Constant):
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [self.MIRROR[type(n.ops[0])]()]
        return n


class Module:
    def __init__(self, name, path, src, is_script, is_pkg=False):
        self.name, self.path, self.src, self.is_script, self.is_pkg = name, path, src, is_script, is_pkg
        self.tree = ast.parse(src, path)
        self.imports = {}        # local name -> dotted target
        self.star = []
        self.funcs, self.classes, self.globals = {}, {}, {}    # globals: name -> list of assigning stmts
        self.main = None

    def link(self):
        Plain().visit(self.tree)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self.tree._parent = None

    @property
    def short(self):
        return self.name.split(".")[-1]


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + "." + n.attr if b else None
    return None


def text(n, limit=90):
    try:
        s = ast.unparse(n)
    except Exception:
        s = type(n).__name__
    s = " ".join(s.split())
    return s if len(s) <= limit else s[:limit - 3] + "..."


def parents(n):
    while getattr(n, "_parent", None) is not None:
        n = n._parent
        yield n


def walk_own(node, include_lambda=True):
    """all nodes below a function without entering nested functions and classes"""
    k = "_own1" if include_lambda else "_own0"
    res = node.__dict__.get(k)
    if res is None:
        res, todo = [], list(ast.iter_child_nodes(node))
        while todo:
            n = todo.pop()
            res.append(n)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) or (isinstance(n, ast.Lambda) and not include_lambda):
                continue
            todo.extend(ast.iter_child_nodes(n))
        setattr(node, k, res)
    return res


def targets(t):
    """names bound by an assignment target"""
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def bound_names(node):
    """names bound in the own scope of a function or module body"""
    res = set()
    for n in walk_own(node, include_lambda=False):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            p, comp = n, False
            for q in parents(n):
                if isinstance(q, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    if not isinstance(getattr(n, "_parent", None), ast.NamedExpr):
                        comp = True
                    break
                if q is node:
                    break
            if not comp:
                res.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            res.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                res.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            res.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            res.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            res.add(n.rest)
    return res


class Project:
    def __init__(self, repo=None, scripts=True, expand=True):
        self.repo = repo or REPO
        self.modules = {}
        self.errors = []
        lib = os.path.join(self.repo, "lib", "sldr")
        if not os.path.isdir(lib):
            raise AnchorLost("lib/sldr is missing")
        for dp, dn, fn in os.walk(lib):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, os.path.join(self.repo, "lib"))[:-3].replace(os.sep, ".")
                    pkg = rel.endswith(".__init__")
                    self._load(rel[:-9] if pkg else rel, p, False, pkg)
        sd = os.path.join(self.repo, "scripts")
        if scripts and os.path.isdir(sd):
            for f in sorted(os.listdir(sd)):
                p = os.path.join(sd, f)
                if not os.path.isfile(p):
                    continue
                with open(p, "rb") as inf:
                    first = inf.readline()
                if f.endswith(".py") or (first.startswith(b"#!") and b"python" in first):
                    self._load("scripts." + f, p, True)
        self.expanded = 0
        if expand:
            from .inline import Inliner
            try:
                self.expanded = Inliner({m.name: m.tree for m in self.modules.values()}).run()
            except Exception:
                if os.environ.get("SLDR_STRICT"):
                    raise
                for m in self.modules.values():     # judged as it is written
                    m.tree = ast.parse(m.src, m.path)
        for m in self.modules.values():
            m.link()
        self.funcs, self.classes = [], []
        for m in self.modules.values():
            self._index(m)
        for c in self.classes:
            for b in c.node.bases:
                d = dotted(b) or (dotted(b.func) + "()" if isinstance(b, ast.Call) and dotted(b.func) else "?")
                c.basenames.append(d)
                k = self.resolve_class(b, c.module, c)
                if k is not None and k is not c:
                    c.bases.append(k)
                    k.subclasses.append(c)
                if isinstance(b, ast.Call):     # with_metaclass(M, base)
                    c.basenames.extend(dotted(a) or "?" for a in b.args)
        self.by_method = {}
        for f in self.funcs:
            if f.cls is not None:
                self.by_method.setdefault(f.name, []).append(f)
        for f in self.funcs:
            self._selfattrs(f)

    def _load(self, name, path, script, pkg=False):
        with open(path, encoding="utf-8-sig") as f:
            src = f.read()
        self.modules[name] = Module(name, os.path.relpath(path, self.repo), src, script, pkg)

    def _index(self, m):
        m.main = Func("<module>", m.short + ".<module>", m.tree, m, None, None)
        m.main.locals = set()
        self.funcs.append(m.main)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.imports.setdefault(a.asname or a.name.split(".")[0], a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = m.name.split(".") if m.is_pkg else m.name.split(".")[:-1]
                    pk = pk[:len(pk) - (n.level - 1)]
                    base = ".".join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == "*":
                        m.star.append(base)
                    else:
                        m.imports.setdefault(a.asname or a.name, base + "." + a.name)
        self._scope(m.tree.body, m, None, None, m.short)
        for n in ast.walk(m.tree):      # those in defaults, decorators and class bodies
            if isinstance(n, ast.Lambda) and getattr(n, "_func", None) is None:
                o = self.scope_of(n)
                self._func(n, "<lambda>", m, None, o, o.qual if o is not None else m.short)
        for n in walk_own(m.tree):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in targets(t):
                        m.globals.setdefault(x, []).append(n)
            elif isinstance(n, (ast.For, ast.With)):
                for t in ([n.target] if isinstance(n, ast.For) else [i.optional_vars for i in n.items if i.optional_vars]):
                    for x in targets(t):
                        m.globals.setdefault(x, []).append(n)
        m.names = bound_names(m.tree)
        for f in self.funcs:
            if f.module is m and f.globals_:
                m.names |= f.globals_

    def _scope(self, body, m, cls, outer, prefix):
        for top in body:
            for n in [top] + list(walk_own(top)) if not isinstance(top, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else [top]:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self._func(n, n.name, m, cls, outer, prefix)
                elif isinstance(n, ast.ClassDef):
                    c = Class(n.name, prefix + "." + n.name, n, m, outer)
                    n._class = c
                    self.classes.append(c)
                    if outer is None and cls is None:
                        m.classes[n.name] = c
                    elif outer is not None:
                        outer.nested[n.name] = c
                    for s in n.body:
                        if isinstance(s, (ast.Assign, ast.AnnAssign)):
                            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                                for x in targets(t):
                                    c.attrs[x] = s.value
                    self._scope(n.body, m, c, outer, c.qual)
                elif isinstance(n, ast.Lambda):
                    if getattr(n, "_func", None) is None:
                        self._func(n, "<lambda>", m, None, outer, prefix)

    def _func(self, n, name, m, cls, outer, prefix):
        f = Func(name, prefix + "." + name, n, m, cls, outer)
        n._func = f
        self.funcs.append(f)
        for x in walk_own(n, include_lambda=False):
            if isinstance(x, ast.Global):
                f.globals_.update(x.names)
            elif isinstance(x, ast.Nonlocal):
                f.nonlocals.update(x.names)
        f.locals = (bound_names(n) | set(f.allparams)) - f.globals_ - f.nonlocals
        if name != "<lambda>":
            if cls is not None:
                if name in cls.methods and any(d.endswith((".setter", ".getter", ".deleter")) for d in f.decorators):
                    cls.attrs.setdefault(name, n)
                else:
                    cls.methods[name] = f
            elif outer is not None:
                outer.nested[name] = f
            else:
                m.funcs[name] = f
        body = n.body if not isinstance(n, ast.Lambda) else [ast.copy_location(ast.Expr(value=n.body), n)]
        if isinstance(n, ast.Lambda):
            body[0]._parent = n
            for x in ast.walk(n.body):
                if isinstance(x, ast.Lambda) and getattr(x, "_func", None) is None:
                    self._func(x, "<lambda>", m, None, f, f.qual)
        else:
            self._scope(body, m, None, f, f.qual)

    def _selfattrs(self, f):
        me = f.selfname
        o = f
        while me is None and o is not None:     # nested functions use the outer method's self
            o = o.outer
            me = o.selfname if o is not None else None
        if me is None:
            return
        cls = (o or f).cls
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Store):
                cls.selfattrs.setdefault(n.attr, []).append((f, n))

    # ---- lookups -----------------------------------------------------------------------------------------------
    def lib_modules(self):
        return [m for m in self.modules.values() if not m.is_script]

    def lib_funcs(self):
        return [f for f in self.funcs if not f.module.is_script]

    def cls(self, name, module=None):
        r = [c for c in self.classes if c.name == name and (module is None or c.module.short == module)]
        return r[0] if r else None

    def method(self, cname, mname, module=None):
        c = self.cls(cname, module)
        return c.find(mname) if c else None

    def need(self, cname, mname, module=None):
        f = self.method(cname, mname, module)
        if f is None:
            raise AnchorLost("%s.%s not found" % (cname, mname))
        return f

    def module(self, short):
        for m in self.modules.values():
            if m.short == short and not m.is_script:
                return m
        raise AnchorLost("module %s not found" % short)

    def global_target(self, m, name):
        """what a module level name refers to: Func, Class, Module, ('ext', dotted) or None"""
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            return self.dotted_target(m.imports[name])
        return None

    def dotted_target(self, d):
        if d in self.modules and not self.modules[d].is_script:
            return self.modules[d]
        if "." in d:
            a, b = d.rsplit(".", 1)
            if a in self.modules:
                t = self.global_target(self.modules[a], b)
                if t is not None:
                    return t
                if a + "." + b in self.modules:
                    return self.modules[a + "." + b]
        return ("ext", d)

    def scope_of(self, node):
        """the Func whose body directly contains the node"""
        for p in parents(node):
            f = getattr(p, "_func", None)
            if f is not None:
                return f
        return None

    def lookup(self, name, func, m):
        """resolve a plain name seen from func: ('local', f), Func, Class, Module, ('ext', d), ('global', m, name), ('builtin', name) or None"""
        f, first = func, True
        while f is not None and f is not m.main:
            if name in f.nested and name not in f.params:
                return f.nested[name]
            if name in f.locals:
                for n in walk_own(f.node):
                    if isinstance(n, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split(".")[0]) == name for a in n.names):
                        return self.dotted_target(m.imports[name]) if name in m.imports else ("ext", name)
                return ("local", f)
            if name in f.globals_:
                break
            f = f.outer
        t = self.global_target(m, name)
        if t is not None:
            return t
        if name in m.names:
            return ("global", m, name)
        if hasattr(builtins, name) or name in ("__file__", "__name__", "__doc__", "__path__"):
            return ("builtin", name)
        return None

    def resolve_class(self, n, m, ctx=None):
        if isinstance(n, ast.Name):
            t = self.lookup(n.id, getattr(ctx, "outer", None) if isinstance(ctx, Class) else ctx, m)
            return t if isinstance(t, Class) else None
        if isinstance(n, ast.Attribute):
            b = self.resolve_class(n.value, m, ctx) if not isinstance(n.value, ast.Name) else self.lookup(n.value.id, None, m)
            if isinstance(b, Module):
                t = self.global_target(b, n.attr)
                return t if isinstance(t, Class) else None
        return None

    def ext_name(self, n, func, m):
        """dotted name of an expression that denotes something outside the project, e.g. 'os.path.join', 'builtins.open'"""
        if isinstance(n, ast.Name):
            t = self.lookup(n.id, func, m)
            if isinstance(t, tuple) and t[0] == "ext":
                return t[1]
            if isinstance(t, tuple) and t[0] == "builtin":
                return "builtins." + t[1]
            if isinstance(t, tuple) and t[0] in ("global", "local"):
                # a name assigned once from something external, e.g. op = open
                src = None
                if t[0] == "global" and len(t[1].globals.get(t[2], [])) == 1:
                    src = t[1].globals[t[2]][0]
                elif t[0] == "local" and n.id not in t[1].allparams:
                    ss = [x for x in walk_own(t[1].node) if isinstance(x, ast.Assign) and n.id in [y for tt in x.targets for y in targets(tt)]]
                    src = ss[0] if len(ss) == 1 else None
                if isinstance(src, ast.Assign) and len(src.targets) == 1 and isinstance(src.targets[0], ast.Name) \
                        and isinstance(src.value, (ast.Name, ast.Attribute)) and dotted(src.value) != n.id:
                    return self.ext_name(src.value, func, m)
            return None
        if isinstance(n, ast.Attribute):
            b = self.ext_name(n.value, func, m)
            if b is not None:
                return b + "." + n.attr
            if isinstance(n.value, ast.Name):
                t = self.lookup(n.value.id, func, m)
                if isinstance(t, Module) and n.attr in t.imports:
                    u = self.dotted_target(t.imports[n.attr])
                    if isinstance(u, tuple):
                        return u[1]
        return None

    GENERIC = set(dir(list)) | set(dir(dict)) | set(dir(set)) | set(dir(str)) | set(dir(bytes)) | {
        "find", "findall", "findtext", "iter", "write", "read", "close", "text", "tag", "set", "group", "match", "sub", "search"}

    def callees(self, call, func, m, generic=False):
        """project functions a call may run; ([], False) when it is external or unknown.  Returns (list, exact)"""
        fn = call.func
        if isinstance(fn, ast.Name):
            t = self.lookup(fn.id, func, m)
            if isinstance(t, Func):
                return [t], True
            if isinstance(t, Class):
                i = t.find("__init__")
                return ([i] if i else []), True
            if isinstance(t, tuple) and t[0] == "local" and fn.id not in t[1].allparams:
                res = []
                for n in walk_own(t[1].node):
                    if isinstance(n, ast.Assign) and fn.id in [y for tt in n.targets for y in targets(tt)]:
                        if isinstance(n.value, ast.Lambda):
                            res.append(n.value._func)
                        elif isinstance(n.value, (ast.Name, ast.Attribute)) and dotted(n.value) != fn.id:
                            fake = ast.Call(func=n.value, args=[], keywords=[])
                            res.extend(self.callees(fake, func, m, generic)[0])
                return res, False
            return [], False
        if isinstance(fn, ast.Attribute):
            v = fn.value
            # self.m(), cls.m(), super().m(), Class.m(), module.f()
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                c = self.own_class(func)
                if c is not None:
                    k = c
                    if v.args:
                        k = self.resolve_class(v.args[0], m, func) or c
                    for b in k.mro()[1:]:
                        if fn.attr in b.methods:
                            return [b.methods[fn.attr]], True
                return [], False
            if isinstance(v, ast.Name):
                t = self.lookup(v.id, func, m)
                if isinstance(t, Module):
                    u = self.global_target(t, fn.attr)
                    if isinstance(u, Func):
                        return [u], True
                    if isinstance(u, Class):
                        i = u.find("__init__")
                        return ([i] if i else []), True
                    return [], False
                if isinstance(t, Class):
                    f = t.find(fn.attr)
                    return ([f] if f else []), True
                if isinstance(t, tuple) and t[0] in ("ext", "builtin"):
                    return [], False
                c = self.self_class(v.id, func)
                if c is not None:
                    res = []
                    f = c.find(fn.attr)
                    if f:
                        res.append(f)
                    for d in c.descendants():
                        if fn.attr in d.methods and d.methods[fn.attr] not in res:
                            res.append(d.methods[fn.attr])
                    return res, True
            if fn.attr in self.by_method and (generic or fn.attr not in self.GENERIC):
                return list(self.by_method[fn.attr]), False
        return [], False

    def own_class(self, func):
        while func is not None and func.cls is None:
            func = func.outer
        return func.cls if func is not None else None

    def self_class(self, name, func):
        f = func
        while f is not None:
            if f.selfname == name:
                return f.cls
            if name in f.locals:
                return None
            f = f.outer
        return None

    def calls(self, f):
        for n in walk_own(f.node, include_lambda=False):
            if isinstance(n, ast.Call):
                yield n

    def closure(self, roots, generic=False, lambdas=True):
        """all project functions reachable from the given ones"""
        seen, todo = {}, list(roots)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen[f] = True
            for n in walk_own(f.node, include_lambda=False):
                if isinstance(n, ast.Call):
                    todo.extend(self.callees(n, f, f.module, generic)[0])
                elif lambdas and isinstance(n, ast.Lambda):
                    todo.append(n._func)
                elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                    # functions passed as values
                    par = getattr(n, "_parent", None)
                    if isinstance(par, ast.Call) and n is not par.func or isinstance(par, (ast.keyword, ast.Assign, ast.Return)):
                        if isinstance(n, ast.Name):
                            t = self.lookup(n.id, f, f.module)
                            if isinstance(t, Func):
                                todo.append(t)
                        elif isinstance(n.value, ast.Name) and self.self_class(n.value.id, f) is not None:
                            g = self.self_class(n.value.id, f).find(n.attr)
                            if g:
                                todo.append(g)
        return list(seen)


def bind(call, f, bound=True):
    """map a callee's parameter names to argument expressions; None entries when unknown (star args).
       bound: the call goes through an instance, so the first parameter is the receiver"""
    res, params = {}, list(f.params)
    if f.cls is not None and not f.is_static and bound and params:
        params = params[1:]
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            return res
        if i < len(params):
            res[params[i]] = a
        elif f.vararg:
            res.setdefault(f.vararg, a)
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in f.params or k.arg in f.kwonly:
            res[k.arg] = k.value
        elif f.kwarg:
            res.setdefault(f.kwarg, k.value)
    return res
